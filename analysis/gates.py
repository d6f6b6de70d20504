"""Gated values: hash-consed decision diagrams over predicate variables, with arbitrary leaves; predicate construction with
simplification against the facts in force; feasibility of a conjunction of literals; equality of gated values."""
from fractions import Fraction as F
import terms as T
from terms import R, ATOMS, const, atom, padd, pscale, pkey, content, is_int_term, atoms_of, req, term_atoms
import linear

# ---------------------------------------------------------------- facts
class Facts:
    def __init__(self): self.cons = []; self.ver = 0; self.cache = {}
    def push(self, cs):
        old = (self.cons, self.ver)
        self.cons = self.cons + list(cs); Facts.N += 1; self.ver = Facts.N
        return old
    def pop(self, old): self.cons, self.ver = old
    N = 0
FACTS = Facts()
FINITE = set()           # terms assumed finite
MODE = {'nan': False, 'round': False, 'sig': False}     # nan: IEEE comparisons with unordered; otherwise exact reals

class assuming:
    """context manager: facts as constraints (poly, kind)"""
    def __init__(self, cs): self.cs = list(cs)
    def __enter__(self): self.old = FACTS.push(self.cs); return self
    def __exit__(self, *a): FACTS.pop(self.old)

def c_le(a, b): d = a - b; return (d.num, 'le')
def c_lt(a, b): d = a - b; return (d.num, 'lt')
def c_eq(a, b): d = a - b; return (d.num, 'eq')

def relevant(cons, extra):
    """facts connected to the extra constraints through shared atoms"""
    def ats(p):
        s = set()
        for m in p:
            for k, _ in m:
                s.add(k)
                for x in ATOMS[k].args: s |= set(term_atoms(x))
        return s
    cur = set()
    for p, _ in extra: cur |= ats(p)
    rest = [(c, ats(c[0])) for c in cons]; out = []
    ch = True
    while ch:
        ch = False; nr = []
        for c, s in rest:
            if s & cur or not s: out.append(c); cur |= s; ch = True
            else: nr.append((c, s))
        rest = nr
    return out

def feas(extra):
    key = (FACTS.ver, tuple(sorted((pkey(p), k) for p, k in extra)))
    r = FACTS.cache.get(key)
    if r is None:
        r = linear.feasible(relevant(FACTS.cons, extra) + list(extra)); FACTS.cache[key] = r
    return r

def implies_le(p, path=()):   # facts |= p <= 0
    return not feas(list(path) + [(pscale(p, F(-1)), 'lt')])
def implies_lt(p, path=()): return not feas(list(path) + [(pscale(p, F(-1)), 'le')])

# ---------------------------------------------------------------- predicate variables
class Pred:
    __slots__ = ('id', 'kind', 'data')
    def __repr__(self): return showpred(self)
PREDS = []; _PTAB = {}

def pred(kind, key, data):
    k = (kind, key)
    p = _PTAB.get(k)
    if p is None:
        p = Pred(); p.id = len(PREDS); p.kind = kind; p.data = data
        PREDS.append(p); _PTAB[k] = p
    return p

def showpred(p):
    if p.kind in ('le', 'rle'): return '%s <= 0' % T._sp(p.data)
    if p.kind == 'eq': return '%s = 0' % T._sp(p.data)
    if p.kind == 'flt': return '%s < %s' % p.data
    if p.kind == 'feq': return '%s == %s' % p.data
    return '%s(%s)' % (p.kind, p.data)

# ---------------------------------------------------------------- diagrams
class D:
    __slots__ = ('id', 'var', 'hi', 'lo', 'val', '_at')
    def leaf(self): return self.var is None
    def __repr__(self): return show(self)
    def atoms(self):
        if self._at is None:
            if self.var is None: self._at = frozenset(term_atoms(self.val))
            else: self._at = frozenset(pred_atoms(PREDS[self.var])) | self.hi.atoms() | self.lo.atoms()
        return self._at

def pred_atoms(p):
    s = set()
    def poly(q):
        for m in q:
            for k, _ in m:
                s.add(k)
                for x in ATOMS[k].args: s.update(term_atoms(x))
    if p.kind in ('le', 'rle', 'eq'): poly(p.data)
    elif p.kind in ('flt', 'feq'): s |= atoms_of(p.data[0]) | atoms_of(p.data[1])
    elif isinstance(p.data, R): s |= atoms_of(p.data)
    elif p.kind == 'b': s.add(p.data.id)
    return s

_LEAF = {}; _NODE = {}; _N = [0]
def _lk(v):
    if isinstance(v, R): return ('R', v.id)
    if isinstance(v, bool): return ('b', v)
    k = getattr(v, 'lkey', None)
    return ('o', k() if k else v)
def L(v):
    k = _lk(v)
    d = _LEAF.get(k)
    if d is None:
        d = D(); d.id = _N[0]; _N[0] += 1; d.var = None; d.hi = d.lo = None; d.val = v; d._at = None
        _LEAF[k] = d
    return d
TRUE = L(True); FALSE = L(False)
def node(var, hi, lo):
    if hi is lo: return hi
    k = (var, hi.id, lo.id)
    d = _NODE.get(k)
    if d is None:
        d = D(); d.id = _N[0]; _N[0] += 1; d.var = var; d.hi = hi; d.lo = lo; d.val = None; d._at = None
        _NODE[k] = d
    return d
def var(p): return node(p.id, TRUE, FALSE)
def num(c): return L(const(c))

_ITE = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    k = (c.id, a.id, b.id)
    r = _ITE.get(k)
    if r is not None: return r
    v = c.var
    if a.var is not None and a.var < v: v = a.var
    if b.var is not None and b.var < v: v = b.var
    def co(d, h):
        if d.var == v: return d.hi if h else d.lo
        return d
    r = node(v, ite(co(c, 1), co(a, 1), co(b, 1)), ite(co(c, 0), co(a, 0), co(b, 0)))
    _ITE[k] = r
    return r
def land(a, b): return ite(a, b, FALSE)
def lor(a, b): return ite(a, TRUE, b)
def lnot(a): return ite(a, FALSE, TRUE)

def toD(x): return x if isinstance(x, D) else L(x)

def map1(f, a, memo=None):
    """f on leaves (leaf value -> leaf value or D)"""
    if memo is None: memo = {}
    if a.var is None: return toD(f(a.val))
    r = memo.get(a.id)
    if r is None:
        r = ite(var(PREDS[a.var]), map1(f, a.hi, memo), map1(f, a.lo, memo)); memo[a.id] = r
    return r

def map2(f, a, b, memo=None):
    if memo is None: memo = {}
    if a.var is None and b.var is None: return toD(f(a.val, b.val))
    k = (a.id, b.id)
    r = memo.get(k)
    if r is not None: return r
    if b.var is None or (a.var is not None and a.var <= b.var): v = a.var
    else: v = b.var
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    r = ite(var(PREDS[v]), map2(f, ah, bh, memo), map2(f, al, bl, memo))
    memo[k] = r
    return r

def mapn(f, ds):
    """f on a list of leaves"""
    if not ds: return toD(f())
    if len(ds) == 1: return map1(f, ds[0])
    if len(ds) == 2: return map2(f, ds[0], ds[1])
    packed = map1(lambda x: Tup((x,)), ds[0])
    for d in ds[1:]: packed = map2(lambda t, x: Tup(t.t + (x,)), packed, d)
    return map1(lambda t: f(*t.t), packed)

class Tup:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def lkey(self): return ('T',) + tuple(_lk(x) for x in self.t)
    def atoms(self):
        s = set()
        for x in self.t: s |= set(term_atoms(x))
        return s

def mapp(f, a, path=()):
    """path-aware map: f(leaf, path) with path a tuple of (pred id, bool); prunes infeasible branches"""
    if a.var is None: return toD(f(a.val, path))
    hs, ls = path + ((a.var, True),), path + ((a.var, False),)
    hf, lf = path_feasible(hs), path_feasible(ls)
    if hf and not lf: return mapp(f, a.hi, hs)
    if lf and not hf: return mapp(f, a.lo, ls)
    return ite(var(PREDS[a.var]), mapp(f, a.hi, hs), mapp(f, a.lo, ls))

def leaves(a, path=(), feasible_only=True):
    """all (path, leaf) pairs, infeasible paths pruned"""
    if a.var is None: yield path, a.val; return
    for h, c in ((True, a.hi), (False, a.lo)):
        p = path + ((a.var, h),)
        if not feasible_only or path_feasible(p): yield from leaves(c, p, feasible_only)

def size(a, seen=None):
    if seen is None: seen = set()
    if a.id in seen: return 0
    seen.add(a.id)
    return 1 if a.var is None else 1 + size(a.hi, seen) + size(a.lo, seen)

def simplify(a, path=()):
    """prune infeasible branches"""
    if a.var is None: return a
    hs, ls = path + ((a.var, True),), path + ((a.var, False),)
    hf, lf = path_feasible(hs), path_feasible(ls)
    if hf and not lf: return simplify(a.hi, hs)
    if lf and not hf: return simplify(a.lo, ls)
    return node(a.var, simplify(a.hi, hs), simplify(a.lo, ls))

def show(a, lim=600):
    if a.var is None: s = str(a.val)
    else: s = 'if %s {%s} else {%s}' % (PREDS[a.var], show(a.hi), show(a.lo))
    return s if len(s) < lim else s[:lim] + '...'
def showpath(path):
    return ' and '.join(('%s' if v else 'not(%s)') % PREDS[k] for k, v in path) or 'always'

# ---------------------------------------------------------------- literals -> constraints
def lits(path):
    """(constraints, disequalities)"""
    cs, ne = [], []
    for k, v in path:
        p = PREDS[k]
        if p.kind == 'le':
            if v: cs.append((p.data, 'le'))
            else: cs.append((padd(pscale(p.data, F(-1)), {(): F(1)}), 'le'))
        elif p.kind == 'rle':
            if v: cs.append((p.data, 'le'))
            else: cs.append((pscale(p.data, F(-1)), 'lt'))
        elif p.kind == 'eq':
            if v: cs.append((p.data, 'eq'))
            else:
                m = offmin(p.data)
                if m: cs.append(m)
                else: ne.append(p.data)
    return cs, ne

def offmin(p):
    """an integer variable that is not its least value is at least one more"""
    ms = [m for m in p if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1: return None
    a = ATOMS[ms[0][0][0]]; c = p[ms[0]]
    if a.sort != 'i' or a.lo is None or p.get((), 0) != -c * a.lo: return None
    return {ms[0]: F(-1), (): F(a.lo + 1)}, 'le'

def _feas_ne(cs, ne):
    if not feas(cs): return False
    if not ne: return True
    if len(ne) > 2:
        # one side impossible: the other holds
        for i, p in enumerate(ne):
            lo, hi = feas(cs + [(p, 'lt')]), feas(cs + [(pscale(p, F(-1)), 'lt')])
            if not (lo or hi): return False
            if not (lo and hi): return _feas_ne(cs + [(p if lo else pscale(p, F(-1)), 'lt')], ne[:i] + ne[i + 1:])
    if len(ne) > 4: ne = ne[:4]
    p = ne[0]
    return _feas_ne(cs + [(p, 'lt')], ne[1:]) or _feas_ne(cs + [(pscale(p, F(-1)), 'lt')], ne[1:])

_PF = {}
NANTHEORY = [None]
def path_feasible(path):
    key = (FACTS.ver, MODE['nan'], MODE['round'], frozenset(path))
    r = _PF.get(key)
    if r is None:
        cs, ne = lits(path)
        r = _feas_ne(cs, ne) if (cs or ne) else True
        if r and NANTHEORY[0] is not None and MODE['nan']: r = NANTHEORY[0](path)
        _PF[key] = r
    return r

# ---------------------------------------------------------------- predicate constructors
def _lin_canon_int(p):
    """integer constraint p <= 0 in canonical form"""
    r = linear.norm(p, 'le')
    return r

def le0_int(p):
    r = linear.norm(p, 'le')
    if r is True: return TRUE
    if r is False: return FALSE
    q, _ = r
    if implies_le(q): return TRUE
    if not feas([(q, 'le')]): return FALSE
    lead = max((m for m in q if m))
    if q[lead] < 0:
        n = padd(pscale(q, F(-1)), {(): F(1)})    # not(n <= 0)
        return lnot(var(pred('le', pkey(n), n)))
    return var(pred('le', pkey(q), q))

def eq0(p):
    r = linear.norm(p, 'eq')
    if r is True: return TRUE
    if r is False: return FALSE
    q, _ = r
    lead = max((m for m in q if m))
    if q[lead] < 0: q = pscale(q, F(-1))
    if not feas([(q, 'eq')]): return FALSE
    if implies_le(q) and implies_le(pscale(q, F(-1))): return TRUE
    return var(pred('eq', pkey(q), q))

def _clear(d):
    """polynomial with the same sign as the rational term d, under the facts; None if not found"""
    p = d.num; sign = 1
    for f, e in d.den.values():
        if e % 2 == 0: continue
        if implies_lt(pscale(f, F(-1))): pass
        elif implies_lt(f): sign = -sign
        else: return None
    # Laurent monomials
    neg = {}
    for m in p:
        for k, e in m:
            if e < 0: neg[k] = max(neg.get(k, 0), -e)
    for k, e in neg.items():
        a = ATOMS[k]
        ee = e if isinstance(e, int) else None
        if a.pos: mul = e
        else:
            if ee is None: return None
            me = {((k, 1),): F(1)}
            if ee % 2 == 0: mul = ee
            elif implies_lt(pscale(me, F(-1))): mul = ee
            elif implies_lt(me): mul = ee; sign = -sign
            else: return None
        p = T.pmul(p, {((k, mul),): F(1)})
    return p if sign > 0 else pscale(p, F(-1))

def le0_real(d):
    """d <= 0 over the reals (or integers when the term is integer valued)"""
    p = _clear(d)
    if p is None: p = d.num if not d.den else {((T.app('ratio', (d,)).id, 1),): F(1)}
    if not p: return TRUE
    if all((not m) or linear.mono_int(m) for m in p): return le0_int(p)
    r = linear.norm(p, 'le')
    if r is True: return TRUE
    if r is False: return FALSE
    q, _ = r
    if implies_le(q): return TRUE
    if not feas([(q, 'le')]): return FALSE
    return var(pred('rle', pkey(q), q))

def _class_const(a): return a.is_const()

def lt(a, b, isf):
    """a < b"""
    if isf and MODE['nan']: return flt(a, b)
    if isf or not (is_int_term(a) and is_int_term(b)): return lnot(le0_real(b - a))
    d = a - b
    return le0_int(padd(d.num, {(): F(1)}))
def le(a, b, isf):
    if isf and MODE['nan']: return lor(flt(a, b), feq(a, b))
    if isf or not (is_int_term(a) and is_int_term(b)): return le0_real(a - b)
    return le0_int((a - b).num)
def eq(a, b, isf):
    if isf and MODE['nan']: return feq(a, b)
    if isf and a is b and not a.is_const(): return lnot(fclass('nan', a))
    d = a - b
    p = d.num
    neg = {}
    for m in p:
        for k, e in m:
            if e < 0: neg[k] = max(neg.get(k, 0), -e)
    for k, e in neg.items(): p = T.pmul(p, {((k, e),): F(1)})
    if not p: return TRUE
    return eq0(p)

def intlike(r):
    """finite whatever happens: built from integer variables"""
    return is_int_term(r) and all(ATOMS[k].fn is None and ATOMS[k].sort == 'i' for k in atoms_of(r))
def flt(a, b):
    if intlike(a) and intlike(b): return le0_int(padd((a - b).num, {(): F(1)}))
    if a.is_const() and b.is_const(): return L(bool(a.const() < b.const()))
    if a is b: return FALSE
    if T.NAN.id in atoms_of(a) or T.NAN.id in atoms_of(b): return FALSE
    return var(pred('flt', (a.id, b.id), (a, b)))
def feq(a, b):
    if intlike(a) and intlike(b): return eq0((a - b).num)
    if a.is_const() and b.is_const(): return L(bool(a.const() == b.const()))
    if T.NAN.id in atoms_of(a) or T.NAN.id in atoms_of(b): return FALSE
    if a.id > b.id: a, b = b, a
    return var(pred('feq', (a.id, b.id), (a, b)))
def fclass(kind, a, assumed=False):
    """kind in finite, nan, inf, signneg; outside NaN mode an explicit class test is an uninterpreted predicate
    (assumed: the caller needs the finite case only)"""
    if intlike(a) and kind in ('finite', 'nan', 'inf'): return L(kind == 'finite')
    if a.is_const(): return L({'finite': True, 'nan': False, 'inf': False, 'signneg': bool(a.const() < 0), 'normal': a.const() != 0}[kind])
    if not MODE['nan']:
        if kind == 'signneg': return lnot(le0_real(-a))
        if assumed or a.id in FINITE:
            if kind == 'finite': return TRUE
            if kind in ('nan', 'inf'): return FALSE
    if kind == 'nan': return lnot(feq(a, a)) if False else var(pred('nan', a.id, a))
    if kind == 'inf': return land(lnot(var(pred('finite', a.id, a))), lnot(var(pred('nan', a.id, a))))
    return var(pred(kind, a.id, a))

def boolatom(a): return var(pred('b', a.id, a))

# ---------------------------------------------------------------- equality of leaves under a path
def ieee_equal(x, y, path):
    """on the path neither is NaN and neither is below the other"""
    for c in (flt(x, y), flt(y, x), fclass('nan', x), fclass('nan', y)):
        if any(v is True for _, v in leaves(c, path)): return False
    return True

def leaf_equal(x, y, path, tol=0):
    if x is y: return True
    if isinstance(x, R) and isinstance(y, R):
        if req(x, y): return True
        if tol and T.req_tol(x, y, tol): return True
        if MODE['nan'] and ieee_equal(x, y, path): return True
        cs, ne = lits(path)
        d = x - y
        p = d.num
        if not p: return True
        # linear consequence
        if not feas(cs + [(p, 'lt')]) and not feas(cs + [(pscale(p, F(-1)), 'lt')]): return True
        # substitute implied equalities (atoms solved linearly), including equal selector indices
        q = reduce_eqs(d, cs, True)
        if isinstance(q, D): return all(isinstance(v, R) and leaf_equal(v, T.ZERO, pp, tol) for pp, v in leaves(q, path))
        if q is not d:
            if q.is_zero(): return True
            if not feas(cs + [(q.num, 'lt')]) and not feas(cs + [(pscale(q.num, F(-1)), 'lt')]): return True
        return False
    if isinstance(x, Tup) and isinstance(y, Tup): return len(x.t) == len(y.t) and all(leaf_equal(a, b, path, tol) for a, b in zip(x.t, y.t))
    f = getattr(x, 'equal', None)
    if f is not None: return f(y, path, tol)
    return _lk(x) == _lk(y)

def reduce_eqs(d, cs, gated=False):
    """rewrite d modulo the equalities implied by the facts and cs"""
    # candidate equalities: constraints whose reverse is implied
    allc = FACTS.cons + list(cs)
    eqs = []
    for p, k in allc:
        if k == 'eq': eqs.append(p)
        elif k == 'le' and not feas(list(cs) + [(p, 'lt')]): eqs.append(p)
    # equal selector / application arguments
    mp = {}
    for p in eqs:
        r = T._mk(p, {})
        r = subst_r(r, mp) if mp else r
        if not isinstance(r, R) or r.den: continue
        if len(r.num) == 1:                       # c * a^e = 0
            m = next(iter(r.num))
            if len(m) == 1 and m[0][1] > 0 and ATOMS[m[0][0]].fn is None:
                k = m[0][0]; mp = {kk: subst_r(v, {k: T.ZERO}) for kk, v in mp.items()}; mp[k] = T.ZERO
                continue
        for m, c in sorted(r.num.items(), key=lambda t: str(t[0])):
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].fn is None and not any(m[0][0] in [k for k, _ in m2] for m2 in r.num if m2 != m):
                k = m[0][0]
                sol = T._mk({m2: -c2 / c for m2, c2 in r.num.items() if m2 != m}, {})
                if k in atoms_of(sol): continue
                mp = {kk: subst_r(v, {k: sol}) for kk, v in mp.items()}
                mp[k] = sol
                break
    out = d
    if mp:
        o = subst_r(d, mp)
        if isinstance(o, R): out = o
        elif gated: return o
    # selectors with provably equal indices
    sels = [ATOMS[k] for k in atoms_of(out) if ATOMS[k].fn == 'sel']
    reps = {}
    for i, a in enumerate(sels):
        for b in sels[:i]:
            if b.id in reps or a.args[0] is not b.args[0]: continue
            q = (a.args[1] - b.args[1]).num
            if not q or (not feas(list(cs) + [(q, 'lt')]) and not feas(list(cs) + [(pscale(q, F(-1)), 'lt')])):
                reps[a.id] = atom(b); break
    if reps:
        o = subst_r(out, reps, plain=True)
        if isinstance(o, R): out = o
    return out

def equal(a, b, tol=0, path=()):
    """None if the gated values agree on every feasible path, else (path, left leaf, right leaf)"""
    a, b = toD(a), toD(b)
    if a is b: return None
    z = map2(lambda x, y: Tup((x, y)), a, b)
    for p, t in leaves(z, path):
        if not leaf_equal(t.t[0], t.t[1], p, tol): return (p, t.t[0], t.t[1])
    return None

def never(c):
    """None if the boolean diagram is infeasible, else a feasible path on which it is true"""
    for p, v in leaves(c):
        if v is True: return p
    return None

# ---------------------------------------------------------------- substitution
REBUILD = {}   # fn -> rebuild(args as D list) -> D

def subst_r(r, mp, memo=None, plain=False):
    """substitute atoms by terms in a rational term; result is an R when nothing becomes gated, else a D"""
    ids = atoms_of(r)
    if not any(k in ids for k in mp): return r
    if memo is None: memo = {}
    sub = {}
    gated = False
    for f in [r.num] + [f for f, _ in r.den.values()]:
        for m in f:
            for k, e in m:
                if k in sub: continue
                if k in mp: sub[k] = mp[k]
                elif plain: continue
                elif ATOMS[k].args and any(x in mp for y in ATOMS[k].args for x in term_atoms(y)):
                    sub[k] = subst_atom(ATOMS[k], mp, memo)
                else: continue
                if isinstance(sub[k], D):
                    if sub[k].var is None: sub[k] = sub[k].val
                    else: gated = True
    if not gated: return _replace(r, sub)
    keys = list(sub)
    return mapn(lambda *vs: _replace(r, dict(zip(keys, vs))), [toD(sub[k]) for k in keys])

def _replace(r, sub):
    def poly(p):
        s = T.ZERO
        for m, c in p.items():
            t = const(c)
            rest = []
            for k, e in m:
                if k in sub:
                    v = sub[k]
                    if isinstance(e, int): t = t * T.rpow(v, e)
                    else: t = t * T.powf(v, const(e))
                else: rest.append((k, e))
            if rest: t = t * T._mk({tuple(rest): F(1)}, {})
            s = s + t
        return s
    out = poly(r.num)
    for f, e in r.den.values(): out = out / T.rpow(poly(f), e)
    return out

def subst_atom(a, mp, memo):
    key = ('a', a.id)
    if key in memo: return memo[key]
    args = [subst_any(x, mp, memo) for x in a.args]
    rb = REBUILD.get(a.fn)
    if rb is not None: res = rb(*args)
    else: res = mapn(lambda *vs: atom(T.app(a.fn, vs, a.sort, a.pos, a.lo, a.hi)), [toD(x) for x in args])
    if isinstance(res, D) and res.var is None: res = res.val
    memo[key] = res
    return res

def subst_any(x, mp, memo):
    if isinstance(x, R): return subst_r(x, mp, memo)
    if isinstance(x, D): return subst_d(x, mp, memo)
    f = getattr(x, 'subst', None)
    if f is not None:
        if not (set(term_atoms(x)) & set(mp)): return x
        key = ('o', id(x))
        if key in memo: return memo[key][1]
        r = f(mp, memo); memo[key] = (x, r)
        return r
    if isinstance(x, tuple): return tuple(subst_any(y, mp, memo) for y in x)
    return x

def subst_pred(p, mp, memo):
    if not (pred_atoms(p) & set(mp)): return var(p)
    if p.kind in ('le', 'rle', 'eq'):
        v = toD(subst_r(T._mk(p.data, {}), mp, memo))
        if p.kind == 'eq': return map1(lambda x: eq(x, T.ZERO, False), v)
        return map1(lambda x: le0_real(x), v)
    if p.kind in ('flt', 'feq'):
        f = flt if p.kind == 'flt' else feq
        return map2(f, toD(subst_r(p.data[0], mp, memo)), toD(subst_r(p.data[1], mp, memo)))
    if p.kind == 'b':
        v = mp[p.data.id]
        return v if isinstance(v, D) else L(v)
    return map1(lambda x: fclass(p.kind, x), toD(subst_r(p.data, mp, memo)))

def subst_d(d, mp, memo=None):
    if memo is None: memo = {}
    if not (d.atoms() & set(mp)): return d
    key = ('d', d.id)
    if key in memo: return memo[key]
    if d.var is None: r = toD(subst_any(d.val, mp, memo))
    else: r = ite(subst_pred(PREDS[d.var], mp, memo), subst_d(d.hi, mp, memo), subst_d(d.lo, mp, memo))
    memo[key] = r
    return r

# ---------------------------------------------------------------- IEEE classes
import itertools as _it
def _nan_theory(path):
    """feasibility of comparison and class literals over {NaN, +inf, -inf, finite}: classes are enumerated, finite ones go to the linear domain"""
    ls = [(PREDS[k], v) for k, v in path]
    terms = {}
    derived = {}
    def addt(r):
        if r.is_const() or r.id in terms: return
        terms[r.id] = r
        if len(r.num) == 1 and not r.den:
            (m, co), = r.num.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a.fn in ('ceil', 'floor', 'round', 'abs', 'f.fract') and isinstance(a.args[0], R) and not a.args[0].is_const():
                    derived[r.id] = a.fn, a.args[0].id; addt(a.args[0])
    for p, v in ls:
        if p.kind in ('flt', 'feq'): addt(p.data[0]); addt(p.data[1])
        elif p.kind in ('nan', 'finite', 'signneg', 'normal'): addt(p.data)
    if not terms: return True
    base, ne = lits(path)
    ids = [i for i in terms if i not in derived]
    if len(ids) > 6: return True
    order = []
    while len(order) < len(derived): order += [i for i in derived if i not in order and (derived[i][1] not in derived or derived[i][1] in order)]
    inf = atom(T.INF); ninf = -inf; nan = atom(T.NAN)
    def classes(i):
        r = terms[i]
        if r is inf: return ['p']
        if r is ninf: return ['n']
        if r is nan: return ['x']
        if intlike(r): return ['f']
        if len(r.num) == 1 and not r.den and r.id in FINITE: return ['f']
        return ['f', 'p', 'n', 'x']
    for cl in _it.product(*[classes(i) for i in ids]):
        c = dict(zip(ids, cl))
        for i in order:
            # rounding to integers and magnitudes keep the class
            fn, x = derived[i]; c[i] = c[x] if fn in ('ceil', 'floor', 'round') else {'n': 'p'}.get(c[x], c[x]) if fn == 'abs' else 'f' if c[x] == 'f' else 'x'
        cs = list(base); nes = list(ne); ok = True
        def k(r): return 'f' if r.is_const() else c[r.id]
        for p, v in ls:
            if p.kind in ('flt', 'feq'):
                a, b = p.data; ka, kb = k(a), k(b)
                if 'x' in (ka, kb): truth = False
                elif ka == 'f' and kb == 'f':
                    d = (a - b).num if not (a - b).den else None
                    if d is None: continue
                    if p.kind == 'flt': cs.append((d, 'lt') if v else (pscale(d, F(-1)), 'le'))
                    elif v: cs.append((d, 'eq'))
                    else: nes.append(d)
                    continue
                else:
                    rank = {'n': -1, 'f': 0, 'p': 1}
                    truth = rank[ka] < rank[kb] if p.kind == 'flt' else rank[ka] == rank[kb]
                if truth != v: ok = False; break
            elif p.kind == 'nan':
                if (k(p.data) == 'x') != v: ok = False; break
            elif p.kind == 'finite':
                if (k(p.data) == 'f') != v: ok = False; break
            elif p.kind == 'signneg':
                q = k(p.data)
                if q == 'x': continue
                if q in 'pn':
                    if (q == 'n') != v: ok = False; break
                elif not p.data.den: cs.append((p.data.num, 'le') if v else (pscale(p.data.num, F(-1)), 'le'))
            elif p.kind == 'normal':
                if v and k(p.data) != 'f': ok = False; break
        if ok and _feas_ne(cs, nes): return True
    return False
NANTHEORY[0] = _nan_theory

class rounded:
    """IEEE comparisons, and float arithmetic as uninterpreted (any rounding) inside the block"""
    def __enter__(self): self.old = dict(MODE); MODE['nan'] = MODE['round'] = True
    def __exit__(self, *a): MODE.update(self.old)

SIG = set()       # atoms standing for signal values
class bitwise:
    """float arithmetic on signal values is kept as it is written (no algebra: rounding, NaN and infinities may differ) inside the block"""
    def __enter__(self): self.old = MODE['sig']; MODE['sig'] = True
    def __exit__(self, *a): MODE['sig'] = self.old
def signal(*ds):
    for d in ds: SIG.update(d.atoms() if isinstance(d, D) else atoms_of(d))
def onsignal(*xs): return any(isinstance(x, R) and not SIG.isdisjoint(atoms_of(x)) for x in xs)

class ieee:
    """comparisons with IEEE semantics (NaN, infinities) inside the block"""
    def __enter__(self): self.old = MODE['nan']; MODE['nan'] = True
    def __exit__(self, *a): MODE['nan'] = self.old

"""Interprocedural gated value-numbering over MIR.

One forward pass per function body in reverse post-order, with gated (phi -> gamma) joins at merge points, memory as trees of
cells, calls inlined at the call site, loops summarised (induction variables, element-wise maps, last values, lock-step scans
against a reference step).  Every panic site met on the way is recorded as an obligation with the condition that reaches it."""
import json
from fractions import Fraction as F
import terms as T
from terms import R, ATOMS, const, atom, fresh, is_int_term, atoms_of, term_atoms
import gates as G
from gates import D, L, TRUE, FALSE, ite, land, lor, lnot, map1, map2, mapn, mapp, toD, num, assuming, c_le, c_lt, c_eq

class Unsupported(Exception): pass

USIZE_MAX = 2**64 - 1
ISIZE_MAX = 2**63 - 1

# ---------------------------------------------------------------- arrays
class Arr:
    __slots__ = ('kind', 'a', 'i', 'v', 'k', 'lo', 'hi', 'name', 'sort', 'id', '_at')
    N = [0]
    def lkey(self): return ('arr', self.id)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def atoms(self):
        if self._at is None:
            s = set()
            if self.kind == 'base': pass
            elif self.kind == 'const': s |= self.v.atoms()
            elif self.kind == 'store': s |= self.a.atoms() | atoms_of(self.i) | self.v.atoms()
            else: s |= self.a.atoms() | atoms_of(self.lo) | atoms_of(self.hi) | (self.v.atoms() - {self.k.id})
            if self.kind == 'base': s.add(self.k.id)
            self._at = frozenset(s)
        return self._at
    def subst(self, mp, memo):
        if self.kind == 'base':
            return mp.get(self.k.id, self)
        sub = G.subst_any
        if self.kind == 'const': return map_arr_const(G.subst_d(self.v, mp, memo), self.sort)
        a = toD(sub(self.a, mp, memo))
        if self.kind == 'store':
            i = toD(sub(self.i, mp, memo)); v = G.subst_d(self.v, mp, memo)
            return map2(lambda x, y: mk_store(x, y, v), a, i)
        lo, hi = toD(sub(self.lo, mp, memo)), toD(sub(self.hi, mp, memo))
        nk = fresh(self.k.name, 'i', lo=None)
        v = G.subst_d(self.v, {**{k: x for k, x in mp.items() if k != self.k.id}, self.k.id: atom(nk)})
        return mapn(lambda x, l, h: mk_lam(x, nk, l, h, v), [a, lo, hi])
    def __repr__(self):
        if self.kind == 'base': return self.name
        if self.kind == 'const': return '[%s; ..]' % self.v
        if self.kind == 'store': return '%s[%s := %s]' % (self.a, self.i, self.v)
        return '%s[%s in %s..%s := %s]' % (self.a, self.k, self.lo, self.hi, self.v)

_ATAB = {}
def _arr(kind, key, **kw):
    k = (kind,) + key
    a = _ATAB.get(k)
    if a is None:
        a = Arr(); a.kind = kind; a.a = a.i = a.v = a.k = a.lo = a.hi = None; a.name = None; a.sort = 'r'; a._at = None
        for x, y in kw.items(): setattr(a, x, y)
        a.id = Arr.N[0]; Arr.N[0] += 1
        _ATAB[k] = a
    return a
def mk_base(name, sort='r'):
    at = fresh(name, 'arr')
    return _arr('base', (at.id,), name=name, sort=sort, k=at)
def mk_constarr(v, sort='r'): return _arr('const', (v.id, sort), v=v, sort=sort)
def map_arr_const(v, sort): return L(mk_constarr(v, sort))
def mk_store(a, i, v):
    if a.kind == 'store' and a.i is i: a = a.a
    return _arr('store', (a.id, i.id, v.id), a=a, i=i, v=v, sort=a.sort)
def mk_lam(a, k, lo, hi, v): return _arr('lam', (a.id, k.id, lo.id, hi.id, v.id), a=a, k=k, lo=lo, hi=hi, v=v, sort=a.sort)

def sel(a, i):
    """element i of array term a, gated"""
    if a.kind == 'base': return L(atom(T.app('sel', (a, i), sort=a.sort, name='%s[%s]' % (a.name, i))))
    if a.kind == 'const': return a.v
    if a.kind == 'store':
        c = G.eq(i, a.i, False)
        if c is TRUE: return a.v
        if c is FALSE: return sel(a.a, i)
        return ite(c, a.v, sel(a.a, i))
    inr = land(G.le(a.lo, i, False), G.lt(i, a.hi, False))
    if inr is FALSE: return sel(a.a, i)
    v = G.subst_d(a.v, {a.k.id: i})
    if inr is TRUE: return v
    return ite(inr, v, sel(a.a, i))

def opaque_f(name, *xs): return atom(T.app(name, xs))
_KEPT = {}
def _kept(fn, x, y, comm, signs):
    """application of a rounded operation, found again under the exact laws of IEEE arithmetic: commutativity and signs"""
    lst = _KEPT.setdefault((fn, atoms_of(x) | atoms_of(y)), [])
    for (u, v), at in lst:
        for a, b, c in signs:
            for p, q in (((u, v), (v, u)) if comm else ((u, v),)):
                if T._argeq(x * const(a), p) and T._argeq(y * const(b), q): return atom(at) * const(c)
    at = fresh('%s(%s, %s)' % (fn, x, y)); at.fn = fn; at.args = (x, y)
    lst.append(((x, y), at))
    return atom(at)
def _pow2(c): n, d = abs(c.numerator), c.denominator; return c != 0 and n & (n - 1) == 0 and d & (d - 1) == 0
def fl(op, x, y):
    """float operation as written when it works on signal values, exact otherwise"""
    if not G.onsignal(x, y): return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]()
    if op == 'Sub': op, y = 'Add', -y
    if op == 'Div' and y.is_const() and _pow2(y.const()): op, y = 'Mul', const(1 / y.const())
    if op == 'Add':
        if x.is_zero(): return y
        if y.is_zero(): return x
        if x is y: op, x = 'Mul', const(2)
        else: return _kept('fl.Add', x, y, True, ((1, 1, 1), (-1, -1, -1)))
    if op == 'Mul':
        for a, b in ((x, y), (y, x)):
            if a.is_const() and abs(a.const()) == 1: return b * a
    return _kept('fl.' + op, x, y, op == 'Mul', ((1, 1, 1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1)))
for _o in ('Add', 'Mul', 'Div'): G.REBUILD['fl.' + _o] = lambda a, b, o=_o: map2(lambda x, y: fl(o, x, y), toD(a), toD(b))
def kept(d):
    """does the value contain arithmetic on signal values?"""
    return any((ATOMS[k].fn or '').startswith('fl.') for k in d.atoms())
def _rb1(f): return lambda x: map1(f, toD(x))
def fabs(x): return ite(G.lt(x, T.ZERO, True), L(-x), L(x))
def fsqrt(x):
    r = T.sqrt(x)
    ids = [k for k in atoms_of(r) if ATOMS[k].fn == 'abs']
    if not ids: return L(r)
    mp = {k: fabs(ATOMS[k].args[0]) for k in ids}
    keys = list(mp)
    return mapn(lambda *vs: G._replace(r, dict(zip(keys, vs))), [mp[k] for k in keys])
def _intfrac(x):
    """split into an integer-valued part and the rest"""
    if x.den: return None
    ip = {m: c for m, c in x.num.items() if (not m or all(ATOMS[k].sort == 'i' and isinstance(e, int) and e > 0 for k, e in m)) and c.denominator == 1}
    if not ip or len(ip) == len(x.num): return None
    return T._mk(ip, {}), T._mk({m: c for m, c in x.num.items() if m not in ip}, {})
def _near(x, up):
    """ceil (up) or floor of i + r with i an integer and r known to lie within one of zero"""
    s = _intfrac(x)
    if s is None or G.MODE['nan']: return None
    i, r = s
    below = G.implies_lt((-1 - r).num) and G.implies_le(r.num)        # -1 < r <= 0
    above = G.implies_lt((r - 1).num) and G.implies_le((-r).num)      # 0 <= r < 1
    if below: return L(i) if up else ite(G.eq(r, T.ZERO, False), L(i), L(i - 1))
    if above: return L(i) if not up else ite(G.eq(r, T.ZERO, False), L(i), L(i + 1))
    return None
def fceil(x):
    if is_int_term(x): return L(x)
    z = _near(x, True)
    if z is not None: return z
    if x.is_const():
        c = x.const(); return L(const(-((-c.numerator) // c.denominator)))
    return L(atom(T.app('ceil', (x,), sort='i')))
def ffloor(x):
    if is_int_term(x): return L(x)
    z = _near(x, False)
    if z is not None: return z
    if x.is_const():
        c = x.const(); return L(const(c.numerator // c.denominator))
    return L(atom(T.app('floor', (x,), sort='i')))
def ftrunc(x):
    if is_int_term(x): return L(x)
    return ite(G.lt(x, T.ZERO, True), fceil(x), ffloor(x))
G.REBUILD.update({'sel': lambda a, i: map2(sel, toD(a), toD(i)), 'abs': _rb1(fabs), 'sqrt': _rb1(fsqrt), 'sin': _rb1(T.sin), 'cos': _rb1(T.cos), 'exp': _rb1(T.exp),
                  'ln': _rb1(T.ln), 'ceil': _rb1(fceil), 'floor': _rb1(ffloor)})

# ---------------------------------------------------------------- values
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class Agg:
    __slots__ = ('f', 'tag')
    def __init__(self, f, tag=None): self.f = tuple(f); self.tag = tag
    def __repr__(self): return '%s(%s)' % (self.tag or '', ', '.join(map(repr, self.f)))
class EnumV:
    __slots__ = ('d', 'v')
    def __init__(self, d, v): self.d = d; self.v = v
    def __repr__(self): return 'enum<%r>%r' % (self.d, self.v)
class VecV:
    __slots__ = ('len', 'arr')
    def __init__(self, ln, arr): self.len = ln; self.arr = arr
    def __repr__(self): return 'vec<%r>%r' % (self.len, self.arr)

class Loc:
    __slots__ = ('root', 'path', '_k')
    def __init__(self, root, path=()):
        self.root = root; self.path = path
        self._k = ('loc', root, tuple(x if isinstance(x, int) else tuple(y.id if isinstance(y, R) else y for y in x) for x in path))
    def lkey(self): return self._k
    def __repr__(self): return '&%s%s' % (self.root, list(self.path))
    def atoms(self):
        s = set()
        for x in self.path:
            if not isinstance(x, int):
                for y in x:
                    if isinstance(y, R): s |= atoms_of(y)
        return s
    def subst(self, mp, memo):
        # flatten R components
        rs = []
        for x in self.path:
            if not isinstance(x, int):
                for y in x:
                    if isinstance(y, R): rs.append(toD(G.subst_r(y, mp, memo)))
        def build(*vs):
            vs = list(vs); out = []
            for x in self.path:
                if isinstance(x, int): out.append(x)
                else: out.append(tuple(vs.pop(0) if isinstance(y, R) else y for y in x))
            return Loc(self.root, tuple(out))
        return mapn(build, rs)
    def comps(self): return [y for x in self.path if not isinstance(x, int) for y in x if isinstance(y, R)]
    def shape(self): return (self.root, tuple(x if isinstance(x, int) else tuple('R' if isinstance(y, R) else y for y in x) for x in self.path))
    def moved(self, ds, k):
        """advance the i-th index or length by k*ds[i]"""
        it = iter(ds)
        return Loc(self.root, tuple(x if isinstance(x, int) else tuple(y + k * next(it) if isinstance(y, R) else y for y in x) for x in self.path))
    def equal(self, o, path, tol):
        return isinstance(o, Loc) and self.shape() == o.shape() and all(G.leaf_equal(a, b, path, tol) for a, b in zip(self.comps(), o.comps()))
    def ext(self, el):
        p = self.path
        if not isinstance(el, int) and el[0] in ('e', 'sl') and p and not isinstance(p[-1], int) and p[-1][0] == 'sl':
            off = p[-1][1]
            if el[0] == 'e': return Loc(self.root, p[:-1] + (('e', off + el[1]),))
            return Loc(self.root, p[:-1] + (('sl', off + el[1], el[2]),))
        return Loc(self.root, p + (el,))

class FnV:
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn
    def lkey(self): return ('fn', self.fn.get('inst') or self.fn.get('def'))

class Cand:
    """one of the functions an indirect call may reach"""
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn
    def lkey(self): return ('cand', self.fn.get('inst') or self.fn.get('def'))

class FrameFail(Exception): pass
class PhaseSplit(Exception):
    def __init__(self, key): self.key = key

def vite(c, a, b):
    if a is b or c is TRUE: return a
    if c is FALSE: return b
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, D) and isinstance(b, D): return ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f): return Agg([vite(c, x, y) for x, y in zip(a.f, b.f)], a.tag)
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        v = {}
        for k in set(a.v) | set(b.v):
            if k in a.v and k in b.v: v[k] = tuple(vite(c, x, y) for x, y in zip(a.v[k], b.v[k]))
            else: v[k] = a.v.get(k, b.v.get(k))
        return EnumV(ite(c, a.d, b.d), v)
    if isinstance(a, VecV) and isinstance(b, VecV): return VecV(ite(c, a.len, b.len), ite(c, a.arr, b.arr))
    raise Unsupported('join of different shapes %r / %r' % (type(a), type(b)))

def vmapd(d, f):
    """build a value from a diagram whose leaves are mapped to values"""
    if d.var is None: return f(d.val)
    return vite(G.var(G.PREDS[d.var]), vmapd(d.hi, f), vmapd(d.lo, f))

def flat(v, path=()):
    """scalar cells of a value: [(path, D)]"""
    if isinstance(v, D): yield path, v
    elif isinstance(v, Agg):
        for i, x in enumerate(v.f): yield from flat(x, path + (i,))
    elif isinstance(v, EnumV):
        yield path + ('d',), v.d
        for k in sorted(v.v):
            for i, x in enumerate(v.v[k]): yield from flat(x, path + (('v', k), i))
    elif isinstance(v, VecV):
        yield path + ('len',), v.len
        yield path + ('arr',), v.arr

def vmap(v, f, path=()):
    """rebuild a value, f(path, D) -> D"""
    if isinstance(v, D): return f(path, v)
    if isinstance(v, Agg): return Agg([vmap(x, f, path + (i,)) for i, x in enumerate(v.f)], v.tag)
    if isinstance(v, EnumV): return EnumV(f(path + ('d',), v.d), {k: tuple(vmap(x, f, path + (('v', k), i)) for i, x in enumerate(xs)) for k, xs in v.v.items()})
    if isinstance(v, VecV): return VecV(f(path + ('len',), v.len), f(path + ('arr',), v.arr))
    return v

def vsubst(v, mp, memo=None):
    if memo is None: memo = {}
    return vmap(v, lambda p, d: G.subst_d(d, mp, memo))

def some(v): return EnumV(num(1), {0: (), 1: (v,)})
def none(): return EnumV(num(0), {0: ()})
def opt(c, v):
    if c is TRUE: return some(v)
    if c is FALSE: return EnumV(num(0), {0: (), 1: (v,)})
    return EnumV(ite(c, num(1), num(0)), {0: (), 1: (v,)})
UNIT = Agg(())

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, j):
        self.j = j; self.types = j['types']; self.bodies = j['bodies']; self.entries = j['entries']
        self._loops = {}
    def ty(self, t): return self.types.get(t) or {'k': 'other'}

class Frame:
    __slots__ = ('uid', 'key', 'body', 'callsite')

_MUST = {}
def must_lits(d):
    """literals common to all paths of a boolean diagram that end in true"""
    r = _MUST.get(d.id)
    if r is None:
        if d.var is None or G.size(d) > 200: r = frozenset()
        else:
            def f(x, memo):
                if x.id in memo: return memo[x.id]
                if x.var is None: v = None if x.val is False else frozenset()      # None: no path
                else:
                    h, l = f(x.hi, memo), f(x.lo, memo)
                    h = None if h is None else h | {(x.var, True)}
                    l = None if l is None else l | {(x.var, False)}
                    v = h if l is None else l if h is None else h & l
                memo[x.id] = v
                return v
            r = f(d, {}) or frozenset()
        _MUST[d.id] = r
    return sorted(r)

def imod(a, b, unsigned=False, here=()):
    """remainder; unsigned: the operands are known not to be negative"""
    def f(x, y, path):
        if x.is_const() and y.is_const() and y.const() != 0:
            return const(x.const() % y.const()) if x.const() >= 0 else const(-((-x.const()) % y.const()))
        for p in ((path, path + tuple(l for l in here if l not in path)) if here else (path,)):
            cs, _ = G.lits(p)
            if not is_int_term(x) or not (unsigned or (not G.feas(cs + [(x.num, 'lt')]) and not G.feas(cs + [(y.num, 'le')]))): continue
            if not G.feas(cs + [((y - x).num, 'le')]): return x                          # x < y
            if not G.feas(cs + [((2 * y - x).num, 'le')]):
                if not G.feas(cs + [((x - y).num, 'lt')]): return x - y
                return ite(G.lt(x, y, False), L(x), L(x - y))
            if not G.feas(cs + [((3 * y - x).num, 'le')]):
                if not G.feas(cs + [((x - 2 * y).num, 'lt')]): return x - 2 * y
                if not G.feas(cs + [((x - y).num, 'lt')]): return ite(G.lt(x, 2 * y, False), L(x - y), L(x - 2 * y))
                return ite(G.lt(x, y, False), L(x), ite(G.lt(x, 2 * y, False), L(x - y), L(x - 2 * y)))
            if p is path and here: continue
            return atom(T.app('mod', (x, y), sort='i', lo=0))
        return atom(T.app('rem', (x, y), sort='i'))
    z = map2(lambda x, y: G.Tup((x, y)), a, b)
    return mapp(lambda t, p: f(t.t[0], t.t[1], p), z)
G.REBUILD['mod'] = lambda a, b: imod(toD(a), toD(b), True)

class Engine:
    def __init__(self, prog):
        self.p = prog
        self.uid = 0
        self.obls = []           # obligations
        self.record = False
        self.conds = []          # stack of reach conditions (D)
        self.stack = []          # stack of frames
        self.notes = []          # unsupported constructs met
        self.visited = set()     # body keys analysed
        self.sites = 0           # call sites analysed
        self.scan = None         # lock-step reference for block processing
        self.loops_done = []
        self.caps = None         # values on entry: a vector holds at least the capacity its length had then
        self.growth = []         # (function, operation, site, stays within that capacity)
        self.vt = {}             # location of a trait object -> its methods
        self.depth = 0
        self.cur = None          # location of the statement being analysed
        import models
        self.models = models

    # ------------------------------------------------------------ helpers
    EVENTS = None                # list collecting single-precision events
    def event(self, kind, ty, vals):
        """a single-precision operation: kind in arith, math, int (integer -> f32), narrow (f64 -> f32), widen (f32 -> f64)"""
        if Engine.EVENTS is None or self.p.ty(ty).get('bits') != 32: return
        fn, site = self.where(self.cur)
        Engine.EVENTS.append((kind, fn, site, tuple(v for v in vals if isinstance(v, D))))
    def convert(self, v, src, dst):
        s, d = self.p.ty(src), self.p.ty(dst)
        if s['k'] == 'int' and d['k'] == 'float': self.event('int', dst, [v])
        elif s['k'] == 'float' and d['k'] == 'float' and src != dst:
            if d['bits'] == 32: self.event('narrow', dst, [v])
            else: self.event('widen', src, [v])
    def note(self, s):
        if s not in self.notes: self.notes.append(s)

    def havoc(self, ty, name, st):
        t = self.p.ty(ty); k = t['k']
        if k == 'float': return L(atom(fresh(name)))
        if k == 'int':
            b = t['bits']
            lo, hi = (0, 2**b - 1) if not t['signed'] else (-2**(b - 1), 2**(b - 1) - 1)
            return L(atom(fresh(name, 'i', lo=lo, hi=hi)))
        if k == 'bool': return G.boolatom(fresh(name, 'b'))
        if k == 'tuple': return Agg([self.havoc(x, '%s.%d' % (name, i), st) for i, x in enumerate(t['tys'])])
        if k == 'array':
            if t['len'] is None or t['len'] > 64: raise Unsupported('array type')
            return Agg([self.havoc(t['ty'], '%s[%d]' % (name, i), st) for i in range(t['len'])])
        if k in ('ref', 'ptr'):
            it = self.p.ty(t['ty'])
            self.uid += 1; root = ('heap', self.uid)
            if it['k'] == 'slice':
                ln = atom(fresh(name + '.len', 'i', lo=0, hi=ISIZE_MAX))
                st[root] = VecV(L(ln), L(mk_base(name, self.esort(it['ty']))))
                return L(Loc(root, (('sl', T.ZERO, ln),)))
            st[root] = self.havoc(t['ty'], name, st)
            return L(Loc(root))
        if k == 'adt':
            if t['path'] == 'alloc::vec::Vec' and self.esort(t['args'][0]):
                ln = atom(fresh(name + '.len', 'i', lo=0, hi=ISIZE_MAX))
                return VecV(L(ln), L(mk_base(name, self.esort(t['args'][0]))))
            if t['adt'] == 'struct':
                v = t['variants'][0]
                return Agg([self.havoc(f['ty'], '%s.%s' % (name, f['name']), st) for f in v['fields']])
            if t['adt'] == 'enum':
                a = fresh(name + '.discr', 'i', lo=0, hi=max(int(v['disc']) for v in t['variants']) if t['variants'] else 0)
                return EnumV(L(atom(a)), {i: tuple(self.havoc(f['ty'], '%s.%s' % (name, f['name']), st) for f in v['fields']) for i, v in enumerate(t['variants'])})
        if k == 'closure': return Agg([self.havoc(u, name + '.up', st) for u in t['upvars']])
        if k == 'fndef': return L(FnV(t['fn']))
        if k in ('never', 'str'): return UNIT
        return L(atom(fresh(name + ':opaque')))

    def esort(self, ty):
        k = self.p.ty(ty)['k']
        return {'float': 'r', 'int': 'i'}.get(k)

    # ------------------------------------------------------------ memory
    def get(self, v, el):
        """navigate one path element"""
        if v is UNDEF: return UNDEF
        if isinstance(el, int):
            if isinstance(v, Agg): return v.f[el]
            if isinstance(v, D) and el == 0: return v
            raise Unsupported('field of %r' % (v,))
        if el[0] == 'v':
            if isinstance(v, EnumV): return Agg(v.v.get(el[1], ()))if el[1] in v.v else UNDEF
            if isinstance(v, Agg): return v
            raise Unsupported('variant of %r' % (v,))
        if el[0] == 'e':
            if isinstance(v, VecV): return map1(lambda a: sel(a, el[1]), v.arr)
            if isinstance(v, Agg):
                i = el[1]
                if i.is_const():
                    n = int(i.const())
                    if 0 <= n < len(v.f): return v.f[n]
                    return v.f[0] if v.f else UNDEF
                out = v.f[-1]
                for n in range(len(v.f) - 2, -1, -1): out = vite(G.eq(i, const(n), False), v.f[n], out)
                return out
            raise Unsupported('element of %r' % (v,))
        if el[0] == 'sl': return v
        raise Unsupported('path %r' % (el,))

    def put(self, v, path, new):
        if not path: return new
        el = path[0]
        if isinstance(el, int):
            if v is UNDEF: v = Agg([UNDEF] * (el + 1))
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= el: f.append(UNDEF)
                f[el] = self.put(f[el], path[1:], new)
                return Agg(f, v.tag)
            raise Unsupported('store to field of %r' % (v,))
        if el[0] == 'v':
            if v is UNDEF: v = EnumV(num(0), {})
            if isinstance(v, EnumV):
                cur = Agg(v.v.get(el[1], ()))
                r = self.put(cur, path[1:], new)
                d = dict(v.v); d[el[1]] = tuple(r.f)
                return EnumV(v.d, d)
            return self.put(v, path[1:], new)
        if el[0] == 'e':
            if isinstance(v, VecV):
                if len(path) > 1: raise Unsupported('nested element store')
                if not isinstance(new, D): raise Unsupported('element store of aggregate')
                # the stored value is gated: push it inside the array term
                return VecV(v.len, map1(lambda a: mk_store(a, el[1], new), v.arr))
            if isinstance(v, Agg):
                i = el[1]
                f = list(v.f)
                for n in range(len(f)):
                    c = G.eq(i, const(n), False)
                    if c is FALSE: continue
                    f[n] = vite(c, self.put(f[n], path[1:], new), f[n])
                return Agg(f, v.tag)
            raise Unsupported('element store to %r' % (v,))
        if el[0] == 'sl':
            if len(path) == 1: raise Unsupported('whole slice store')
            return self.put(v, path[1:], new)
        raise Unsupported('store path %r' % (el,))

    def load_loc(self, st, loc):
        v = st.get(loc.root, UNDEF)
        for el in loc.path: v = self.get(v, el)
        return v
    def load(self, st, ref): return vmapd(ref, lambda l: self.load_loc(st, self.asloc(l)))
    def asloc(self, l):
        if not isinstance(l, Loc): raise Unsupported('dereference of %r' % (l,))
        return l
    def store(self, st, ref, val):
        if ref.var is None:
            l = self.asloc(ref.val)
            st[l.root] = self.put(st.get(l.root, UNDEF), l.path, val)
            return
        def rec(d, c):
            if d.var is None:
                l = self.asloc(d.val)
                old = self.load_loc(st, l)
                st[l.root] = self.put(st.get(l.root, UNDEF), l.path, vite(c, val, old))
                return
            v = G.var(G.PREDS[d.var])
            rec(d.hi, land(c, v)); rec(d.lo, land(c, lnot(v)))
        rec(ref, TRUE)

    # ------------------------------------------------------------ places
    def place(self, fr, st, p):
        """D of Loc"""
        cur = L(Loc((fr.uid, p[0])))
        for e in p[1:]:
            if e == '*':
                v = self.load(st, cur)
                if isinstance(v, Agg) and v.tag == 'box': v = v.f[0]
                if not isinstance(v, D): raise Unsupported('deref of %r' % (v,))
                cur = v
            elif 'f' in e: n = e['f']; cur = map1(lambda l: self.asloc(l).ext(n), cur)
            elif 'v' in e: n = e['v']; cur = map1(lambda l: self.asloc(l).ext(('v', n)), cur)
            elif 'i' in e:
                iv = st.get((fr.uid, e['i']))
                cur = map2(lambda l, i: self.asloc(l).ext(('e', i)), cur, iv)
            elif 'ci' in e:
                if e['end']:
                    def f(l):
                        n = self.slice_len(st, l)
                        return map1(lambda x: l.ext(('e', x - const(e['ci']))), n)
                    cur = map1(f, cur)
                else: cur = map1(lambda l: l.ext(('e', const(e['ci']))), cur)
            elif 'sub' in e:
                a, b, fe = e['sub']
                def f(l):
                    n = self.slice_len(st, l)
                    return map1(lambda x: l.ext(('sl', const(a), (x - const(b) - const(a)) if fe else const(b - a))), n)
                cur = map1(f, cur)
            else: raise Unsupported('projection %r' % (e,))
        return cur

    def slice_len(self, st, l):
        if l.path and not isinstance(l.path[-1], int) and l.path[-1][0] == 'sl': return L(l.path[-1][2])
        v = self.load_loc(st, l)
        if isinstance(v, VecV): return v.len
        if isinstance(v, Agg): return num(len(v.f))
        raise Unsupported('length of %r' % (v,))

    def place_ty(self, fr, p):
        t = fr.body['locals'][p[0]]
        for e in p[1:]:
            if e == '*':
                x = self.p.ty(t)
                t = x.get('ty') or (x['args'][0] if x.get('path') == 'alloc::boxed::Box' else None)
            elif 'f' in e: t = e['ty']
            elif 'i' in e or 'ci' in e: t = self.p.ty(t).get('ty')
        return t
    def op_ty(self, fr, o): return o['ty'] if o['k'] == 'const' else self.place_ty(fr, o['p'])

    # ------------------------------------------------------------ operands, rvalues
    def constval(self, v, ty, st):
        if 'float' in v: return L(T.literal(v['float'], v['bits']))
        if 'bool' in v: return TRUE if v['bool'] else FALSE
        if 'int' in v: return num(int(v['int']))
        if 'zst' in v:
            t = self.p.ty(ty)
            if t['k'] == 'adt' and t['adt'] == 'enum':
                return EnumV(num(int(t['variants'][0]['disc'])), {0: ()})
            if t['k'] == 'adt' and t['adt'] == 'struct': return Agg([self.constval({'zst': 1}, f['ty'], st) for f in t['variants'][0]['fields']])
            if t['k'] == 'tuple': return Agg([self.constval({'zst': 1}, x, st) for x in t['tys']])
            if t['k'] == 'fndef': return L(FnV(t['fn']))
            return UNIT
        if 'fn' in v: return L(FnV(v['fn']))
        if 'ref' in v or 'slice' in v:
            self.uid += 1; root = ('const', self.uid)
            t = self.p.ty(ty)
            if 'ref' in v:
                st[root] = self.constval(v['ref'], t.get('ty'), st); return L(Loc(root))
            et = self.p.ty(t['ty']).get('ty')
            st[root] = Agg([self.constval(x, et, st) for x in v['slice']])
            return L(Loc(root, (('sl', T.ZERO, const(len(v['slice']))),)))
        t = self.p.ty(ty)
        if 'array' in v: return Agg([self.constval(x, t.get('ty'), st) for x in v['array']])
        if 'tuple' in v: return Agg([self.constval(x, y, st) for x, y in zip(v['tuple'], t['tys'])])
        if 'struct' in v: return Agg([self.constval(x, f['ty'], st) for x, f in zip(v['struct'], t['variants'][0]['fields'])])
        if 'variant' in v:
            n = v['variant']; var = t['variants'][n]
            return EnumV(num(int(var['disc'])), {n: tuple(self.constval(x, f['ty'], st) for x, f in zip(v['fields'], var['fields']))})
        if 'str' in v: return L(Loc(('str', 0)))
        return self.havoc(ty, 'const', st)

    def operand(self, fr, st, o):
        if o['k'] == 'const': return self.constval(o['v'], o['ty'], st)
        p = o['p']
        if len(p) == 1: return st.get((fr.uid, p[0]), UNDEF)
        return self.load(st, self.place(fr, st, p))

    def isfloat(self, ty): return self.p.ty(ty)['k'] == 'float'

    def irange(self, ty):
        t = self.p.ty(ty)
        if t['k'] != 'int': return None
        b = t['bits']
        return (0, 2**b - 1) if not t['signed'] else (-2**(b - 1), 2**(b - 1) - 1)

    def outside(self, v, ty):
        lo, hi = self.irange(ty)
        return map1(lambda x: lor(G.lt(x, const(lo), False), G.lt(const(hi), x, False)), v)

    def wrap(self, v, ty):
        """two's complement wrap of an integer diagram (one period each way, else opaque)"""
        lo, hi = self.irange(ty); n = hi - lo + 1
        def f(x, path):
            if x.is_const():
                c = x.const(); return const((c - lo) % n + lo)
            return ite(G.lt(x, const(lo), False), L(x + const(n)), ite(G.lt(const(hi), x, False), L(x - const(n)), L(x)))
        return mapp(f, v)

    def cmp(self, op, a, b, isf):
        f = {'Lt': lambda x, y: G.lt(x, y, isf), 'Le': lambda x, y: G.le(x, y, isf), 'Gt': lambda x, y: G.lt(y, x, isf), 'Ge': lambda x, y: G.le(y, x, isf),
             'Eq': lambda x, y: G.eq(x, y, isf), 'Ne': lambda x, y: lnot(G.eq(x, y, isf))}[op]
        return map2(f, a, b)

    def mod(self, a, b, ty='usize'):
        t = self.p.ty(ty)
        return imod(a, b, t['k'] == 'int' and not t['signed'], self.must())

    def must(self):
        """literals that hold whenever control is here"""
        out = []
        for c in self.conds:
            for l in must_lits(c):
                if l not in out: out.append(l)
        return tuple(out)

    def idiv(self, a, b):
        def f(x, y):
            if y.is_const() and x.is_const() and y.const() != 0:
                q = abs(x.const()) // abs(y.const()); return const(q if (x.const() < 0) == (y.const() < 0) else -q)
            if y.is_const() and y.const() == 1: return x
            if y.is_const() and y.const() > 0:
                d = x / y
                if is_int_term(d): return d
                # nonnegative numerator: floor
                if G.implies_le((-x).num) and is_int_term(x): return atom(T.app('floor', (d,), sort='i'))
            return atom(T.app('idiv', (x, y), sort='i'))
        return map2(f, a, b)

    def binop(self, op, a, b, ty):
        tk = self.p.ty(ty)['k']
        isf = tk == 'float'
        if tk in ('ptr', 'ref'):
            if op in ('Eq', 'Ne'):
                r = map2(lambda x, y: L(G._lk(x) == G._lk(y)), a, b); return r if op == 'Eq' else lnot(r)
            raise Unsupported('pointer op ' + op)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if tk == 'bool':
                x = ite(a, b, lnot(b))
                if op == 'Eq': return x
                if op == 'Ne': return lnot(x)
                if op == 'Lt': return land(lnot(a), b)
                if op == 'Gt': return land(a, lnot(b))
                if op == 'Le': return lor(lnot(a), b)
                return lor(a, lnot(b))
            return self.cmp(op, a, b, isf)
        if tk == 'bool':
            if op == 'BitAnd': return land(a, b)
            if op == 'BitOr': return lor(a, b)
            if op == 'BitXor': return ite(a, lnot(b), b)
        if isf and op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'): self.event('arith', ty, [a, b])
        if isf and G.MODE['round'] and op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            return map2(lambda x, y: opaque_f('f' + op, x, y), a, b)
        if isf and G.MODE['sig'] and op != 'Rem': return map2(lambda x, y: fl(op, x, y), a, b)
        if isf:
            if op == 'Add': return map2(lambda x, y: x + y, a, b)
            if op == 'Sub': return map2(lambda x, y: x - y, a, b)
            if op == 'Mul': return map2(lambda x, y: x * y, a, b)
            if op == 'Div': return map2(lambda x, y: x / y, a, b)
            if op == 'Rem': return self.fmod(a, b)
            raise Unsupported('float op ' + op)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base == 'Add': r = map2(lambda x, y: x + y, a, b)
        elif base == 'Sub': r = map2(lambda x, y: x - y, a, b)
        elif base == 'Mul': r = map2(lambda x, y: x * y, a, b)
        elif base == 'Div': return self.idiv(a, b)
        elif base == 'Rem': return self.mod(a, b, ty)
        elif base == 'Cmp':
            return EnumV(map2(lambda x, y: ite(G.lt(x, y, False), num(255), ite(G.eq(x, y, False), num(0), num(1))), a, b), {0: (), 1: (), 2: ()})
        elif base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            def f(x, y):
                if x.is_const() and y.is_const():
                    i, j = int(x.const()), int(y.const())
                    return const({'BitAnd': i & j, 'BitOr': i | j, 'BitXor': i ^ j, 'Shl': i << j if j < 128 else 0, 'Shr': i >> j if j < 128 else 0}[base])
                if base == 'BitAnd' and y.is_const() and y.const() == 0: return T.ZERO
                if base == 'Shl' and y.is_const(): return x * const(2 ** int(y.const()))
                if base == 'Shr' and y.is_const(): return self.idiv(L(x), num(2 ** int(y.const())))
                return atom(T.app(base, (x, y), sort='i', lo=0))
            return map2(f, a, b)
        else: raise Unsupported('int op ' + op)
        if op.endswith('WithOverflow'):
            return Agg((r, self.outside(r, ty)))
        if op.endswith('Unchecked'): return r
        return r if self.checked else r

    checked = True

    def fmod(self, a, b):
        def f(x, y):
            q = x / y
            return map1(lambda t: x - y * t, ftrunc(q))
        return map2(f, a, b)

    def i2f(self, v):
        """integer to float: exact, or some finite value of the same sign in rounded mode"""
        if not G.MODE['round']: return v
        def f(x):
            if x.is_const() and abs(x.const()) < 2**24: return x
            r = atom(T.app('i2f', (x,), lo=0 if G.implies_le((-x).num) else None))
            G.FINITE.add(r.id)
            return r
        return map1(f, v)

    def cast(self, kind, v, src, dst):
        s, d = self.p.ty(src), self.p.ty(dst)
        if kind.startswith(('IntToFloat', 'FloatToFloat')): self.convert(v, src, dst)
        if kind.startswith('IntToInt'):
            if s['k'] == 'bool': return ite(v, num(1), num(0))
            if s['k'] == 'adt': v = v.d if isinstance(v, EnumV) else v
            if d['k'] != 'int': return v
            return self.wrap(v, dst)
        if kind.startswith('IntToFloat'): return self.i2f(v)
        if kind.startswith('FloatToFloat'): return v
        if kind.startswith('FloatToInt'):
            lo, hi = self.irange(dst)
            def f(x):
                if x.is_const():
                    c = x.const(); t = abs(c).__floor__(); t = t if c >= 0 else -t
                    return const(max(lo, min(hi, t)))
                t = ftrunc(x)
                r = map1(lambda y: ite(G.lt(y, const(lo), False), num(lo), ite(G.lt(const(hi), y, False), num(hi), L(y))), t)
                return ite(G.fclass('nan', x, True), num(0), r)
            return map1(f, v)
        if 'Unsize' in kind:
            it = self.p.ty(s.get('ty')) if s['k'] in ('ref', 'ptr') else {}
            if it.get('k') == 'array': return map1(lambda l: l.ext(('sl', T.ZERO, const(it['len']))), v)
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') or kind.startswith('Transmute') or kind.startswith('Subtype'):
            if kind.startswith('Transmute') and src != dst and not (s['k'] in ('ref', 'ptr') and d['k'] in ('ref', 'ptr')):
                if s['k'] == 'adt' and len(s['variants']) == 1 and len(s['variants'][0]['fields']) == 1 and isinstance(v, Agg): return v.f[0]
                if s['k'] == 'int' and dst.startswith('core::option::Option<core::num::nonzero::NonZero<') and isinstance(v, D):
                    return opt(map1(lambda x: lnot(G.eq(x, T.ZERO, False)), v), Agg((v,)))
                if s['k'] == 'int' and dst.startswith('core::num::nonzero::NonZero<'): return Agg((v,))
                raise Unsupported('transmute %s -> %s' % (src, dst))
            return v
        raise Unsupported('cast ' + kind)

    def rvalue(self, fr, st, r, dty):
        k = r['k']
        if k == 'use': return self.operand(fr, st, r['o'])
        if k == 'ref': return self.place(fr, st, r['p'])
        if k == 'bin':
            ty = self.op_ty(fr, r['a'])
            a, b = self.operand(fr, st, r['a']), self.operand(fr, st, r['b'])
            if isinstance(a, EnumV): a = a.d
            if isinstance(b, EnumV): b = b.d
            return self.binop(r['op'], a, b, ty)
        if k == 'un':
            a = self.operand(fr, st, r['a'])
            if r['op'] == 'Neg': return map1(lambda x: -x, a)
            if r['op'] == 'Not':
                if self.p.ty(self.op_ty(fr, r['a']))['k'] == 'bool': return lnot(a)
                lo, hi = self.irange(self.op_ty(fr, r['a']))
                return map1(lambda x: const(hi) - x if lo == 0 else -x - 1, a)
            if r['op'] == 'PtrMetadata': return map1(lambda l: self.slice_len(st, l), a)
            raise Unsupported('unary ' + r['op'])
        if k == 'cast':
            v = self.cast(r['c'], self.operand(fr, st, r['o']), self.op_ty(fr, r['o']), r['ty'])
            if 'vt' in r and isinstance(v, D):
                for _, l in G.leaves(v, (), False):
                    if isinstance(l, Loc): self.vt[l.lkey()] = r['vt']
            return v
        if k == 'discr':
            v = self.load(st, self.place(fr, st, r['p']))
            if isinstance(v, EnumV): return v.d
            return num(0)
        if k == 'agg':
            fs = [self.operand(fr, st, f) for f in r['fs']]
            if r['a'] == 'adt':
                t = self.p.ty(r['ty'])
                if t['adt'] == 'enum':
                    return EnumV(num(int(t['variants'][r['v']]['disc'])), {r['v']: tuple(fs)})
                return Agg(fs)
            if r['a'] == 'rawptr':
                if isinstance(fs[1], Agg): return fs[0]
                return map2(lambda l, n: l.ext(('sl', T.ZERO, n)), fs[0], fs[1])
            return Agg(fs)
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            if r['n'] is None or r['n'] > 64: raise Unsupported('array repeat')
            return Agg([v] * r['n'])
        raise Unsupported('rvalue %s %s' % (k, r.get('d')))

    # ------------------------------------------------------------ obligations
    def abscond(self):
        c = TRUE
        for x in self.conds: c = land(c, x)
        return c
    def where(self, loc):
        fn = None; site = loc
        for f in reversed(self.stack):
            if f.body['local']:
                fn = f.body['path']
                break
            site = f.callsite
        return fn, site
    def oblige(self, kind, bad, loc):
        """bad: boolean diagram, true where the program panics (given the current reach condition)"""
        if not self.record: return
        c = land(self.abscond(), bad)
        fn, site = self.where(loc)
        w = None
        if c is not FALSE: w = G.never(c)
        self.obls.append({'kind': kind, 'fn': fn, 'loc': site, 'ok': w is None, 'path': None if w is None else G.showpath(w)})

    def grow(self, fn, ref, new, loc):
        """a vector operation that allocates when the new length exceeds the capacity"""
        if self.caps is None: return
        ok = True
        for path, l in G.leaves(ref):
            v = self.caps.get(l.root) if isinstance(l, Loc) else None
            try:
                for el in (l.path if v is not None else ()): v = self.get(v, el)
            except Unsupported: v = None
            ok = ok and isinstance(v, VecV) and G.never(land(self.abscond(), map2(lambda n, c: G.lt(c, n, False), new, v.len))) is None
        self.growth.append((self.stack[-1].key if self.stack else None, fn.get('inst'), loc, ok))

    # ------------------------------------------------------------ function execution
    def call_key(self, key, args, st, callsite=None):
        """run a body; returns (value, cond) and updates st in place; cond = condition under which it returns"""
        body = self.p.bodies.get(key)
        if body is None: raise Unsupported('no body for ' + key)
        if self.depth > 60: raise Unsupported('call depth')
        self.visited.add(key)
        fr = Frame(); self.uid += 1; fr.uid = self.uid; fr.key = key; fr.body = body; fr.callsite = callsite
        n = body['argc']
        if body.get('closure') and len(args) == 2 and isinstance(args[1], Agg): args = [args[0]] + list(args[1].f)      # rust-call ABI
        if len(args) != n:
            # rust-call: last argument is a tuple to spread
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == n: args = list(args[:-1]) + list(args[-1].f)
            elif 'spread' in body: pass
            else: raise Unsupported('arity of %s: %d vs %d' % (key, len(args), n))
        for i, a in enumerate(args): st[(fr.uid, i + 1)] = a
        self.depth += 1; self.stack.append(fr)
        try:
            exits = self.region(fr, 0, st, TRUE, None, None)
        finally:
            self.depth -= 1; self.stack.pop()
        rets = exits.get('return', [])
        if not rets: return UNDEF, FALSE
        c, s = self.merge(rets)
        val = s.get((fr.uid, 0), UNIT)
        if val is UNDEF: val = UNIT
        st.clear()
        for k, v in s.items():
            if not (isinstance(k, tuple) and k[0] == fr.uid and isinstance(k[0], int)): st[k] = v
        # values may point at dead locals (e.g. returned closures own their captures): keep those still referenced
        keep = self.refs(val, s)
        for k in keep:
            if k not in st and k in s: st[k] = s[k]
        return val, c

    def refs(self, val, s):
        out = set(); todo = [val]
        while todo:
            v = todo.pop()
            for _, d in flat(v):
                for r in self.dlocs(d):
                    if r not in out and r in s: out.add(r); todo.append(s[r])
        return out
    DLOCS = {}
    def dlocs(self, d):
        r = self.DLOCS.get(d.id)
        if r is None:
            if d.var is None: r = frozenset([d.val.root]) if isinstance(d.val, Loc) else frozenset()
            else: r = self.dlocs(d.hi) | self.dlocs(d.lo)
            self.DLOCS[d.id] = r
        return r

    def merge(self, lst):
        """gated join of [(cond, state)]"""
        lst = [x for x in lst if x[0] is not FALSE]
        c, s = lst[-1]
        s = dict(s)
        for cc, ss in reversed(lst[:-1]):
            if cc is TRUE: s = dict(ss)
            else:
                out = dict(s)
                for k, v in ss.items():
                    o = s.get(k, UNDEF)
                    if o is v: continue
                    try: out[k] = vite(cc, v, o)
                    except Unsupported:
                        if isinstance(k, tuple) and isinstance(k[0], int): out[k] = UNDEF
                        else: raise
                s = out
            c = lor(cc, c)
        return c, s

    def succs(self, body, b):
        t = body['blocks'][b]['t']; k = t['k']
        if k in ('goto', 'drop', 'assert'): return [t['t']]
        if k == 'switch': return [x[1] for x in t['ts']] + [t['else']]
        if k == 'call': return [t['t']] if t['t'] is not None else []
        return []

    def loopinfo(self, fr):
        key = fr.key
        if key in self.p._loops: return self.p._loops[key]
        body = fr.body
        order = []; state = {}
        back = []
        def dfs(b0):
            stk = [(b0, iter(self.succs(body, b0)))]; state[b0] = 1
            while stk:
                b, it = stk[-1]
                for s in it:
                    if state.get(s) == 1: back.append((b, s))
                    elif s not in state:
                        state[s] = 1; stk.append((s, iter(self.succs(body, s)))); break
                else:
                    state[b] = 2; order.append(b); stk.pop()
        dfs(0)
        rpo = list(reversed(order)); pos = {b: i for i, b in enumerate(rpo)}
        preds = {}
        for b in rpo:
            for s in self.succs(body, b): preds.setdefault(s, set()).add(b)
        loops = {}
        for src, h in back:
            blk = loops.setdefault(h, {h}); todo = [src]
            while todo:
                b = todo.pop()
                if b not in blk: blk.add(b); todo += list(preds.get(b, ()))
        self.p._loops[key] = (rpo, pos, loops)
        return self.p._loops[key]

    def region(self, fr, entry, st, cond, within, header):
        rpo, pos, loops = self.loopinfo(fr)
        pend = {entry: [(cond, st)]}
        exits = {}
        first = True
        for b in rpo:
            if b not in pend: continue
            if within is not None and b not in within: continue
            lst = pend.pop(b)
            c, s = self.merge(lst) if len(lst) > 1 else (lst[0][0], dict(lst[0][1]))
            if c is FALSE: continue
            if b in loops and b != header:
                outs = self.loop(fr, b, loops[b], c, s)
            else:
                outs = self.block(fr, b, c, s)
            for tgt, cc, ss in outs:
                if cc is FALSE: continue
                if tgt == 'return': exits.setdefault('return', []).append((cc, ss))
                elif tgt == header and header is not None: exits.setdefault('back', []).append((cc, ss))
                elif within is not None and tgt not in within: exits.setdefault(tgt, []).append((cc, ss))
                else: pend.setdefault(tgt, []).append((cc, ss))
        return exits

    def block(self, fr, b, c, st):
        bl = fr.body['blocks'][b]
        self.conds.append(c)
        try:
            for s in bl['s']:
                self.cur = s.get('l')
                if s['k'] == '=':
                    p = s['p']
                    v = self.rvalue(fr, st, s['r'], None)
                    if len(p) == 1: st[(fr.uid, p[0])] = v
                    else: self.store(st, self.place(fr, st, p), v)
                elif s['k'] == 'setdiscr':
                    ref = self.place(fr, st, s['p']); v = self.load(st, ref)
                    if isinstance(v, EnumV):
                        t = self.p.ty(self.place_ty(fr, s['p']))
                        self.store(st, ref, EnumV(num(int(t['variants'][s['v']]['disc'])), v.v))
            t = bl['t']; k = t['k']
            if k == 'goto': return [(t['t'], c, st)]
            if k == 'return': return [('return', c, st)]
            if k == 'drop': return [(t['t'], c, st)]
            if k == 'unreachable': return []
            if k == 'switch':
                d = self.operand(fr, st, t['d'])
                out = []; rest = c
                tk = self.p.ty(t['ty'])['k']
                for v, tgt in t['ts']:
                    v = int(v)
                    if tk == 'bool': e = d if v else lnot(d)
                    else: e = map1(lambda x: G.eq(x, const(v), False), d)
                    cc = land(rest, e)
                    if cc is not FALSE: out.append((tgt, cc, st))
                    rest = land(rest, lnot(e))
                if rest is not FALSE and fr.body['blocks'][t['else']]['t']['k'] != 'unreachable': out.append((t['else'], rest, st))
                return [(a, x, dict(s)) for a, x, s in out] if len(out) > 1 else out
            if k == 'assert':
                v = self.operand(fr, st, t['c'])
                bad = lnot(v) if t['e'] else v
                self.oblige(t['m']['m'] + (':' + t['m'].get('op', '') if t['m'].get('op') else ''), bad, t['l'])
                return [(t['t'], c, st)]
            if k == 'call':
                self.sites += 1
                f = t['f']
                args = [self.operand(fr, st, a) for a in t['a']]
                if f['k'] == 'const' and 'fn' in f['v']: fn = f['v']['fn']
                else:
                    fv = self.operand(fr, st, f)
                    if isinstance(fv, D) and fv.var is None and isinstance(fv.val, FnV): fn = fv.val.fn
                    elif isinstance(fv, D) and all(isinstance(x, FnV) for _, x in G.leaves(fv, (), False)): fn = {'def': 'indirect', 'name': 'indirect', 'gated': map1(lambda x: Cand(x.fn), fv), 'args': []}
                    else: raise Unsupported('indirect call')
                if t['t'] is None:
                    self.oblige('panic:' + fn['name'], TRUE, t['l'])
                    return []
                val, rc = self.call(fr, fn, args, st, t)
                if rc is FALSE: return []
                self.store(st, self.place(fr, st, t['d']), val) if len(t['d']) > 1 else st.__setitem__((fr.uid, t['d'][0]), val)
                return [(t['t'], land(c, rc), st)]
            raise Unsupported('terminator ' + k)
        finally:
            self.conds.pop()

    def call(self, fr, fn, args, st, t):
        loc = self.cur = t['l']
        if fn.get('kind') == 'virtual' and 'vidx' in fn and isinstance(args[0], D):
            def pick(l):
                vt = self.vt.get(l.lkey()) if isinstance(l, Loc) else None
                if vt is None or fn['vidx'] >= len(vt) or not vt[fn['vidx']]: raise Unsupported('dynamic call on an unknown object')
                return Cand(vt[fn['vidx']])
            g = map1(pick, args[0])
            if g.var is None: return self.call(fr, g.val.fn, args, st, t)
            fn = {'def': 'dynamic', 'name': 'dynamic', 'gated': g, 'args': []}
        if 'gated' in fn:
            res = []
            for path, x in G.leaves(fn['gated']):
                cc = TRUE
                for v, b in path: cc = land(cc, G.var(G.PREDS[v]) if b else lnot(G.var(G.PREDS[v])))
                s2 = dict(st)
                a2 = [self.under(a, cc) if isinstance(a, D) else a for a in args]
                self.conds.append(cc)
                try: val, rc = self.call(fr, x.fn, a2, s2, t)
                finally: self.conds.pop()
                if rc is FALSE: continue
                s2[('ret', 0)] = val
                res.append((land(cc, rc), s2))
            if not res: return UNDEF, FALSE
            c, s = self.merge(res)
            val = s.pop(('ret', 0))
            st.clear(); st.update(s)
            return val, c
        m = self.models.find(self, fn)
        if m is not None:
            r = m(self, fn, args, st, t)
            if r is not NotImplemented:
                return r if isinstance(r, tuple) else (r, TRUE)
        key = fn.get('inst') if (fn.get('implself') or '').startswith('&') or fn.get('name') in ('nth', 'nth_back', 'advance_by', 'advance_back_by') and fn.get('inst') in self.p.bodies else fn.get('provided') or fn.get('inst')
        kind = fn.get('kind')
        try:
            if kind == 'closureonce' and fn.get('body'):
                self.uid += 1; root = ('heap', self.uid); st[root] = args[0]
                return self.call_key(fn['body'], [L(Loc(root))] + args[1:], st, loc)
            if kind == 'fnptrshim' and isinstance(args[0], D) and args[0].var is None and isinstance(args[0].val, Loc):
                args = [self.load(st, args[0])] + list(args[1:])
            if kind == 'fnptrshim' and isinstance(args[0], D) and args[0].var is None and isinstance(args[0].val, FnV):
                return self.call(fr, args[0].val.fn, list(args[1].f), st, t)
            if kind == 'fnptrshim':
                st0 = self.p.ty(fn.get('self') or (fn['args'][0] if fn['args'] else ''))
                if st0['k'] == 'fndef': return self.call(fr, st0['fn'], list(args[1].f), st, t)
            if key in self.p.bodies:
                save = dict(st)
                no = len(self.obls)
                try: return self.call_key(key, args, st, loc)
                except Unsupported as e:
                    if self.p.bodies[key]['local']: raise
                    st.clear(); st.update(save); del self.obls[no:]
                    self.note('%s: %s' % (fn.get('path') or fn['def'], e))
                    return self.opaque(fn, args, st, t), TRUE
        except RecursionError:
            raise Unsupported('recursion')
        self.note('no model for ' + str(fn.get('path') or fn['def']))
        return self.opaque(fn, args, st, t), TRUE

    def opaque(self, fn, args, st, t):
        """unknown library call: havoc the result and everything reachable through mutable references"""
        for a, o in zip(args, t['a']):
            for _, d in flat(a):
                for root in list(self.dlocs(d)):
                    if root in st and isinstance(root, tuple) and root[0] != 'const':
                        st[root] = self.havoc_like(st[root], 'havoc')
        return self.havoc(t['rty'], fn['name'] + '()', st)

    def havoc_like(self, v, name):
        def f(path, d):
            if d.var is None and isinstance(d.val, (Loc, FnV)): return d
            for _, lf in G.leaves(d, (), False):
                if isinstance(lf, R):
                    return L(atom(fresh(name, 'i' if is_int_term(lf) else 'r')))
                if isinstance(lf, bool): return G.boolatom(fresh(name, 'b'))
                if isinstance(lf, Arr): return L(mk_base(name, lf.sort))
            return d
        return vmap(v, f)

    # ------------------------------------------------------------ loops
    def iterate(self, fr, h, blocks, st):
        """one iteration from the header; returns (back list, exits dict)"""
        ex = self.region(fr, h, dict(st), TRUE, blocks, h)
        back = ex.pop('back', [])
        return back, ex

    def loop(self, fr, h, blocks, c, st):
        where = '%s (%s)' % (fr.body['path'], fr.body['span'])
        return self.loop_by(lambda s: self.iterate(fr, h, blocks, s), where, c, st)

    def loop_by(self, it, where, c, st, phases=4):
        """it(state) runs one iteration: (list of (cond, state) that go round again, {exit: list of (cond, state)})"""
        self.conds.append(c)
        rec = self.record; sc = self.scan; snap = sc.snap() if sc else None
        try:
            # constant trip count: unroll
            cur = st; n = 0; outs = []
            no = len(self.obls)
            while True:
                back, ex = it(cur)
                back = [(G.simplify(cc), ss) for cc, ss in back]
                back = [x for x in back if x[0] is not FALSE]
                if not back:
                    return [(tgt, land(c, cc), ss) for tgt, l in ex.items() for cc, ss in l]
                bc, bs = self.merge(back)
                exc = [(G.simplify(cc), ss, tgt) for tgt, l in ex.items() for cc, ss in l]
                if bc is TRUE or all(x[0] is FALSE for x in exc):
                    n += 1
                    if n > 300: break
                    cur = bs
                    continue
                break
            del self.obls[no:]
            if c is not TRUE:       # values that only other paths have do not matter here
                st = {k: v if v is UNDEF else vmap(v, lambda p, d: d if d.var is None else self.under(d, c)) for k, v in st.items()}
            if sc: sc.restore(snap)
            try: return [(tgt, land(c, cc), ss) for tgt, cc, ss in self.summarise(it, where, st, phases > 0)]
            except PhaseSplit as e: key = e.key
            except FrameFail as e:
                sc.restore(snap); sc.why.append(str(e)); self.record = rec
                r = [(tgt, land(c, cc), ss) for tgt, cc, ss in self.summarise(it, where, st, phases > 0, False)]
                sc.restore(snap); return r
            self.record = rec
            return [(tgt, land(c, cc), ss) for tgt, cc, ss in self.by_phase(it, where, st, key, phases - 1)]
        finally:
            self.record = rec
            self.conds.pop()

    def by_phase(self, it, where, st, key, phases):
        """split the run of a loop where a flag (a boolean or a variant) leaves its starting value"""
        root, path = key; v0 = self.oneleaf(dict(flat(st[root]))[path])
        def it1(s):
            back, ex = it(s)
            ex = {t: list(l) for t, l in ex.items()}; out = []
            for cc, ss in back:
                d = dict(flat(ss[root])).get(path) if ss.get(root, UNDEF) is not UNDEF else None
                same = FALSE if d is None else map1(lambda x: L(x is v0) if isinstance(v0, bool) else G.eq(x, v0, False), d)
                for c2, l in ((land(cc, same), out), (land(cc, lnot(same)), ex.setdefault('__phase', []))):
                    if c2 is not FALSE: l.append((c2, {r: v if v is UNDEF else vmap(v, lambda p, d: d if d.var is None else self.under(d, c2)) for r, v in ss.items()}))
            if not ex.get('__phase'): ex.pop('__phase', None)
            return out, ex
        outs = self.loop_by(it1, where, TRUE, st, phases)
        res = [x for x in outs if x[0] != '__phase']
        nxt = [(c, s) for t, c, s in outs if t == '__phase']
        if nxt:
            c, s = self.merge(nxt)
            res += self.loop_by(it, where, c, s, phases)
        return res

    def summarise(self, it, where, st, split=False, framed=True):
        rec = self.record
        self.record = False
        snap = self.scan.snap() if self.scan else None
        # cells modified by an iteration, to a fixpoint
        cur = st
        mod = {}
        back, ex = it(st)
        bc, b1 = self.merge(back)
        kf = fresh('k', 'i', lo=0); k = atom(kf)
        cls = {}
        def cells(s0):
            out = {}
            for root, v in s0.items():
                if v is UNDEF: continue
                for p, d in flat(v): out[(root, p)] = d
            return out
        c0 = cells(st); c1 = cells(b1)
        for key, d in c0.items():
            if c1.get(key) is not d: mod[key] = 'ind'
        split = split and not self.scan
        def flag(key):
            v = self.oneleaf(c0[key])
            return split and (isinstance(v, bool) or (key[1][-1:] == ('d',) and isinstance(v, R) and v.is_const()))
        for key in mod:
            if flag(key): raise PhaseSplit(key)
        # classes: ind (start + k*delta) | arr | hav
        delta = {}
        shape_changed = set()
        for key in mod:
            d0 = c0[key]; d1 = c1.get(key)
            if d1 is None: shape_changed.add(key[0]); mod[key] = 'hav'; continue
            l0 = self.oneleaf(d0)
            if isinstance(l0, Arr): mod[key] = 'arr'; continue
            d1s = self.under(d1, bc)
            l1 = self.oneleaf(d1s)
            if isinstance(l0, R) and isinstance(l1, R): delta[key] = l1 - l0
            elif isinstance(l0, Loc) and isinstance(l1, Loc) and l0.shape() == l1.shape(): delta[key] = [b - a for a, b in zip(l0.comps(), l1.comps())]
            else: mod[key] = 'hav'
        scan = self.scan.begin(self, st, c0, mod, snap, bc, c1) if self.scan and framed else None
        def run(s):
            if scan: scan.at_head(k)
            elif snap: self.scan.restore(snap)
            return it(s)
        for attempt in range(12):
            H = {}
            self.hv = {}
            if scan: scan.heads(mod, k)
            for root, v in st.items():
                if root in shape_changed: H[root] = UNDEF if isinstance(root[0], int) else self.havoc_like(v, 'loop'); continue
                H[root] = v
                if any((root, p) in mod for p, _ in (flat(v) if v is not UNDEF else ())):
                    H[root] = vmap(v, lambda p, d: self.head(root, p, d, mod, delta, k, scan))
            # pass A: shape of the continue condition
            with assuming([({((kf.id, 1),): F(-1)}, 'le')]):
                back, ex = run(H)
                if not back: raise Unsupported('loop without a back edge under summarisation in ' + where)
                bc, _ = self.merge(back)
                bc = G.simplify(bc)
                N, exact = self.trip(bc, kf, where)
            # pass B: with k < N known
            facts = [({((kf.id, 1),): F(-1)}, 'le')]
            if N is not None and N.var is None: facts.append(c_lt(k, N.val))
            with assuming(facts):
                self.record = rec and False
                back, ex = run(H)
                bc2, b2 = self.merge(back)
                c2 = cells(b2); hc = cells(H)
                redo = False
                for root, v in st.items():
                    if v is UNDEF or root in shape_changed: continue
                    for p, d in flat(v):
                        key = (root, p)
                        if key not in c2: 
                            shape_changed.add(root); redo = True; continue
                        if key in mod: continue
                        if c2[key] is not hc[key] and G.equal(self.under(c2[key], bc2), hc[key]) is not None:
                            l0 = self.oneleaf(d)
                            if flag(key): raise PhaseSplit(key)
                            mod[key] = 'arr' if isinstance(l0, Arr) else 'hav'; redo = True
                if redo: continue
                # one step: inductive cells must advance by delta
                for key, cl in list(mod.items()):
                    if key[0] in shape_changed or (scan and scan.owns(key)): continue
                    new = self.under(c2[key], bc2)
                    if cl == 'ind':
                        dk = delta[key]
                        want = map1(lambda x: x.moved(dk, T.ONE) if isinstance(dk, list) else x + dk, hc[key])
                        if G.equal(new, want) is not None or ({i for x in (dk if isinstance(dk, list) else [dk]) for i in atoms_of(x)} & {a for d in self.hv.values() for a in d.atoms()}):
                            mod[key] = 'hav'; redo = True
                if scan and not redo: redo = scan.step(self, c2, hc, mod, bc2, k, kf, N)
                if redo: continue
                # effects of the generic iteration
                arrs = {}; lasts = {}
                hatoms = set()
                for key, d in self.hv.items(): hatoms |= d.atoms()
                for key, cl in mod.items():
                    if key[0] in shape_changed: continue
                    new = self.under(c2[key], bc2)
                    if cl == 'arr' and not (scan and scan.owns(key)):
                        arrs[key] = self.arraymap(new, self.oneleaf(hc[key]), k, kf, hatoms, N, c0[key], where)
                    elif cl == 'hav' and not (scan and scan.owns(key)):
                        if isinstance(new, D) and not (new.atoms() & hatoms): lasts[key] = new
                break
        else:
            raise Unsupported('loop summary did not stabilise in ' + where)
        # record obligations of the generic iteration
        if rec:
            with assuming(facts):
                self.record = True
                run(H)
        self.record = rec
        if N is None:
            Na = fresh('N', 'i', lo=0); N = L(atom(Na)); self.note('loop with unknown trip count in ' + where)
        # final header state
        def final(n):
            mp = {kf.id: n}; sn = scan.final(n) if scan else None
            if scan: self.scan.restore(sn)
            elif snap: self.scan.restore(snap)
            S = {}
            for root, v in H.items():
                if v is UNDEF: S[root] = v; continue
                def f(p, d):
                    key = (root, p)
                    if key in arrs: return self.arrfinal(arrs[key], n)
                    if key in lasts:
                        lv = G.subst_d(lasts[key], {kf.id: n - 1})
                        lv = self.pre_fix(lv, arrs, hc, kf, n)
                        return ite(G.le(T.ONE, n, False), lv, c0[key])
                    if key in mod and scan and scan.owns(key): return scan.value(key, sn)
                    return G.subst_d(d, mp) if key in mod else d
                S[root] = vmap(v, f)
            return S
        self.loops_done.append({'fn': where, 'cells': len(mod), 'arrays': len(arrs), 'trip': str(N)})
        outs = []; parts = []
        for path, n in (G.leaves(N) if N.var is not None else [((), N.val)]):
            cc = TRUE
            for v, b in path: cc = land(cc, G.var(G.PREDS[v]) if b else lnot(G.var(G.PREDS[v])))
            cs, _ = G.lits(path)
            # the exit test happens in the state after N iterations
            fs = cs + [((-n).num, 'le')]
            with assuming(fs):
                fn_ = final(n)
                _, ex = it(fn_)
            if scan: parts.append((cc, self.scan.snap()))
            for tgt, l in ex.items():
                for c2_, s2 in l: outs.append((tgt, cc if len(ex) == 1 and len(l) == 1 else land(cc, c2_), s2))
        if scan: scan.finish(parts)
        elif snap: self.scan.restore(snap)
        return outs

    def pre_fix(self, d, arrs, hc, kf, n):
        """last values read the array at their own index before the store of that iteration: equals the original element"""
        mp = {}
        for key, info in arrs.items():
            if info is None: continue
            mp[info['pre'].k.id] = info['orig']
        ids = d.atoms()
        mp = {a: (v.val if v.var is None else v) for a, v in mp.items() if a in ids}
        return G.subst_d(d, mp) if mp else d

    def under(self, d, c):
        """restrict a gated value to the condition c (drop branches that contradict it)"""
        if c is TRUE: return d
        bad = L('__dead__')
        z = ite(c, d, bad)
        memo = {}
        def rec(x):
            if x.var is None: return None if x is bad else x
            if x.id in memo: return memo[x.id]
            h, l = rec(x.hi), rec(x.lo)
            r = l if h is None else h if l is None else G.node(x.var, h, l)
            memo[x.id] = r
            return r
        r = rec(z)
        return d if r is None else r

    def oneleaf(self, d): return d.val if isinstance(d, D) and d.var is None else None

    def head(self, root, p, d, mod, delta, k, scan):
        key = (root, p)
        cl = mod.get(key)
        if cl is None: return d
        if scan and scan.owns(key): return scan.headval(key, k)
        if cl == 'ind':
            dk = delta[key]
            return map1(lambda x: x.moved(dk, k) if isinstance(dk, list) else x + k * dk, d)
        if cl == 'arr':
            l = self.oneleaf(d)
            b = mk_base('pre%s' % (p,), l.sort); v = L(b)
            self.hv[key] = v
            if G.MODE['sig'] and l.sort == 'r': G.signal(v)
            return v
        l = None
        for _, x in G.leaves(d, (), False): l = x; break
        if isinstance(l, R): v = L(atom(fresh('h', 'i' if is_int_term(l) else 'r')))
        elif isinstance(l, bool): v = G.boolatom(fresh('h', 'b'))
        elif isinstance(l, Arr): v = L(mk_base('h', l.sort))
        else: return d
        if G.MODE['sig'] and (isinstance(l, R) and not is_int_term(l) or isinstance(l, Arr) and l.sort == 'r'): G.signal(v)
        self.hv[key] = v
        return v

    def trip(self, bc, kf, where, depth=6):
        """trip count from the continue condition: a conjunction of bounds linear in k, by cases of what does not depend on k"""
        r = self.trip1(bc, kf, where)
        if r[0] is not None or depth == 0 or bc.var is None: return r
        seen = []
        def find(d):
            if d.var is None or d.var in seen: return None
            seen.append(d.var)
            p = G.PREDS[d.var]
            if kf.id not in G.pred_atoms(p): return p
            return find(d.hi) or find(d.lo)
        p = find(bc)
        if p is None: return r
        v = G.var(p); out = []
        for c in (v, lnot(v)):
            with assuming(G.lits(tuple((k, b) for k, b in ((p.id, c is v),)))[0] if p.kind in ('le', 'eq', 'rle') else []):
                b = G.simplify(self.under(bc, c)) if land(bc, c) is not FALSE else FALSE
                if b is FALSE: out.append(num(0)); continue
                n, _ = self.trip(b, kf, where, depth - 1)
                if n is None: return None, False
                out.append(n)
        return ite(v, out[0], out[1]), True

    def trip1(self, bc, kf, where):
        bounds = []
        d = bc
        exact = True
        if d is TRUE or d is FALSE: return None, False
        while d.var is not None:
            p = G.PREDS[d.var]
            if d.lo is FALSE: litv, nxt = True, d.hi
            elif d.hi is FALSE: litv, nxt = False, d.lo
            else: return None, False
            if p.kind not in ('le', 'eq', 'rle'): return None, False
            if kf.id not in G.pred_atoms(p):
                bounds.append(('c', G.var(p) if litv else lnot(G.var(p)))); d = nxt; continue
            q = p.data
            a = q.get(((kf.id, 1),))
            if a is None: return None, False
            rest = T._mk({m: v for m, v in q.items() if m != ((kf.id, 1),)}, {})
            if kf.id in atoms_of(rest): return None, False
            if p.kind == 'eq':
                if litv: return None, False
                e = rest * const(F(-1) / a)
                if not is_int_term(e): return None, False
                bounds.append(('n', e))
            else:
                # litv: a k + rest <= 0 ; not: a k + rest >= 1 (int)
                if p.kind == 'rle': return None, False
                if litv: aa, rr = a, rest
                else: aa, rr = -a, const(1) - rest
                if aa <= 0: return None, False
                if aa == 1: e = const(1) - rr
                else:
                    # k <= floor(-rr/aa)
                    f = atom(T.app('floor', ((-rr) * const(F(1) / aa),), sort='i')) if not (-rr).is_const() else const(int((-rr).const() // aa))
                    e = f + 1
                bounds.append(('n', e))
            d = nxt
        if d is not TRUE: return None, False
        N = None
        for kind, e in bounds:
            if kind == 'c':
                N0 = ite(e, L(e), num(0)) if False else None
                return None, False
            e_ = L(e) if G.implies_le((-e).num) else ite(G.le(T.ZERO, e, False), L(e), num(0))
            N = e_ if N is None else map2(lambda x, y: ite(G.le(x, y, False), L(x), L(y)), N, e_)
        return N, exact

    def arraymap(self, new, pre, k, kf, hatoms, N, orig, where):
        """the array after one generic iteration, as an element-wise update of the array before it"""
        a = self.oneleaf(new)
        if a is None or not isinstance(a, Arr): return None
        if a is pre: return {'none': True, 'pre': pre, 'orig': orig}
        if a.kind != 'store' or a.a is not pre: return None
        idx, val = a.i, a.v
        if idx.den: return None
        co = idx.num.get(((kf.id, 1),))
        rest = T._mk({m: c for m, c in idx.num.items() if m != ((kf.id, 1),)}, {})
        if co not in (1, -1) or kf.id in atoms_of(rest) or (atoms_of(idx) & hatoms): return None
        # reads of the same array must be of the element being written
        own = T.app('sel', (pre, idx), sort=pre.sort, name='%s[%s]' % (pre.name, idx))
        others = (val.atoms() & hatoms) - {pre.k.id}
        x = fresh('x'); 
        v2 = G.subst_d(val, {own.id: atom(x)})
        if others or (pre.k.id in v2.atoms()): return None
        return {'pre': pre, 'orig': orig, 'co': co, 'rest': rest, 'val': val, 'own': own, 'kf': kf}

    def arrfinal(self, info, n):
        if info is None: return L(mk_base('unknown'))
        orig = info['orig']
        if 'none' in info: return orig
        # index j = co*k + rest, k in 0..n
        jf = fresh('j', 'i'); j = atom(jf)
        kk = (j - info['rest']) * const(info['co'])
        if info['co'] == 1: lo, hi = info['rest'], info['rest'] + n
        else: lo, hi = info['rest'] - n + 1, info['rest'] + 1
        def f(o):
            v = G.subst_d(info['val'], {info['kf'].id: kk})
            own2 = T.app('sel', (info['pre'], j), sort=info['pre'].sort)
            v = G.subst_d(v, {own2.id: sel(o, j)})
            return mk_lam(o, jf, lo, hi, v)
        return map1(f, orig)

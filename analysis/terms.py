"""Value-number terms: rational functions (with Laurent / fractional monomials) over interned atoms.

A term R is num/den, num a polynomial over atoms with rational coefficients, den a product of primitive polynomial
factors.  Terms are hash-consed.  Equality is decided by cross-multiplication modulo the defining relations of the
algebraic atoms (sqrt, sin/cos)."""
from fractions import Fraction as F
import struct, math

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'name', 'sort', 'fn', 'args', 'pos', 'lo', 'hi')
    def __repr__(self): return self.name

ATOMS = []
_APP = {}     # fn -> list of (args, atom)

def fresh(name, sort='r', pos=False, lo=None, hi=None):
    a = Atom(); a.id = len(ATOMS); a.name = name; a.sort = sort; a.fn = None; a.args = (); a.pos = pos; a.lo = lo; a.hi = hi
    ATOMS.append(a); return a

def app(fn, args, sort='r', pos=False, lo=None, hi=None, name=None):
    """Interned application atom; arguments compared semantically."""
    lst = _APP.setdefault(fn, [])
    for (as_, at) in lst:
        if len(as_) == len(args) and all(_argeq(x, y) for x, y in zip(as_, args)): return at
    a = fresh(name or '%s(%s)' % (fn, ', '.join(map(str, args))), sort, pos, lo, hi)
    a.fn = fn; a.args = tuple(args)
    lst.append((tuple(args), a)); return a

def _argeq(x, y):
    if x is y: return True
    if isinstance(x, R) and isinstance(y, R): return req(x, y)
    if isinstance(x, R) or isinstance(y, R): return False
    return x == y

# ---------------------------------------------------------------- monomials / polynomials
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0: d.pop(k, None)
        else: d[k] = n
    return tuple(sorted(d.items()))

def mpow(a, n): return tuple((k, _nz(e * n)) for k, e in a) if n != 0 else ()
def _nz(e):
    if isinstance(e, F) and e.denominator == 1: return int(e)
    return e

def padd(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        n = d.get(m, 0) + s * c
        if n == 0: d.pop(m, None)
        else: d[m] = n
    return d
def pmul(a, b):
    d = {}
    if len(a) > len(b): a, b = b, a
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2); n = d.get(m, 0) + c1 * c2
            if n == 0: d.pop(m, None)
            else: d[m] = n
    return d
def pscale(a, c): return {m: v * c for m, v in a.items()} if c != 0 else {}
def pkey(a): return tuple(sorted(a.items()))
def pconst(c): return {(): F(c)} if c != 0 else {}

def morder(m):  # monomial order usable for exact division (lex on atom id)
    return m
class _MK:
    """comparison key: lex on exponents by atom id"""
    __slots__ = ('m',)
    def __init__(self, m): self.m = m
    def __lt__(self, o):
        a, b = dict(self.m), dict(o.m)
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k, 0), b.get(k, 0)
            if x != y: return x < y
        return False
def plead(a): return max(a, key=_MK)

def mcontent(p):
    """monomial content (minimal exponent of every atom)"""
    mn = {}; n = 0
    for m in p:
        n += 1
        for k, e in m:
            c = mn.get(k)
            if c is None: mn[k] = [e, 1]
            else:
                c[1] += 1
                if e < c[0]: c[0] = e
    out = []
    for k, (e, c) in mn.items():
        if c < n: e = min(e, 0)
        if e != 0: out.append((k, e))
    return tuple(sorted(out))

def pdiv_exact(a, b):
    """a / b if exact, else None. b is a polynomial without monomial content; a may be Laurent."""
    if len(a) * len(b) > 40000: return None
    mc = mcontent(a)
    if mc:
        im = mpow(mc, -1); a = {mmul(m, im): c for m, c in a.items()}
    # lex order on exponents by atom id: cheap dense keys
    ks = set(k for m in a for k, _ in m)
    for m in b:
        for k, _ in m:
            if k not in ks: return None
    ks = sorted(ks); ix = {k: i for i, k in enumerate(ks)}; n = len(ks)
    def dense(m):
        v = [0] * n
        for k, e in m: v[ix[k]] = e
        return tuple(v)
    r = {dense(m): c for m, c in a.items()}; bb = [(dense(m), c) for m, c in b.items()]
    lb, cb = max(bb)
    # trailing terms must divide as well
    la, lo = min(r), min(bb)[0]
    if any(x < y for x, y in zip(la, lo)): return None
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 3000: return None
        la = max(r)
        t = tuple(x - y for x, y in zip(la, lb))
        for x in t:
            if x < 0: return None
        c = r[la] / cb
        q[t] = c
        for m, cc in bb:
            mm = tuple(x + y for x, y in zip(m, t)); v = r.get(mm, 0) - c * cc
            if v == 0: r.pop(mm, None)
            else: r[mm] = v
    out = {tuple((ks[i], _nz(e)) for i, e in enumerate(t) if e != 0): c for t, c in q.items()}
    if mc: out = {mmul(m, mc): c for m, c in out.items()}
    return out

# ---------------------------------------------------------------- rational terms
_TAB = {}
class R:
    __slots__ = ('num', 'den', 'key', 'id', '_atoms', '_nn')
    def __repr__(self): return show(self)
    def __add__(self, o): return radd(self, _c(o))
    def __sub__(self, o): return radd(self, rneg(_c(o)))
    def __mul__(self, o): return rmul(self, _c(o))
    def __truediv__(self, o): return rdiv(self, _c(o))
    def __neg__(self): return rneg(self)
    def __radd__(self, o): return radd(_c(o), self)
    def __rsub__(self, o): return radd(_c(o), rneg(self))
    def __rmul__(self, o): return rmul(_c(o), self)
    def __rtruediv__(self, o): return rdiv(_c(o), self)
    def is_const(self): return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))
    def const(self): return self.num.get((), F(0))
    def is_zero(self): return not self.num
    def is_poly(self): return not self.den

def _c(x): return x if isinstance(x, R) else const(x)

def _mk(num, den):
    key = (pkey(num), tuple(sorted((k, e) for k, (f, e) in den.items())))
    r = _TAB.get(key)
    if r is None:
        r = R(); r.num = num; r.den = den; r.key = key; r.id = len(_TAB); r._atoms = None; r._nn = None
        _TAB[key] = r
    return r

def const(c): return _mk(pconst(F(c)), {})
def atom(a): return _mk({((a.id, 1),): F(1)}, {})
ZERO = const(0); ONE = const(1)

_RULED = {}   # atom id -> ('sqrt', R) | ('sin', cos_atom)

def _reduce(num, den):
    """apply sqrt/sin relations, cancel factors, intern"""
    if not num: return ZERO
    # relations
    for m in num:
        for k, e in m:
            if k in _RULED:
                rule = _RULED[k]
                if rule[0] == 'sqrt' and (e >= 2 or e < 0) or rule[0] == 'sin' and e >= 2:
                    return _rewrite(num, den, k, rule)
    if den:
        nd = {}
        for fk, (f, e) in den.items():
            while e > 0:
                if len(num) < len(f): break
                q = pdiv_exact(num, f)
                if q is None: break
                num = q; e -= 1
            if e > 0: nd[fk] = (f, e)
        den = nd
    return _mk(num, den)

def _rewrite(num, den, k, rule):
    # group by exponent of atom k
    groups = {}
    for m, c in num.items():
        e = 0; rest = []
        for kk, ee in m:
            if kk == k: e = ee
            else: rest.append((kk, ee))
        groups.setdefault(e, {})[tuple(rest)] = c
    res = ZERO
    base = atom(ATOMS[k])
    sq = rule[1] if rule[0] == 'sqrt' else ONE - rpow(atom(rule[1]), 2)
    dr = _mk({(): F(1)}, den)
    for e, p in groups.items():
        if rule[0] == 'sin':
            q, rem = (e // 2, e % 2) if e >= 2 else (0, e)
        else:
            q, rem = e // 2, e % 2   # also negative exponents: q^-1 = q * arg^-1
        t = _mk(p, {})
        t = rmul(t, rpow(sq, int(q)))
        if rem: t = rmul(t, _mk({((k, rem),): F(1)}, {}))
        res = radd(res, t)
    return rmul(res, dr)

def rneg(a): return _mk(pscale(a.num, F(-1)), a.den)

def radd(a, b):
    if not a.num: return b
    if not b.num: return a
    if a.den is b.den or a.key[1] == b.key[1]:
        return _reduce(padd(a.num, b.num), a.den) if a.den else _mk(padd(a.num, b.num), {})
    den = {}
    for k in set(a.den) | set(b.den):
        f, ea = a.den.get(k, (None, 0)); g, eb = b.den.get(k, (None, 0))
        den[k] = (f or g, max(ea, eb))
    na, nb = a.num, b.num
    for k, (f, e) in den.items():
        for _ in range(e - a.den.get(k, (None, 0))[1]): na = pmul(na, f)
        for _ in range(e - b.den.get(k, (None, 0))[1]): nb = pmul(nb, f)
    return _reduce(padd(na, nb), den)

def rmul(a, b):
    if not a.num or not b.num: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if not a.den and not b.den:
        return _reduce(pmul(a.num, b.num), {})
    den = dict(a.den)
    for k, (f, e) in b.den.items():
        if k in den: den[k] = (f, den[k][1] + e)
        else: den[k] = (f, e)
    return _reduce(pmul(a.num, b.num), den)

def content(p):
    """(rational content with sign of the leading coefficient, monomial content, primitive part)"""
    ms = list(p)
    ks = set(k for m in ms for k, _ in m)
    mono = []
    for k in sorted(ks):
        e = min(dict(m).get(k, 0) for m in ms)
        if e != 0: mono.append((k, _nz(e)))
    mono = tuple(mono)
    im = mpow(mono, -1)
    q = {mmul(m, im): c for m, c in p.items()}
    g = None
    for c in q.values():
        g = abs(c) if g is None else F(math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator), g.denominator * c.denominator)
    lead = q[plead(q)]
    if lead < 0: g = -g
    return g, mono, {m: c / g for m, c in q.items()}

class DivZero(Exception): pass

def rinv(a):
    if not a.num:
        return atom(app('inv0', ()))   # 1/0: an opaque value
    c, mono, prim = content(a.num)
    num = {mpow(mono, -1): F(1) / c}
    for k, (f, e) in a.den.items():
        for _ in range(e): num = pmul(num, f)
    den = {}
    if not (len(prim) == 1 and () in prim): den[pkey(prim)] = (prim, 1)
    return _reduce(num, den)

def rdiv(a, b): return rmul(a, rinv(b))

def rpow(a, n):
    if n == 0: return ONE
    if n < 0: return rpow(rinv(a), -n)
    r = ONE
    for _ in range(n): r = rmul(r, a)
    return r

def clear_neg(num):
    """multiply by monomials so that ruled atoms have no negative exponents"""
    mult = {}
    for m in num:
        for k, e in m:
            if k in _RULED and e < 0: mult[k] = max(mult.get(k, 0), -e)
    if not mult: return None
    return {tuple(sorted(mult.items())): F(1)}

def _noneg(r):
    if r._nn is None: r._nn = not r.den and all(e > 0 for m in r.num for _, e in m)
    return r._nn
def req(a, b):
    if a is b: return True
    if _noneg(a) and _noneg(b): return False        # polynomials in reduced form
    d = radd(a, rneg(b))
    if not d.num: return True
    m = clear_neg(d.num)
    if m is not None:
        d = _reduce(pmul(d.num, m), {})
        return not d.num
    return False

def req_tol(a, b, tol):
    """equality up to a relative coefficient tolerance (literals rounded to the sample type)"""
    if req(a, b): return True
    if tol == 0: return False
    d = radd(a, rneg(b))
    if d.den or True:
        # bring both over the common denominator and compare coefficients
        den = {}
        for k in set(a.den) | set(b.den):
            f, ea = a.den.get(k, (None, 0)); g, eb = b.den.get(k, (None, 0)); den[k] = (f or g, max(ea, eb))
        na, nb = a.num, b.num
        for k, (f, e) in den.items():
            for _ in range(e - a.den.get(k, (None, 0))[1]): na = pmul(na, f)
            for _ in range(e - b.den.get(k, (None, 0))[1]): nb = pmul(nb, f)
    scale = max([abs(c) for c in na.values()] + [abs(c) for c in nb.values()] + [F(0)])
    diff = padd(na, nb, -1)
    return all(abs(c) <= F(tol) * max(abs(na.get(m, 0)), abs(nb.get(m, 0)), scale * F(1, 10**6)) for m, c in diff.items())

def atoms_of(r):
    """ids of all atoms occurring, recursively through application arguments"""
    if r._atoms is not None: return r._atoms
    s = set()
    def poly(p):
        for m in p:
            for k, _ in m:
                if k not in s:
                    s.add(k); a = ATOMS[k]
                    for x in a.args: s.update(term_atoms(x))
    poly(r.num)
    for f, _ in r.den.values(): poly(f)
    r._atoms = frozenset(s)
    return r._atoms

def term_atoms(x):
    if isinstance(x, R): return atoms_of(x)
    f = getattr(x, 'atoms', None)
    if f is not None: return f()
    if isinstance(x, tuple):
        s = set()
        for y in x: s |= set(term_atoms(y))
        return s
    return frozenset()

def is_int_term(r):
    """provably integer valued: integer coefficients over integer atoms with nonnegative integer exponents"""
    if r.den: return False
    for m, c in r.num.items():
        if F(c).denominator != 1: return False
        for k, e in m:
            if ATOMS[k].sort != 'i' or not isinstance(e, int) or e < 0: return False
    return True

# ---------------------------------------------------------------- transcendental atoms
PI = fresh('pi', pos=True); LN10 = fresh('ln10', pos=True); LN2 = fresh('ln2', pos=True)
NAN = fresh('NaN'); INF = fresh('inf', pos=True)
rPI = atom(PI)

def split_ratio(r):
    """r = q * prim with q rational and prim normalised"""
    if not r.num: return F(0), ONE
    c, mono, prim = content(r.num)
    return c, _mk({mmul(m, mono): v for m, v in prim.items()}, r.den)

def _chebT(n, c):
    a, b = ONE, c
    if n == 0: return a
    for _ in range(n - 1): a, b = b, 2 * c * b - a
    return b
def _chebU(n, c):
    if n < 0: return ZERO
    a, b = ONE, 2 * c
    if n == 0: return a
    for _ in range(n - 1): a, b = b, 2 * c * b - a
    return b

def _trig(arg):
    q, prim = split_ratio(arg)
    m, d = q.numerator, q.denominator
    base = prim * const(F(1, d))
    if abs(m) > 64: base = prim * const(F(abs(m), d)); m = 1 if m > 0 else -1
    if prim is rPI and d in (1, 2):
        return ('pi', q)
    ca = app('cos', (base,)); 
    sa = app('sin', (base,))
    _RULED[sa.id] = ('sin', ca)
    return ('b', m, atom(ca), atom(sa))
def cos(arg):
    if arg.is_zero(): return ONE
    t = _trig(arg)
    if t[0] == 'pi': return const({0: 1, 1: 0, 2: -1, 3: 0}[int(t[1] * 2) % 4])
    return _chebT(abs(t[1]), t[2])
def sin(arg):
    if arg.is_zero(): return ZERO
    t = _trig(arg)
    if t[0] == 'pi': return const({0: 0, 1: 1, 2: 0, 3: -1}[int(t[1] * 2) % 4])
    m = t[1]; s = 1 if m > 0 else -1
    return const(s) * t[3] * _chebU(abs(m) - 1, t[2])

def exp(arg):
    if arg.is_zero(): return ONE
    if arg.den:
        q, prim = split_ratio(arg)
        a = app('exp', (prim,), pos=True)
        return _mk({((a.id, _nz(q)),): F(1)}, {})
    mono = ()
    for m, c in arg.num.items():
        # exp(ln x * q) = x^q for the constants we know
        if m == ((LN10.id, 1),) and F(c).denominator == 1 and abs(c) <= 4096:
            mono = mono; res = rpow(const(10), int(c)); return rmul(res, exp(radd(arg, rneg(_mk({m: c}, {})))))
        if m == ((LN2.id, 1),) and F(c).denominator == 1 and abs(c) <= 4096:
            res = rpow(const(2), int(c)); return rmul(res, exp(radd(arg, rneg(_mk({m: c}, {})))))
        a = app('exp', (_mk({m: F(1)}, {}),), pos=True)
        mono = mmul(mono, ((a.id, _nz(F(c))),))
    return _mk({mono: F(1)}, {})

def ln(arg):
    if arg.is_const():
        c = arg.const()
        if c == 1: return ZERO
        if c > 0:
            p2 = p10 = 0; x = F(c)
            while x.denominator == 1 and x.numerator % 10 == 0: x /= 10; p10 += 1
            while x.numerator == 1 and x.denominator % 10 == 0: x *= 10; p10 -= 1
            while x.denominator == 1 and x.numerator % 2 == 0 and x != 1: x /= 2; p2 += 1
            while x.numerator == 1 and x.denominator % 2 == 0 and x != 1: x *= 2; p2 -= 1
            if x == 1: return const(p10) * atom(LN10) + const(p2) * atom(LN2)
    if not arg.den and len(arg.num) == 1:
        (m, c), = arg.num.items()
        if c == 1 and m and all(ATOMS[k].pos and ATOMS[k].fn == 'exp' for k, _ in m):
            s = ZERO
            for k, e in m: s = s + const(F(e)) * ATOMS[k].args[0]
            return s
    return atom(app('ln', (arg,)))

def log10(arg): return ln(arg) / atom(LN10)
def log2(arg): return ln(arg) / atom(LN2)

def powf(b, x):
    if x.is_const():
        e = x.const()
        if e.denominator == 1 and abs(e) <= 16: return rpow(b, int(e))
        if e == F(1, 2): return sqrt(b)
    return exp(x * ln(b))

def _isq(n):
    r = math.isqrt(n); return r if r * r == n else None

def sqrt(arg):
    """square root of a nonnegative term; sqrt(x^2) yields the atom abs(x), see engine for the split"""
    if arg.is_zero(): return ZERO
    c, mono, prim = content(arg.num)
    sign = 1
    if c < 0: c = -c; sign = -1
    # rational content
    n, d = _isq(c.numerator), _isq(c.denominator)
    if n is not None and d is not None: out = const(F(n, d)); c = F(1)
    else:
        out = ONE
        # pull square factors
        nn, dd = c.numerator, c.denominator
        k = 2; fac = F(1)
        while k * k <= max(nn, dd) and k < 2000:
            while nn % (k * k) == 0: nn //= k * k; fac *= k
            while dd % (k * k) == 0: dd //= k * k; fac /= k
            k += 1
        out = const(fac); c = F(nn, dd)
    # positive atoms leave the root entirely
    keep = []
    for k, e in mono:
        if ATOMS[k].pos: out = rmul(out, _mk({((k, _nz(F(e) / 2)),): F(1)}, {}))
        else: keep.append((k, e))
    inner = _mk({mmul(m, tuple(keep)): v * c * sign for m, v in prim.items()}, arg.den)
    if inner is ONE: return out
    # perfect square of a single monomial / polynomial: |.|
    root = _polysqrt(inner)
    if root is not None: return rmul(out, rabs_atom(root))
    a = app('sqrt', (inner,))
    _RULED[a.id] = ('sqrt', inner)
    return rmul(out, atom(a))

def _polysqrt(r):
    if r.den:
        root = ONE
        for f, e in r.den.values():
            if e % 2: return None
            for _ in range(e // 2): root = rmul(root, _mk(dict(f), {}))
        n = _polysqrt(_mk(r.num, {}))
        return None if n is None else rdiv(n, root)
    if len(r.num) == 1:
        (m, c), = r.num.items()
        if c != 1: return None
        if any(F(e).denominator != 1 or e % 2 for _, e in m): return None
        return _mk({mpow(m, F(1, 2)): F(1)}, {})
    return None

ABS_HOOK = [None]
def rabs_atom(r):
    return atom(app('abs', (r,)))   # nonnegative; the engine expands it to a gate

# ---------------------------------------------------------------- literals
def _bits32(x): return struct.unpack('<I', struct.pack('<f', x))[0]
def _bits64(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
_NAMED = []
def _named():
    pi = rPI; l10 = atom(LN10); l2 = atom(LN2)
    s2 = sqrt(const(2))
    return [(math.pi, pi), (2 * math.pi, 2 * pi), (math.pi / 2, pi / 2), (math.pi / 3, pi / 3), (math.pi / 4, pi / 4), (math.pi / 6, pi / 6), (math.pi / 8, pi / 8),
            (1 / math.pi, ONE / pi), (2 / math.pi, 2 / pi), (math.log(10), l10), (math.log(2), l2), (1 / math.log(10), ONE / l10), (1 / math.log(2), ONE / l2),
            (math.log2(10), l10 / l2), (math.log10(2), l2 / l10), (math.sqrt(2), s2), (math.sqrt(0.5), ONE / s2), (math.e, exp(ONE))]
def shortest(v, bits):
    """the shortest decimal that denotes the literal"""
    if bits == 64: return F(repr(v))
    for p in range(1, 10):
        s = '%.*g' % (p, v)
        if struct.pack('<f', float(s)) == struct.pack('<f', v): return F(s)
    return F(repr(v))

def literal(hexbits, bits):
    b = int(hexbits, 16)
    if bits == 32:
        if b in LIT32: return LIT32[b]
        v = struct.unpack('<f', struct.pack('<I', b))[0]
    else:
        if b in LIT64: return LIT64[b]
        v = struct.unpack('<d', struct.pack('<Q', b))[0]
    if v != v: return atom(NAN)
    if v == math.inf: return atom(INF)
    if v == -math.inf: return -atom(INF)
    return const(shortest(v, bits))

def litval(hexbits, bits):
    b = int(hexbits, 16)
    return struct.unpack('<f', struct.pack('<I', b))[0] if bits == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]

# ---------------------------------------------------------------- printing
def _sm(m):
    out = []
    for k, e in m:
        n = ATOMS[k].name
        out.append(n if e == 1 else '%s^%s' % (n, e))
    return '*'.join(out)
def _sp(p):
    if not p: return '0'
    parts = []
    for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0])):
        s = _sm(m)
        cs = str(c)
        if not s: parts.append(cs)
        elif c == 1: parts.append(s)
        elif c == -1: parts.append('-' + s)
        else: parts.append(cs + '*' + s)
    return ' + '.join(parts).replace('+ -', '- ')
def show(r, lim=400):
    s = _sp(r.num)
    if r.den:
        s = '(%s)/(%s)' % (s, ' * '.join('(%s)%s' % (_sp(f), '' if e == 1 else '^%d' % e) for f, e in r.den.values()))
    return s if len(s) <= lim else s[:lim] + '...'

LIT32 = {}; LIT64 = {}
for _v, _r in _named():
    LIT32[_bits32(_v)] = _r; LIT64[_bits64(_v)] = _r
    LIT32[_bits32(-_v)] = -_r; LIT64[_bits64(-_v)] = -_r


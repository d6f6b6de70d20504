"""Meaning of the library operations the analysed code calls (numeric traits, vectors, slices, iterators, options)."""
import re
from fractions import Fraction as F
import terms as T
from terms import R, const, atom, fresh, is_int_term
import gates as G
from gates import D, L, TRUE, FALSE, ite, land, lor, lnot, map1, map2, mapn, toD, num
import engine as E

EXACT = {}     # path -> fn
PATTERNS = []  # (regex, fn)

def model(*paths):
    def deco(f):
        for p in paths: EXACT[p] = f
        return f
    return deco
def pattern(rx):
    def deco(f): PATTERNS.append((re.compile(rx), f)); return f
    return deco

_cache = {}
def find(eng, fn):
    k = (fn['def'], fn.get('path'), fn.get('local'))
    if k in _cache: return _cache[k]
    r = None
    if not fn.get('local'):
        for p in (fn.get('path'), fn['def']):
            if p in EXACT: r = EXACT[p]; break
        if r is None:
            for rx, f in PATTERNS:
                if any(p and rx.search(p) for p in (fn.get('path'), fn['def'])): r = f; break
    _cache[k] = r
    return r

def deref(eng, st, v): return eng.load(st, v)

# ---------------------------------------------------------------- identities / casts
@model('num_traits::identities::zero', 'num_traits::identities::Zero::zero', 'num_traits::identities::ConstZero::ZERO')
def m_zero(e, fn, a, st, t): return num(0)
@model('num_traits::identities::one', 'num_traits::identities::One::one')
def m_one(e, fn, a, st, t): return num(1)
@model('num_traits::identities::Zero::is_zero')
def m_iszero(e, fn, a, st, t):
    v = deref(e, st, a[0]); isf = e.isfloat(fn['self'])
    return map1(lambda x: G.eq(x, T.ZERO, isf), v)
@model('num_traits::identities::Zero::set_zero')
def m_setzero(e, fn, a, st, t): e.store(st, a[0], num(0)); return E.UNIT

def numcast(e, v, src, dst):
    """(ok, value) of a numeric cast that returns an Option"""
    s, d = e.p.ty(src), e.p.ty(dst)
    e.convert(v, src, dst)
    if d['k'] == 'float': return TRUE, (e.i2f(v) if s['k'] == 'int' else v)
    if d['k'] == 'int':
        lo, hi = e.irange(dst)
        if s['k'] == 'int': return lnot(e.outside(v, dst)), v
        tr = map1(E.ftrunc, v)
        ok = map1(lambda x: land(lnot(G.fclass('nan', x, True)), land(G.lt(const(lo - 1), x, True), G.lt(x, const(hi + 1), True))), v)
        return ok, tr
    raise E.Unsupported('numeric cast to ' + str(dst))

@model('num_traits::cast::cast', 'num_traits::cast::NumCast::from')
def m_cast(e, fn, a, st, t):
    if fn['name'] == 'from':
        dst = fn['self']; src = fn['args'][1] if len(fn['args']) > 1 else None
    else: src, dst = fn['args'][0], fn['args'][1]
    ok, v = numcast(e, a[0], src, dst)
    return E.opt(ok, v)
@pattern(r'num_traits::cast::ToPrimitive::to_(\w+)$')
def m_toprim(e, fn, a, st, t):
    dst = fn['name'][3:]
    ok, v = numcast(e, deref(e, st, a[0]), fn['self'], dst)
    return E.opt(ok, v)
@pattern(r'num_traits::cast::FromPrimitive::from_(\w+)$')
def m_fromprim(e, fn, a, st, t):
    ok, v = numcast(e, a[0], fn['name'][5:], fn['self'])
    return E.opt(ok, v)
@model('num_traits::cast::AsPrimitive::as_')
def m_as(e, fn, a, st, t):
    src, dst = fn['self'], fn['args'][1]
    s, d = e.p.ty(src)['k'], e.p.ty(dst)['k']
    return e.cast({('int', 'int'): 'IntToInt', ('int', 'float'): 'IntToFloat', ('float', 'int'): 'FloatToInt', ('float', 'float'): 'FloatToFloat'}[(s, d)], a[0], src, dst)
@model('core::convert::From::from', 'core::convert::Into::into')
def m_from(e, fn, a, st, t):
    tys = fn['args']
    if len(tys) >= 2 and all(e.p.ty(x)['k'] in ('int', 'float', 'bool') for x in tys[:2]):
        s = e.p.ty(tys[1] if fn['name'] == 'from' else tys[0])['k']
        if s == 'bool': return ite(a[0], num(1), num(0))
        e.convert(a[0], *((tys[1], tys[0]) if fn['name'] == 'from' else (tys[0], tys[1])))
        if s == 'int' and e.p.ty(tys[0] if fn['name'] == 'from' else tys[1])['k'] == 'float': return e.i2f(a[0])
        return a[0]
    if len(tys) >= 2 and tys[0] == tys[1]: return a[0]
    return NotImplemented
@model('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut')
def m_asref(e, fn, a, st, t):
    x = e.p.ty(fn['self'])
    if x.get('path') == 'alloc::vec::Vec': return slice_of(e, st, a[0])
    return NotImplemented

# ---------------------------------------------------------------- float operations
def _f1(f): return lambda e, fn, a, st, t: map1(f, a[0])
def fround(x):
    if is_int_term(x): return L(x)
    return L(atom(T.app('round', (x,), sort='i')))
def fsignum(x): return ite(G.lt(x, T.ZERO, True), num(-1), num(1))
def _minmax(lo):
    def f(x, y):
        c = G.lt(x, y, True)
        r = ite(c, L(x) if lo else L(y), L(y) if lo else L(x))
        if G.MODE['nan']:
            r = ite(G.fclass('nan', x), L(y), ite(G.fclass('nan', y), L(x), r))
        return r
    return f
FLOAT1 = {'abs': E.fabs, 'sqrt': E.fsqrt, 'sin': T.sin, 'cos': T.cos, 'exp': T.exp, 'ln': T.ln, 'log10': T.log10, 'log2': T.log2, 'ceil': E.fceil, 'floor': E.ffloor, 'trunc': E.ftrunc,
          'round': fround, 'recip': lambda x: T.ONE / x, 'signum': fsignum, 'tan': lambda x: T.sin(x) / T.cos(x), 'fract': lambda x: map1(lambda t: x - t, E.ftrunc(x)),
          'exp2': lambda x: T.powf(const(2), x), 'exp_m1': lambda x: T.exp(x) - 1, 'ln_1p': lambda x: T.ln(x + 1),
          'to_degrees': lambda x: x * const(180) / T.rPI, 'to_radians': lambda x: x * T.rPI / const(180),
          'sinh': lambda x: (T.exp(x) - T.exp(-x)) / const(2), 'cosh': lambda x: (T.exp(x) + T.exp(-x)) / const(2), 'tanh': lambda x: (T.exp(x) - T.exp(-x)) / (T.exp(x) + T.exp(-x))}
EXACTF = ('abs', 'ceil', 'floor', 'trunc', 'round', 'min', 'max', 'signum', 'copysign')
FLOAT2 = {'powf': T.powf, 'max': _minmax(False), 'min': _minmax(True), 'log': lambda x, b: T.ln(x) / T.ln(b), 'hypot': lambda x, y: E.fsqrt(x * x + y * y),
          'abs_sub': lambda x, y: ite(G.lt(y, x, True), L(x - y), num(0)),
          'copysign': lambda x, y: ite(G.fclass('signneg', y), map1(lambda z: -z, E.fabs(x)), E.fabs(x))}

def keeping(n, f):
    """in bitwise mode a rounded function of signal values is kept as it is written"""
    if not G.MODE['sig'] or n in EXACTF: return f
    if n == 'recip': return lambda x: E.fl('Div', T.ONE, x)
    return lambda *xs: E.opaque_f('fl.' + n, *xs) if G.onsignal(*xs) else f(*xs)

@pattern(r'(num_traits::float::(Float|FloatCore)::|num_traits::real::Real::|^(std|core)::f(32|64)::<impl f(32|64)>::|^(std|core)::num::.*<impl f(32|64)>::|num_traits::sign::Signed::|core::f(32|64)::math::)')
def m_float(e, fn, a, st, t):
    n = fn['name']
    ty = fn.get('self') or fn.get('implself')
    if not ty: ty = 'f32' if 'f32' in (fn.get('path') or fn['def']) else 'f64'
    if ty and n not in EXACTF and (n in FLOAT1 or n in FLOAT2 or n in ('mul_add', 'powi', 'sin_cos')): e.event('math', ty, a)
    if G.MODE['round'] and n not in EXACTF and (n in FLOAT1 or n in FLOAT2 or n in ('mul_add', 'powi', 'sin_cos')):
        v = [deref(e, st, x) if x.var is None and isinstance(x.val, E.Loc) else x for x in a]
        if n == 'sin_cos': return E.Agg((mapn(lambda *xs: E.opaque_f('f.sin', *xs), v), mapn(lambda *xs: E.opaque_f('f.cos', *xs), v)))
        return mapn(lambda *xs: E.opaque_f('f.' + n, *xs), v)
    if n in FLOAT1 and len(a) == 1:
        v = a[0]
        if v.var is None and isinstance(v.val, E.Loc): v = deref(e, st, v)
        return map1(keeping(n, FLOAT1[n]), v)
    if n in FLOAT2 and len(a) == 2: return map2(keeping(n, FLOAT2[n]), a[0], a[1])
    if n == 'mul_add': return mapn(keeping(n, lambda x, y, z: x * y + z), a)
    if n == 'powi':
        def f(x, k):
            if k.is_const() and abs(k.const()) <= 16: return T.rpow(x, int(k.const()))
            return T.powf(x, k)
        return map2(keeping(n, f), a[0], a[1])
    if n == 'sin_cos': return E.Agg((map1(T.sin, a[0]), map1(T.cos, a[0])))
    if n == 'clamp':
        return mapn(lambda x, lo, hi: ite(G.lt(x, lo, True), L(lo), ite(G.lt(hi, x, True), L(hi), L(x))), a)
    if n in ('is_finite', 'is_nan', 'is_infinite', 'is_sign_negative', 'is_sign_positive', 'is_normal'):
        k = {'is_finite': 'finite', 'is_nan': 'nan', 'is_infinite': 'inf', 'is_sign_negative': 'signneg', 'is_sign_positive': 'signneg', 'is_normal': 'normal'}[n]
        if k == 'normal' and not a[0].val.is_const() if a[0].var is None else k == 'normal': return map1(lambda x: G.var(G.pred('normal', x.id, x)), a[0])
        r = map1(lambda x: G.fclass(k, x), a[0])
        return lnot(r) if n == 'is_sign_positive' else r
    if n == 'infinity': return L(atom(T.INF))
    if n == 'neg_infinity': return L(-atom(T.INF))
    if n == 'nan': return L(atom(T.NAN))
    if n == 'neg_zero': return num(0)
    if n in ('epsilon', 'min_positive_value', 'max_value', 'min_value'):
        bits = e.p.ty(ty)['bits'] if ty else 64
        c = {'epsilon': F(2) ** (-23 if bits == 32 else -52), 'min_positive_value': F(2) ** (-126 if bits == 32 else -1022),
             'max_value': F(2) ** (128 if bits == 32 else 1024), 'min_value': -F(2) ** (128 if bits == 32 else 1024)}[n]
        return num(c)
    return NotImplemented

@pattern(r'num_traits::float::FloatConst::')
def m_fconst(e, fn, a, st, t):
    pi = T.rPI; l10 = atom(T.LN10); l2 = atom(T.LN2); s2 = T.sqrt(const(2))
    c = {'PI': pi, 'TAU': 2 * pi, 'FRAC_PI_2': pi / 2, 'FRAC_PI_3': pi / 3, 'FRAC_PI_4': pi / 4, 'FRAC_PI_6': pi / 6, 'FRAC_PI_8': pi / 8, 'FRAC_1_PI': 1 / pi, 'FRAC_2_PI': 2 / pi,
         'LN_10': l10, 'LN_2': l2, 'LOG10_E': 1 / l10, 'LOG2_E': 1 / l2, 'SQRT_2': s2, 'FRAC_1_SQRT_2': 1 / s2, 'E': T.exp(T.ONE), 'LOG10_2': l2 / l10, 'LOG2_10': l10 / l2}.get(fn['name'])
    return L(c) if c is not None else NotImplemented

@pattern(r'^core::intrinsics::(sqrt|sin|cos|exp|exp2|log|log10|log2|fabs|floor|ceil|trunc|pow|powi|fma|fmul|copysign|minnum|maxnum|rint|round)f?(32|64)$')
def m_intr(e, fn, a, st, t):
    n = re.sub(r'f?(32|64)$', '', fn['name'])
    n = {'fabs': 'abs', 'log': 'ln', 'pow': 'powf', 'minnum': 'min', 'maxnum': 'max'}.get(n, n)
    if fn['name'].endswith('32') and n not in EXACTF + ('rint',): e.event('math', 'f32', a)
    if n in FLOAT1: return map1(keeping(n, FLOAT1[n]), a[0])
    if n in FLOAT2: return map2(keeping(n, FLOAT2[n]), a[0], a[1])
    if n == 'fma': return mapn(keeping('mul_add', lambda x, y, z: x * y + z), a)
    return NotImplemented

# ---------------------------------------------------------------- operators on scalars
def _scalar(e, ty): return e.p.ty(ty)['k'] in ('int', 'float', 'bool')
_OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}
def _val(e, st, v, ty):
    """by-value scalar behind any number of references"""
    while e.p.ty(ty)['k'] == 'ref': v = deref(e, st, v); ty = e.p.ty(ty)['ty']
    return v, ty
@pattern(r'^core::ops::arith::(Add|Sub|Mul|Div|Rem)::')
def m_arith(e, fn, a, st, t):
    x, tx = _val(e, st, a[0], fn['args'][0]); y, ty = _val(e, st, a[1], fn['args'][1] if len(fn['args']) > 1 else fn['args'][0])
    if e.p.ty(tx)['k'] == 'float' and isinstance(x, D) and isinstance(y, D): return e.binop(_OPS[fn['name']], x, y, tx)
    return NotImplemented
@pattern(r'^core::ops::arith::(Add|Sub|Mul|Div|Rem)Assign::')
def m_arithassign(e, fn, a, st, t):
    y, ty = _val(e, st, a[1], fn['args'][1] if len(fn['args']) > 1 else fn['args'][0])
    if e.p.ty(fn['args'][0])['k'] == 'float':
        x = deref(e, st, a[0])
        e.store(st, a[0], e.binop(_OPS[fn['name'].replace('_assign', '')], x, y, fn['args'][0])); return E.UNIT
    return NotImplemented
@pattern(r'^core::ops::arith::Neg::neg$')
def m_neg(e, fn, a, st, t):
    x, tx = _val(e, st, a[0], fn['args'][0])
    if e.p.ty(tx)['k'] == 'float': return map1(lambda v: -v, x)
    return NotImplemented
@pattern(r'^core::cmp::Partial(Ord|Eq)::(lt|le|gt|ge|eq|ne)$')
def m_cmp(e, fn, a, st, t):
    x, tx = _val(e, st, a[0], '&' + fn['args'][0]) if False else (deref(e, st, a[0]), fn['args'][0])
    y, ty = (deref(e, st, a[1]), fn['args'][1] if len(fn['args']) > 1 else fn['args'][0])
    x, tx = _val(e, st, x, tx); y, ty = _val(e, st, y, ty)
    if not _scalar(e, tx): return NotImplemented
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}[fn['name']]
    return e.binop(op, x, y, tx)
def _ordering(lt, eq):
    return E.EnumV(ite(lt, num(255), ite(eq, num(0), num(1))), {0: (), 1: (), 2: ()})
@model('core::cmp::PartialOrd::partial_cmp')
def m_pcmp(e, fn, a, st, t):
    tx = fn['args'][0]
    if not _scalar(e, tx): return NotImplemented
    x, y = deref(e, st, a[0]), deref(e, st, a[1]); isf = e.isfloat(tx)
    lt = map2(lambda p, q: G.lt(p, q, isf), x, y); gt = map2(lambda p, q: G.lt(q, p, isf), x, y); eq = map2(lambda p, q: G.eq(p, q, isf), x, y)
    o = _ordering(lt, eq)
    if isf and G.MODE['nan']: return E.opt(lor(lt, lor(gt, eq)), o)
    return E.some(o)
@model('core::cmp::Ord::cmp')
def m_ocmp(e, fn, a, st, t):
    if not _scalar(e, fn['args'][0]): return NotImplemented
    x, y = deref(e, st, a[0]), deref(e, st, a[1])
    return _ordering(map2(lambda p, q: G.lt(p, q, False), x, y), map2(lambda p, q: G.eq(p, q, False), x, y))
@model('core::cmp::Ord::min', 'core::cmp::min', 'num_traits::clamp_min__')
def m_min(e, fn, a, st, t):
    if not _scalar(e, fn['args'][0]): return NotImplemented
    return map2(lambda x, y: ite(G.le(x, y, False), L(x), L(y)), a[0], a[1])
@model('core::cmp::Ord::max', 'core::cmp::max')
def m_max(e, fn, a, st, t):
    if not _scalar(e, fn['args'][0]): return NotImplemented
    return map2(lambda x, y: ite(G.le(x, y, False), L(y), L(x)), a[0], a[1])
@model('core::cmp::Ord::clamp')
def m_clamp(e, fn, a, st, t):
    if not _scalar(e, fn['args'][0]): return NotImplemented
    e.oblige('clamp', map2(lambda lo, hi: G.lt(hi, lo, False), a[1], a[2]), t['l'])
    return mapn(lambda x, lo, hi: ite(G.lt(x, lo, False), L(lo), ite(G.lt(hi, x, False), L(hi), L(x))), a)

# ---------------------------------------------------------------- integers
@pattern(r'^core::num::<impl (u|i)(size|8|16|32|64|128)>::')
def m_int(e, fn, a, st, t):
    n = fn['name']; m = re.search(r'<impl ((u|i)(size|\d+))>', fn['path'] or fn['def']); ty = m.group(1)
    bin_ = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}
    op = n.split('_', 1)[1] if '_' in n else ''
    if n.startswith('wrapping_') and op in bin_: return e.wrap(e.binop(bin_[op], a[0], a[1], ty), ty)
    if n.startswith('unchecked_') and op in bin_: return e.binop(bin_[op], a[0], a[1], ty)
    if n.startswith('saturating_') and op in bin_:
        lo, hi = e.irange(ty); r = e.binop(bin_[op], a[0], a[1], ty)
        return map1(lambda x: ite(G.lt(x, const(lo), False), num(lo), ite(G.lt(const(hi), x, False), num(hi), L(x))), r)
    if n.startswith('checked_') and op in bin_:
        r = e.binop(bin_[op], a[0], a[1], ty)
        return E.opt(lnot(e.outside(r, ty)), r)
    if n in ('checked_rem', 'checked_div'):
        ok = map1(lambda y: lnot(G.eq(y, T.ZERO, False)), a[1])
        return E.opt(ok, e.mod(a[0], a[1]) if n == 'checked_rem' else e.idiv(a[0], a[1]))
    if n.startswith('overflowing_') and op in bin_:
        r = e.binop(bin_[op], a[0], a[1], ty)
        return E.Agg((e.wrap(r, ty), e.outside(r, ty)))
    if n == 'rem_euclid':
        e.oblige('remzero', map1(lambda y: G.eq(y, T.ZERO, False), a[1]), t['l'])
        def f(tt, path):
            x, y = tt.t
            cs, _ = G.lits(path)
            if not G.feas(cs + [(y.num, 'le')]):
                neg = G.lt(x, T.ZERO, False)
                m = lambda: E.imod(L(x), L(y), True, tuple(path) + tuple(l for l in e.must() if l not in path))      # where x is not negative
                if neg is FALSE: return m()
                if not G.feas(cs + [((x + y).num, 'lt')]):       # x >= -y
                    return ite(neg, L(x + y), m() if not G.feas(cs + [((2 * y - x).num, 'le')]) else L(atom(T.app('mod', (x, y), sort='i', lo=0))))
            return atom(T.app('emod', (x, y), sort='i', lo=0))
        return G.mapp(f, map2(lambda x, y: G.Tup((x, y)), a[0], a[1]))
    if n == 'abs': return map1(lambda x: ite(G.lt(x, T.ZERO, False), L(-x), L(x)), a[0])
    if n == 'abs_diff': return map2(lambda x, y: ite(G.lt(x, y, False), L(y - x), L(x - y)), a[0], a[1])
    if n == 'pow':
        if a[1].var is None and a[1].val.is_const() and 0 <= a[1].val.const() <= 64: return map1(lambda x: T.rpow(x, int(a[1].val.const())), a[0])
    if n in ('is_power_of_two',): return map1(lambda x: G.boolatom(T.app('ispow2', (x,), 'b')), a[0])
    if n == 'next_power_of_two':
        def f(x):
            if x.is_const(): return const(1 << max(0, (int(x.const()) - 1).bit_length()))
            return atom(T.app('npow2', (x,), 'i', lo=1))
        return map1(f, a[0])
    if n in ('min_value', 'max_value'): return num(e.irange(ty)[0 if n[1] == 'i' else 1])
    return NotImplemented

# ---------------------------------------------------------------- memory
@model('core::mem::replace')
def m_replace(e, fn, a, st, t):
    old = deref(e, st, a[0]); e.store(st, a[0], a[1]); return old
@model('core::mem::swap')
def m_swap(e, fn, a, st, t):
    x, y = deref(e, st, a[0]), deref(e, st, a[1]); e.store(st, a[0], y); e.store(st, a[1], x); return E.UNIT
@model('core::mem::take')
def m_take(e, fn, a, st, t):
    old = deref(e, st, a[0])
    if isinstance(old, E.VecV): e.store(st, a[0], E.VecV(num(0), L(E.mk_constarr(num(0))))); return old
    if isinstance(old, D): e.store(st, a[0], num(0)); return old
    return NotImplemented
@model('core::mem::drop', 'core::mem::forget')
def m_drop(e, fn, a, st, t): return E.UNIT
@model('core::hint::black_box', 'core::convert::identity', 'core::hint::must_use')
def m_id(e, fn, a, st, t): return a[0]
@model('core::hint::assert_unchecked', 'core::intrinsics::assume', 'core::intrinsics::cold_path')
def m_nop(e, fn, a, st, t): return E.UNIT
@model('core::intrinsics::likely', 'core::intrinsics::unlikely')
def m_likely(e, fn, a, st, t): return a[0]
@model('core::clone::Clone::clone')
def m_clone(e, fn, a, st, t):
    ty = e.p.ty(fn['self'])
    if ty['k'] in ('int', 'float', 'bool', 'ref') or ty.get('path') in ('alloc::vec::Vec', 'core::slice::iter::Iter', 'core::ops::range::Range'): return deref(e, st, a[0])
    return NotImplemented
@model('core::default::Default::default')
def m_default(e, fn, a, st, t):
    k = e.p.ty(fn['self'])['k']
    if k in ('int', 'float'): return num(0)
    if k == 'bool': return FALSE
    return NotImplemented

# ---------------------------------------------------------------- vectors and slices
def slice_of(e, st, ref):
    """&Vec / &[T;N] / &[T] -> slice reference"""
    def f(l):
        if l.path and not isinstance(l.path[-1], int) and l.path[-1][0] == 'sl': return l
        return map1(lambda n: l.ext(('sl', T.ZERO, n)), e.slice_len(st, l))
    return map1(f, ref)
def vlen(e, st, ref): return map1(lambda l: e.slice_len(st, l), ref)
def elem(e, st, ref, idx): return map2(lambda l, i: l.ext(('e', i)), slice_of(e, st, ref), idx)

def set_slice(e, st, ref, lamf):
    """rewrite every element of a slice: new[j] = lamf(j - off, old array leaf, j, len)"""
    if ref.var is not None: raise E.Unsupported('bulk write through a gated reference')
    l = ref.val
    if not (l.path and not isinstance(l.path[-1], int) and l.path[-1][0] == 'sl'):
        ref = slice_of(e, st, ref)
        if ref.var is not None: raise E.Unsupported('bulk write to a vector of gated length')
        l = ref.val
    off, n = l.path[-1][1], l.path[-1][2]
    base = E.Loc(l.root, l.path[:-1])
    v = e.load_loc(st, base)
    if isinstance(v, E.Agg):
        if not (off.is_const() and n.is_const()): raise E.Unsupported('bulk write to array')
        o, m = int(off.const()), int(n.const())
        arr = list(v.f)
        for i in range(m): arr[o + i] = lamf(const(i), v, const(o + i), n)
        st[l.root] = e.put(st[l.root], base.path, E.Agg(arr)); return
    jf = fresh('j', 'i'); j = atom(jf)
    def g(a):
        with G.assuming([G.c_le(off, j), G.c_lt(j, off + n)]): val = lamf(j - off, a, j, n)
        return E.mk_lam(a, jf, off, off + n, val)
    nv = E.VecV(v.len, map1(g, v.arr))
    st[l.root] = e.put(st[l.root], base.path, nv)

def pick(e, arr, i): return e.get(arr, ('e', i)) if isinstance(arr, E.Agg) else E.sel(arr, i)
def isvec(e, ty): return e.p.ty(ty).get('path') == 'alloc::vec::Vec'

@model('alloc::vec::from_elem')
def m_fromelem(e, fn, a, st, t):
    e.oblige('capacity', map1(lambda n: G.lt(const(E.ISIZE_MAX), n, False), a[1]), t['l'])
    if not isinstance(a[0], D): return NotImplemented
    return E.VecV(a[1], L(E.mk_constarr(a[0], e.esort(fn['args'][0]) or 'r')))
@pattern(r'^alloc::vec::Vec::<T(, A)?>::(new|with_capacity|new_in|with_capacity_in)$')
def m_vecnew(e, fn, a, st, t): return E.VecV(num(0), L(E.mk_constarr(num(0), e.esort(fn['args'][0]) or 'r')))
@pattern(r'^alloc::vec::Vec::<T, A>::(len|is_empty|as_slice|as_mut_slice|capacity|reserve|reserve_exact|shrink_to_fit|shrink_to|resize|truncate|clear|push|pop|extend_from_slice|insert|remove|extend_from_within|append|split_off|resize_with|drain)$')
def m_vec(e, fn, a, st, t):
    n = fn['name']
    if n == 'len': return vlen(e, st, a[0])
    if n == 'is_empty': return map1(lambda x: G.eq(x, T.ZERO, False), vlen(e, st, a[0]))
    if n in ('as_slice', 'as_mut_slice'): return slice_of(e, st, a[0])
    if n == 'capacity':
        return map1(lambda x: atom(T.app('capacity', (x,), 'i', lo=0)), vlen(e, st, a[0]))
    if n in ('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to'): return E.UNIT
    v = deref(e, st, a[0])
    if not isinstance(v, E.VecV): raise E.Unsupported('vector operation %s' % n)
    if n in ('push', 'insert'): e.grow(fn, a[0], map1(lambda x: x + 1, v.len), t['l'])
    if n in ('resize', 'resize_with'): e.grow(fn, a[0], a[1], t['l'])
    if n == 'clear': e.store(st, a[0], E.VecV(num(0), v.arr)); return E.UNIT
    if n == 'truncate':
        e.store(st, a[0], E.VecV(map2(lambda x, y: ite(G.le(x, y, False), L(x), L(y)), v.len, a[1]), v.arr)); return E.UNIT
    if n == 'resize_with':
        # a generator that changes no state gives the same value every time
        if 'elem_call' not in fn: return NotImplemented
        s2 = dict(st); e.uid += 1; root = ('heap', e.uid); s2[root] = a[2]; before = dict(s2)
        val, rc = e.call(None, fn['elem_call'], [L(E.Loc(root)), E.Agg(())], s2, dict(t, rty=fn['args'][0]))
        if rc is not TRUE or not isinstance(val, D) or any(s2.get(k) is not x and s2.get(k) != x for k, x in before.items()): return NotImplemented
        a = [a[0], a[1], val]; n = 'resize'
    if n == 'resize':
        e.oblige('capacity', map1(lambda x: G.lt(const(E.ISIZE_MAX), x, False), a[1]), t['l'])
        def f(ar, old, new):
            jf = fresh('j', 'i')
            return E.mk_lam(ar, jf, old, new, a[2])
        e.store(st, a[0], E.VecV(a[1], mapn(f, [v.arr, v.len, a[1]]))); return E.UNIT
    if n == 'push':
        e.store(st, a[0], E.VecV(map1(lambda x: x + 1, v.len), map2(lambda ar, x: E.mk_store(ar, x, a[1]), v.arr, v.len))); return E.UNIT
    if n == 'pop':
        r = map2(lambda ar, x: E.sel(ar, x - 1), v.arr, v.len)
        ok = map1(lambda x: G.lt(T.ZERO, x, False), v.len)
        e.store(st, a[0], E.VecV(map1(lambda x: ite(G.lt(T.ZERO, x, False), L(x - 1), L(x)), v.len), v.arr))
        return E.opt(ok, r)
    if n == 'extend_from_slice':
        s = slice_of(e, st, a[1])
        e.grow(fn, a[0], map2(lambda x, y: x + y, v.len, vlen(e, st, s)), t['l'])
        def f(ar, old, l):
            src = e.load_loc(st, E.Loc(l.root, l.path[:-1])); off, ln = l.path[-1][1], l.path[-1][2]
            jf = fresh('j', 'i'); j = atom(jf)
            with G.assuming([G.c_le(old, j), G.c_lt(j, old + ln)]):
                val = e.get(src, ('e', off + j - old))
            return E.mk_lam(ar, jf, old, old + ln, val)
        e.store(st, a[0], E.VecV(map2(lambda x, y: x + y, v.len, vlen(e, st, s)), mapn(f, [v.arr, v.len, s]))); return E.UNIT
    if n == 'insert':
        e.oblige('insert', map2(lambda i, x: G.lt(x, i, False), a[1], v.len), t['l'])
        def f(ar, old, i):
            jf = fresh('j', 'i'); j = atom(jf)
            with G.assuming([G.c_lt(i, j), G.c_le(j, old)]): val = E.sel(ar, j - 1)
            return E.mk_store(E.mk_lam(ar, jf, i + 1, old + 1, val), i, a[2])
        e.store(st, a[0], E.VecV(map1(lambda x: x + 1, v.len), mapn(f, [v.arr, v.len, a[1]]))); return E.UNIT
    if n == 'remove':
        e.oblige('remove', map2(lambda i, x: G.le(x, i, False), a[1], v.len), t['l'])
        r = map2(E.sel, v.arr, a[1])
        def f(ar, old, i):
            jf = fresh('j', 'i'); j = atom(jf)
            with G.assuming([G.c_le(i, j), G.c_lt(j, old - 1)]): val = E.sel(ar, j + 1)
            return E.mk_lam(ar, jf, i, old - 1, val)
        e.store(st, a[0], E.VecV(map1(lambda x: x - 1, v.len), mapn(f, [v.arr, v.len, a[1]]))); return r
    if n == 'split_off':
        e.oblige('split_off', map2(lambda i, x: G.lt(x, i, False), a[1], v.len), t['l'])
        def f(ar, old, i):
            jf = fresh('j', 'i'); j = atom(jf)
            with G.assuming([G.c_le(T.ZERO, j), G.c_lt(j, old - i)]): val = E.sel(ar, i + j)
            return E.mk_lam(E.mk_constarr(num(0), ar.sort), jf, T.ZERO, old - i, val)
        r = E.VecV(map2(lambda x, i: x - i, v.len, a[1]), mapn(f, [v.arr, v.len, a[1]]))
        e.store(st, a[0], E.VecV(a[1], v.arr)); return r
    if n == 'drain':
        r = range_of(e, st, a[1], fn['args'][-1], v.len)
        if r is None or e.p.ty(fn['args'][0])['k'] not in ('int', 'float', 'bool'): return NotImplemented
        e.oblige('drain range', mapn(lambda lo, hi, m: lor(G.lt(hi, lo, False), G.lt(m, hi, False)), [r[0], r[1], v.len]), t['l'])
        def f(ar, old, lo, hi):
            jf = fresh('j', 'i'); j = atom(jf)
            with G.assuming([G.c_le(lo, j), G.c_lt(j, old - (hi - lo))]): val = E.sel(ar, j + hi - lo)
            return E.mk_lam(ar, jf, lo, old - (hi - lo), val)
        e.store(st, a[0], E.VecV(mapn(lambda m, lo, hi: m - (hi - lo), [v.len, r[0], r[1]]), mapn(f, [v.arr, v.len, r[0], r[1]])))
        return E.Agg((v, r[0], r[1]), 'owned')
    if n == 'append':
        w = deref(e, st, a[1])
        if not isinstance(w, E.VecV): return NotImplemented
        def f(ar, old, br, ln):
            jf = fresh('j', 'i'); j = atom(jf)
            with G.assuming([G.c_le(old, j), G.c_lt(j, old + ln)]): val = E.sel(br, j - old)
            return E.mk_lam(ar, jf, old, old + ln, val)
        e.store(st, a[0], E.VecV(map2(lambda x, y: x + y, v.len, w.len), mapn(f, [v.arr, v.len, w.arr, w.len])))
        e.store(st, a[1], E.VecV(num(0), w.arr)); return E.UNIT
    return NotImplemented

@model('core::iter::traits::collect::Extend::extend', 'core::iter::traits::collect::FromIterator::from_iter')
def m_extend(e, fn, a, st, t):
    """push every item of the source, one after the other"""
    if 'src_next' not in fn or not isvec(e, fn['args'][0]): return NotImplemented
    ety = e.p.ty(fn['args'][0])['args'][0]
    ity = e.p.ty(e.p.ty(fn['src_item'])['args'][0])
    fresh_ = fn['name'] == 'from_iter'
    src = a[0] if fresh_ else a[1]
    val, rc = e.call(None, fn['src_into'], [src], st, dict(t, rty=fn['src_iter']))
    if rc is not TRUE: raise E.Unsupported('iterator that may not be created')
    e.uid += 1; root = ('heap', e.uid); st[root] = val
    ref = L(E.Loc(root))
    if fresh_:
        e.uid += 1; vroot = ('heap', e.uid); vec = L(E.Loc(vroot))
        st[vroot] = E.VecV(num(0), L(E.mk_constarr(num(0), e.esort(ety) or 'r')))
    else: vec = a[0]
    def it(s):
        s = dict(s)
        x, c = e.call(None, fn['src_next'], [ref], s, dict(t, rty=fn['src_item']))
        if not isinstance(x, E.EnumV): raise E.Unsupported('iterator item')
        ok = map1(lambda d: G.eq(d, T.ONE, False), x.d)
        out = {}; back = []
        if land(c, lnot(ok)) is not FALSE: out['done'] = [(land(c, lnot(ok)), dict(s))]
        if land(c, ok) is not FALSE:
            v = x.v[1][0]
            if ity['k'] == 'ref': v = deref(e, s, v)
            w = deref(e, s, vec)
            e.store(s, vec, E.VecV(map1(lambda y: y + 1, w.len), map2(lambda ar, y: E.mk_store(ar, y, v), w.arr, w.len)))
            back.append((land(c, ok), s))
        return back, out
    outs = [(c, s) for tgt, c, s in e.loop_by(it, 'extend at %s' % t['l'], TRUE, st)]
    if not outs: return E.UNDEF, FALSE
    c, s = e.merge(outs)
    st.clear(); st.update(s)
    st.pop(root, None)
    if fresh_: return st.pop(vroot), c
    return E.UNIT, c

@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def m_deref(e, fn, a, st, t):
    if isvec(e, fn['self']): return slice_of(e, st, a[0])
    return NotImplemented

def range_of(e, st, v, ty, n):
    """(start, end) of a range index value against length n"""
    p = e.p.ty(ty).get('path', '')
    if p == 'core::ops::range::Range': return v.f[0], v.f[1]
    if p == 'core::ops::range::RangeFrom': return v.f[0], n
    if p == 'core::ops::range::RangeTo': return num(0), v.f[0]
    if p == 'core::ops::range::RangeFull': return num(0), n
    if p == 'core::ops::range::RangeToInclusive': return num(0), map1(lambda x: x + 1, v.f[0])
    if p == 'core::ops::range::RangeInclusive': return v.f[0], map1(lambda x: x + 1, v.f[1])
    return None

@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(e, fn, a, st, t):
    x = e.p.ty(fn['self'])
    if x.get('path') != 'alloc::vec::Vec' and x['k'] not in ('slice', 'array'): return NotImplemented
    s = slice_of(e, st, a[0]); n = vlen(e, st, s)
    ity = fn['args'][1]
    if e.p.ty(ity)['k'] == 'int':
        e.oblige('bounds', map2(lambda i, m: G.le(m, i, False), a[1], n), t['l'])
        return elem(e, st, s, a[1])
    r = range_of(e, st, a[1], ity, n)
    if r is None: return NotImplemented
    e.oblige('slice range', mapn(lambda lo, hi, m: lor(G.lt(hi, lo, False), G.lt(m, hi, False)), [r[0], r[1], n]), t['l'])
    return mapn(lambda l, lo, hi: l.ext(('sl', lo, hi - lo)), [s, r[0], r[1]])

@pattern(r'^core::slice::<impl \[T\]>::')
def m_slice(e, fn, a, st, t):
    n = fn['name']
    s = slice_of(e, st, a[0]) if isinstance(a[0], D) else None
    if s is None: return NotImplemented
    ln = vlen(e, st, s)
    if n == 'len': return ln
    if n == 'is_empty': return map1(lambda x: G.eq(x, T.ZERO, False), ln)
    if n in ('iter', 'iter_mut'): return E.Agg((s, num(0), ln), 'sliceiter')
    if n in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut'):
        e.oblige('chunk size', map1(lambda x: G.eq(x, T.ZERO, False), a[1]), t['l'])
        hi = ln if 'exact' not in n else map2(lambda x, y: x * y, e.idiv(ln, a[1]), a[1])
        return E.Agg((s, num(0), hi, a[1], ln), 'chunks')
    if n in ('last', 'last_mut'):
        return E.opt(map1(lambda x: G.lt(T.ZERO, x, False), ln), map2(lambda l, x: l.ext(('e', x - 1)), s, ln))
    if n in ('first', 'first_mut'):
        return E.opt(map1(lambda x: G.lt(T.ZERO, x, False), ln), map1(lambda l: l.ext(('e', T.ZERO)), s))
    if n in ('get', 'get_mut', 'get_unchecked', 'get_unchecked_mut'):
        ity = fn['args'][1]
        if e.p.ty(ity)['k'] != 'int':
            r = range_of(e, st, a[1], ity, ln)
            if r is None: return NotImplemented
            ref = mapn(lambda l, lo, hi: l.ext(('sl', lo, hi - lo)), [s, r[0], r[1]])
            ok = mapn(lambda lo, hi, m: land(G.le(lo, hi, False), G.le(hi, m, False)), [r[0], r[1], ln])
        else:
            ref = elem(e, st, s, a[1]); ok = map2(lambda i, m: G.lt(i, m, False), a[1], ln)
        if 'unchecked' in n:
            e.oblige('unchecked', lnot(ok), t['l']); return ref
        return E.opt(ok, ref)
    if n == 'fill':
        set_slice(e, st, s, lambda i, arr, j, m: a[1]); return E.UNIT
    if n == 'swap':
        e.oblige('bounds', mapn(lambda i, j, m: lor(G.le(m, i, False), G.le(m, j, False)), [a[1], a[2], ln]), t['l'])
        x, y = elem(e, st, s, a[1]), elem(e, st, s, a[2])
        vx, vy = e.load(st, x), e.load(st, y)
        e.store(st, x, vy); e.store(st, y, vx); return E.UNIT
    if n in ('rotate_left', 'rotate_right'):
        e.oblige('rotate', map2(lambda k, m: G.lt(m, k, False), a[1], ln), t['l'])
        if a[1].var is not None: raise E.Unsupported('rotation by a gated amount')
        w = a[1].val
        def lam(i, arr, j, m):
            k = i + w if n == 'rotate_left' else i - w
            off = j - i
            if n == 'rotate_left': return E.vite(G.lt(k, m, False), get(arr, off + k), get(arr, off + k - m))
            return E.vite(G.lt(k, T.ZERO, False), get(arr, off + k + m), get(arr, off + k))
        def get(arr, i): return pick(e, arr, i)
        set_slice(e, st, s, lam); return E.UNIT
    if n == 'reverse':
        set_slice(e, st, s, lambda i, arr, j, m: pick(e, arr, (j - i) + m - 1 - i)); return E.UNIT
    if n in ('copy_from_slice', 'clone_from_slice'):
        s2 = slice_of(e, st, a[1]); l2 = vlen(e, st, s2)
        e.oblige('copy length', map2(lambda x, y: lnot(G.eq(x, y, False)), ln, l2), t['l'])
        if s2.var is not None: raise E.Unsupported('copy from gated slice')
        sl = s2.val; src = e.load_loc(st, E.Loc(sl.root, sl.path[:-1])); off = sl.path[-1][1]
        set_slice(e, st, s, lambda i, arr, j, m: e.get(src, ('e', off + i))); return E.UNIT
    if n == 'copy_within':
        r = range_of(e, st, a[1], fn['args'][1], ln)
        if r is None or r[0].var is not None or a[2].var is not None or s.var is not None: return NotImplemented
        lo, hi, d = r[0].val, r[1].val if r[1].var is None else None, a[2].val
        if hi is None: return NotImplemented
        e.oblige('copy range', mapn(lambda x, y, z, m: lor(G.lt(y, x, False), lor(G.lt(m, y, False), G.lt(m - (y - x), z, False))), [r[0], r[1], a[2], ln]), t['l'])
        set_slice(e, st, s, lambda i, arr, j, m: E.vite(land(G.le(d, i, False), G.lt(i, d + hi - lo, False)), pick(e, arr, j - d + lo), pick(e, arr, j))); return E.UNIT
    if n in ('split_at', 'split_at_mut'):
        e.oblige('split', map2(lambda i, m: G.lt(m, i, False), a[1], ln), t['l'])
        return E.Agg((mapn(lambda l, i: l.ext(('sl', T.ZERO, i)), [s, a[1]]), mapn(lambda l, i, m: l.ext(('sl', i, m - i)), [s, a[1], ln])))
    if n in ('split_first', 'split_first_mut'):
        return E.opt(map1(lambda x: G.lt(T.ZERO, x, False), ln), E.Agg((map1(lambda l: l.ext(('e', T.ZERO)), s), map2(lambda l, m: l.ext(('sl', T.ONE, m - 1)), s, ln))))
    if n in ('split_last', 'split_last_mut'):
        return E.opt(map1(lambda x: G.lt(T.ZERO, x, False), ln), E.Agg((map2(lambda l, m: l.ext(('e', m - 1)), s, ln), map2(lambda l, m: l.ext(('sl', T.ZERO, m - 1)), s, ln))))
    if n == 'to_vec' or n == 'to_owned':
        if s.var is not None: return NotImplemented
        l = s.val; src = e.load_loc(st, E.Loc(l.root, l.path[:-1])); off, m = l.path[-1][1], l.path[-1][2]
        jf = fresh('j', 'i'); j = atom(jf)
        with G.assuming([({((jf.id, 1),): F(-1)}, 'le'), G.c_lt(j, m)]): val = e.get(src, ('e', off + j))
        return E.VecV(L(m), L(E.mk_lam(E.mk_constarr(num(0)), jf, T.ZERO, m, val)))
    return NotImplemented
EXACT['alloc::slice::<impl [T]>::to_vec'] = m_slice

@model('alloc::slice::<impl [T]>::concat')
def m_concat(e, fn, a, st, t):
    """the slices of a fixed array, one after the other"""
    l = slice_of(e, st, a[0])
    if l.var is not None: return NotImplemented
    parts = e.load_loc(st, E.Loc(l.val.root, l.val.path[:-1])); off, n = l.val.path[-1][1:]
    if not isinstance(parts, E.Agg) or not (off.is_const() and n.is_const()): return NotImplemented
    ln = num(0); arr = L(E.mk_constarr(num(0)))
    for p in parts.f[int(off.const()):int(off.const() + n.const())]:
        s = slice_of(e, st, p)
        def f(ar, old, s1):
            src = e.load_loc(st, E.Loc(s1.root, s1.path[:-1])); o, m = s1.path[-1][1:]
            jf = fresh('j', 'i'); j = atom(jf)
            with G.assuming([G.c_le(old, j), G.c_lt(j, old + m)]): val = e.get(src, ('e', o + j - old))
            return E.mk_lam(ar, jf, old, old + m, val)
        arr = mapn(f, [arr, ln, s]); ln = map2(lambda x, y: x + y, ln, vlen(e, st, s))
    return E.VecV(ln, arr)

@model('core::array::<impl [T; N]>::map', 'core::array::from_fn')
def m_arraymap(e, fn, a, st, t):
    if 'elem_call' not in fn or not fn.get('cargs') or fn['cargs'][0] is None: return NotImplemented
    n = fn['cargs'][0]; f = a[-1]; xs = a[0].f if fn['name'] == 'map' else [num(i) for i in range(n)]
    if n > 64 or len(xs) != n: return NotImplemented
    e.uid += 1; root = ('heap', e.uid); st[root] = f
    out = []; rc = TRUE
    for x in xs:
        v, c = e.call(None, fn['elem_call'], [L(E.Loc(root)), E.Agg((x,))], st, t)
        out.append(v); rc = land(rc, c)
    st.pop(root, None)
    return E.Agg(out), rc

@model('core::intrinsics::size_of', 'core::mem::size_of')
def m_sizeof(e, fn, a, st, t):
    ty = e.p.ty(fn['args'][0])
    if ty['k'] in ('int', 'float'): return num(ty['bits'] // 8)
    return NotImplemented

# ---------------------------------------------------------------- iterators
SLICEITER = ('core::slice::iter::Iter', 'core::slice::iter::IterMut')
CHUNKS = tuple('core::slice::iter::' + x for x in ('Chunks', 'ChunksMut', 'ChunksExact', 'ChunksExactMut'))
def _iterkind(e, ty):
    p = e.p.ty(ty)
    if p.get('path') in SLICEITER: return 'slice'
    if p.get('path') in CHUNKS: return 'chunks'
    if p.get('path') == 'core::array::iter::IntoIter': return 'array'
    if p.get('path') in ('alloc::vec::into_iter::IntoIter', 'alloc::vec::drain::Drain'): return 'owned'
    if p.get('path') == 'core::ops::range::Range' and e.p.ty(p['args'][0])['k'] == 'int': return 'range'
    if p.get('path') == 'core::ops::range::RangeInclusive' and e.p.ty(p['args'][0])['k'] == 'int': return 'rangei'
    if p.get('path') == 'core::iter::adapters::zip::Zip' and _iterkind(e, p['args'][0]) and _iterkind(e, p['args'][1]): return 'zip'
    if p.get('path') == 'core::ops::range::RangeFrom' and e.p.ty(p['args'][0])['k'] == 'int': return 'rangef'
    return None

def it_next(e, st, ref, ty, backw=False):
    """one step of a library iterator stored behind ref: Option value"""
    k = _iterkind(e, ty)
    v = deref(e, st, ref)
    if k == 'slice':
        s, lo, hi = v.f
        ok = map2(lambda x, y: G.lt(x, y, False), lo, hi)
        if backw:
            e.store(st, ref, E.Agg((s, lo, ite(ok, map1(lambda x: x - 1, hi), hi)), v.tag))
            return E.opt(ok, map2(lambda l, i: l.ext(('e', i - 1)), s, hi))
        e.store(st, ref, E.Agg((s, ite(ok, map1(lambda x: x + 1, lo), lo), hi), v.tag))
        return E.opt(ok, map2(lambda l, i: l.ext(('e', i)), s, lo))
    if k == 'owned':
        # a vector taken apart: (its elements, first, end)
        if not isinstance(v, E.Agg) or v.tag != 'owned': raise E.Unsupported('owning iterator')
        s, lo, hi = v.f
        ok = map2(lambda x, y: G.lt(x, y, False), lo, hi)
        at = map1(lambda x: x - 1, hi) if backw else lo
        e.store(st, ref, E.Agg((s, lo, ite(ok, at, hi)) if backw else (s, ite(ok, map1(lambda x: x + 1, lo), lo), hi), v.tag))
        if ok is FALSE: return E.opt(FALSE, E.UNDEF)
        return E.opt(ok, map2(lambda ar, i: E.sel(ar, i), s.arr, at))
    if k == 'array':
        s, lo, hi = v.f
        ok = map2(lambda x, y: G.lt(x, y, False), lo, hi)
        if backw: at = map1(lambda x: x - 1, hi); e.store(st, ref, E.Agg((s, lo, ite(ok, at, hi)), v.tag))
        else: at = lo; e.store(st, ref, E.Agg((s, ite(ok, map1(lambda x: x + 1, lo), lo), hi), v.tag))
        if ok is FALSE or not s.f: return E.opt(FALSE, E.UNDEF)
        if at.var is None: return E.opt(ok, e.get(s, ('e', at.val)))
        out = None
        for i in range(len(s.f) - 1, -1, -1): out = s.f[i] if out is None else E.vite(map1(lambda x: G.eq(x, const(i), False), at), s.f[i], out)
        return E.opt(ok, out)
    if k == 'chunks':
        if backw: return NotImplemented
        s, lo, hi, c, n = v.f
        ok = map2(lambda x, y: G.lt(x, y, False), lo, hi)
        size = c if 'Exact' in e.p.ty(ty)['path'] else mapn(lambda x, y, z: ite(G.le(x, z - y, False), L(x), L(z - y)), [c, lo, hi])
        # the position may pass the end: it is an unbounded integer here
        e.store(st, ref, E.Agg((s, ite(ok, map2(lambda x, y: x + y, lo, c), lo), hi, c, n), v.tag))
        return E.opt(ok, mapn(lambda l, i, m: l.ext(('sl', i, m)), [s, lo, size]))
    if k == 'range':
        lo, hi = v.f
        ok = map2(lambda x, y: G.lt(x, y, False), lo, hi)
        if backw:
            nh = map1(lambda x: x - 1, hi)
            e.store(st, ref, E.Agg((lo, ite(ok, nh, hi)))); return E.opt(ok, nh)
        e.store(st, ref, E.Agg((ite(ok, map1(lambda x: x + 1, lo), lo), hi)))
        return E.opt(ok, lo)
    if k == 'rangef':
        lo = v.f[0]; e.store(st, ref, E.Agg((map1(lambda x: x + 1, lo),))); return E.some(lo)
    if k == 'rangei':
        lo, hi, ex = v.f
        ok = land(lnot(ex), map2(lambda x, y: G.le(x, y, False), lo, hi))
        # instead of the library's exhausted flag the bounds cross (they are unbounded integers here)
        if backw:
            e.store(st, ref, E.Agg((lo, ite(ok, map1(lambda x: x - 1, hi), hi), ex))); return E.opt(ok, hi)
        e.store(st, ref, E.Agg((ite(ok, map1(lambda x: x + 1, lo), lo), hi, ex)))
        return E.opt(ok, lo)
    if k == 'zip':
        targs = e.p.ty(ty)['args']
        x = it_next(e, st, map1(lambda l: l.ext(0), ref), targs[0], backw)
        y = it_next(e, st, map1(lambda l: l.ext(1), ref), targs[1], backw)
        okx = map1(lambda d: G.eq(d, T.ONE, False), x.d); oky = map1(lambda d: G.eq(d, T.ONE, False), y.d)
        return E.opt(land(okx, oky), E.Agg((x.v[1][0], y.v[1][0])))
    return NotImplemented

@model('core::iter::traits::iterator::Iterator::next')
def m_next(e, fn, a, st, t):
    if _iterkind(e, fn['self']): return it_next(e, st, a[0], fn['self'])
    return NotImplemented
@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_nextback(e, fn, a, st, t):
    if _iterkind(e, fn['self']) in ('slice', 'range', 'rangei', 'array', 'owned'): return it_next(e, st, a[0], fn['self'], True)
    return NotImplemented
def it_skip(e, st, ref, ty, n, backw):
    """drop n items of a slice or range iterator; (items really dropped, items asked beyond the end)"""
    v = deref(e, st, ref); k = _iterkind(e, ty); i = 1 if k == 'slice' else 0
    lo, hi = v.f[i], v.f[i + 1]
    left = it_len(e, v, ty)
    got = map2(lambda x, y: ite(G.le(x, y, False), L(x), L(y)), n, left)
    if backw: f = v.f[:i + 1] + (map2(lambda x, y: x - y, hi, got),) + v.f[i + 2:]
    else: f = v.f[:i] + (map2(lambda x, y: x + y, lo, got),) + v.f[i + 1:]
    e.store(st, ref, E.Agg(f, v.tag))
    return got, map2(lambda x, y: x - y, n, got)
@model('core::iter::traits::iterator::Iterator::nth', 'core::iter::traits::double_ended::DoubleEndedIterator::nth_back')
def m_nth(e, fn, a, st, t):
    if _iterkind(e, fn['self']) not in ('slice', 'range'): return NotImplemented
    b = fn['name'] == 'nth_back'
    it_skip(e, st, a[0], fn['self'], a[1], b)
    return it_next(e, st, a[0], fn['self'], b)
@model('core::iter::traits::iterator::Iterator::advance_by', 'core::iter::traits::double_ended::DoubleEndedIterator::advance_back_by')
def m_advance(e, fn, a, st, t):
    if _iterkind(e, fn['self']) not in ('slice', 'range'): return NotImplemented
    _, rest = it_skip(e, st, a[0], fn['self'], a[1], fn['name'] == 'advance_back_by')
    return E.EnumV(map1(lambda x: ite(G.eq(x, T.ZERO, False), num(0), num(1)), rest), {0: (E.UNIT,), 1: (E.Agg((rest,)),)})
@pattern(r'^core::num::nonzero::NonZero::<.*>::(get|new|new_unchecked)$')
def m_nonzero(e, fn, a, st, t):
    if fn['name'] == 'get':
        v = a[0]
        while isinstance(v, E.Agg): v = v.f[0]
        return v
    if fn['name'] == 'new_unchecked': return E.Agg((a[0],))
    return E.opt(map1(lambda x: lnot(G.eq(x, T.ZERO, False)), a[0]), E.Agg((a[0],)))
def it_len(e, v, ty):
    k = _iterkind(e, ty)
    if k in ('slice', 'owned'): return map2(lambda x, y: y - x, v.f[1], v.f[2])
    if k == 'range': return map2(lambda x, y: ite(G.lt(x, y, False), L(y - x), num(0)), v.f[0], v.f[1])
    if k == 'rangei': return ite(v.f[2], num(0), map2(lambda x, y: ite(G.le(x, y, False), L(y - x + 1), num(0)), v.f[0], v.f[1]))
    return None
@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def m_itlen(e, fn, a, st, t):
    if _iterkind(e, fn['self']) in ('slice', 'range', 'rangei', 'owned'): return it_len(e, deref(e, st, a[0]), fn['self'])
    return NotImplemented
@model('core::iter::traits::iterator::Iterator::size_hint')
def m_sizehint(e, fn, a, st, t):
    if _iterkind(e, fn['self']) in ('slice', 'range', 'rangei', 'owned'):
        n = it_len(e, deref(e, st, a[0]), fn['self']); return E.Agg((n, E.some(n)))
    return NotImplemented
@model('core::iter::traits::collect::IntoIterator::into_iter')
def m_intoiter(e, fn, a, st, t):
    x = e.p.ty(fn['self'])
    if x['k'] == 'ref':
        y = e.p.ty(x['ty'])
        if y['k'] in ('slice', 'array') or y.get('path') == 'alloc::vec::Vec':
            s = slice_of(e, st, a[0]); return E.Agg((s, num(0), vlen(e, st, s)), 'sliceiter')
    if x['k'] == 'array' and isinstance(a[0], E.Agg): return E.Agg((a[0], num(0), num(len(a[0].f))), 'arrayiter')
    if x.get('path') == 'alloc::vec::Vec' and isinstance(a[0], E.VecV) and e.p.ty(x['args'][0])['k'] in ('int', 'float', 'bool'): return E.Agg((a[0], num(0), a[0].len), 'owned')
    if x.get('path') == 'alloc::vec::Vec' or x['k'] == 'array': return NotImplemented
    if (fn.get('path') or '').startswith('<I as core::iter'): return a[0]
    return NotImplemented
@model('core::iter::traits::iterator::Iterator::zip', 'core::iter::adapters::zip::zip')
def m_zip(e, fn, a, st, t):
    tys = fn['args']
    uty = tys[1] if len(tys) > 1 else None
    b = a[1]
    x = e.p.ty(uty)
    if x['k'] == 'ref':
        y = e.p.ty(x['ty'])
        if y['k'] in ('slice', 'array') or y.get('path') == 'alloc::vec::Vec':
            s = slice_of(e, st, b); b = E.Agg((s, num(0), vlen(e, st, s)), 'sliceiter')
    return E.Agg((a[0], b, num(0), num(0), num(0)))
@model('core::iter::traits::iterator::Iterator::by_ref')
def m_byref(e, fn, a, st, t): return a[0]
@pattern(r'^core::slice::iter::Iter(Mut)?::<.*>::(as_slice|into_slice|as_mut_slice)$')
def m_asslice(e, fn, a, st, t):
    v = a[0] if isinstance(a[0], E.Agg) else deref(e, st, a[0])
    return mapn(lambda l, lo, hi: l.ext(('sl', lo, hi - lo)), [v.f[0], v.f[1], v.f[2]])
@pattern(r'^core::slice::iter::ChunksExact(Mut)?::<.*>::(remainder|into_remainder)$')
def m_remainder(e, fn, a, st, t):
    v = a[0] if isinstance(a[0], E.Agg) else deref(e, st, a[0])
    return mapn(lambda l, lo, n: l.ext(('sl', lo, n - lo)), [v.f[0], v.f[2], v.f[4]])
@pattern(r'^core::ops::range::RangeInclusive::<Idx>::new$')
def m_ri(e, fn, a, st, t): return E.Agg((a[0], a[1], FALSE))
@pattern(r'^core::ops::range::Range(Inclusive)?::<Idx>::contains$')
def m_contains(e, fn, a, st, t):
    v = deref(e, st, a[0]); x = deref(e, st, a[1]); ity = fn['args'][0]; isf = e.isfloat(ity)
    lo = map2(lambda p, q: G.le(p, q, isf), v.f[0], x)
    hi = map2((lambda p, q: G.le(p, q, isf)) if 'Inclusive' in fn['path'] else (lambda p, q: G.lt(p, q, isf)), x, v.f[1])
    return land(lo, hi)

# ---------------------------------------------------------------- the caller's function, for overridden internal iteration
SINK = ('heap', 'sink')
@model('sink!')
def m_sink(e, fn, a, st, t):
    """records each item it is given, in order; fold's accumulator passes through"""
    v = st[SINK]
    st[SINK] = E.VecV(map1(lambda x: x + 1, v.len), map2(lambda ar, x: E.mk_store(ar, x, a[-1]), v.arr, v.len))
    return a[0] if len(a) > 1 else E.UNIT
def sink(st):
    st[SINK] = E.VecV(num(0), L(E.mk_constarr(num(0))))
    return L(E.FnV({'def': 'sink!', 'name': 'sink', 'args': [], 'inst': 'sink!'}))

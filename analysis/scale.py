"""Level independence (C27): a degree (unit) analysis. Samples have degree one; sums and comparisons must combine equal degrees,
products add them, nothing else may be applied to a value of nonzero degree, and no intermediate may exceed the degree the
documented computation needs (it would leave the range of the float type before the documented result does)."""
from core import *
import math
import blocks, delays, filters, windows

ANY = None       # zero, or a value not known yet: fits every degree
class Mixed(Exception): pass

class Degrees:
    def __init__(self, top): self.deg = {}; self.top = top; self.memo = {}
    def give(self, d, n):
        for k in d.atoms(): self.deg[k] = n
        self.memo = {}
    def join(self, a, b, what):
        if a is ANY: return b
        if b is ANY or a == b: return a
        raise Mixed('%s combines degree %s and degree %s' % (what, a, b))
    def check(self, n, what):
        if n is not ANY and not 0 <= n <= self.top: raise Mixed('%s has degree %s in the samples' % (what, n))
        return n
    def of(self, r):
        if r.is_zero(): return ANY
        if r.id in self.memo: return self.memo[r.id]
        n = self.check(self.poly(r.num, r), str(r)[:160])
        for f, e in r.den.values():
            m = self.poly(f, r)
            if n is not ANY and m is not ANY: n -= e * m
        self.memo[r.id] = self.check(n, str(r)[:160])
        return n
    def poly(self, p, what):
        n = ANY; first = True
        for m in p:
            t = 0
            for k, e in m:
                a = self.atom(k)
                t = ANY if a is ANY or t is ANY else t + a * e
            n = t if first else self.join(n, t, str(what)[:160]); first = False
        return n
    def atom(self, k):
        a = ATOMS[k]
        if k in self.deg: return self.deg[k]
        if not a.args: return 0
        if a.fn == 'sel': return self.deg.get(next((i for i in term_atoms_of(a.args[0]) if i in self.deg), None), 0)
        if a.fn == 'abs': return self.of(a.args[0])
        what = '%s' % a
        if a.fn.startswith('fl.'):
            ds = [self.of(x) for x in a.args]; op = a.fn[3:]
            if op == 'Add': n = self.join(ds[0], ds[1], what[:160])
            elif op == 'Mul': n = ANY if ANY in ds else ds[0] + ds[1]
            elif op == 'Div': n = ANY if ANY in ds else ds[0] - ds[1]
            elif op == 'mul_add': n = self.join(ANY if ANY in ds[:2] else ds[0] + ds[1], ds[2], what[:160])
            elif op == 'sqrt': n = ANY if ds[0] is ANY else F(ds[0], 2)
            elif op in ('powi', 'powf') and a.args[1].is_const(): n = ANY if ds[0] is ANY else ds[0] * a.args[1].const()
            elif op == 'hypot': n = self.join(ds[0], ds[1], what[:160]); self.check(ANY if n is ANY else 2 * n, what[:160])
            elif all(d in (0, ANY) for d in ds): n = 0
            else: raise Mixed('%s is applied to a sample' % op)
            return self.check(n, what[:160])
        for x in a.args:
            if isinstance(x, R) and self.of(x) not in (0, ANY): raise Mixed('%s is applied to a sample' % a.fn)
        return 0
    def pred(self, p):
        if p.kind in ('le', 'rle', 'eq'): self.poly(p.data, 'the comparison %s' % p)
        elif p.kind in ('flt', 'feq'): self.join(self.of(p.data[0]), self.of(p.data[1]), 'the comparison %s' % p)
    def diagram(self, d):
        """common degree of a gated value; comparisons on the way are checked too"""
        n = ANY; seen = set()
        for path, v in G.leaves(d):
            for k, _ in path:
                if k not in seen: seen.add(k); self.pred(G.PREDS[k])
            if isinstance(v, R): n = self.join(n, self.of(v), 'the result')
        return n

def term_atoms_of(x): return T.term_atoms(x)

RULE = 'every sum and comparison combines equal powers of the signal level'

def judge(rep, key, where, fn):
    try: r = fn()
    except Mixed as e:
        rep.ob(key, False, where, str(e), RULE); return False
    return rep.ob(key, r is True or r is None, where, str(r), RULE)

def scalar(ctx, rep, name, t):
    m = filters.Model(ctx, rep, name, t); p = m.p
    top = 2 if name == 'RmsEnvDetector' else 1
    cfg = {q: L(atom(fresh(m.name_of(q)))) for q in m.config}
    ss = [L(atom(fresh(m.name_of(q)))) for q in m.state]
    x = x_atom(); G.signal(*ss)
    s = m.build(ss, cfg)
    r, s2, _ = p.call(m.eng, 'process', s, [x]); lo = p.call(m.eng, 'last_out', s, [])[0]; s3 = p.call(m.eng, 'clear', s, [])[1]
    g = Degrees(top); g.give(x, 1)
    for a in ss: g.give(a, ANY)
    key = p.label('process'); w = p.where('process')
    # the degree of every state cell: zero in a new processor, then what process and clear leave
    def settle():
        for _ in range(len(ss) + 2):
            new = [g.join(g.diagram(b), g.diagram(c), 'the state') for b, c in zip(m.st(s2), m.st(s3))]
            ch = False
            for a, n in zip(ss, new):
                old = g.deg[next(iter(a.atoms()))]
                n = g.join(old, n, 'the state')
                if n != old: g.give(a, n); ch = True
            if not ch: return
    if not judge(rep, '%s keeps the state at one degree' % key, w, settle): return
    def want(d, n):
        k = g.diagram(d)
        return True if k in (ANY, n) else 'the value has degree %s in the samples, not %s' % (k, n)
    judge(rep, '%s output scales with the input' % key, w, lambda: want(r, 1))
    judge(rep, '%s scales with the input' % p.label('last_out'), p.where('last_out'), lambda: want(lo, 1))
    for q, c in cells(s2).items():
        if q in m.config: judge(rep, '%s: configuration %s does not depend on the level' % (key, m.name_of(q)), w, lambda: want(c, 0))
    rep.extra.setdefault('degrees', {})[p.label()] = {m.name_of(q): str(g.deg[next(iter(a.atoms()))]) for q, a in zip(m.state, ss)}
    rep.note(m.eng)

def lines(ctx, rep, name, t):
    l = delays.line(ctx, name, t); p = l.p
    g = Degrees(1)
    real = l.mark
    def mark(h):
        real(h); g.give(cells(h)[l.vec + ('arr',)], 1); g.give(l.get('last_out', h), 1)
    l.mark = mark
    try:
        for op, fs, s, s2, a, r in l.states_after():
            if op in ('process', 'tap_in', 'add_to'): g.give(a[0], 1)
            w = p.where(op)
            with G.assuming(fs):
                def want(d, n):
                    k = g.diagram(d)
                    return True if k in (ANY, n) else 'the value has degree %s in the samples, not %s' % (k, n)
                if op in ('process', 'last_out', 'next_out', 'tap_out', 'add_to'): judge(rep, '%s scales with the samples' % p.label(op), w, lambda: want(r, 1))
                for q, c in cells(s2).items():
                    if q == l.vec + ('arr',):
                        j = atom(fresh('j', 'i', lo=0))
                        for path, n in list(G.leaves(l.vlen(s2))):
                            with G.assuming(G.lits(path)[0] + [G.c_lt(j, n)]): judge(rep, '%s: the line scales with the samples' % p.label(op), w, lambda: want(map1(lambda b: E.sel(b, j), c), 1))
                    elif not (g.deg.keys() & c.atoms()): continue
                    else: judge(rep, '%s: %s scales with the samples' % (p.label(op), l.cellnames.get(q, q)), w, lambda: g.diagram(c) and None)
    finally: del l.mark
    rep.note(l.eng)

def window(ctx, rep, t):
    f = ctx.fn('apply_window', t); where = '%s (%s)' % (f['path'], f['loc'])
    wt = next(v for k, v in ctx.types.items() if v.get('k') == 'adt' and v.get('adt') == 'enum' and v['path'].split('::')[-1] == 'Window')
    for vi, v in enumerate(wt['variants']):
        eng = ctx.engine(); st = {}; g = Degrees(1)
        ref = eng.havoc(ctx.prog.bodies[f['inst']]['locals'][1], 'in', st); root = ref.val.root
        n = one(st[root].len); G.signal(st[root].arr); g.give(st[root].arr, 1)
        with G.assuming([G.c_le(n, const(delays.MAXLEN))]):
            eng.call_key(f['inst'], [ref, EnumV(num(int(v['disc'])), {vi: ()})], st)
            j = atom(fresh('j', 'i', lo=0))
            with G.assuming([G.c_lt(j, n)]):
                y = map1(lambda a: E.sel(a, j), st[root].arr)
                judge(rep, 'apply_window<%s>(%s) scales with the samples' % (t, v['name']), where, lambda: True if g.diagram(y) in (ANY, 1) else 'degree %s' % g.diagram(y))
        rep.note(eng)

def check_C27(ctx, rep):
    with G.bitwise():
        for t in TYPES:
            for name in PROCS:
                (lines if name in DELAYS else scalar)(ctx, rep, name, t)
                blocks.in_step(ctx, rep, name, t, ' bit for bit')      # a block is its samples one by one
            window(ctx, rep, t)

# ---------------------------------------------------------------- ranges of intermediate results (part of C22)
class Unknown(Exception): pass
class Range:
    """outward intervals of a value kept as written, as a function of one argument over an interval"""
    def __init__(self, x, lo, hi, big): self.x = next(iter(atoms_of(x))); self.dom = (lo, hi); self.big = big; self.over = None
    def of(self, r):
        a = self.poly(r.num)
        for f, e in r.den.values():
            for _ in range(e): a = self.div(a, self.poly(f))
        return a
    def poly(self, p):
        s = (0.0, 0.0)
        for m, c in p.items():
            t = (float(c), float(c))
            for k, e in m: t = self.mul(t, self.power(self.atom(k), e))
            s = (s[0] + t[0], s[1] + t[1])
        return s
    def mul(self, a, b):
        ps = [self.p(x, y) for x in a for y in b]; return (min(ps), max(ps))
    def p(self, x, y): return 0.0 if x == 0 or y == 0 else x * y
    def div(self, a, b):
        if b[0] <= 0 <= b[1]: return (-math.inf, math.inf)
        return self.mul(a, (1 / b[1] if b[1] != math.inf else 0.0, 1 / b[0] if b[0] != -math.inf else 0.0))
    def mono(self, f, a):
        def g(x):
            try: return f(x)
            except (OverflowError, ValueError): return None
        u, v = g(a[0]), g(a[1])
        return (-math.inf if u is None else u, math.inf if v is None else v)
    def power(self, a, e):
        if e == int(e) and e > 0 and (e % 2 or a[0] >= 0): return self.mono(lambda x: float(x) ** int(e), a)
        if e == int(e) and e > 0: m = max(abs(a[0]), abs(a[1])); return (0.0, self.mono(lambda x: x ** int(e), (m, m))[1])
        if e < 0: return self.div((1.0, 1.0), self.power(a, -e))
        return self.mono(lambda x: x ** float(e), (max(a[0], 0.0), a[1]))
    def atom(self, k):
        a = ATOMS[k]
        if k == self.x: return self.dom
        if a is T.LN10: return (math.log(10),) * 2
        if a is T.LN2: return (math.log(2),) * 2
        if a.fn is None or not a.args: return (math.pi,) * 2 if T.rPI is atom(a) else (-math.inf, math.inf)
        v = [self.of(x) if isinstance(x, R) else None for x in a.args]; op = a.fn[3:] if a.fn.startswith('fl.') else a.fn
        log = lambda f: lambda x: f(x) if x > 0 else -math.inf
        if op == 'Add': r = (v[0][0] + v[1][0], v[0][1] + v[1][1])
        elif op == 'Mul': r = self.mul(*v)
        elif op == 'Div': r = self.div(*v)
        elif op == 'mul_add': t = self.mul(v[0], v[1]); r = (t[0] + v[2][0], t[1] + v[2][1])
        elif op == 'ln': r = self.mono(log(math.log), v[0])
        elif op == 'log10': r = self.mono(log(math.log10), v[0])
        elif op == 'log2': r = self.mono(log(math.log2), v[0])
        elif op == 'exp': r = self.mono(math.exp, v[0])
        elif op == 'exp2': r = self.mono(lambda x: 2.0 ** x, v[0])
        elif op == 'sqrt': r = self.mono(math.sqrt, (max(v[0][0], 0.0), v[0][1]))
        elif op in ('powf', 'powi') and v[0][0] > 0:
            ln = self.mono(log(math.log), v[0]); r = self.mono(math.exp, self.mul(ln, v[1]))
        elif op == 'log' and v[1][0] > 1: r = self.div(self.mono(log(math.log), v[0]), self.mono(math.log, v[1]))
        elif op == 'log' and v[1][1] < 1 and v[1][0] > 0: r = self.div(self.mono(log(math.log), v[0]), self.mono(math.log, v[1]))
        elif op == 'abs': r = (0.0 if v[0][0] <= 0 <= v[0][1] else min(map(abs, v[0])), max(map(abs, v[0])))
        elif op == 'max': r = (max(v[0][0], v[1][0]), max(v[0][1], v[1][1]))
        elif op == 'min': r = (min(v[0][0], v[1][0]), min(v[0][1], v[1][1]))
        else: raise Unknown()
        if a.fn.startswith('fl.') and (r[0] < -self.big or r[1] > self.big) and self.over is None: self.over = a
        return r

def bounds(path, x, lo, hi):
    """the interval of the argument on a path (comparisons with constants)"""
    k = next(iter(atoms_of(x)))
    for i, v in path:
        p = G.PREDS[i]
        if p.kind not in ('le', 'rle') or set(p.data) - {(), ((k, 1),)} or ((k, 1),) not in p.data: continue
        a, b = p.data[((k, 1),)], p.data.get((), F(0)); c = float(-b / a)
        if (a > 0) == v: hi = min(hi, c)
        else: lo = max(lo, c)
    return lo, hi

def ranges(ctx, rep, t):
    big = (2.0 - 2.0 ** -23) * 2.0 ** 127 if t == 'f32' else 1.7976931348623157e308
    for name, lo, hi in (('to_db', 1e-6, big), ('to_sample', -120.0, 20 * math.log10(big) * (1 - 1e-6))):
        f = ctx.fn(name, t); where = '%s (%s)' % (f['path'], f['loc'])
        with G.bitwise():
            eng = ctx.engine(); x = x_atom(); G.FINITE.add(one(x).id)
            v, _ = eng.call_key(f['inst'], [x], {})
        for path, r in G.leaves(v):
            l, h = bounds(path, one(x), lo, hi)
            if not isinstance(r, R) or l > h: continue
            g = Range(one(x), l, h, big)
            try: g.of(r)
            except Unknown: pass         # a function whose range is not known here: the value itself is compared elsewhere
            rep.ob('%s<%s>: intermediate results' % (name, t), g.over is None, where, '%s leaves the range of %s for arguments in [%g, %g], where the result does not' % (g.over, t, l, h), 'no intermediate overflows where the documented result is representable')
        rep.note(eng)

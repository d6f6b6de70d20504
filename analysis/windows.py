"""Checks on the window iterators and apply_window (C19-C21)."""
from core import *
import models

VARIANT = {'Triangular': 'TriangularIter', 'Bartlett': 'BartlettIter', 'Hann': 'HannIter', 'Hamming': 'HammingIter', 'Blackman': 'BlackmanIter', 'BlackmanHarris': 'BlackmanHarrisIter'}
MAXN = E.USIZE_MAX

def q(s): return const(F(s))
def formula(name, i, n):
    t = 2 * T.rPI * i / (n - 1); c = lambda k: T.cos(k * t)
    if name == 'TriangularIter': return map1(lambda a: 1 - a, E.fabs((i - (n - 1) / const(2)) / (n / const(2))))
    if name == 'BartlettIter': return map1(lambda a: 1 - a, E.fabs((i - (n - 1) / const(2)) / ((n - 1) / const(2))))
    if name == 'HannIter': return L(q('0.5') - q('0.5') * c(1))
    if name == 'HammingIter': return L(q('0.54') - q('0.46') * c(1))
    if name == 'BlackmanIter': return L(q('0.42') - q('0.5') * c(1) + q('0.08') * c(2))
    return L(q('0.35875') - q('0.48829') * c(1) + q('0.14128') * c(2) - q('0.01168') * c(3))
RULE = {'TriangularIter': '1-|(i-(n-1)/2)/(n/2)|', 'BartlettIter': '1-|(i-(n-1)/2)/((n-1)/2)|', 'HannIter': '0.5-0.5cos(2 pi i/(n-1))', 'HammingIter': '0.54-0.46cos(2 pi i/(n-1))',
        'BlackmanIter': '0.42-0.5cos(t)+0.08cos(2t)', 'BlackmanHarrisIter': '0.35875-0.48829cos(t)+0.14128cos(2t)-0.01168cos(3t)'}

class Win:
    """an iterator type; S(i) is the state after i items, found from the first step and shown inductive"""
    def __init__(self, ctx, name, t):
        self.p = ctx.proc(name, t); self.eng = ctx.engine(); self.name = name; self.t = t
        for op in ('new', 'next', 'len', 'size_hint'): self.p.op(op)
        self.nf = fresh('n', 'i', lo=0, hi=MAXN); self.n = atom(self.nf)
        self.s0, _ = self.p.new(self.eng, [L(self.n)])
        with G.assuming([G.c_le(const(2), self.n)]):
            s1 = self.p.call(self.eng, 'next', self.s0, [])[1]
        c0, c1 = cells(self.s0), cells(s1)
        self.delta = {}
        for k in c0:
            if c0[k] is c1[k]: continue
            a, b = one(c0[k]), one(G.simplify(c1[k]))
            if not isinstance(a, R) or not isinstance(b, R): raise Unsupported('%s: state cell does not advance uniformly' % self.p.label('next'))
            self.delta[k] = b - a
    def at(self, i, n=None):
        c0 = cells(self.s0)
        s = setcells(self.s0, {k: map1(lambda v: v + i * d, c0[k]) for k, d in self.delta.items()})
        return s if n is None else vsubst(s, {self.nf.id: n})
    def call(self, op, s): return self.p.call(self.eng, op, s, [])
    def drain(self, op, s):
        """overridden internal iteration from state s: (items handed out, returns)"""
        st = {}; f = models.sink(st)
        args = [s] + ([num(0)] if op == 'fold' else []) + [f]
        _, c = self.eng.call_key(self.p.op(op)['inst'], args, st)
        return st[models.SINK], c
    def ended(self, s):
        """the iterator has nothing left and stays so"""
        c = TRUE
        some, _ = one_of(self.call('next', s)[0]); c = land(c, lnot(some))
        with G.assuming([]):
            for op in ('len', 'size_hint'):
                r, _, rc = self.call(op, s); c = land(c, rc)
                for v in ([r] if op == 'len' else [r.f[0], one_of(r.f[1])[1]]): c = land(c, map1(lambda x: G.eq(x, T.ZERO, False), v))
        return c
    def eqstate(self, rep, key, a, b, where, rule):
        ca, cb = cells(a), cells(b)
        for k in cb: rep.eq('%s: cell %s' % (key, k), ca[k], cb[k], where, rule)

def one_of(o):
    """(is Some, payload) of an Option value"""
    if not isinstance(o, EnumV): raise Unsupported('next() does not return on every path')
    return map1(lambda d: G.eq(d, T.ONE, False), o.d), (o.v[1][0] if 1 in o.v else None)

def check_C19(ctx, rep):
    for t in TYPES:
        for name in WINDOWS:
            w = Win(ctx, name, t); p = w.p; n = w.n
            i = atom(fresh('i', 'i', lo=0))
            wn = p.where('next')
            with G.assuming([G.c_lt(i, n)]):
                r, s2, c = w.call('next', w.at(i))
                some, v = one_of(r)
                rep.holds('%s returns' % p.label('next'), c, wn, 'next() returns')
                rep.holds('%s yields' % p.label('next'), some, wn, 'there is an item at every index below n')
                w.eqstate(rep, '%s advances' % p.label('next'), s2, w.at(i + 1), wn, 'one item is consumed')
            r, s2, c = w.call('next', w.at(n))
            some, _ = one_of(r)
            rep.holds('%s ends' % p.label('next'), lnot(some), wn, 'None after n items')
            w.eqstate(rep, '%s stays at the end' % p.label('next'), s2, w.at(n), wn, 'None for ever')
            with G.assuming([G.c_le(i, n)]):
                for op in ('len', 'size_hint'):
                    r, s2, c = w.call(op, w.at(i)); wo = p.where(op)
                    w.eqstate(rep, '%s changes nothing' % p.label(op), s2, w.at(i), wo, 'reading the length changes nothing')
                    if op == 'len': rep.eq('%s' % p.label(op), r, L(n - i), wo, 'number of items still to come')
                    else:
                        some, v = one_of(r.f[1])
                        rep.eq('%s lower' % p.label(op), r.f[0], L(n - i), wo, 'number of items still to come')
                        rep.holds('%s upper known' % p.label(op), some, wo, 'the upper bound is known')
                        rep.eq('%s upper' % p.label(op), v if v is not None else num(-1), L(n - i), wo, 'number of items still to come')
                if p.has('nth'):
                    k = atom(fresh('k', 'i', lo=0, hi=E.USIZE_MAX)); r, s2, _ = p.call(w.eng, 'nth', w.at(i), [L(k)]); some, v = one_of(r)
                    with G.assuming([G.c_lt(i + k, n)]):
                        rep.holds('%s yields' % p.label('nth'), some, p.where('nth'), 'nth(k) is the item k further')
                        w.eqstate(rep, '%s advances' % p.label('nth'), s2, w.at(i + k + 1), p.where('nth'), 'nth(k) consumes k+1 items')
                    with G.assuming([G.c_le(n, i + k)]):
                        rep.holds('%s ends' % p.label('nth'), lnot(some), p.where('nth'), 'None beyond the end')
                        rep.holds('%s leaves nothing' % p.label('nth'), w.ended(s2), p.where('nth'), 'after None nothing is left: next() is None, len() and size_hint() are 0')
                for op in ('fold', 'for_each'):
                    if p.has(op):
                        got, c = w.drain(op, w.at(i))
                        rep.holds('%s returns' % p.label(op), c, p.where(op), 'internal iteration ends')
                        rep.eq('%s visits' % p.label(op), got.len, L(n - i), p.where(op), 'every item still to come is visited once')
                if p.has('count'): rep.eq(p.label('count'), w.eng.call_key(p.op('count')['inst'], [w.at(i)], {})[0], L(n - i), p.where('count'), 'number of items still to come')
                if p.has('last'):
                    some, _ = one_of(w.eng.call_key(p.op('last')['inst'], [w.at(i)], {})[0])
                    with G.assuming([G.c_lt(i, n)]): rep.holds('%s yields' % p.label('last'), some, p.where('last'), 'there is a last item')
                    r, _ = w.eng.call_key(p.op('last')['inst'], [w.at(n)], {}); rep.holds('%s ends' % p.label('last'), lnot(one_of(r)[0]), p.where('last'), 'no item is left')
            rep.note(w.eng)

def check_C20(ctx, rep):
    for t in TYPES:
        tol = F(1, 10**13) if t == 'f64' else F(1, 10**6)
        for name in WINDOWS:
            w = Win(ctx, name, t); p = w.p; n = w.n; wn = p.where('next')
            i = atom(fresh('i', 'i', lo=0))
            with G.assuming([G.c_lt(i, n)]):
                with G.assuming([G.c_le(const(2), n)]):
                    r, s2, _ = w.call('next', w.at(i)); some, v = one_of(r)
                    rep.holds('%s yields' % p.label('next'), some, wn, 'there is an item at every index below n')
                    rep.eq('%s item' % p.label('next'), v, formula(name, i, n), wn, RULE[name], tol=tol)
                    w.eqstate(rep, '%s advances' % p.label('next'), s2, w.at(i + 1), wn, 'the next item is the one at the next index')
                    if p.has('last'):
                        some, v = one_of(w.eng.call_key(p.op('last')['inst'], [w.at(i)], {})[0])
                        rep.eq('%s item' % p.label('last'), v, formula(name, n - 1, n), p.where('last'), RULE[name], tol=tol)
                    for op in ('fold', 'for_each'):
                        if not p.has(op): continue
                        got, _ = w.drain(op, w.at(i)); j = atom(fresh('j', 'i', lo=0))
                        with G.assuming([G.c_lt(j, n - i)]): rep.eq('%s item' % p.label(op), map1(lambda a: E.sel(a, j), got.arr), formula(name, i + j, n), p.where(op), RULE[name], tol=tol)
                    if p.has('nth'):
                        k = atom(fresh('k', 'i', lo=0))
                        with G.assuming([G.c_lt(i + k, n)]):
                            r, s2, _ = p.call(w.eng, 'nth', w.at(i), [L(k)]); some, v = one_of(r)
                            rep.eq('%s item' % p.label('nth'), v, formula(name, i + k, n), p.where('nth'), RULE[name], tol=tol)
            r, _, _ = w.call('next', w.at(T.ZERO, T.ONE)); some, v = one_of(r)
            rep.holds('%s yields (n = 1)' % p.label('next'), some, wn, 'a window of size 1 has one item')
            rep.eq('%s item (n = 1)' % p.label('next'), v, num(1), wn, 'the single item of a window of size 1 is 1')
            rep.note(w.eng)

def check_C21(ctx, rep):
    wt = next((v for k, v in ctx.types.items() if v.get('k') == 'adt' and v.get('adt') == 'enum' and v['path'].split('::')[-1] == 'Window'), None)
    if wt is None: raise Missing('enum Window not found')
    names = [v['name'] for v in wt['variants']]
    rep.ob('Window variants', sorted(names) == sorted(list(VARIANT) + ['Rectangular']), wt['path'], 'variants are %s' % names)
    for t in TYPES:
        f = ctx.fn('apply_window', t); where = '%s (%s)' % (f['path'], f['loc'])
        tol = F(1, 10**13) if t == 'f64' else F(1, 10**6)
        for vi, v in enumerate(wt['variants']):
            eng = ctx.engine(); st = {}
            b = ctx.prog.bodies[f['inst']]
            ref = eng.havoc(b['locals'][1], 'in', st); root = ref.val.root
            n = one(st[root].len); arr0 = st[root].arr
            with G.assuming([G.c_le(n, const(E.ISIZE_MAX // 4))]):
                r, c = eng.call_key(f['inst'], [ref, EnumV(num(int(v['disc'])), {vi: ()})], st)
                out = st[root]
                key = 'apply_window<%s>(%s)' % (t, v['name'])
                rep.holds('%s returns' % key, c, where, 'returns for every slice')
                rep.eq('%s length' % key, out.len, L(n), where, 'the slice keeps its length')
                j = atom(fresh('j', 'i', lo=0))
                with G.assuming([G.c_lt(j, n)]):
                    x = map1(lambda a: E.sel(a, j), arr0); y = map1(lambda a: E.sel(a, j), out.arr)
                    if v['name'] == 'Rectangular': rep.eq('%s element' % key, y, x, where, 'the rectangular window leaves the slice unchanged')
                    elif v['name'] in VARIANT:
                        w = Win(ctx, VARIANT[v['name']], t)
                        s = w.at(j, n)
                        some, g = one_of(w.call('next', s)[0])
                        rep.holds('%s has gain' % key, some, where, 'a gain for every index')
                        rep.eq('%s element' % key, y, map2(lambda a, b_: a * b_, g, x), where, 'element j is multiplied by item j of the window of the slice length', tol=tol)
                        rep.note(w.eng)
            with G.bitwise(), G.assuming([G.c_le(n, const(E.ISIZE_MAX // 4))]):
                e2 = ctx.engine(); s2 = {}; r2 = e2.havoc(b['locals'][1], 'in', s2); n2 = one(s2[r2.val.root].len); a0 = s2[r2.val.root].arr; G.signal(a0)
                with G.assuming([G.c_le(n2, const(E.ISIZE_MAX // 4)), G.c_lt(j, n2)]):
                    e2.call_key(f['inst'], [r2, EnumV(num(int(v['disc'])), {vi: ()})], s2)
                    y = map1(lambda a: E.sel(a, j), s2[r2.val.root].arr); x = map1(lambda a: E.sel(a, j), a0)
                    for path, z in G.leaves(y):
                        once = isinstance(z, R) and (not E.kept(L(z)) or products(z, x, path))
                        rep.ob('%s: one product' % key, once, where, 'element j becomes %s' % str(z)[:300], 'the sample is multiplied once by its gain')
                rep.note(e2)
            rep.note(eng)

def products(z, x, path=()):
    """z is one rounded product of the sample x and something that does not depend on it"""
    if z.den or len(z.num) != 1: return False
    (m, c), = z.num.items()
    if abs(c) != 1 or len(m) != 1 or m[0][1] != 1: return False
    a = ATOMS[m[0][0]]
    return a.fn == 'fl.Mul' and sum(1 for u in a.args if G.onsignal(u)) == 1 and any(u is one(x) or (-u) is one(x) or (path and same_sample(u, x, path)) for u in a.args)
def same_sample(u, x, path):
    if not isinstance(u, R) or not G.onsignal(u): return False
    with G.assuming(G.lits(path)[0]): return G.equal(L(u), x) is None or G.equal(L(-u), x) is None

"""Block processing against sample-by-sample processing (C05 and the block parts of C04, C07): the loop of process_block is
summarised in lock step with a reference that calls process on a ghost state."""
from core import *
import filters, delays

class ScanFail(E.FrameFail):
    pass

PEEL = 8      # steps written out one by one, outside loops or in one iteration

class Scan:
    """The reference: the state, samples and result after P steps of process, kept next to the code's own state. A loop that
    touches them becomes a frame: at the head of iteration k the reference stands at an arbitrary reachable (ghost) state after
    P0 + rate*k steps; the iteration has to leave what the reference leaves. Loops may follow one another, exclude one another
    or nest; a loop that cannot be related is summarised on its own, and the final comparison decides."""
    def __init__(self, p, init, ghosts, root, sroot, n, arr, res):
        self.p = p; self.init = init; self.c0 = cells(init); self.ghosts = [cells(g) for g in ghosts]; self.root = root; self.sroot = sroot
        self.n = n; self.orig = arr; self.done = 0; self.why = []
        self.out = E.mk_base('out', arr.val.sort)
        self.cur = dict(self.c0); self.arr = arr; self.res = res; self.P = num(0); self.used = 0
        # cells the reference step changes
        g = self.ghosts[0]
        c2 = cells(p.call(p.ctx.engine(), 'process', setcells(init, g), [x_atom()])[1])
        self.modq = {q for q in self.c0 if c2[q] is not g[q]}
    def snap(self): return self.cur, self.arr, self.res, self.P, self.used
    def restore(self, s): self.cur, self.arr, self.res, self.P, self.used = s
    def sample(self, P): return map2(lambda a, i: E.sel(a, i), self.orig, P)
    def advance(self, conditional=True):
        """one step of the reference"""
        c = map1(lambda i: G.lt(i, self.n, False), self.P) if conditional else TRUE
        r, s2, _ = self.p.call(self.p.ctx.engine(), 'process', setcells(self.init, self.cur), [self.sample(self.P)])
        c2 = cells(s2); P = self.P
        self.arr = ite(c, map2(lambda a, i: E.mk_store(a, i, r), self.arr, P), self.arr)
        self.cur = {q: d if c2[q] is d else ite(c, c2[q], d) for q, d in self.cur.items()}
        self.res = ite(c, r, self.res); self.P = ite(c, map1(lambda i: i + 1, P), P)
    def same_arr(self, x, y):
        if x is y: return None
        j = atom(fresh('j', 'i'))
        with G.assuming([((-j).num, 'le'), G.c_lt(j, self.n)]):
            w = G.equal(map1(lambda a: E.sel(a, j), x), map1(lambda a: E.sel(a, j), y))
        return w and w + (j,)
    def same(self, q, d, ref):
        if d is ref: return True
        if q[-1:] == ('arr',):
            j = atom(fresh('j', 'i'))
            with G.assuming([((-j).num, 'le'), G.c_lt(j, one(self.c0[q[:-1] + ('len',)]))]): return G.equal(map1(lambda a: E.sel(a, j), d), map1(lambda a: E.sel(a, j), ref)) is None
        return G.equal(d, ref) is None
    def merge(self, parts):
        """several ways to leave a loop: [(condition, snapshot)]"""
        c, s = parts[-1]
        for c2, s2 in reversed(parts[:-1]): s = self.choose(c2, s2, s)
        return s
    def choose(self, c, a, b):
        if c is TRUE or a is b: return a
        f = lambda x, y: x if x is y else ite(c, x, y)
        return {q: f(a[0][q], b[0][q]) for q in a[0]}, f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3]), max(a[4], b[4])
    def begin(self, eng, st, c0, mod, first, bc, b1):
        """a loop starts in state c0 (cells); first: snapshot at its start; its first iteration, which the reference followed, left b1"""
        skey = (self.sroot, ('arr',))
        if skey not in c0: return None
        mine = [k for k in mod if k == skey or k[0] == self.root or (k in c0 and any(c0[k] is d for q, d in first[0].items() if q in self.modq and d.atoms()))]
        if not mine:
            self.restore(first); return None
        after = self.P, self.arr
        self.restore(first)
        return Frame(self, eng, c0, mod, after, bc, b1.get(skey), skey)
    def expect(self):
        """(return value, cells, array) after all samples; what is left of them is processed one by one"""
        P = self.P; left = 0
        while G.equal(P, L(self.n)) is not None:
            if left == PEEL: return self.res, self.cur, self.arr, False
            P = map1(lambda i: ite(G.lt(i, self.n, False), L(i + 1), L(i)), P); left += 1
        for _ in range(left): self.advance()
        return self.res, self.cur, self.arr, True

def stores(d, *base):
    """most elements written one by one on top of the given arrays"""
    stop = {id(x) for b in base for _, x in G.leaves(b, (), False)}; n = 0
    for _, x in G.leaves(d, (), False):
        k = 0
        while id(x) not in stop and x.kind == 'store': x = x.a; k += 1
        n = max(n, k)
    return n

class Frame:
    def __init__(self, sc, eng, c0, mod, after, bc, arr1, skey):
        self.sc = sc; self.skey = skey; self.start = c0; self.disowned = set(); self.memo = {}
        c = TRUE
        for x in eng.conds: c = land(c, x)
        self.c = c; self.here = G.lits(tuple(eng.must()))[0]; under = lambda d: eng.under(d, c) if d.var is not None else d
        self.outer = sc.snap()
        sc.restore(({q: under(d) for q, d in sc.cur.items()}, under(sc.arr), under(sc.res), under(sc.P), sc.used))
        P0 = sc.P
        with G.assuming(self.here):
            for _ in range(min(PEEL, stores(under(c0[skey]), sc.arr))): sc.advance()
            if sc.same_arr(under(c0[skey]), sc.arr) is not None: raise ScanFail('samples are changed before the loop starts')
        self.before = sc.snap()
        peeled = sc.P is not P0
        self.P0 = one(sc.P)
        if self.P0 is None: raise ScanFail('the loop starts after an unknown number of samples')
        if sc.used >= len(sc.ghosts): raise NeedGhost()
        self.ghost = sc.ghosts[sc.used]; sc.used += 1
        self.byid = {}
        for q, d in sc.cur.items():
            if d.atoms(): self.byid.setdefault(d.id, q)
        # samples per iteration: those inner loops process, and those stored one by one
        self.writes = skey in mod
        self.explicit = self.rate = 1
        if self.writes and arr1 is not None:
            P1, A1 = after if not peeled else (sc.P, sc.arr)
            depth = stores(eng.under(arr1, bc), A1, sc.arr, c0[skey])
            inner = [(x - self.P0) for _, x in G.leaves(P1, (), False)]
            inner = [x for x in inner if x.is_const()]
            if P1 is not sc.P:
                big = max([x.const() for x in inner] or [0])
                if big > 0: self.explicit = depth; self.rate = int(big) + depth
            elif depth > 1: self.explicit = self.rate = depth
        if self.explicit > PEEL: raise ScanFail('the loop replaces more than %d samples at a time' % PEEL)
        self.ready = sc.snap()
    def owner(self, key):
        if key in self.memo: return self.memo[key]
        r = None
        if key == self.skey: r = 'S'
        elif key[0] == self.sc.root and key[1] in self.sc.c0:
            if self.sc.same(key[1], self.start[key], self.before[0][key[1]]): r = key[1]
        elif key in self.start: r = self.byid.get(self.start[key].id)
        self.memo[key] = r
        return r
    def owns(self, key): return key not in self.disowned and self.owner(key) is not None
    def at_head(self, k):
        """put the reference at the head of iteration k"""
        sc = self.sc; P = self.P0 + const(self.rate) * k
        sc.restore(self.ready)
        sc.cur = {q: self.ghost[q] if q in sc.modq or q in self.extra else d for q, d in self.before[0].items()}
        sc.P = L(P); sc.res = self.hres
        sc.arr = L(self.outs(P)) if self.writes else self.before[1]
    def heads(self, mod, k):
        self.extra = {self.owner(key) for key in mod if self.owns(key)} - {'S', None}
        self.k = k; self.hres = L(atom(fresh('prev')))
        if G.MODE['sig']: G.signal(self.hres)
        self.hbase = L(self.outs(self.P0 + const(self.rate) * k))
    def outs(self, P):
        sc = self.sc; jf = fresh('j', 'i'); j = atom(jf)
        return E.mk_lam(sc.orig.val, jf, T.ZERO, P, L(atom(T.app('sel', (sc.out, j), sort=sc.out.sort, name='out[%s]' % j))))
    def headval(self, key, k):
        q = self.owner(key)
        return self.hbase if q == 'S' else self.ghost[q]
    def step(self, *a):
        with G.assuming(self.here): return self.step_(*a)
    def step_(self, eng, c2, hc, mod, bc2, k, kf, N):
        sc = self.sc
        sc.cur, sc.arr, sc.res, sc.P = ({q: eng.under(d, bc2) for q, d in sc.cur.items()}, eng.under(sc.arr, bc2), eng.under(sc.res, bc2), eng.under(sc.P, bc2)) if bc2 is not TRUE else (sc.cur, sc.arr, sc.res, sc.P)
        for _ in range(self.explicit): sc.advance(False)
        if not self.writes:
            w = sc.same_arr(hc[self.skey], sc.arr)
            if w is not None: raise ScanFail('the loop does not replace the samples')
            sc.arr = self.before[1]
        for key in list(mod):
            if not self.owns(key): continue
            q = self.owner(key)
            new = eng.under(c2[key], bc2)
            if q == 'S':
                w = sc.same_arr(new, sc.arr)
                if w is not None: raise ScanFail('iteration k does not replace exactly its samples by what process returns for them: when %s element %s is %s, expected %s' % (G.showpath(w[0]), w[-1], str(w[1])[:200], str(w[2])[:200]))
            else:
                w = G.equal(new, sc.cur[q])
                if w is not None:
                    if key[0] == sc.root: raise ScanFail('iteration k leaves %s = %s when %s, process(sample k) would leave %s' % (q, str(w[1])[:200], G.showpath(w[0]), str(w[2])[:200]))
                    self.disowned.add(key); mod[key] = 'hav'
                    return True
        nxt = L(self.P0 + const(self.rate) * (k + 1)); self.even = G.equal(sc.P, nxt) is None
        if not self.even:
            # the last iteration may have fewer samples
            if N is None or N.var is not None: raise ScanFail('iterations differ in the number of samples')
            with G.assuming([G.c_lt(k + 1, N.val)]):
                if G.equal(sc.P, nxt) is not None: raise ScanFail('iterations differ in the number of samples')
        self.kf = kf; self.post = sc.snap()
        return False
    def final(self, n):
        """the reference after n iterations"""
        sc = self.sc
        if self.P0 is T.ZERO and self.rate == 1 and self.even and self.writes and G.eq(n, sc.n - 1, False) is TRUE:
            # all but the last sample: the ghost is the state after n - 1 steps
            return {q: self.ghost[q] if q in sc.modq | self.extra else d for q, d in self.before[0].items()}, L(self.outs(n)), self.hres, L(n), self.post[4]
        some = G.le(T.ONE, n, False)
        at = lambda d: G.subst_d(d, {self.kf.id: n - 1})
        f = lambda d, b: b if d is b else ite(some, at(d), b)
        cur = {q: f(d, self.before[0][q]) if q in sc.modq | self.extra else self.before[0][q] for q, d in self.post[0].items()}
        return cur, f(self.post[1], self.before[1]), f(self.post[2], self.before[2]), L(self.P0 + const(self.rate) * n) if self.even else f(self.post[3], self.before[3]), self.post[4]
    def value(self, key, snap):
        q = self.owner(key)
        return snap[1] if q == 'S' else snap[0][q]
    def finish(self, parts):
        sc = self.sc; sc.done += 1
        sc.restore(sc.choose(self.c, sc.merge(parts), self.outer))

class NeedGhost(Exception): pass

def setup(ctx, rep, name, t):
    """initial state, maker of ghost states, facts"""
    if name in DELAYS:
        l = delays.line(ctx, name, t); p = l.p
        d, h, fs, s = l.one_canon(); n = l.vlen(h)
        def ghost():
            g = p.havoc(l.eng, 'g')
            g = setcells(g, {l.vec + ('len',): n})
            if l.dcell is not None: g = setcells(g, {l.dcell: num(-1)})
            fg = l.facts(g)
            with G.assuming(fs + fg): return l.set_delay(g, d), fg
        return p, s, ghost, fs
    p = ctx.proc(name, t); eng = ctx.engine()
    return p, p.havoc(eng, 's'), lambda: (p.havoc(eng, 'g'), []), []

def run_block(ctx, rep, name, t, record=False):
    for k in range(1, 6):
        try: return run_with(ctx, rep, name, t, record, k)
        except NeedGhost: pass
    raise Unsupported('process_block has too many loops')

def run_with(ctx, rep, name, t, record, pool):
    p, s, ghost, fs = setup(ctx, rep, name, t)
    gs, fg = [], []
    for _ in range(pool): g, f = ghost(); gs.append(g); fg += f
    eng = ctx.engine(); eng.record = record
    st = {}
    eng.uid += 1; root = ('heap', eng.uid); st[root] = s
    ref = eng.havoc(p.argtys('process_block')[1], 'in', st); sroot = ref.val.root
    n = one(st[sroot].len); arr = st[sroot].arr
    facts = fs + [G.c_le(n, const(delays.MAXLEN))]
    if G.MODE['sig']:
        conf = () if name in DELAYS else filters.Model(ctx, rep, name, t).config
        G.signal(arr, *[d for v in [s] + gs for q, d in flat(v) if q not in conf and q[-1:] != ('len',) and isinstance(one(d), (R, Arr)) and not (isinstance(one(d), R) and T.is_int_term(one(d)))])
    with G.assuming(facts + fg):
        lo = p.call(ctx.engine(), 'last_out', s, [])[0]
        sc = Scan(p, s, gs, root, sroot, n, arr, lo)
        if G.MODE['sig']: G.signal(L(sc.out))
        eng.scan = sc
        v, c = eng.call_key(p.op('process_block')['inst'], [L(Loc(root)), ref], st)
        eng.scan = None
    return p, eng, sc, s, st.get(root), st.get(sroot), v, c, n, facts + fg

def check_C05(ctx, rep):
    for t in TYPES:
        for name in PROCS:
            in_step(ctx, rep, name, t)
            with G.bitwise(): in_step(ctx, rep, name, t, ' bit for bit')

def in_step(ctx, rep, name, t, tag=''):
    p = ctx.proc(name, t); w = p.where('process_block'); k = p.label('process_block') + tag
    p, eng, sc, s, s2, sl, v, c, n, fs = run_block(ctx, rep, name, t)
    why = '; '.join(sc.why[:2])
    if not rep.ob('%s in step with process' % k, sc.done >= 1, w, why or 'no loop processes the samples', 'each iteration does to state and sample what process does'): return
    with G.assuming(fs):
        R_, cs, arr, all_ = sc.expect()
        rep.ob('%s reaches every sample' % k, all_, w, why or 'the loops visit a different number of samples', 'each sample is processed exactly once')
        rep.holds('%s returns' % k, c, w, 'returns for every slice')
        rep.eq('%s result' % k, v, R_, w, 'the last processed sample; for an empty block the last output')
        c2 = cells(s2)
        for q in cs:
            if q[-1:] == ('arr',) and q[:-1] + ('len',) in cs:
                j = atom(fresh('j', 'i'))
                with G.assuming([((-j).num, 'le'), G.c_lt(j, one(cs[q[:-1] + ('len',)]))]): rep.eq('%s state %s' % (k, q), map1(lambda a: E.sel(a, j), c2[q]), map1(lambda a: E.sel(a, j), cs[q]), w, 'the state those process calls leave')
            else: rep.eq('%s state %s' % (k, q), c2[q], cs[q], w, 'the state those process calls leave')
        j = atom(fresh('j', 'i'))
        rep.eq('%s length' % k, sl.len, L(n), w, 'the slice keeps its length')
        with G.assuming([((-j).num, 'le'), G.c_lt(j, n)]):
            rep.eq('%s samples' % k, map1(lambda a: E.sel(a, j), sl.arr), map1(lambda a: E.sel(a, j), arr), w, 'every sample is replaced by its own output')
    rep.note(eng)

def check_C04_block(ctx, rep):
    for t in TYPES:
        for name in PROCS:
            p = ctx.proc(name, t); w = p.where('process_block'); k = p.label('process_block')
            p, eng, sc, s, s2, sl, v, c, n, fs = run_block(ctx, rep, name, t)
            with G.assuming(fs):
                lo, lo2 = p.call(eng, 'last_out', s, [])[0], p.call(eng, 'last_out', s2, [])[0]
                rep.eq('%s then last_out' % k, lo2, ite(G.le(T.ONE, n, False), map1(lambda a: E.sel(a, n - 1), sl.arr), lo), w, 'last_out() is the last sample of the block')
            rep.note(eng)

def check_C07_block(ctx, rep):
    for t in TYPES:
        for name in PROCS:
            p = ctx.proc(name, t); w = p.where('process_block'); k = p.label('process_block')
            if name in DELAYS: conf = None
            else: conf = filters.Model(ctx, rep, name, t).config
            p, eng, sc, s, s2, sl, v, c, n, fs = run_block(ctx, rep, name, t)
            with G.assuming(fs):
                if conf is None:
                    for o in ('get_delay', 'get_max_delay'): rep.eq('%s then %s' % (k, o), p.call(eng, o, s2, [])[0], p.call(eng, o, s, [])[0], w, 'only configuration calls change configuration')
                else:
                    a, b = cells(s2), cells(s)
                    for q in conf: rep.eq('%s keeps %s' % (k, q), a[q], b[q], w, 'only configuration calls change configuration')
            rep.note(eng)

"""Checks on the delay lines (C03, C04, C07, C09-C14)."""
from core import *

MAXLEN = E.ISIZE_MAX // 8          # vectors of samples cannot be longer than this

class Line:
    """a delay line type: canonical states = what set_delay(d) leaves behind from any in-bounds state, generic in content, position,
    size and delay; shown to contain new() and to be closed under every operation"""
    def __init__(self, ctx, name, t):
        self.p = p = ctx.proc(name, t); self.eng = ctx.engine(); self.frac = name == 'LinearDelay'
        for op in ('new', 'process', 'process_block', 'clear', 'last_out', 'next_out', 'set_delay', 'get_delay', 'set_max_delay', 'get_max_delay', 'tap_out', 'tap_in', 'add_to'): p.op(op)
        h = p.havoc(self.eng, 'h')
        vs = [q[:-1] for q, _ in flat(h) if q[-1:] == ('arr',)]
        if len(vs) != 1: raise Unsupported('%s does not store its line in one vector' % p.label())
        self.vec = vs[0]
        self.cellnames = {q: self.name_of(q) for q, _ in flat(h)}
        # the cell get_delay() reads
        g = p.call(self.eng, 'get_delay', h, [])[0]
        self.dcell = next((q for q, d in flat(h) if d is g), None)
        self.ints = [q for q, d in flat(h) if isinstance(one(d), R) and is_int(one(d)) and q != self.vec + ('len',) and q != self.dcell]
        self.cand = [(q, k) for q in self.ints for k in ('=L', '=L-1', '<L', '<=L')]
    def name_of(self, q):
        ty = self.p.tt; out = []
        for i in q:
            if ty.get('k') != 'adt' or not isinstance(i, int): out.append(str(i)); continue
            f = ty['variants'][0]['fields'][i]; out.append(f['name']); ty = self.p.ctx.types.get(f['ty'], {})
        return '.'.join(out)
    def vlen(self, s): return cells(s)[self.vec + ('len',)]
    def cond(self, q, k, s):
        """diagram of a candidate bound in state s"""
        def f(c, n):
            return {'=L': lambda: G.eq(c, n, False), '=L-1': lambda: G.eq(c, n - 1, False), '<L': lambda: G.lt(c, n, False), '<=L': lambda: G.le(c, n, False)}[k]()
        return map2(f, cells(s)[q], self.vlen(s))
    def facts(self, h):
        n = one(self.vlen(h)); fs = [G.c_le(T.ONE, n), G.c_le(n, const(MAXLEN))]
        for q, k in self.cand:
            c = one(cells(h)[q])
            fs.append({'=L': G.c_eq(c, n), '=L-1': G.c_eq(c, n - 1), '<L': G.c_lt(c, n), '<=L': G.c_le(c, n)}[k])
        return fs
    def raw(self, name='h'):
        h = self.p.havoc(self.eng, name)
        if self.dcell is not None: h = setcells(h, {self.dcell: num(-1)})
        return h, self.facts(h)
    def mark(self, h):
        """the samples stored in the line and the last output are signal values"""
        G.signal(cells(h)[self.vec + ('arr',)], self.get('last_out', h))
    def delay_atom(self, name='d', n=None):
        """a delay in range and the facts saying so"""
        d = atom(fresh(name, 'r' if self.frac else 'i'))
        return d, [((-d).num, 'le'), G.c_le(d, n - 1)]
    def call(self, op, s, args=()): return self.p.call(self.eng, op, s, list(args))
    def get(self, op, s, args=()): return self.call(op, s, args)[0]
    def set_delay(self, s, d): return self.call('set_delay', s, [d if isinstance(d, D) else L(d)])[1]
    def stable(self, s):
        """the state set_delay would leave with the delay in force"""
        g = self.get('get_delay', s)
        t = setcells(s, {self.dcell: num(-1)}) if self.dcell is not None else s
        return self.set_delay(t, g)
    def tap(self, s, t): return self.get('tap_out', s, [t if isinstance(t, D) else L(t)])
    def pending(self, s, u):
        """content u+1 samples ago, observed through the output: set the delay to u+1 and process one (unrelated) sample"""
        return self.call('process', self.set_delay(s, map1(lambda k: k + 1, u if isinstance(u, D) else L(u))), [x_atom('unrelated')])[0]
    def args_for(self, op, n):
        """generic in-range arguments of an operation, and facts"""
        if op in ('tap_out', 'tap_in', 'add_to'):
            t = atom(fresh('t', 'i')); a = [L(t)] if op == 'tap_out' else [x_atom('v'), L(t)]
            return a, [((-t).num, 'le'), G.c_lt(t, n)]
        if op == 'process': return [x_atom()], []
        if op == 'set_delay':
            v = atom(fresh('v')) if self.frac else atom(fresh('v', 'i', lo=0, hi=E.USIZE_MAX))
            return [L(v)], []
        if op == 'set_max_delay':
            m = atom(fresh('m', 'i', lo=0)); return [L(m)], [G.c_lt(m, const(MAXLEN))]
        return [], []
    OPS = ('process', 'clear', 'last_out', 'next_out', 'set_delay', 'get_delay', 'set_max_delay', 'get_max_delay', 'tap_out', 'tap_in', 'add_to')
    def states_after(self):
        """(op, facts, state before, state after, args)"""
        for op in self.OPS:
            for d, h, fs, s in self.canon():
                n = one(self.vlen(h))
                a, fa = self.args_for(op, n)
                with G.assuming(fs + fa):
                    r, s2, c = self.call(op, s, a)
                    yield op, fs + fa, s, s2, a, r
    def fresh_line(self):
        m = atom(fresh('max', 'i', lo=0)); d = atom(fresh('d', 'r' if self.frac else 'i', lo=None if self.frac else 0, hi=None if self.frac else E.USIZE_MAX))
        fs = [G.c_lt(m, const(MAXLEN))]
        with G.assuming(fs): s, _ = self.p.new(self.eng, [L(d), L(m)])
        return m, d, fs, s
    def canon(self, delay=None):
        """yield (delay term, raw state, facts, canonical state); delay: callable(n) -> (term, facts)"""
        h, fs = self.raw(); n = one(self.vlen(h))
        if G.MODE['sig']: self.mark(h)
        d, fd = (delay or (lambda n: self.delay_atom('d', n)))(n)
        with G.assuming(fs + fd): s = self.set_delay(h, d)
        yield d, h, fs + fd, s
    def one_canon(self, **kw): return next(iter(self.canon(**kw)))
    # -------------------------------------------------- invariant
    def infer(self):
        """largest set of bounds on the position cells that new() establishes and every operation keeps"""
        m, d, fs, s = self.fresh_line()
        with G.assuming(fs): self.cand = [c for c in self.cand if G.never(lnot(self.cond(c[0], c[1], s))) is None]
        while True:
            keep = list(self.cand)
            for op, fs, s, s2, a, r in self.states_after():
                with G.assuming(fs): keep = [c for c in keep if G.never(lnot(self.cond(c[0], c[1], s2))) is None]
            if keep == self.cand: return
            self.cand = keep
    def eqstate(self, rep, key, a, b, where, rule):
        ca, cb = cells(a), cells(b)
        for q in ca:
            if q[-1:] == ('arr',):
                j = atom(fresh('j', 'i')); n = ca[q[:-1] + ('len',)]
                for path, nn in list(G.leaves(n)):
                    with G.assuming(G.lits(path)[0] + [((-j).num, 'le'), G.c_lt(j, nn)]):
                        rep.eq('%s: %s' % (key, self.name_of(q[:-1])), map1(lambda x: E.sel(x, j), ca[q]), map1(lambda x: E.sel(x, j), cb[q]), where, rule)
            else: rep.eq('%s: %s' % (key, self.cellnames.get(q, q)), ca[q], cb[q], where, rule)
    def closed(self, rep):
        """canonical states contain every reachable state"""
        p = self.p
        rule = 'every reachable state is the one set_delay(get_delay()) would leave'
        m, d, fs, s = self.fresh_line()
        with G.assuming(fs + self.nonneg(d)): self.eqstate(rep, '%s reaches a consistent line' % p.label('new'), s, self.stable(s), p.where('new'), rule)
        for op, fs, s, s2, a, r in self.states_after():
            with G.assuming(fs): self.eqstate(rep, '%s keeps the line consistent' % p.label(op), s2, self.stable(s2), p.where(op), rule)
        rep.extra.setdefault('invariants', {})[p.label()] = ['%s %s' % (self.cellnames[q], k) for q, k in self.cand]
    def nonneg(self, d): return []

def is_int(r): return T.is_int_term(r)

_LINES = {}
def line(ctx, name, t):
    k = (id(ctx), name, t)
    if k not in _LINES:
        l = Line(ctx, name, t); l.infer(); _LINES[k] = l
    return _LINES[k]

def clip(v, n):
    """requested delay clipped to 0..n-1"""
    return ite(G.lt(n - 1, v, True), L(n - 1), ite(G.lt(v, T.ZERO, True), num(0), L(v)))

# ---------------------------------------------------------------- C09 / C10
def content_laws(l, rep, tag=''):
    """the content seen by process(): shifts by one per process call, zero in a new or cleared line, unchanged by the other calls"""
    p = l.p
    def u_atom(hi, name='u'):
        u = atom(fresh(name, 'i')); return u, [((-u).num, 'le'), G.c_lt(u, hi)]
    d, h, fs, s = l.one_canon(); n = one(l.vlen(h))
    x = x_atom()
    with G.assuming(fs):
        r, s2, _ = l.call('process', s, [x])
        w = p.where('process')
        with G.assuming([G.c_le(const(2), n)]):
            rep.eq('%s: newest sample' % p.label('process') + tag, l.pending(s2, T.ZERO), x, w, 'the sample just processed is one sample behind the next one')
            u, fu = u_atom(n - 2)
            with G.assuming(fu): rep.eq('%s: shift' % p.label('process') + tag, l.pending(s2, u + 1), l.pending(s, u), w, 'every stored sample moves one further behind per process call')
        rep.eq('%s: delay kept' % p.label('process') + tag, l.get('get_delay', s2), L(d), w, 'process keeps the delay')
        u, fu = u_atom(n - 1)
        with G.assuming(fu):
            for op in ('clear', 'last_out', 'next_out', 'get_delay', 'get_max_delay', 'tap_out', 'tap_in', 'add_to', 'set_delay', 'set_max_delay'):
                a, fa = l.args_for(op, n)
                with G.assuming(fa):
                    _, s3, _ = l.call(op, s, a)
                    want = l.pending(s, u)
                    if op == 'clear': want = num(0)
                    if op == 'tap_in': want = ite(G.eq(one(a[1]), u, False), a[0], want)
                    if op == 'add_to': want = ite(G.eq(one(a[1]), u, False), map2(lambda v, y: E.fl('Add', v, y) if tag else v + y, a[0], want), want)
                    rep.eq('%s: content' % p.label(op) + tag, l.pending(s3, u), want, p.where(op), {'clear': 'silence after clear'}.get(op, 'the call changes no stored sample but the one it addresses'))
        # newly available places after growing
        m = atom(fresh('m', 'i', lo=0)); u, fu = u_atom(m)
        with G.assuming([G.c_lt(m, const(MAXLEN)), G.c_le(n, m), G.c_le(n, u)] + fu):
            _, s3, _ = l.call('set_max_delay', s, [L(m)])
            rep.eq('%s: new places' % p.label('set_max_delay') + tag, l.pending(s3, u), num(0), p.where('set_max_delay'), 'places added to the line are silent')
    m, d0, f0, s0 = l.fresh_line(); u, fu = u_atom(m)
    with G.assuming(f0 + fu): rep.eq('%s: silence' % p.label('new') + tag, l.pending(s0, u), num(0), p.where('new'), 'a new line is silent')

def behind(l, s, x, k):
    """content k samples behind the input x just written (k = 0: x itself)"""
    return ite(G.le(k, T.ZERO, False), x, l.pending(s, k - 1))

def check_C09(ctx, rep):
    for t in TYPES:
        l = line(ctx, 'Delay', t); p = l.p
        l.closed(rep)
        content_laws(l, rep)
        d, h, fs, s = l.one_canon()
        with G.assuming(fs):
            x = x_atom(); r, s2, _ = l.call('process', s, [x])
            rep.eq('%s output' % p.label('process'), r, behind(l, s, x, d), p.where('process'), 'process returns the sample get_delay() behind the input')
        with G.bitwise(): content_laws(l, rep, ' bit for bit')
        rep.note(l.eng)

def check_C10(ctx, rep):
    for t in TYPES:
        l = line(ctx, 'LinearDelay', t); p = l.p
        l.closed(rep)
        content_laws(l, rep)
        # whole delay, and between two whole delays w-1 and w
        d, h, fs, s = l.one_canon(delay=lambda n: (T.ZERO, []))
        with G.assuming(fs):
            x = x_atom(); rep.eq('%s output at delay 0' % p.label('process'), l.call('process', s, [x])[0], x, p.where('process'), 'no delay passes the input through')
        w = atom(fresh('w', 'i', lo=1)); a = atom(fresh('a', lo=0, hi=1))
        d, h, fs, s = l.one_canon(delay=lambda n: (w - a, [G.c_lt(w, n), G.c_lt(a, T.ONE)]))
        with G.assuming(fs):
            x = x_atom(); r = l.call('process', s, [x])[0]
            want = map2(lambda p_, q_: p_ * (1 - a) + q_ * a, behind(l, s, x, w), behind(l, s, x, w - 1))
            rep.eq('%s output' % p.label('process'), r, want, p.where('process'), 'linear interpolation between the samples w and w-1 behind, at delay w-a')
        rep.note(l.eng)

# ---------------------------------------------------------------- C11
def check_C11(ctx, rep):
    for t in TYPES:
        for name in DELAYS:
            l = line(ctx, name, t); p = l.p
            rng = p.where('set_delay')
            for mode in ((False, True) if l.frac else (False,)):
                G.MODE['nan'] = mode
                try:
                    tag = ' (IEEE)' if mode else ''
                    h, fs = l.raw(); n = one(l.vlen(h))
                    v, fv = l.args_for('set_delay', n); v = v[0]; notnan = lnot(G.fclass('nan', one(v))) if mode else TRUE
                    with G.assuming(fs):
                        s = l.set_delay(h, v)
                        rep.eq('%s then get_delay%s' % (p.label('set_delay'), tag), l.get('get_delay', s), clip(one(v), n) if l.frac else map1(lambda y: ite(G.lt(n - 1, y, False), L(n - 1), L(y)), v),
                               rng, 'the requested delay clipped to 0..max', under=notnan)
                        rep.eq('%s then get_max_delay%s' % (p.label('set_delay'), tag), l.get('get_max_delay', s), l.get('get_max_delay', h), rng, 'set_delay leaves the maximum alone')
                    m = atom(fresh('max', 'i', lo=0)); d = atom(fresh('d', 'r' if l.frac else 'i', lo=None if l.frac else 0)); notnan = lnot(G.fclass('nan', d)) if mode else TRUE
                    with G.assuming([G.c_lt(m, const(MAXLEN))]):
                        s, _ = p.new(l.eng, [L(d), L(m)])
                        rep.eq('%s then get_delay%s' % (p.label('new'), tag), l.get('get_delay', s), clip(d, m + 1) if l.frac else ite(G.lt(m, d, False), L(m), L(d)), p.where('new'), 'the requested delay clipped to 0..max', under=notnan)
                        rep.eq('%s then get_max_delay%s' % (p.label('new'), tag), l.get('get_max_delay', s), L(m), p.where('new'), 'the maximum given at construction')
                finally: G.MODE['nan'] = False
            for op, fs, s, s2, a, r in l.states_after():
                with G.assuming(fs):
                    mx = l.get('get_max_delay', s)
                    if op == 'set_max_delay':
                        mx = map2(lambda x, y: ite(G.lt(x, y, False), L(y), L(x)), mx, a[0])
                    rep.eq('%s then get_max_delay' % p.label(op), l.get('get_max_delay', s2), mx, p.where(op), 'the maximum changes only by growing')
                    if op != 'set_delay':
                        rep.eq('%s then get_delay' % p.label(op), l.get('get_delay', s2), l.get('get_delay', s), p.where(op), 'only set_delay changes the delay')
            l.closed(rep)
            rep.note(l.eng)

# ---------------------------------------------------------------- C12
def check_C12(ctx, rep):
    for t in TYPES:
        for name in DELAYS:
            l = line(ctx, name, t); p = l.p; w = p.where('set_max_delay')
            l.closed(rep)
            d, h, fs, s = l.one_canon(); n = one(l.vlen(h))
            m = atom(fresh('m', 'i', lo=0))
            with G.assuming(fs + [G.c_lt(m, const(MAXLEN))]):
                _, s2, _ = l.call('set_max_delay', s, [L(m)])
                k = p.label('set_max_delay')
                for op in ('last_out', 'get_delay'): rep.eq('%s then %s' % (k, op), l.get(op, s2), l.get(op, s), w, 'growing changes neither delay nor last output')
                u = atom(fresh('u', 'i'))
                with G.assuming([((-u).num, 'le'), G.c_lt(u, n)]): rep.eq('%s: old taps' % k, l.tap(s2, u), l.tap(s, u), w, 'every tap readable before reads the same')
                with G.assuming([G.c_le(n, u), G.c_le(u, m)]): rep.eq('%s: new taps' % k, l.tap(s2, u), num(0), w, 'newly available taps read zero')
                with G.assuming([((-u).num, 'le'), G.c_lt(u, n - 1)]): rep.eq('%s: pending outputs' % k, l.pending(s2, u), l.pending(s, u), w, 'stored samples come out as before')
                with G.assuming([G.c_lt(m, n)]): l.eqstate(rep, '%s not exceeding the maximum' % k, l.call('set_max_delay', s, [L(m)])[1], s, w, 'a call that does not exceed the maximum changes nothing')
            with G.bitwise():
                d, h, fs, s = l.one_canon(); n = one(l.vlen(h))
                with G.assuming(fs + [G.c_lt(m, const(MAXLEN))]):
                    _, s2, _ = l.call('set_max_delay', s, [L(m)])
                    rep.eq('%s then last_out bit for bit' % k, l.get('last_out', s2), l.get('last_out', s), w, 'growing does not change the last output')
                    with G.assuming([((-u).num, 'le'), G.c_lt(u, n)]): rep.eq('%s: old taps bit for bit' % k, l.tap(s2, u), l.tap(s, u), w, 'every tap readable before reads the same')
            rep.note(l.eng)

# ---------------------------------------------------------------- C13
def check_C13(ctx, rep):
    for t in TYPES:
        for name in DELAYS:
            l = line(ctx, name, t)
            l.closed(rep)
            tap_laws(l, rep)
            with G.bitwise(): tap_laws(l, rep, ' bit for bit')
            rep.note(l.eng)

def tap_laws(l, rep, tag=''):
    """tag: arithmetic on samples as it is written; later outputs of the interpolating line are then products, so only taps are compared"""
    p = l.p; plain = not tag
    def eq(key, *a): rep.eq(key + tag, *a)
    d, h, fs, s = l.one_canon(); n = one(l.vlen(h))
    u = atom(fresh('u', 'i')); v = x_atom('v'); tt = atom(fresh('t', 'i')); x = x_atom()
    rng = [((-u).num, 'le'), G.c_lt(u, n), ((-tt).num, 'le'), G.c_lt(tt, n)]
    add = (lambda a, b: a + b) if plain else (lambda a, b: E.fl('Add', a, b))
    with G.assuming(fs + rng):
        _, s2, _ = l.call('process', s, [x])
        eq('%s: newest' % p.label('tap_out'), l.tap(s2, T.ZERO), x, p.where('tap_out'), 'tap 0 is the sample just processed')
        with G.assuming([G.c_lt(u, n - 1)]): eq('%s: shift' % p.label('tap_out'), l.tap(s2, u + 1), l.tap(s, u), p.where('tap_out'), 'tap t+1 after a process call is tap t before it')
        if plain or not l.frac:
            with G.assuming([G.c_lt(u, n - 1)]): eq('%s: same sample as the output' % p.label('tap_out'), l.tap(s, u), l.pending(s, u), p.where('tap_out'), 'a tap reads the sample that delay would output')
        for op, new in (('tap_in', v), ('add_to', map2(add, l.tap(s, tt), v))):
            r, s3, _ = l.call(op, s, [v, L(tt)]); w = p.where(op); k = p.label(op)
            eq('%s: taps' % k, l.tap(s3, u), ite(G.eq(u, tt, False), new, l.tap(s, u)), w, 'exactly the addressed sample changes')
            if op == 'add_to': eq('%s: returns the sum' % k, r, new, w, 'add_to returns the new value')
            for o in ('last_out', 'get_delay', 'get_max_delay'): eq('%s then %s' % (k, o), l.get(o, s3), l.get(o, s), w, 'no setting is affected')
            if plain or not l.frac:
                with G.assuming([G.c_lt(u, n - 1)]): eq('%s: pending output' % k, l.pending(s3, u), ite(G.eq(u, tt, False), new, l.pending(s, u)), w, 'only the addressed sample changes in later outputs')
        if plain:
            r, s3, _ = l.call('tap_out', s, [L(tt)])
            l.eqstate(rep, '%s changes nothing' % p.label('tap_out'), s3, s, p.where('tap_out'), 'reading a tap changes nothing')
        _, s4, _ = l.call('set_delay', s, l.args_for('set_delay', n)[0])
        eq('%s: taps' % p.label('set_delay'), l.tap(s4, u), l.tap(s, u), p.where('set_delay'), 'changing the delay moves no stored sample')
        for o in ('last_out', 'next_out', 'get_delay', 'get_max_delay'):
            eq('%s: taps' % p.label(o), l.tap(l.call(o, s)[1], u), l.tap(s, u), p.where(o), 'reading changes no stored sample')
        eq('%s: taps' % p.label('clear'), l.tap(l.call('clear', s)[1], u), num(0), p.where('clear'), 'every tap reads zero after clear')
    if plain:
        m, d0, f0, s0 = l.fresh_line()
        with G.assuming(f0 + [((-u).num, 'le'), G.c_le(u, m)]): eq('%s: silence' % p.label('new'), l.tap(s0, u), num(0), p.where('tap_out'), 'every tap of a new line reads zero')

# ---------------------------------------------------------------- C14
def check_C14(ctx, rep):
    for t in TYPES:
        for name in DELAYS:
            l = line(ctx, name, t); p = l.p; w = p.where('next_out')
            l.closed(rep)
            d, h, fs, s = l.one_canon()
            with G.assuming(fs):
                r, s2, _ = l.call('next_out', s)
                l.eqstate(rep, '%s changes nothing' % p.label('next_out'), s2, s, w, 'next_out() has no effect')
                with G.assuming([G.c_le(T.ONE, d)]):
                    y = l.call('process', s, [x_atom()])[0]
                    rep.eq('%s previews process' % p.label('next_out'), r, y, w, 'equals what the next process() returns, whatever its input')
                    z = l.call('process', s2, [x_atom()])[0]
                    rep.eq('%s then process' % p.label('next_out'), z, y, w, 'the next output is the one without the preview')
            with G.bitwise():
                d, h, fs, s = l.one_canon()
                with G.assuming(fs + [G.c_lt(T.ONE, d) if l.frac else G.c_le(T.ONE, d)]):      # a fractional line multiplies the input by zero at delay 1
                    r, s2, _ = l.call('next_out', s)
                    rep.eq('%s previews process bit for bit' % p.label('next_out'), r, l.call('process', s, [x_atom()])[0], w, 'equals exactly what the next process() returns, whatever its input')
                    l.eqstate(rep, '%s changes nothing bit for bit' % p.label('next_out'), s2, s, w, 'next_out() has no effect')
            rep.note(l.eng)

# ---------------------------------------------------------------- delay parts of C03, C04, C07
def check_C03_delay(ctx, rep):
    for t in TYPES:
        for name in DELAYS:
            l = line(ctx, name, t); p = l.p; w = p.where('clear')
            l.closed(rep)
            d, h, fs, s = l.one_canon(); n = one(l.vlen(h)); u = atom(fresh('u', 'i')); k = p.label('clear')
            with G.assuming(fs):
                _, s2, _ = l.call('clear', s)
                rep.eq('%s then last_out' % k, l.get('last_out', s2), num(0), w, 'last output reads zero after clear()')
                for o in ('get_delay', 'get_max_delay'): rep.eq('%s then %s' % (k, o), l.get(o, s2), l.get(o, s), w, 'clear() changes no configuration')
                with G.assuming([((-u).num, 'le'), G.c_lt(u, n)]):
                    rep.eq('%s: taps' % k, l.tap(s2, u), num(0), w, 'every tap reads zero')
                    rep.eq('%s: line' % k, map1(lambda a: E.sel(a, u), cells(s2)[l.vec + ('arr',)]), num(0), w, 'the whole line is silent')
                with G.assuming([((-u).num, 'le'), G.c_lt(u, n - 1)]): rep.eq('%s: pending outputs' % k, l.pending(s2, u), num(0), w, 'nothing stored comes out later')
                # against a fresh line of the same size and delay: every first observation agrees (content is silent in both)
                f, _ = p.new(l.eng, [L(d), L(n - 1)])
                x = x_atom()
                rep.eq('%s vs fresh: process' % k, l.call('process', s2, [x])[0], l.call('process', f, [x])[0], w, 'a cleared line and a fresh one with the same configuration give the same outputs')
                rep.eq('%s vs fresh: next_out' % k, l.get('next_out', s2), l.get('next_out', f), w, 'a cleared line and a fresh one with the same configuration give the same outputs')
                for o in ('last_out', 'get_delay', 'get_max_delay'): rep.eq('%s vs fresh: %s' % (k, o), l.get(o, s2), l.get(o, f), w, 'same observations as a fresh line')
            with G.bitwise():
                d, h, fs, s = l.one_canon(); n = one(l.vlen(h))
                with G.assuming(fs):
                    _, s2, _ = l.call('clear', s)
                    rep.eq('%s then last_out, whatever was stored' % k, l.get('last_out', s2), num(0), w, 'no NaN or infinity survives clear()')
                    with G.assuming([((-u).num, 'le'), G.c_lt(u, n)]): rep.eq('%s: taps, whatever was stored' % k, l.tap(s2, u), num(0), w, 'no NaN or infinity survives clear()')
            rep.note(l.eng)

def check_C04_delay(ctx, rep):
    for t in TYPES:
        for name in DELAYS:
            l = line(ctx, name, t); p = l.p
            m, d, fs, s = l.fresh_line()
            with G.assuming(fs): rep.eq('%s then last_out' % p.label('new'), l.get('last_out', s), num(0), p.where('new'), 'zero before anything is processed')
            for op, fs, s, s2, a, r in l.states_after():
                with G.assuming(fs):
                    want = r if op == 'process' else num(0) if op == 'clear' else l.get('last_out', s)
                    rep.eq('%s then last_out' % p.label(op), l.get('last_out', s2), want, p.where(op), {'process': 'last_out() is what process() returned', 'clear': 'zero after clear()'}.get(op, 'no other call changes last_out()'))
            with G.bitwise():
                for op, fs, s, s2, a, r in l.states_after():
                    with G.assuming(fs):
                        if op != 'clear': rep.eq('%s then last_out bit for bit' % p.label(op), l.get('last_out', s2), r if op == 'process' else l.get('last_out', s), p.where(op), 'last_out() is exactly what process() returned')
            rep.note(l.eng)

def check_C07_delay(ctx, rep):
    for t in TYPES:
        for name in DELAYS:
            l = line(ctx, name, t); p = l.p
            for op, fs, s, s2, a, r in l.states_after():
                with G.assuming(fs):
                    for g in ('get_delay', 'get_max_delay'):
                        if op == 'set_' + g[4:]: continue
                        rep.eq('%s then %s' % (p.label(op), g), l.get(g, s2), l.get(g, s), p.where(op), 'only its own setter changes a setting')
            rep.note(l.eng)

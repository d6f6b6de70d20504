"""No panic for in-range arguments (C15): every panic site reachable from a public operation is an obligation, decided with IEEE
comparisons and arbitrary rounding."""
from core import *
import delays, windows, blocks, models

HOOK = [None]
def collect(rep, eng, label):
    if HOOK[0]: return HOOK[0](rep, eng, label)
    for o in eng.obls:
        rep.ob('%s: %s at %s' % (label, o['kind'], o['loc']), o['ok'], '%s (%s)' % (o['fn'], o['loc']), 'reachable when %s' % o['path'], 'panic site unreachable')
    n = len(eng.obls); eng.obls = []
    if not n: rep.ob('%s: no panic site' % label, True)
    rep.note(eng)

class PLine(delays.Line):
    """delay line whose states are all states within the inferred bounds (no relation between delay and position assumed)"""
    def __init__(self, ctx, name, t):
        super().__init__(ctx, name, t)
        if self.dcell is not None and not self.frac: self.ints.append(self.dcell)
        self.cand = [(q, k) for q in self.ints for k in ('=L', '=L-1', '<L', '<=L')]
    def raw(self, name='h'):
        h = self.p.havoc(self.eng, name)
        return h, self.facts(h)
    def canon(self, delay=None):
        h, fs = self.raw()
        yield None, h, fs, h

def returns(rep, label, c, where): rep.holds('%s returns' % label, c, where, 'the call returns')

def check_C15(ctx, rep):
    with G.rounded(): run_all(ctx, rep, TYPES)

def run_all(ctx, rep, types):
    """analyse every public operation from every state, in the current arithmetic mode; collect() sees each engine"""
    seen = set()
    if True:
        for t in types:
            for name in PROCS + WINDOWS:
                p = ctx.proc(name, t)
                if name in DELAYS: delay_ops(ctx, rep, name, t, seen); continue
                if name in WINDOWS: window_ops(ctx, rep, name, t, seen); continue
                for op in p.ops:
                    if not p.ops[op]['reachable'] or op == 'process_block': continue
                    eng = ctx.engine(); eng.record = True; st = {}
                    if p.takes_self(op): p.call(eng, op, p.havoc(eng, 's', st), p.args(eng, op, st), st)
                    else: eng.call_key(p.op(op)['inst'], p.args(eng, op, st), st)
                    collect(rep, eng, p.label(op)); seen.add(p.ops[op]['inst'])
                block(ctx, rep, p, None); seen.add(p.ops['process_block']['inst'])
            for name in ('to_db', 'to_sample', 'apply_gain'):
                f = ctx.fn(name, t); eng = ctx.engine(); eng.record = True; x = atom(fresh('x')); args = [L(x)]; pre = TRUE
                if name == 'to_db': pre = lnot(G.fclass('signneg', x))
                if name == 'apply_gain': r = atom(fresh('ratio')); args.append(L(r)); pre = land(lnot(G.fclass('signneg', r)), G.fclass('finite', r))
                eng.conds.append(pre); eng.call_key(f['inst'], args, {}); collect(rep, eng, '%s<%s>' % (name, t)); seen.add(f['inst'])
            f = ctx.fn('apply_window', t); seen.add(f['inst'])
            wt = next(v for k, v in ctx.types.items() if v.get('k') == 'adt' and v.get('adt') == 'enum' and v['path'].split('::')[-1] == 'Window')
            for vi, v in enumerate(wt['variants']):
                eng = ctx.engine(); eng.record = True; st = {}
                ref = eng.havoc(ctx.prog.bodies[f['inst']]['locals'][1], 'in', st)
                with G.assuming([G.c_le(one(st[ref.val.root].len), const(delays.MAXLEN))]):
                    eng.call_key(f['inst'], [ref, EnumV(num(int(v['disc'])), {vi: ()})], st)
                    collect(rep, eng, 'apply_window<%s>(%s)' % (t, v['name']))
        for e in ctx.prog.entries:
            if e.get('t') not in types + [None, '-'] or not e['reachable'] or e['inst'] in seen or derived(e): continue
            if not documented(e): rep.extra.setdefault('outside_the_interface', []).append(e['inst']); continue
            eng = ctx.engine(); eng.record = True; st = {}
            b = ctx.prog.bodies[e['inst']]
            eng.call_key(e['inst'], [eng.havoc(ty, 'a%d' % i, st) for i, ty in enumerate(b['locals'][1:b['argc'] + 1])], st)
            collect(rep, eng, e['inst'])

def block(ctx, rep, p, setup):
    k = p.label('process_block')
    old = blocks.setup
    try:
        if setup: blocks.setup = setup
        r = blocks.run_block(ctx, rep, p.name, p.t, record=True)
    finally: blocks.setup = old
    if setup and not all(o['ok'] for o in r[1].obls):
        # a loop written for the states the delay calls really leave (position and delay related)
        r2 = blocks.run_block(ctx, rep, p.name, p.t, record=True)
        if all(o['ok'] for o in r2[1].obls): r = r2
    with G.assuming(r[-1]): collect(rep, r[1], k)

def delay_ops(ctx, rep, name, t, seen):
    l = PLine(ctx, name, t); l.infer(); p = l.p
    rep.extra.setdefault('invariants', {})[p.label()] = ['%s %s' % (l.cellnames[q], k) for q, k in l.cand]
    for op in l.OPS:
        h, fs = l.raw(); n = one(l.vlen(h))
        a, fa = l.args_for(op, n)
        eng = ctx.engine(); eng.record = True
        with G.assuming(fs + fa): p.call(eng, op, h, a); collect(rep, eng, p.label(op))
        seen.add(p.ops[op]['inst'])
    m = atom(fresh('max', 'i', lo=0)); d = atom(fresh('d', 'r' if l.frac else 'i', lo=None if l.frac else 0, hi=None if l.frac else E.USIZE_MAX))
    eng = ctx.engine(); eng.record = True
    with G.assuming([G.c_lt(m, const(delays.MAXLEN))]): p.new(eng, [L(d), L(m)]); collect(rep, eng, p.label('new'))
    seen.add(p.ops['new']['inst'])
    def setup(ctx, rep, name, t):
        h, fs = l.raw()
        def ghost():
            g = p.havoc(l.eng, 'g'); g = setcells(g, {l.vec + ('len',): l.vlen(h)}); return g, l.facts(g)
        return p, h, ghost, fs
    block(ctx, rep, p, setup); seen.add(p.ops['process_block']['inst'])

def window_ops(ctx, rep, name, t, seen):
    w = windows.Win(ctx, name, t); p = w.p; i = atom(fresh('i', 'i', lo=0))
    for op in p.ops:
        if not p.ops[op]['reachable']: continue
        eng = ctx.engine(); eng.record = True
        # without a way to skip ahead the position counts calls of next
        calls = [] if p.ops.get('nth', {}).get('reachable') else [G.c_le(i, const(2**62))]
        with G.assuming([G.c_le(i, w.n)] + calls):
            if op == 'new': p.new(eng, [L(w.n)])
            elif op in ('fold', 'for_each'):
                st = {}; f = models.sink(st)
                eng.call_key(p.op(op)['inst'], [w.at(i)] + ([num(0)] if op == 'fold' else []) + [f], st)
            elif not p.takes_self(op): eng.call_key(p.op(op)['inst'], [w.at(i)] + p.args(eng, op)[1:], {})
            else: p.call(eng, op, w.at(i), p.args(eng, op))
            collect(rep, eng, p.label(op))
        seen.add(p.ops[op]['inst'])

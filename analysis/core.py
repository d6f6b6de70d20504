"""Shared base of the checkers: the analysed program, the processors found in it, running operations abstractly, affine hulls of
reachable states, and the collection of obligations."""
import json, sys
from fractions import Fraction as F
import terms as T
from terms import R, ATOMS, const, atom, fresh, atoms_of
import gates as G
from gates import D, L, TRUE, FALSE, ite, land, lor, lnot, map1, map2, mapn, num
import engine as E
from engine import Engine, Program, Agg, EnumV, VecV, Loc, UNDEF, flat, vmap, vsubst, Unsupported, Arr
import build

sys.setrecursionlimit(40000)

FILTERS = ['OnePole', 'OneZero', 'TwoPole', 'TwoZero', 'Biquad1', 'Biquad2']
RBJ = ['AllPass', 'BandPass1', 'BandPass2', 'BandStop', 'HighPass', 'HighShelf', 'LowPass', 'LowShelf', 'Peak']
ANALYSIS = ['LeakyIntegrator', 'PeakEnvDetector', 'RmsEnvDetector']
DELAYS = ['Delay', 'LinearDelay']
PROCS = FILTERS + RBJ + ANALYSIS + DELAYS
WINDOWS = ['TriangularIter', 'BartlettIter', 'HannIter', 'HammingIter', 'BlackmanIter', 'BlackmanHarrisIter']
TYPES = ['f64', 'f32']

class Missing(Exception): pass

class Report:
    """obligations of one check"""
    def __init__(self, pid):
        self.pid = pid; self.items = []; self.fns = set(); self.samples = []; self.sites = 0; self.loops = 0; self.extra = {}
    def ob(self, key, ok, where='', detail='', rule=''):
        self.items.append({'key': key, 'ok': bool(ok), 'where': where, 'detail': str(detail)[:1500], 'rule': rule})
        return ok
    def eq(self, key, a, b, where, rule='', tol=0, under=None, show=None):
        """gated values agree on every feasible path"""
        if under is not None and under is not TRUE:
            dead = L('__dead__'); a, b = ite(under, a, dead), ite(under, b, dead)
        w = G.equal(a, b, tol)
        d = ''
        if w is not None: d = 'when %s: code gives %s, expected %s' % (G.showpath(w[0]), str(w[1])[:400], str(w[2])[:400])
        self.ob(key, w is None, where, d, rule)
        if w is None and len(self.samples) < 6 and rule: self.samples.append({'obligation': key, 'where': where, 'rule': rule, 'value': str(a)[:200]})
        return w is None
    def holds(self, key, c, where, rule=''):
        """boolean diagram is true on every feasible path"""
        w = G.never(lnot(c))
        self.ob(key, w is None, where, '' if w is None else 'fails when ' + G.showpath(w), rule)
        return w is None
    def note(self, eng):
        self.fns |= {eng.p.bodies[k]['path'] for k in eng.visited if k in eng.p.bodies and eng.p.bodies[k]['local']}
        self.sites += eng.sites; self.loops += len(eng.loops_done); eng.sites = 0; eng.loops_done = []
        for n in eng.notes: self.ob('unmodelled:' + n, False, '', 'the analysis does not model this construct, so the property cannot be established: ' + n)
        eng.notes = []
    def bad(self): return [x for x in self.items if not x['ok']]

class Ctx:
    def __init__(self, release=False, opt=None, fresh=False):
        path, self.key = build.extract(release, opt, fresh)
        self.prog = Program(json.load(open(path)))
        self.types = self.prog.types
    def engine(self): return Engine(self.prog)
    def entries(self, **kw):
        return [e for e in self.prog.entries if all(e.get(k) == v for k, v in kw.items())]
    def proc(self, name, t): return Proc(self, name, t)
    def fn(self, name, t):
        """free public function by name"""
        c = [e for e in self.prog.entries if e['name'] == name and e.get('t') in (t, None, '-') and not e.get('self') and e['reachable']]
        if not c: raise Missing('public function %s (%s) not found' % (name, t))
        return c[0]

def derived(e):
    """implementation of a standard trait that builds, compares or prints values: it takes its receiver by shared reference, so it changes nothing"""
    return (e.get('trait') or '').startswith(('core::fmt::', 'core::clone::', 'core::cmp::', 'core::hash::', 'core::default::', 'core::marker::'))

API = {'new', 'process', 'process_block', 'clear', 'last_out', 'set_coefficients', 'get_alpha', 'set_alpha', 'get_attack_gain', 'set_attack', 'get_release_gain', 'set_release',
       'set_max_delay', 'get_max_delay', 'set_delay', 'get_delay', 'next_out', 'tap_out', 'tap_in', 'add_to',
       'next', 'len', 'size_hint', 'nth', 'count', 'last', 'fold', 'for_each', 'to_db', 'to_sample', 'apply_gain', 'apply_window', 'pi', 'two'}
def documented(e):
    """part of the interface the properties speak about; an operation added beside it is listed in the evidence as outside"""
    return e['name'] in API

class Proc:
    """a public type instantiated for one sample type, with its operations"""
    def __init__(self, ctx, name, t):
        self.ctx = ctx; self.name = name; self.t = t
        es = [e for e in ctx.prog.entries if e.get('adt') and e['adt'].split('::')[-1] == name and e.get('t') == t]
        pubs = {e['self'] for e in es if e['reachable']}
        if not es or len(pubs) != 1: raise Missing('type %s<%s> not found' % (name, t))
        self.ty = pubs.pop()
        self.ops = {}
        for e in es:
            if e['self'] == self.ty and not derived(e) and documented(e): self.ops[e['name']] = e
        self.loc = es[0]['loc']
        self.tt = ctx.types[self.ty]
        self.fields = self.tt['variants'][0]['fields']
    def label(self, op=None): return '%s<%s>%s' % (self.name, self.t, '::' + op if op else '')
    def where(self, op):
        e = self.ops.get(op)
        return '%s (%s)' % (e['path'], e['loc']) if e else self.label(op)
    def has(self, op): return op in self.ops
    def op(self, op):
        if op not in self.ops: raise Missing('%s has no operation %s' % (self.label(), op))
        return self.ops[op]
    def body(self, op): return self.ctx.prog.bodies[self.op(op)['inst']]
    def argtys(self, op): b = self.body(op); return b['locals'][1:b['argc'] + 1]
    def argnames(self, op):
        b = self.body(op); nm = {i: n for i, n in b['names']} if b['names'] else {}
        return [nm.get(i + 1, 'a%d' % i) for i in range(b['argc'])]
    def takes_self(self, op):
        a = self.argtys(op)
        return bool(a) and a[0] in ('&' + self.ty, '&mut ' + self.ty)
    def mutates(self, op): return self.argtys(op)[:1] == ['&mut ' + self.ty]

    def new(self, eng, args, st=None):
        st = {} if st is None else st
        v, c = eng.call_key(self.op('new')['inst'], list(args), st)
        return v, c
    def call(self, eng, op, state, args, st=None):
        """(return value, state after, condition of returning)"""
        st = {} if st is None else st
        eng.uid += 1; root = ('heap', eng.uid)
        st[root] = state
        v, c = eng.call_key(self.op(op)['inst'], [L(Loc(root))] + list(args), st)
        after = st.get(root)
        if c is not TRUE and v is not UNDEF:
            v = vmap(v, lambda p, d: eng.under(d, c)); after = vmap(after, lambda p, d: eng.under(d, c))
        self.last_st = st
        return v, after, c
    def havoc(self, eng, name='s', st=None): return eng.havoc(self.ty, name, {} if st is None else st)
    def args(self, eng, op, st=None):
        st = {} if st is None else st
        tys = self.argtys(op); nms = self.argnames(op)
        k = 1 if self.takes_self(op) else 0
        return [eng.havoc(ty, n, st) for ty, n in list(zip(tys, nms))[k:]]
    def field_index(self, name):
        for i, f in enumerate(self.fields):
            if f['name'] == name: return i
        return None

def cells(v): return dict(flat(v))
def setcells(v, mp): return vmap(v, lambda p, d: mp.get(p, d))
def x_atom(name='x'):
    d = L(atom(fresh(name)))
    if G.MODE['sig']: G.signal(d)
    return d
def keeps(rep, key, before, after, names, where, rule):
    """cells written by a call hold no arithmetic on signal values (a NaN or an infinity would survive it)"""
    a, b = cells(before), cells(after)
    for q in b:
        if b[q] is not a.get(q): rep.ob('%s: %s' % (key, names(q)), not E.kept(b[q]), where, 'is left as %s, computed from the signal' % str(b[q])[:300], rule)
def one(d): return d.val if isinstance(d, D) and d.var is None else None

# ---------------------------------------------------------------- affine hulls
class Hull:
    """smallest affine set containing the reachable values of n scalar cells (homogenised linear span)"""
    def __init__(self, n): self.n = n; self.rows = []       # reduced row echelon, vectors (h, v1..vn)
    def add(self, v):
        v = [F(x) for x in v]
        for r, p in self.rows:
            if v[p]: c = v[p]; v = [a - c * b for a, b in zip(v, r)]
        p = next((i for i, a in enumerate(v) if a), None)
        if p is None: return False
        c = v[p]; v = [a / c for a in v]
        self.rows = [([a - r[p] * b for a, b in zip(r, v)], q) for r, q in self.rows] + [(v, p)]
        return True
    def param(self, names):
        """terms for the cells of a generic point"""
        hs = [r for r, p in self.rows if p == 0]
        vs = sorted([(p, r) for r, p in self.rows if p != 0], key=lambda t: t[0])
        ps = [(atom(fresh('%s' % names[p - 1])), r) for p, r in vs]
        out = []
        for i in range(1, self.n + 1):
            t = const(hs[0][i]) if hs else T.ZERO
            for a, r in ps:
                if r[i]: t = t + a * const(r[i])
            out.append(t)
        return out

def joint(ds):
    """list of diagrams -> diagram of tuples"""
    if not ds: return L(G.Tup(()))
    z = map1(lambda x: G.Tup((x,)), ds[0])
    for d in ds[1:]: z = map2(lambda t, x: G.Tup(t.t + (x,)), z, d)
    return z

def add_image(h, ds):
    """add the values of gated cells to a hull; True if it grew"""
    grew = False
    for path, t in G.leaves(joint(ds)):
        cs, _ = G.lits(path)
        xs = []
        for x in t.t:
            if not isinstance(x, R): raise Unsupported('state cell that is not a number: %r' % (x,))
            xs.append(G.reduce_eqs(x, cs) if cs else x)
        den = {}
        for x in xs:
            for k, (f, e) in x.den.items():
                if e > den.get(k, (f, 0))[1]: den[k] = (f, e)
        def over(x):
            p = x.num
            for k, (f, e) in den.items():
                for _ in range(e - x.den.get(k, (f, 0))[1]): p = T.pmul(p, f)
            return p
        ps = [over(T.ONE)] + [over(x) for x in xs]
        monos = set()
        for p in ps: monos |= set(p)
        for m in monos: grew |= h.add([p.get(m, 0) for p in ps])
    return grew

def run_hull(h, step, names, limit=40):
    """close the hull under step(cells as terms) -> list of lists of diagrams"""
    for _ in range(limit):
        cs = h.param(names)
        grew = False
        for ds in step(cs): grew |= add_image(h, ds)
        if not grew: return h.param(names)
    raise Unsupported('state hull did not stabilise')

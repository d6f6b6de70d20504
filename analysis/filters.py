"""Checks on the scalar-state processors: basic filters, RBJ filters, integrator and detectors (C01-C04, C06-C08, C16-C18)."""
import itertools
from core import *

# ---------------------------------------------------------------- model of one processor
class Model:
    """cells of a scalar-state processor split into configuration and signal state"""
    def __init__(self, ctx, rep, name, t):
        self.rep = rep; self.p = p = ctx.proc(name, t); self.eng = ctx.engine()
        for op in ('new', 'process', 'clear', 'last_out', 'process_block'): p.op(op)
        self.fresh_state, _ = p.new(self.eng, [])
        self.paths = [q for q, _ in flat(self.fresh_state)]
        self.pub = {}                                           # name -> path of public scalar fields
        for i, f in enumerate(p.fields):
            if f['pub']: self.pub[f['name']] = (i,)
        self.setters = [o for o in p.ops if p.takes_self(o) and p.mutates(o) and o not in ('process', 'process_block', 'clear') and p.ops[o]['reachable']]
        self.observers = [o for o in p.ops if p.takes_self(o) and not p.mutates(o) and p.ops[o]['reachable']]
        self.config = set(self.pub.values())
        for o in self.setters:
            s = p.havoc(self.eng); args = p.args(self.eng, o)
            aa = set()
            for a in args: aa |= a.atoms()
            G.FINITE.update(one(a).id for a in args)
            _, s2, _ = p.call(self.eng, o, s, args)
            for q, d in flat(s2):
                if d.atoms() & aa: self.config.add(q)
            # a setter may also store a constant (the all-pass b2 is always 1): configuration when process and clear leave it alone
            s = p.havoc(self.eng); c0 = cells(s)
            pc, cc = cells(p.call(self.eng, 'process', s, [x_atom()])[1]), cells(p.call(self.eng, 'clear', s, [])[1])
            for q in self.paths:
                if pc[q] is c0[q] and cc[q] is c0[q] and cells(s2)[q] is not c0[q]: self.config.add(q)
        self.state = [q for q in self.paths if q not in self.config]
        for q, d in flat(self.fresh_state):
            if not isinstance(one(d), R): raise Unsupported('%s: cell %s is not a plain number after new()' % (p.label(), q))

    def name_of(self, q):
        ty = self.p.tt; out = []
        for i in q:
            if ty.get('k') != 'adt': out.append(str(i)); continue
            f = ty['variants'][0]['fields'][i]; out.append(f['name']); ty = self.p.ctx.types.get(f['ty'], {})
        return '.'.join(out)

    # configurations in force: lists of cell values for the configuration paths
    def configs(self):
        """list of {path: D}"""
        cfg = sorted(self.config, key=str)
        fc = cells(self.fresh_state)
        if self.p.name not in ANALYSIS:
            return [{q: x_atom(self.name_of(q)) for q in cfg}]
        out = []
        for k in range(len(self.setters) + 1):
            for sub in itertools.combinations(self.setters, k):
                v = self.fresh_state; ok = True
                for o in sub:
                    args = [L(valid_arg(self.p, o))]
                    _, v, _ = self.p.call(self.eng, o, v, args)
                vc = cells(v)
                out.append({q: G.simplify(vc[q]) for q in cfg})
        return out
    def build(self, cs, cfg):
        mp = dict(zip(self.state, [L(c) if isinstance(c, R) else c for c in cs])); mp.update(cfg)
        return setcells(self.fresh_state, mp)
    def st(self, v): c = cells(v); return [c[q] for q in self.state]
    def reach(self):
        """terms of a generic reachable signal state"""
        if hasattr(self, '_reach'): return self._reach
        h = Hull(len(self.state)); names = [self.name_of(q) for q in self.state]
        add_image(h, self.st(self.fresh_state))
        def step(cs):
            out = []
            for cfg in self.configs():
                s = self.build(cs, cfg)
                out.append(self.st(self.p.call(self.eng, 'process', s, [x_atom()])[1]))
                out.append(self.st(self.p.call(self.eng, 'clear', s, [])[1]))
                for o in self.setters: out.append(self.st(self.p.call(self.eng, o, s, self.p.args(self.eng, o))[1]))
            return out
        self._reach = run_hull(h, step, names); self._hull = h
        return self._reach
    def any(self):
        """generic reachable states, one per configuration variant"""
        for cfg in self.configs(): yield self.build(self._hull.param([self.name_of(q) for q in self.state]) if self.reach() is not None else None, cfg), cfg
    def ret(self, op, s, args=()):
        return self.p.call(self.eng, op, s, list(args))

def valid_arg(p, o):
    """a term in the documented range of a setter of the analysis types"""
    if o == 'set_alpha': r = 1 - atom(fresh('1-alpha', pos=True, hi=1))
    else: r = atom(fresh(o.replace('set_', '') + '_length', pos=True))
    G.FINITE.add(r.id)
    return r

# ---------------------------------------------------------------- C01
def lin(*ts): 
    s = T.ZERO
    for a, b in ts: s = s + a * b
    return s
# reference machines: state names, step(config by name, state, x) -> (y, new state)
REFS = {
    'OnePole': (['y1'], lambda c, s, x: (lambda y: (y, [y]))(c['b0'] * x - c['a1'] * s[0])),
    'OneZero': (['x1'], lambda c, s, x: (c['b0'] * x + c['b1'] * s[0], [x])),
    'TwoPole': (['y1', 'y2'], lambda c, s, x: (lambda y: (y, [y, s[0]]))(c['b0'] * x - c['a1'] * s[0] - c['a2'] * s[1])),
    'TwoZero': (['x1', 'x2'], lambda c, s, x: (c['b0'] * x + c['b1'] * s[0] + c['b2'] * s[1], [x, s[0]])),
    'Biquad1': (['x1', 'x2', 'y1', 'y2'], lambda c, s, x: (lambda y: (y, [x, s[0], y, s[2]]))(
        c['b0'] * x + c['b1'] * s[0] + c['b2'] * s[1] - c['a1'] * s[2] - c['a2'] * s[3])),
    'Biquad2': (['w1', 'w2'], lambda c, s, x: (lambda y: (y, [c['b1'] * x + s[1] - c['a1'] * y, c['b2'] * x - c['a2'] * y]))(c['b0'] * x + s[0])),
}
COEFS = {'OnePole': ['b0', 'a1'], 'OneZero': ['b0', 'b1'], 'TwoPole': ['b0', 'a1', 'a2'], 'TwoZero': ['b0', 'b1', 'b2'],
         'Biquad1': ['b0', 'b1', 'b2', 'a1', 'a2'], 'Biquad2': ['b0', 'b1', 'b2', 'a1', 'a2']}
EQN = {'OnePole': 'y[n] = b0*x[n] - a1*y[n-1]', 'OneZero': 'y[n] = b0*x[n] + b1*x[n-1]', 'TwoPole': 'y[n] = b0*x[n] - a1*y[n-1] - a2*y[n-2]',
       'TwoZero': 'y[n] = b0*x[n] + b1*x[n-1] + b2*x[n-2]', 'Biquad1': 'y[n] = b0*x[n] + b1*x[n-1] + b2*x[n-2] - a1*y[n-1] - a2*y[n-2]',
       'Biquad2': 'y[n] = b0*x[n] + w1; w1 = b1*x[n] + w2 - a1*y[n]; w2 = b2*x[n] - a2*y[n]'}

def check_C01(ctx, rep):
    for t in TYPES:
        for name in FILTERS:
            m = Model(ctx, rep, name, t); p = m.p
            coefs = COEFS[name]
            for c in coefs:
                if not rep.ob('%s field %s' % (p.label(), c), c in m.pub, p.loc, 'public coefficient field is gone'): return
            # setting coefficients: exactly the given values, history untouched
            s = p.havoc(m.eng); args = p.args(m.eng, 'set_coefficients')
            if not rep.ob('%s arity' % p.label('set_coefficients'), len(args) == len(coefs), p.where('set_coefficients'), 'expected %d coefficients' % len(coefs)): continue
            _, s2, _ = p.call(m.eng, 'set_coefficients', s, args)
            c2 = cells(s2); c1 = cells(s)
            for c, a in zip(coefs, args): rep.eq('%s stores %s' % (p.label('set_coefficients'), c), c2[m.pub[c]], a, p.where('set_coefficients'), 'stores exactly the given coefficient')
            for q in m.state: rep.eq('%s keeps %s' % (p.label('set_coefficients'), m.name_of(q)), c2[q], c1[q], p.where('set_coefficients'), 'history untouched by setting coefficients')
            with G.bitwise():
                s = p.havoc(m.eng); args = p.args(m.eng, 'set_coefficients'); G.signal(*[d for _, d in flat(s)], *args)
                c2 = cells(p.call(m.eng, 'set_coefficients', s, args)[1])
                for c, a in zip(coefs, args): rep.eq('%s stores %s bit for bit' % (p.label('set_coefficients'), c), c2[m.pub[c]], a, p.where('set_coefficients'), 'stores exactly the given coefficient')
            # product with the documented recurrence
            rn, ref = REFS[name]
            n = len(m.state); h = Hull(n + len(rn)); names = [m.name_of(q) for q in m.state] + rn
            add_image(h, m.st(m.fresh_state) + [num(0)] * len(rn))
            def step(cs, check=False):
                cfg = {q: x_atom(m.name_of(q)) for q in m.config}
                s = m.build(cs[:n], cfg); x = atom(fresh('x'))
                r, s2, _ = p.call(m.eng, 'process', s, [L(x)])
                y, rs = ref({c: one(cfg[m.pub[c]]) for c in coefs}, cs[n:], x)
                if check:
                    rep.eq('%s output' % p.label('process'), r, L(y), p.where('process'), EQN[name])
                    k2 = cells(s2)
                    for c in coefs: rep.eq('%s keeps %s' % (p.label('process'), c), k2[m.pub[c]], cfg[m.pub[c]], p.where('process'), 'coefficients in force stay in force')
                _, s3, _ = p.call(m.eng, 'clear', s, [])
                if check:
                    k3 = cells(s3)
                    for c in coefs: rep.eq('%s keeps %s' % (p.label('clear'), c), k3[m.pub[c]], cfg[m.pub[c]], p.where('clear'), 'coefficients in force stay in force')
                return [m.st(s2) + [L(v) for v in rs], m.st(s3) + [num(0)] * len(rn)]
            cs = run_hull(h, step, names)
            step(cs, True)
            rep.extra.setdefault('invariants', {})['%s' % p.label()] = ['%s = %s' % (a, b) for a, b in zip(names, cs)]
            rep.note(m.eng)

# ---------------------------------------------------------------- C02
def transfer(m):
    """transfer function of process as polynomials in w = 1/z over the configuration atoms: (num, den, config atoms)"""
    p = m.p; n = len(m.state)
    cfg = {q: x_atom(m.name_of(q)) for q in m.config}
    ss = [fresh(m.name_of(q)) for q in m.state]; x = fresh('x')
    r, s2, _ = p.call(m.eng, 'process', m.build([atom(a) for a in ss], cfg), [L(atom(x))])
    k2 = cells(s2)
    outs = [r] + m.st(s2)
    rows = []
    for d in outs:
        v = one(d)
        if v is None or not isinstance(v, R): raise Unsupported('%s is not linear in state and input (it branches)' % p.label('process'))
        if v.den: raise Unsupported('%s divides by a run-time quantity' % p.label('process'))
        row = [T.ZERO] * (n + 2)          # state coefficients, input, constant
        ids = [a.id for a in ss] + [x.id]
        for mo, c in v.num.items():
            hit = [(i, e) for i, k in enumerate(ids) for kk, e in mo if kk == k]
            rest = T._mk({tuple((k, e) for k, e in mo if k not in ids): c}, {})
            if not hit: row[n + 1] = row[n + 1] + rest
            elif len(hit) == 1 and hit[0][1] == 1: row[hit[0][0]] = row[hit[0][0]] + rest
            else: raise Unsupported('%s is not linear in state and input' % p.label('process'))
        rows.append(row)
    w = atom(fresh('w'))
    # (I - wA) S = B X ; Y = w C S + D X   with S = S[n+1]-sequence: S' = A S + B X, S delayed = w S'
    A = [[rows[i + 1][j] for j in range(n)] for i in range(n)]; B = [rows[i + 1][n] for i in range(n)]; C = rows[0][:n]; Dd = rows[0][n]
    consts = [r_[n + 1] for r_ in rows]
    M = [[(T.ONE if i == j else T.ZERO) - w * A[i][j] for j in range(n)] for i in range(n)]
    det = determinant(M)
    numer = Dd * det
    for j in range(n):
        Mj = [[B[i] if c == j else M[i][c] for c in range(n)] for i in range(n)]
        numer = numer + w * C[j] * determinant(Mj)
    return numer, det, cfg, w, consts, k2

def determinant(M):
    n = len(M)
    if n == 0: return T.ONE
    if n == 1: return M[0][0]
    s = T.ZERO
    for j in range(n):
        if M[0][j].is_zero(): continue
        s = s + const((-1) ** j) * M[0][j] * determinant([[M[i][c] for c in range(n) if c != j] for i in range(1, n)])
    return s

def coeffs_in(r, w):
    """polynomial in atom w: {power: R}"""
    out = {}
    k = next(iter(atoms_of(w)))
    for m, c in r.num.items():
        e = 0; rest = []
        for kk, ee in m:
            if kk == k: e = ee
            else: rest.append((kk, ee))
        out[e] = out.get(e, T.ZERO) + T._mk({tuple(rest): c}, {})
    return out

def cookbook(name, a):
    """RBJ cookbook (b0,b1,b2,a0,a1,a2) for the parameters a = (fs, f0, ...)"""
    fs, f0 = a[0], a[1]
    w0 = 2 * T.rPI * f0 / fs
    c, s = T.cos(w0), T.sin(w0)
    if name in ('LowPass', 'HighPass', 'BandPass1', 'BandPass2', 'BandStop', 'AllPass'):
        al = s / (2 * a[2])
        return {'LowPass': ((1 - c) / const(2), 1 - c, (1 - c) / const(2), 1 + al, -2 * c, 1 - al),
                'HighPass': ((1 + c) / const(2), -(1 + c), (1 + c) / const(2), 1 + al, -2 * c, 1 - al),
                'BandPass1': (s / const(2), T.ZERO, -s / const(2), 1 + al, -2 * c, 1 - al),
                'BandPass2': (al, T.ZERO, -al, 1 + al, -2 * c, 1 - al),
                'BandStop': (T.ONE, -2 * c, T.ONE, 1 + al, -2 * c, 1 - al),
                'AllPass': (1 - al, -2 * c, 1 + al, 1 + al, -2 * c, 1 - al)}[name]
    A = T.powf(const(10), a[2] / const(40))
    if name == 'Peak':
        al = s / (2 * a[3])
        return (1 + al * A, -2 * c, 1 - al * A, 1 + al / A, -2 * c, 1 - al / A)
    al = s / const(2) * T.sqrt((A + 1 / A) * (1 / a[3] - 1) + 2)
    q = 2 * T.sqrt(A) * al
    if name == 'LowShelf':
        return (A * ((A + 1) - (A - 1) * c + q), 2 * A * ((A - 1) - (A + 1) * c), A * ((A + 1) - (A - 1) * c - q),
                (A + 1) + (A - 1) * c + q, -2 * ((A - 1) + (A + 1) * c), (A + 1) + (A - 1) * c - q)
    return (A * ((A + 1) + (A - 1) * c + q), -2 * A * ((A - 1) + (A + 1) * c), A * ((A + 1) + (A - 1) * c - q),
            (A + 1) - (A - 1) * c + q, 2 * ((A - 1) - (A + 1) * c), (A + 1) - (A - 1) * c - q)

def check_C02(ctx, rep):
    for t in TYPES:
        tol = F(1, 10**13) if t == 'f64' else F(1, 10**6)
        for name in RBJ:
            m = Model(ctx, rep, name, t); p = m.p
            numer, den, cfg, w, consts, k2 = transfer(m)
            rep.ob('%s has no constant term' % p.label('process'), all(c.is_zero() for c in consts), p.where('process'), 'process adds a constant: %s' % consts, 'linear in state and input')
            for q in m.config: rep.eq('%s keeps %s' % (p.label('process'), m.name_of(q)), k2[q], cfg[q], p.where('process'), 'the filter is time-invariant')
            args = p.args(m.eng, 'set_coefficients')
            npar = 3 if name in ('LowPass', 'HighPass', 'BandPass1', 'BandPass2', 'BandStop', 'AllPass') else 4
            if not rep.ob('%s parameters' % p.label('set_coefficients'), len(args) == npar, p.where('set_coefficients'), 'expected %d parameters' % npar): continue
            _, s2, _ = p.call(m.eng, 'set_coefficients', p.havoc(m.eng), args)
            c2 = cells(s2)
            for q in m.state: rep.eq('%s resets %s' % (p.label('set_coefficients'), m.name_of(q)), c2[q], num(0), p.where('set_coefficients'), 'starts from silence')
            for q in m.config: rep.ob('%s one value for %s' % (p.label('set_coefficients'), m.name_of(q)), isinstance(one(c2[q]), R), p.where('set_coefficients'), 'coefficient depends on a branch: %s' % str(c2[q])[:300])
            if any(not isinstance(one(c2[q]), R) for q in m.config): continue
            b0, b1, b2, a0, a1, a2 = cookbook(name, [one(a) for a in args])
            mp = {next(iter(atoms_of(one(cfg[q])))): one(c2[q]) for q in m.config}
            N, Dn = coeffs_in(numer, w), coeffs_in(den, w)
            N = {k: G.subst_r(v, mp) for k, v in N.items()}; Dn = {k: G.subst_r(v, mp) for k, v in Dn.items()}
            RN, RD = {0: b0, 1: b1, 2: b2}, {0: a0, 1: a1, 2: a2}
            # fast path: the same polynomials up to one factor
            ok = True; bad = None
            top = max(list(N) + [2]) + max(list(Dn) + [2])
            if max(N, default=0) <= 2 and max(Dn, default=0) <= 2 and all(T.req_tol(N.get(k, T.ZERO) * a0, RN[k] * Dn.get(0, T.ZERO), tol) and T.req_tol(Dn.get(k, T.ZERO) * a0, RD[k] * Dn.get(0, T.ZERO), tol) for k in range(3)): pass
            else:
                for k in range(top + 1):
                    l = T.ZERO; r = T.ZERO
                    for i in range(k + 1):
                        if i in N and (k - i) in RD: l = l + N[i] * RD[k - i]
                        if i in RN and (k - i) in Dn: r = r + RN[i] * Dn[k - i]
                    if not T.req_tol(l, r, tol): ok = False; bad = k; break
            rep.ob('%s transfer function' % p.label(), ok, p.where('set_coefficients'), '' if ok else 'H(z) differs from the cookbook: coefficient of z^-%s of num*den_ref - num_ref*den is not zero' % bad,
                   'H(z) of process with the coefficients computed by set_coefficients equals the cookbook H(z)')
            if len(rep.samples) < 4: rep.samples.append({'filter': p.label(), 'b0': str(one(c2[sorted(m.config, key=str)[0]]))[:200]})
            # clear returns to silence and keeps the response
            _, s3, _ = p.call(m.eng, 'clear', p.havoc(m.eng, 'c'), [])
            s = p.havoc(m.eng); _, s3, _ = p.call(m.eng, 'clear', s, [])
            for q in m.config: rep.eq('%s keeps %s' % (p.label('clear'), m.name_of(q)), cells(s3)[q], cells(s)[q], p.where('clear'), 'the response survives clear()')
            # before configuration: identity
            fc = cells(m.fresh_state)
            mp = {next(iter(atoms_of(one(cfg[q])))): one(fc[q]) for q in m.config}
            rep.ob('%s unconfigured response' % p.label('new'), T.req(toR(G.subst_r(numer, mp)), toR(G.subst_r(den, mp))), p.where('new'), 'a fresh filter is not transparent', 'H(z) = 1 before configuration')
            for q in m.state: rep.eq('%s starts silent %s' % (p.label('new'), m.name_of(q)), fc[q], num(0), p.where('new'), 'starts from silence')
            rep.note(m.eng)
def toR(x): return x if isinstance(x, R) else one(x)

# ---------------------------------------------------------------- C03 / C04 / C06 / C07 / C08
SCALAR = FILTERS + RBJ + ANALYSIS

def paired(m, rep, pair0, key, where, rule):
    """two states of the same type run in lock step under the same calls: every observation agrees"""
    p = m.p; n = len(m.state); names = [m.name_of(q) for q in m.state]
    h = Hull(2 * n)
    for a, b in pair0: add_image(h, m.st(a) + m.st(b))
    def step(cs, check=False):
        out = []
        for cfg in m.configs():
            a, b = m.build(cs[:n], cfg), m.build(cs[n:], cfg)
            x = x_atom()
            ra, a2, _ = p.call(m.eng, 'process', a, [x]); rb, b2, _ = p.call(m.eng, 'process', b, [x])
            if check: rep.eq(key + ': same output', ra, rb, where, rule)
            out.append(m.st(a2) + m.st(b2))
            for o in ['clear'] + m.setters:
                args = p.args(m.eng, o) if o != 'clear' else []
                _, a2, _ = p.call(m.eng, o, a, args); _, b2, _ = p.call(m.eng, o, b, args)
                out.append(m.st(a2) + m.st(b2))
            if check:
                for o in m.observers:
                    va, _, _ = p.call(m.eng, o, a, []); vb, _, _ = p.call(m.eng, o, b, [])
                    rep.eq(key + ': same ' + o, va, vb, where, rule)
        return out
    cs = run_hull(h, step, names + [x + "'" for x in names])
    step(cs, True)

def check_C03_scalar(ctx, rep):
    for t in TYPES:
        for name in SCALAR:
            m = Model(ctx, rep, name, t); p = m.p
            pairs = []
            for s, cfg in m.any():
                _, c, _ = p.call(m.eng, 'clear', s, [])
                k = cells(c)
                for q in m.config: rep.eq('%s keeps %s' % (p.label('clear'), m.name_of(q)), k[q], cfg[q], p.where('clear'), 'clear() changes no configuration')
                v, _, _ = p.call(m.eng, 'last_out', c, [])
                rep.eq('%s then last_out' % p.label('clear'), v, num(0), p.where('clear'), 'last output reads zero after clear()')
                pairs.append((c, m.build(m.st(m.fresh_state), cfg)))
            with G.bitwise():
                s = p.havoc(m.eng); G.signal(*m.st(s))
                keeps(rep, '%s computes nothing from the old signal' % p.label('clear'), s, p.call(m.eng, 'clear', s, [])[1], m.name_of, p.where('clear'), 'no NaN or infinity survives clear()')
            paired(m, rep, pairs, '%s vs fresh instance' % p.label('clear'), p.where('clear'), 'a cleared instance and a fresh one with the same configuration give the same observations')
            rep.note(m.eng)

def check_C04_scalar(ctx, rep):
    for t in TYPES:
        for name in SCALAR:
            m = Model(ctx, rep, name, t); p = m.p
            lo = lambda s: p.call(m.eng, 'last_out', s, [])[0]
            rep.eq('%s then last_out' % p.label('new'), lo(m.fresh_state), num(0), p.where('last_out'), 'zero before anything is processed')
            for s, cfg in m.any():
                r, s2, _ = p.call(m.eng, 'process', s, [x_atom()])
                rep.eq('%s then last_out' % p.label('process'), lo(s2), r, p.where('process'), 'last_out() is what process() returned')
                _, s3, _ = p.call(m.eng, 'clear', s, [])
                rep.eq('%s then last_out' % p.label('clear'), lo(s3), num(0), p.where('clear'), 'zero after clear()')
                for o in m.setters:
                    _, s4, _ = p.call(m.eng, o, s, p.args(m.eng, o))
                    if name in RBJ and o == 'set_coefficients': rep.eq('%s then last_out' % p.label(o), lo(s4), num(0), p.where(o), 'zero after retuning')
                    else: rep.eq('%s then last_out' % p.label(o), lo(s4), lo(s), p.where(o), 'no other call changes last_out()')
                for o in m.observers:
                    _, s5, _ = p.call(m.eng, o, s, p.args(m.eng, o))
                    rep.eq('%s then last_out' % p.label(o), lo(s5), lo(s), p.where(o), 'no other call changes last_out()')
                if m.pub:
                    other = {q: x_atom(m.name_of(q)) for q in m.config}
                    rep.eq('%s after a field assignment' % p.label('last_out'), lo(setcells(s, other)), lo(s), p.where('last_out'), 'no other call changes last_out()')
            with G.bitwise():
                for s, cfg in m.any():
                    G.signal(*m.st(s))
                    for o in ['process'] + m.setters + m.observers:
                        r, s2, _ = p.call(m.eng, o, s, [x_atom()] if o == 'process' else p.args(m.eng, o))
                        if name in RBJ and o == 'set_coefficients': continue
                        rep.eq('%s then last_out, bit for bit' % p.label(o), lo(s2), r if o == 'process' else lo(s), p.where(o), 'last_out() is exactly what process() returned' if o == 'process' else 'no other call changes last_out()')
            rep.note(m.eng)

def check_C06(ctx, rep):
    for t in TYPES:
        for name in SCALAR:
            m = Model(ctx, rep, name, t); p = m.p
            allp = m.paths; h = Hull(len(allp)); names = [m.name_of(q) for q in allp]
            full = lambda v: [cells(v)[q] for q in allp]
            add_image(h, full(m.fresh_state))
            def step(cs, check=False):
                s = setcells(m.fresh_state, {q: L(c) for q, c in zip(allp, cs)}); x = atom(fresh('x'))
                r, s2, _ = p.call(m.eng, 'process', s, [L(x)])
                if check:
                    want = E.fabs(x) if name.endswith('EnvDetector') else L(x)
                    rep.eq('%s unconfigured' % p.label('process'), r, want, p.where('process'), 'an unconfigured processor returns the input' + (' magnitude' if name.endswith('EnvDetector') else ''))
                return [full(s2), full(p.call(m.eng, 'clear', s, [])[1])]
            cs = run_hull(h, step, names)
            step(cs, True)
            rep.note(m.eng)

def check_C07_scalar(ctx, rep):
    for t in TYPES:
        for name in SCALAR:
            m = Model(ctx, rep, name, t); p = m.p
            for s, cfg in m.any():
                def keep(o, v, getters=True):
                    k = cells(v)
                    for q in m.config: rep.eq('%s keeps %s' % (p.label(o), m.name_of(q)), k[q], cfg[q], p.where(o), 'only configuration calls change configuration')
                for o in ['process', 'clear'] + m.observers:
                    _, s2, _ = p.call(m.eng, o, s, p.args(m.eng, o)); keep(o, s2)
            if name.endswith('EnvDetector'):
                for s, cfg in m.any():
                    for o, other in (('set_attack', 'get_release_gain'), ('set_release', 'get_attack_gain')):
                        _, s2, _ = p.call(m.eng, o, s, [x_atom('length')])
                        rep.eq('%s leaves %s' % (p.label(o), other), p.call(m.eng, other, s2, [])[0], p.call(m.eng, other, s, [])[0], p.where(o), 'a setter changes only its own setting')
            rep.note(m.eng)

def check_C08(ctx, rep):
    for t in TYPES:
        for name in RBJ:
            m = Model(ctx, rep, name, t); p = m.p
            args = p.args(m.eng, 'set_coefficients')
            pairs = []
            for s, cfg in m.any():
                _, a, _ = p.call(m.eng, 'set_coefficients', s, args); _, b, _ = p.call(m.eng, 'set_coefficients', m.fresh_state, args)
                ca, cb = cells(a), cells(b)
                for q in m.config: rep.eq('%s determines %s' % (p.label('set_coefficients'), m.name_of(q)), ca[q], cb[q], p.where('set_coefficients'), 'the coefficients depend on the parameters of this call only')
                rep.eq('%s then last_out' % p.label('set_coefficients'), p.call(m.eng, 'last_out', a, [])[0], num(0), p.where('set_coefficients'), 'last_out() reads zero after retuning')
                pairs.append((a, b))
            with G.bitwise():
                s = p.havoc(m.eng); G.signal(*[d for _, d in flat(s)])
                keeps(rep, '%s computes nothing from the old signal' % p.label('set_coefficients'), s, p.call(m.eng, 'set_coefficients', s, args)[1], m.name_of, p.where('set_coefficients'), 'no NaN or infinity survives retuning')
            paired(m, rep, pairs, '%s vs fresh instance' % p.label('set_coefficients'), p.where('set_coefficients'), 'a retuned filter and a fresh one tuned alike give the same observations')
            rep.note(m.eng)

# ---------------------------------------------------------------- C16 / C17 / C18
def ranged_setter(m, rep, setter, getter, expected, others, rule):
    """setter(v) from any state makes getter expected(v, old), for every v including NaN and infinities"""
    p = m.p
    with G.ieee():
        eng = p.ctx.engine()
        s = p.havoc(eng); v = atom(fresh('v'))
        _, s2, _ = p.call(eng, setter, s, [L(v)])
        old, _, _ = p.call(eng, getter, s, []); new, _, _ = p.call(eng, getter, s2, [])
        rep.eq('%s then %s' % (p.label(setter), getter), new, expected(v, old), p.where(setter), rule)
        for o in others:
            rep.eq('%s leaves %s' % (p.label(setter), o), p.call(eng, o, s2, [])[0], p.call(eng, o, s, [])[0], p.where(setter), 'the other gain is never affected')
        rep.note(eng)

def check_C16(ctx, rep):
    for t in TYPES:
        m = Model(ctx, rep, 'LeakyIntegrator', t); p = m.p
        ranged_setter(m, rep, 'set_alpha', 'get_alpha', lambda v, old: ite(land(G.le(T.ZERO, v, True), G.lt(v, T.ONE, True)), L(v), old), [],
                      'set_alpha stores values in [0, 1) and ignores every other value')
        with G.bitwise():
            s = p.havoc(m.eng); v = x_atom('v'); G.signal(*[d for _, d in flat(s)])
            g = p.call(m.eng, 'get_alpha', p.call(m.eng, 'set_alpha', s, [v])[1], [])[0]
            rep.ob('%s stores the value itself' % p.label('set_alpha'), not E.kept(g), p.where('set_alpha'), 'the gain becomes %s' % str(g)[:300], 'set_alpha stores its argument bit for bit')
        a0 = p.call(m.eng, 'get_alpha', m.fresh_state, [])[0]
        rep.ob('%s gain' % p.label('new'), isinstance(one(a0), R) and one(a0).is_const() and 0 <= one(a0).const() < 1, p.where('new'), 'initial gain %s' % a0, 'initial gain in [0, 1)')
        leak(m, rep)
        for s, cfg in m.any():
            old = p.call(m.eng, 'get_alpha', s, [])[0]
            for o in ['process', 'clear'] + m.observers:
                s2 = p.call(m.eng, o, s, p.args(m.eng, o))[1]
                rep.eq('%s then get_alpha' % p.label(o), p.call(m.eng, 'get_alpha', s2, [])[0], old, p.where(o), 'only set_alpha changes the gain')
        rep.note(m.eng)

def refproduct(m, rep, nref, ref, key, rule):
    """product of process/clear with a reference machine ref(state value, ref cells, x) -> (output D, new cells)"""
    p = m.p; n = len(m.state); h = Hull(n + nref); names = [m.name_of(q) for q in m.state] + ['ref%d' % i for i in range(nref)]
    add_image(h, m.st(m.fresh_state) + [num(0)] * nref)
    def step(cs, check=False):
        out = []
        for cfg in m.configs():
            s = m.build(cs[:n], cfg); x = atom(fresh('x'))
            r, s2, _ = p.call(m.eng, 'process', s, [L(x)])
            y, rs = ref(s, cs[n:], x)
            if check: rep.eq(key, r, y, p.where('process'), rule)
            out.append(m.st(s2) + rs)
            out.append(m.st(p.call(m.eng, 'clear', s, [])[1]) + [num(0)] * nref)
            for o in m.setters: out.append(m.st(p.call(m.eng, o, s, [L(valid_arg(p, o))])[1]) + [L(c) for c in cs[n:]])
        return out
    cs = run_hull(h, step, names)
    step(cs, True)
    rep.extra.setdefault('invariants', {})[p.label()] = ['%s = %s' % (a, b) for a, b in zip(names, cs)]

def leak(m, rep):
    def ref(s, e, x):
        a = m.p.call(m.eng, 'get_alpha', s, [])[0]
        y = map1(lambda g: x + g * (e[0] - x), a)
        return y, [y]
    refproduct(m, rep, 1, ref, '%s output' % m.p.label('process'), 'y[n] = x[n] + alpha*(y[n-1] - x[n])')

DET = ['PeakEnvDetector', 'RmsEnvDetector']
def check_C17(ctx, rep):
    for t in TYPES:
        for name in DET:
            m = Model(ctx, rep, name, t); p = m.p
            for setter, getter, other in (('set_attack', 'get_attack_gain', 'get_release_gain'), ('set_release', 'get_release_gain', 'get_attack_gain')):
                ranged_setter(m, rep, setter, getter, lambda v, old: ite(land(G.lt(T.ZERO, v, True), G.fclass('finite', v)), L(T.exp(-1 / v)), old), [other],
                              'a finite positive length sets the gain to exp(-1/length), anything else is ignored')
                g = p.call(m.eng, getter, m.fresh_state, [])[0]
                rep.ob('%s %s' % (p.label('new'), getter), isinstance(one(g), R) and one(g).is_const() and 0 <= one(g).const() <= 1, p.where('new'), 'initial gain %s' % g, 'initial gain in [0, 1]')
            for s, cfg in m.any():
                for o in ['process', 'clear'] + m.observers:
                    s2 = p.call(m.eng, o, s, p.args(m.eng, o))[1]
                    for g in ('get_attack_gain', 'get_release_gain'):
                        rep.eq('%s then %s' % (p.label(o), g), p.call(m.eng, g, s2, [])[0], p.call(m.eng, g, s, [])[0], p.where(o), 'only the setters change the gains')
            rep.note(m.eng)

def check_C18(ctx, rep):
    for t in TYPES:
        for name in DET:
            m = Model(ctx, rep, name, t); p = m.p
            def ref(s, e, x):
                ga = p.call(m.eng, 'get_attack_gain', s, [])[0]; gr = p.call(m.eng, 'get_release_gain', s, [])[0]
                u = E.fabs(x) if name.startswith('Peak') else L(x * x)
                def f(u, a, r):
                    return ite(G.lt(e[0], u, True), L(u + a * (e[0] - u)), ite(G.lt(u, e[0], True), L(u + r * (e[0] - u)), L(u)))
                e2 = mapn(f, [u, ga, gr])
                return (e2 if name.startswith('Peak') else map1(E.fsqrt, e2)), [e2]
            refproduct(m, rep, 1, ref, '%s output' % p.label('process'), 'attack when the input is above the envelope, release when below')
            rep.note(m.eng)

# ---------------------------------------------------------------- C22
def check_C22(ctx, rep):
    import scale
    for t in TYPES:
        scale.ranges(ctx, rep, t)
        with G.bitwise():
            f = ctx.fn('apply_gain', t); x, r = x_atom(), x_atom('ratio')
            rep.eq('apply_gain<%s> is one product' % t, ctx.engine().call_key(f['inst'], [x, r], {})[0], L(E.fl('Mul', one(x), one(r))), '%s (%s)' % (f['path'], f['loc']), 'the product of sample and ratio, rounded once')
        eps = F(1, 10**6)
        with G.ieee():
            for name in ('to_db', 'to_sample', 'apply_gain'):
                f = ctx.fn(name, t); eng = ctx.engine(); x = atom(fresh('x'))
                where = '%s (%s)' % (f['path'], f['loc'])
                args = [L(x)]
                if name == 'apply_gain': r = atom(fresh('ratio')); args.append(L(r))
                v, c = eng.call_key(f['inst'], args, {})
                pre = TRUE
                if name == 'to_db':
                    pre = lnot(G.fclass('signneg', x))
                    want = ite(land(G.lt(const(eps), x, True), G.fclass('finite', x)), L(20 * T.log10(x)), num(-120))
                elif name == 'to_sample': want = ite(land(G.lt(const(-120), x, True), G.fclass('finite', x)), L(T.powf(const(10), x / const(20))), num(0))
                else:
                    pre = land(lnot(G.fclass('signneg', r)), G.fclass('finite', r)); want = L(x * r)
                rep.holds('%s<%s> returns' % (name, t), lor(lnot(pre), c), where, 'returns for every argument in its domain')
                rep.eq('%s<%s> value' % (name, t), v, want, where, {'to_db': '20*log10(x) above 1e-6, else -120', 'to_sample': '10^(db/20) above -120, else 0', 'apply_gain': 'sample * ratio'}[name], under=land(pre, c))
                rep.note(eng)

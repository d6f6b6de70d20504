"""Linear relational domain over monomials: feasibility by Gaussian + Fourier-Motzkin elimination with integer tightening.
Sound for 'infeasible' answers (an 'infeasible' is a proof); 'feasible' may be an over-approximation."""
from fractions import Fraction as F
import math
from terms import ATOMS, R, const, atom, atoms_of, padd, pscale, pkey, is_int_term

def mono_int(m):
    return all(ATOMS[k].sort == 'i' and isinstance(e, int) and e > 0 for k, e in m)

def mono_nonneg(m):
    for k, e in m:
        a = ATOMS[k]
        if isinstance(e, int) and e % 2 == 0: continue
        if a.pos or a.fn in ('sqrt', 'abs', 'exp') or (a.lo is not None and a.lo >= 0): continue
        return False
    return bool(m)

def norm(p, kind):
    """scale to coprime integers; tighten integer constraints. returns (p, kind) or True/False when trivial"""
    ms = [m for m in p if m]
    c0 = p.get((), F(0))
    if not ms:
        if kind == 'le': return c0 <= 0
        if kind == 'lt': return c0 < 0
        return c0 == 0
    den = 1
    for m in ms: den = den * p[m].denominator // math.gcd(den, p[m].denominator)
    g = 0
    for m in ms: g = math.gcd(g, abs(int(p[m] * den)))
    s = F(den, g)
    q = {m: p[m] * s for m in ms}
    c = c0 * s
    if all(mono_int(m) for m in ms):
        if kind == 'eq':
            if c.denominator != 1: return False
        else:
            # sum + c <= 0 (or < 0) with integer sum
            b = -c
            if kind == 'lt': b = F(math.ceil(b) - 1)
            else: b = F(math.floor(b))
            c = -b; kind = 'le'
    if c != 0: q[()] = c
    return q, kind

def auto_facts(cons):
    out = []; seen = set(); todo = []; seenm = set()
    def scan(p):
        for m in p:
            if m and m not in seenm:
                seenm.add(m)
                if mono_nonneg(m): out.append(({m: F(-1)}, 'le'))
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].pos: out.append(({m: F(-1)}, 'lt'))
                if len(m) == 1 and m[0][1] == -1:
                    a = ATOMS[m[0][0]]
                    if a.pos or (a.sort == 'i' and a.lo is not None and a.lo >= 1): out.append(({m: F(-1)}, 'lt'))
            for k, e in m:
                if k not in seen: seen.add(k); todo.append(k)
    for p, _ in cons: scan(p)
    i = 0
    while i < len(todo):
        k = todo[i]; i += 1
        a = ATOMS[k]; me = ((k, 1),)
        if a.lo is not None: q = {me: F(-1)}; 
        if a.lo is not None:
            q = {me: F(-1)}
            if a.lo != 0: q[()] = F(a.lo)
            out.append((q, 'le'))
        if a.hi is not None: out.append(({me: F(1), (): F(-a.hi)}, 'le'))
        if a.fn in ('ceil', 'floor', 'round') and isinstance(a.args[0], R) and not a.args[0].den:
            x = a.args[0].num
            if a.fn == 'ceil': cs = [(padd(x, {me: F(1)}, -1), 'le'), (padd(padd({me: F(1)}, x, -1), {(): F(1)}, -1), 'lt')]
            elif a.fn == 'floor': cs = [(padd({me: F(1)}, x, -1), 'le'), (padd(padd(x, {me: F(1)}, -1), {(): F(1)}, -1), 'lt')]
            else: cs = [(padd(padd({me: F(1)}, x, -1), {(): F(1, 2)}, -1), 'le'), (padd(padd(x, {me: F(1)}, -1), {(): F(1, 2)}, -1), 'le')]
            for c in cs: out.append(c); scan(c[0])
        elif a.fn == 'mod' and all(isinstance(y, R) and not y.den for y in a.args):      # mod < divisor, mod <= dividend
            for c in [(padd(padd({me: F(1)}, a.args[1].num, -1), {(): F(1)}), 'le'), (padd({me: F(1)}, a.args[0].num, -1), 'le')]: out.append(c); scan(c[0])
        elif a.fn == 'abs' and isinstance(a.args[0], R) and not a.args[0].den:
            x = a.args[0].num
            for c in [(padd(x, {me: F(1)}, -1), 'le'), (padd(pscale(x, F(-1)), {me: F(1)}, -1), 'le')]: out.append(c); scan(c[0])
        elif a.fn == 'i2f' and a.lo == 0 and not a.args[0].den:      # rounding to a float changes a nonnegative integer by less than half
            x = a.args[0].num
            for c in [(padd({me: F(1)}, x, F(-2)), 'le'), (padd(pscale(x, F(1, 2)), {me: F(1)}, -1), 'le')]: out.append(c); scan(c[0])
        elif a.fn in ('sin', 'cos'):
            out.append(({me: F(1), (): F(-1)}, 'le')); out.append(({me: F(-1), (): F(-1)}, 'le'))
    return out

LIMIT = 1500

def feasible(cons, auto=True):
    cs = list(cons)
    if auto: cs += auto_facts(cs)
    # normalise
    work = []
    for p, k in cs:
        r = norm(p, k)
        if r is False: return False
        if r is True: continue
        work.append(r)
    # equalities by substitution
    while True:
        eq = next((i for i, (p, k) in enumerate(work) if k == 'eq'), None)
        if eq is None: break
        p, _ = work.pop(eq)
        ms = [m for m in p if m]
        # prefer an integer monomial with unit coefficient (keeps integrality), else any
        piv = None
        for m in ms:
            if abs(p[m]) == 1: piv = m; break
        if piv is None: piv = ms[0]
        c = p[piv]
        rest = {m: -v / c for m, v in p.items() if m != piv}     # piv = rest
        new = []
        for q, k in work:
            if piv in q:
                v = q[piv]; q2 = {m: x for m, x in q.items() if m != piv}
                q2 = padd(q2, pscale(rest, v))
                r = norm(q2, k)
                if r is False: return False
                if r is True: continue
                new.append(r)
            else: new.append((q, k))
        work = new
    # FM
    def dedupe(ws):
        best = {}
        for p, k in ws:
            key = tuple(sorted((m, v) for m, v in p.items() if m)); c = p.get((), F(0))
            o = best.get(key)
            if o is None or c > o[0] or (c == o[0] and k == 'lt'): best[key] = (c, k)
        out = []
        for key, (c, k) in best.items():
            p = dict(key)
            if c != 0: p[()] = c
            out.append((p, k))
        return out
    work = dedupe(work)
    while work:
        cnt = {}
        for p, k in work:
            for m, v in p.items():
                if m:
                    a = cnt.setdefault(m, [0, 0]); a[0 if v > 0 else 1] += 1
        if not cnt: break
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x))
        ups = [(p, k) for p, k in work if p.get(m, 0) > 0]; los = [(p, k) for p, k in work if p.get(m, 0) < 0]
        rest = [(p, k) for p, k in work if m not in p]
        if len(ups) * len(los) + len(rest) > LIMIT: return True
        for p, k in ups:
            for q, l in los:
                s = padd(pscale(p, -q[m]), pscale(q, p[m]))
                s.pop(m, None)
                r = norm(s, 'lt' if 'lt' in (k, l) else 'le')
                if r is False: return False
                if r is True: continue
                rest.append(r)
        work = dedupe(rest)
    return True

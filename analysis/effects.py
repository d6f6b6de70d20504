"""Precision (C23), real-time safety (C24) and isolation (C25): single-precision events met on any path of the double-precision
instances, and reachability in the resolved call graph."""
from core import *
import panics, delays

# ---------------------------------------------------------------- precision
NAMED = {k for k in (T.PI.id, T.LN10.id, T.LN2.id)}
def exact32(x):
    """constant that f32 represents exactly (the shortest decimal denoting the literal is a short dyadic number)"""
    if not isinstance(x, R) or not x.is_const(): return False
    c = x.const(); n, d = abs(c.numerator), c.denominator
    if d & (d - 1): return False
    while n and not n & 1: n >>= 1
    return n < 2**24
def leaves(d): return [v for _, v in G.leaves(d, (), False)]
def closure(x):
    """atoms of a term, through function arguments and the conditions of gated values"""
    out = set(); todo = list(atoms_of(x))
    while todo:
        k = todo.pop()
        if k in out: continue
        out.add(k); a = ATOMS[k]
        for y in a.args or ():
            if isinstance(y, R): todo += list(atoms_of(y))
            elif hasattr(y, 'atoms'): todo += list(y.atoms())
    return out

def check_C23(ctx, rep):
    from engine import Engine
    counts = {}
    def hook(rep, eng, label):
        evs, Engine.EVENTS = Engine.EVENTS, []
        frac = label.startswith('LinearDelay<')
        for kind, fn, site, vals in evs:
            counts[kind] = counts.get(kind, 0) + 1
            xs = [x for v in vals for x in leaves(v)]
            if kind in ('arith', 'math', 'int') and xs and all(exact32(x) for x in xs) and kind != 'math': continue
            why = None
            if kind == 'narrow':
                if not all(exact32(x) for x in xs): why = 'a double-precision value is narrowed to f32'
            elif kind == 'widen':
                if all(exact32(x) for x in xs): pass
                elif any(x.is_const() or closure(x) <= NAMED for x in xs if isinstance(x, R)): why = 'an f32 constant that is not exact is used as a double'
                elif not frac: why = 'a value computed in f32 is used as a double'
            elif not frac: why = {'arith': 'arithmetic in f32', 'math': 'a mathematical function evaluated in f32', 'int': 'an integer is converted to f32'}[kind]
            elif kind == 'int' and any(k in POS for x in xs if isinstance(x, R) for k in closure(x)): why = 'a buffer position is converted to f32'
            rep.ob('%s: %s at %s' % (label, kind, site), why is None, '%s (%s)' % (fn, site), '%s: %s' % (why, ', '.join(str(x)[:80] for x in xs[:3])), 'no value is narrowed to or computed in f32')
        rep.ob('%s: analysed' % label, True)
        eng.obls = []; rep.note(eng)
    POS = set()
    class PL(panics.PLine):
        def raw(self, name='h'):
            h, fs = super().raw(name)
            c = cells(h)
            for q in self.ints:
                for x in leaves(c[q]):
                    if isinstance(x, R): POS.update(atoms_of(x))
            return h, fs
    old = panics.PLine; panics.PLine = PL; panics.HOOK[0] = hook; Engine.EVENTS = []
    try:
        with G.rounded(): panics.run_all(ctx, rep, ['f64'])
    finally:
        panics.HOOK[0] = None; panics.PLine = old; Engine.EVENTS = None
    rep.extra['single_precision_events'] = counts
    for t in TYPES:
        for name, want in (('pi', T.rPI), ('two', const(2))):
            es = [e for e in ctx.prog.entries if e['name'] == name and e.get('self') == t]
            if not es: raise Missing('FloatConst::%s for %s not found' % (name, t))
            eng = ctx.engine(); Engine.EVENTS = []
            v, c = eng.call_key(es[0]['inst'], [], {})
            evs, Engine.EVENTS = Engine.EVENTS, None
            rep.eq('%s<%s>' % (name, t), v, L(want), '%s (%s)' % (es[0]['path'], es[0]['loc']), 'the literal is the full-precision constant')
            if t == 'f64': rep.ob('%s<%s>: no single precision' % (name, t), not evs, es[0]['loc'], str(evs)[:300])
            rep.note(eng)

# ---------------------------------------------------------------- call graph
import re
ALLOC = re.compile(r'(^|[ <&])alloc::(alloc::|raw_vec::|boxed::|rc::|sync::|string::|fmt::|collections::)|__rust_(alloc|dealloc|realloc)|(^|[ <])alloc::vec::(from_elem|spec_|in_place)|exchange_malloc|box_free')
NOISY = re.compile(r'(^|[ <&])std::(sync|thread|io|fs|net|env|process|time|sys|os|backtrace|panic|alloc|hash|collections|random)(::|$)')
AMBIENT = re.compile(r'(^|[ <&])(std::(thread|io|fs|net|env|process|time|os|hash::random|collections::hash|random)|core::(time|any)|std::sys)(::|$)|RandomState|(^|::)(addr|expose_provenance|expose_addr|align_offset|type_name|type_id|caller)$|LocalKey')
ATOMIC = re.compile(r'core::sync::(atomic|exclusive)|core::intrinsics::atomic_|core::hint::spin_loop|core::cell::(lazy|once)')
MATHSTD = re.compile(r'^std::(f32|f64|num::(imp::)?(libm|float|f32|f64)|num|sys::cmath)\b')

def targets(j):
    """functions a dynamic or indirect call may reach: those coerced to the trait's objects, or to function pointers, anywhere"""
    d = {}
    for p, k in j['vtabled']: d.setdefault(p, set()).add(k)
    return d
def calls_of(graph, vt, k):
    if k.startswith('indirect!'): return sorted(vt.get('fnptr', ()))
    n = graph.get(k, {})
    if n.get('kind') == 'virtual': return sorted(vt.get(n['path'], ()))
    return n.get('calls', [])
def walk(graph, vt, root, skip=()):
    """(inst, path of insts from root) for every function reachable from root"""
    par = {root: None}; todo = [root]
    while todo:
        k = todo.pop()
        yield k, par
        for c in calls_of(graph, vt, k):
            if c not in par and (k, c) not in skip: par[c] = k; todo.append(c)
def chain(par, k):
    out = []
    while k is not None: out.append(k); k = par[k]
    return ' -> '.join(x[:120] for x in reversed(out))

def classify(graph, vt, k, ambient):
    """why a function may not be reached, or None"""
    if k.startswith('indirect!'): return None if vt.get('fnptr') else 'an indirect call'
    if k.startswith('unresolved!'): return 'an unresolved call to ' + k[11:]
    n = graph.get(k)
    if n is None: return 'a call to unknown code ' + k
    p = n['path'] or k
    if n['crate'] == 'std' and p.startswith('std::sys::cmath::'): return None          # the C library's pure functions
    if n['kind'] == 'virtual': return None if vt.get(n['path']) else 'a dynamic call'
    if ambient:
        if AMBIENT.search(p) or AMBIENT.search(k): return 'ambient state (%s)' % p
        if ATOMIC.search(p): return 'shared mutable state (%s)' % p
        if n['crate'] not in ('rasp', 'core', 'alloc', 'std', 'num_traits', 'num', 'libm', 'compiler_builtins'): return 'foreign code (%s)' % p
        if n['crate'] == 'rasp' and not n['mir'] and n['kind'] == 'item': return 'foreign function %s' % p
        return None
    if ALLOC.search(p) or (n['kind'] == 'item' and ALLOC.search(k.split('<')[0])): return 'heap allocation or release (%s)' % p
    if NOISY.search(p): return 'locking, blocking or I/O (%s)' % p
    if ATOMIC.search(p): return 'synchronisation (%s)' % p
    if n['kind'] == 'dropglue' and HEAPY.search(k): return 'release of heap memory (%s)' % k
    if n['kind'] in ('item', 'shim') and not n['mir']:
        if n['crate'] in ('core', 'num_traits', 'libm', 'compiler_builtins'): return None
        if n['crate'] == 'std' and MATHSTD.search(p): return None
        return 'code whose body cannot be inspected (%s)' % p
    return None
HEAPY = re.compile(r'alloc::(vec|boxed|string|rc|sync|collections|raw_vec)')

def within_capacity(ctx):
    """(function, vector operation) pairs all of whose calls keep a delay line's vector within the capacity it had on entry"""
    evs = []
    for t in TYPES:
        for name in DELAYS:
            try:
                l = panics.PLine(ctx, name, t); l.infer(); p = l.p
                for op in l.OPS:
                    if op == 'set_max_delay': continue
                    h, fs = l.raw(); n = one(l.vlen(h))
                    a, fa = l.args_for(op, n)
                    eng = ctx.engine(); eng.caps = {('heap', eng.uid + 1): h}
                    with G.assuming(fs + fa): p.call(eng, op, h, a)
                    evs += eng.growth
            except (Unsupported, Missing): pass
    out = set()
    for k in {(f, g) for f, g, _, _ in evs}:
        sites = {l: all(ok for f, g, l2, ok in evs if (f, g) == k and l2 == l) for f, g, l, _ in evs if (f, g) == k}
        b = ctx.prog.bodies.get(k[0])
        n = sum(1 for bl in b['blocks'] if bl['t']['k'] == 'call' and bl['t']['f']['k'] == 'const' and bl['t']['f']['v'].get('fn', {}).get('inst') == k[1]) if b else -1
        if all(sites.values()) and len(sites) == n: out.add(k)
    return out

AUDIO = ('process', 'process_block', 'clear', 'last_out', 'next_out', 'tap_out', 'tap_in', 'add_to', 'next', 'apply_window', 'len', 'size_hint')
def check_C24(ctx, rep):
    graph = ctx.prog.j['graph']; vt = targets(ctx.prog.j); reached = set(); roots = 0
    have = {}; cap = None
    for e in ctx.prog.entries:
        nm = e['name']; ty = (e.get('adt') or '').split('::')[-1]
        if not e['reachable'] and e.get('trait') is None: continue
        if not (nm in AUDIO or nm.startswith('get_') or (nm.startswith('set_') and nm != 'set_max_delay')): continue
        if ty and ty not in PROCS + WINDOWS: continue
        roots += 1; have.setdefault(ty, set()).add(nm)
        bad = None; n = 0
        for k, par in walk(graph, vt, e['inst']):
            n += 1; reached.add(k)
            w = classify(graph, vt, k, False)
            if w and bad is None: bad = (w, chain(par, k))
        if bad and ty in DELAYS:
            if cap is None: cap = within_capacity(ctx)
            if cap:
                bad = None; n = 0
                for k, par in walk(graph, vt, e['inst'], cap):
                    n += 1; w = classify(graph, vt, k, False)
                    if w and bad is None: bad = (w, chain(par, k))
        rep.ob('%s: real-time safe' % e['inst'], bad is None, '%s (%s)' % (e['path'], e['loc']), '' if bad is None else '%s, through %s' % bad,
               'no path of the call graph reaches allocation, release, locking, blocking or I/O')
        if len(rep.samples) < 5: rep.samples.append({'entry': e['inst'], 'functions reached': n})
    for ty in PROCS:
        for nm in ('process', 'process_block', 'clear', 'last_out'): rep.ob('%s::%s analysed' % (ty, nm), nm in have.get(ty, ()), ty, 'operation not found')
    for ty in WINDOWS: rep.ob('%s::next analysed' % ty, 'next' in have.get(ty, ()), ty, 'operation not found')
    rep.ob('apply_window analysed', 'apply_window' in have.get('', ()), 'window', 'operation not found')
    rep.sites = sum(len(graph[k]['calls']) for k in reached if k in graph)
    rep.fns = {graph[k]['path'] for k in reached if k in graph and graph[k]['crate'] == 'rasp'}
    rep.extra.update(roots=roots, functions_reached=len(reached))

OWNED = {'alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::string::String', 'alloc::collections::vec_deque::VecDeque'}
def owned(types, ty, seen):
    """why a value of the type could share mutable state with something else, or None"""
    if ty in seen: return None
    seen.add(ty)
    t = types.get(ty)
    if t is None: return 'unknown type ' + ty
    k = t['k']
    if k in ('int', 'float', 'bool', 'char', 'str', 'never', 'fndef', 'fnptr'): return None
    if k in ('tuple',): subs = t['tys']
    elif k in ('array', 'slice'): subs = [t['ty']]
    elif k == 'adt':
        if t['path'] in OWNED: subs = [a for a in t.get('args', []) if a != 'alloc::alloc::Global']
        elif t['path'] == 'core::marker::PhantomData': return None
        elif t['path'] == 'core::cell::UnsafeCell' or t['path'].startswith(('alloc::rc', 'alloc::sync')): return 'shared or interior-mutable ' + ty
        else: subs = [f['ty'] for v in t.get('variants') or [] for f in v['fields']]
    elif k == 'ref': return 'reference ' + ty
    else: return 'type ' + ty
    for s in subs:
        w = owned(types, s, seen)
        if w: return w
    return None

def check_C25(ctx, rep):
    j = ctx.prog.j; graph = j['graph']; vt = targets(j)
    for s in j['statics']:
        rep.ob('static %s' % s['path'], not s['mut'] and s['freeze'] and not s['tls'], s['loc'], 'a static that can change is shared by all instances', 'no mutable, interior-mutable or thread-local static')
    rep.ob('statics enumerated', True)
    for kind, path, loc in j['unsafe']:
        if kind == 'unsafe impl' and path.endswith('as core::clone::TrivialClone>'): continue
        rep.ob('%s %s' % (kind, path), False, loc, 'unsafe code', 'no unsafe code')
    rep.ob('unsafe enumerated', True)
    n = 0
    for a in j['adts']:
        if not a['reachable']: continue
        n += 1
        miss = [x for x in ('send', 'sync', 'freeze') if not a[x]]
        rep.ob('%s is Send, Sync and has no interior mutability' % a['ty'], not miss, a['path'], 'not ' + ', '.join(miss), 'auto traits of every public type')
        if a['ty'] in ctx.types:
            w = owned(ctx.types, a['ty'], set())
            rep.ob('%s owns its state' % a['ty'], w is None, a['path'], w, 'every field is plain or uniquely owned data')
        else: rep.ob('%s owns its state' % a['ty'], False, a['path'], 'layout not extracted')
    names = {a['path'].split('::')[-1] for a in j['adts']}
    for ty in PROCS + WINDOWS: rep.ob('%s found' % ty, ty in names, ty, 'type not found')
    reached = set()
    for e in ctx.prog.entries:
        bad = None
        for k, par in walk(graph, vt, e['inst']):
            reached.add(k)
            if k.startswith('indirect!') and e['name'] in ('fold', 'for_each') and e.get('trait'): continue  # the caller's own function
            w = classify(graph, vt, k, True)
            if w and bad is None: bad = (w, chain(par, k))
        rep.ob('%s: deterministic' % e['inst'], bad is None, '%s (%s)' % (e['path'], e['loc']), '' if bad is None else 'reads %s, through %s' % bad, 'no path of the call graph reads ambient or shared state')
    for k in reached:
        b = ctx.prog.bodies.get(k)
        if not b or not b['local']: continue
        for bl in b['blocks']:
            for s in bl['s']:
                r = s.get('r') or {}
                if r.get('k') == 'cast' and 'Expose' in r['c']: rep.ob('%s exposes an address' % k, False, s.get('l'), 'an address becomes a number', 'no address is observable')
    rep.sites = sum(len(graph[k]['calls']) for k in reached if k in graph)
    rep.fns = {graph[k]['path'] for k in reached if k in graph and graph[k]['crate'] == 'rasp'}
    rep.extra.update(public_types=n, statics=len(j['statics']), functions_reached=len(reached))

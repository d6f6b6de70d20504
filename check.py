#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: analyse /repo's current tree for one property.
Exit 0: every obligation discharged.  Exit 1 with VIOLATION lines: some obligation failed (or the analysis could not be carried out)."""
import sys, os, json, time, traceback, re, importlib, multiprocessing
VERIF = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('RASP_EVIDENCE') or os.path.join(VERIF, 'evidence')
sys.path.insert(0, os.path.join(VERIF, 'analysis'))
sys.setrecursionlimit(40000)
import threading, resource
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))     # running out of memory is reported, not fatal
threading.stack_size(512 * 1024 * 1024)

# property -> (checkers, least number of obligations and of crate functions confirmed by hand on the reference tree, rule)
from registry import CHECKS, TRUST

def key_of(x): return re.sub(r'[\w/.-]+\.rs:\d+(:\d+)?', '', x['key']).strip()

def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\S+) key="(.*?)" (.*)$', l.strip())
        if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def analyse(pid, out, *cfg):
    """obligations of one property on one profile of the current tree"""
    c = CHECKS[pid]
    import core
    rep = core.Report(pid); out.append(rep)
    ctx = None
    try:
        ctx = core.Ctx(*cfg)
        for part in c['parts']:
            mod, fn = part.split('.')
            try: getattr(importlib.import_module(mod), fn)(ctx, rep)
            except core.Missing as e: rep.ob('%s: anchor missing' % fn, False, '', str(e), 'the operations the property speaks of exist')
            except core.Unsupported as e: rep.ob('%s: construct outside the analysis' % fn, False, '', 'the analysis cannot establish the property here: %s' % e, 'every construct on the analysed paths is understood')
    except Exception as e:
        tb = traceback.format_exc()
        rep.ob('analysis failed', False, '', '%s: %s' % (type(e).__name__, str(e)[-1500:]), 'the tree builds and is analysed')
        print(tb[-3000:], file=sys.stderr)
    return rep, ctx

LIMIT = {'quick': 780, 'thorough': 5400}
START = time.time()

def big(tier, pid, *cfg):
    """analyse on a thread with a deep stack; an analysis that does not finish in time has not established the property"""
    out = []; part = []
    th = threading.Thread(target=lambda: out.append(analyse(pid, part, *cfg)), daemon=True); th.start(); th.join(max(1, START + LIMIT[tier] - time.time()))
    if out: return out[0]
    if not part: return None
    import core
    rep = core.Report(pid); rep.items = list(part[0].items); rep.fns = set(part[0].fns); rep.sites = part[0].sites; rep.loops = part[0].loops
    rep.ob('analysis not finished', False, '', 'the analysis did not finish within %d s (or stopped): the property is not established for this code' % LIMIT[tier], 'every construct on the analysed paths is understood')
    return rep, None

def child(tier, pid, cfg, conn):
    try:
        r = big(tier, pid, *cfg)
        conn.send(([{k: v if isinstance(v, bool) else str(v) for k, v in x.items()} for x in r[0].items], sorted(r[0].fns), r[0].sites, r[0].loops) if r else None)
    finally:
        sys.stdout.flush(); sys.stderr.flush(); os._exit(0)

def run(pid, tier, res):
    t0 = time.time()
    c = CHECKS[pid]
    # the optimised profile (debug assertions and overflow checks off) is analysed beside the default one; thorough adds
    # extractions from scratch with the MIR transformations off and at their highest level
    cfgs = [('release', (True,))]
    if tier == 'thorough': cfgs += [('%s, MIR level %d' % (n, o), (r, o, True)) for n, r in (('dev', False), ('release', True)) for o in (0, 3)]
    mp = multiprocessing.get_context('fork'); kids = []
    for name, cfg in cfgs:
        rx, tx = mp.Pipe(False); proc = mp.Process(target=child, args=(tier, pid, cfg, tx)); proc.start(); tx.close(); kids.append((name, rx))
    rep, ctx = big(tier, pid, False) or (None, None)
    if rep is None: raise RuntimeError('analysis thread died')
    n_default = len(rep.items)
    for name, rx in kids:
        try: got = rx.recv() if rx.poll(max(5, START + LIMIT[tier] + 20 - time.time())) else None
        except EOFError: got = None
        if got is None: rep.ob('analysis failed [%s]' % name, False, '', 'the analysis of this configuration gave no result', 'the tree builds and is analysed')
        else:
            for x in got[0]: rep.items.append(dict(x, key=x['key'] + ' [%s]' % name))
            rep.fns |= set(got[1]); rep.sites += got[2]; rep.loops += got[3]
    good = [x for x in rep.items if x['ok']]; bad = rep.bad()
    distinct = {key_of(x) for x in rep.items}
    if not bad and n_default < c['floor']:
        rep.ob('obligation floor', False, '', 'only %d obligations were generated, at least %d expected: part of the code escaped the analysis' % (n_default, c['floor']), 'obligation count does not fall')
        bad = rep.bad()
    kn = known(pid); new = []; listed = []
    for x in bad: (listed if key_of(x) in kn else new).append(x)
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': c['explain'], 'rule': c['rule'], 'obligations': len(rep.items), 'discharged': len(good), 'distinct_obligations': len(distinct),
                       'crate_functions_analysed': sorted(rep.fns), 'functions_count': len(rep.fns), 'call_sites_analysed': rep.sites, 'loops_summarised': rep.loops,
                       'samples': rep.samples or [{'obligation': x['key'], 'where': x['where'], 'rule': x['rule']} for x in good[:5]], 'source_key': ctx.key if ctx else None,
                       'instances': ['T = f64', 'T = f32'], 'profiles': ['dev (overflow checks, debug assertions)', 'release (neither)'] + [n for n, _ in cfgs[1:]], **({'facts': rep.extra} if rep.extra else {})},
          'assumptions': TRUST + c.get('assume', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for x in listed: print('KNOWN-FINDING: property=%s %s' % (pid, kn[key_of(x)]))
    if new:
        rp = os.path.join(OUT, pid + '.violations.json')
        with open(rp, 'w') as f: json.dump({'property': pid, 'replay': 'python3 check.py %s' % pid, 'violations': new[:200]}, f, indent=1, default=str)
        seen = set()
        for x in new:
            k = key_of(x)
            if k in seen or len(seen) >= 8: continue
            seen.add(k)
            print('%s: %s\n    %s\n    %s' % (x['where'] or pid, x['key'], x['rule'], x['detail'][:700]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        res.append(1)
    else:
        print('%s: %d obligations discharged over %d crate functions, %d call sites, %d loops (%.1f s)' % (pid, len(good), len(rep.fns), rep.sites, rep.loops, wall))
        res.append(0)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if pid not in CHECKS: print('unknown property ' + pid); return 2
    res = []
    run(pid, tier, res)
    sys.stdout.flush()
    return res[0] if res else 1

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)

#!/usr/bin/env python3
"""writes MANIFEST.json from the registry"""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'analysis'))
from registry import CHECKS
TECH = {'C01': 'static analysis: affine-relation (Karr) product analysis over MIR', 'C02': 'static analysis: gated value numbering, rational-function normal forms of the coefficients',
 'C03': 'static analysis: two-copy affine-relation and canonical ring-state comparison over MIR', 'C04': 'static analysis: inductive frame analysis of the last-output cell over MIR',
 'C05': 'static analysis: loop summary in lock step with a ghost process step', 'C06': 'static analysis: affine hull of reachable states over MIR', 'C07': 'static analysis: frame (mod-set) analysis on function summaries',
 'C08': 'static analysis: relational two-copy affine analysis', 'C09': 'static analysis: inferred ring invariants, linear-domain case analysis', 'C10': 'static analysis: inferred ring invariants, linear-domain case analysis',
 'C11': 'static analysis: inferred ring invariants, linear-domain case analysis', 'C12': 'static analysis: inferred ring invariants, array summaries', 'C13': 'static analysis: inferred ring invariants, array frame analysis',
 'C14': 'static analysis: inferred ring invariants, frame analysis', 'C15': 'static analysis: panic-site reachability with IEEE-aware path conditions', 'C16': 'static analysis: finite ordering-region analysis',
 'C17': 'static analysis: finite ordering/float-class region analysis', 'C18': 'static analysis: finite ordering-region analysis', 'C19': 'static analysis: iterator typestate, closed forms',
 'C20': 'static analysis: trigonometric normal forms of the yielded term', 'C21': 'static analysis: element-wise loop summaries', 'C22': 'static analysis: finite float-class region analysis',
 'C23': 'static analysis: precision (cast, arithmetic and constant) flow over the f64 instances', 'C24': 'static analysis: effect reachability in the resolved call graph', 'C25': 'static analysis: statics/unsafe/auto-trait/ownership facts and call-graph effects', 'C27': 'static analysis: degree (unit-of-measure) typing over MIR value numbers'}
NOTE = 'Covers every path of the listed operations, for all inputs and call histories within the stated assumptions (not a sample); the checker itself is trusted, its result is not a machine-checked proof. '
checks = [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'technique': TECH[p], 'level': 'other',
           'level_note': NOTE + ('Assumes: ' + '; '.join(c['assume']) + '.' if c['assume'] else '')} for p, c in CHECKS.items()]
m = {'version': 1, 'setup_cmd': 'python3 analysis/build.py', 'checks': checks,
     'not_applicable': [{'property': 'C26', 'reason': 'It bounds floating-point rounding errors accumulated over unbounded streams as a function of run-time coefficient values; no sound static argument in reach bounds them (for stable but near-critical coefficients the amplification is unbounded), so nothing short of numerical experiments would speak about it.'}],
     'notes': 'No hooks in /repo. The analysis reads the MIR of /repo as built by cargo +nightly check (driver/), never runs it. Repaired defects are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] : decide one property of the current /repo tree by static analysis.

The sources are compiled to LLVM IR and interpreted abstractly; nothing of /repo is run.
Exit 0: no rule of the property is broken on anything analysed. Exit 1: a rule is broken
(VIOLATION line). Exit 2: the analysis could not be carried out."""
import sys, os, time, json, multiprocessing, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import build
import plan
MODS = {}

def job(t):
    t0 = time.time()
    try:
        return plan.run_task(MODS, t)
    except Exception as e:
        return {'task': (t['suite'], t['entry'], t['case'], t['mode'], t['split']), 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:],
                'viol': [], 'nob': {}, 'undecided': {}, 'cut': {}, 'fns': [], 'exits': 0, 'wall': time.time() - t0, 'steps': 0}

def known(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known: '): continue
            d = dict(x.split('=', 1) for x in l[7:].split(' | ') if '=' in x)
            if d.get('property') == prop: out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    try:
        for m in sorted(set(plan.module_of(x) for x in plan.PROPS[prop])):
            MODS[m] = build.load(m)
        full = plan.jobs(MODS, prop, tier)
    except Exception as e:
        print('ANALYSIS-ERROR %s' % e); traceback.print_exc(); return 2
    nw = int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 1)
    with multiprocessing.Pool(nw, maxtasksperchild=1) as pool:
        res = pool.map(job, full, chunksize=1)
    # ---- collect
    viol = {}; open_ = {}; nob = {}; und = {}; cut = {}; fns = set(); errs = []
    for r in res:
        fns |= set(r['fns'])
        if r.get('error'): errs.append((r['task'], r['error'], r.get('tb')))
        for k, v in r['undecided'].items(): und[k] = und.get(k, 0) + v
        for k, v in r['cut'].items(): cut[k] = cut.get(k, 0) + v
        fix = r['task'][3] == 'fix'
        for k, (c, ok) in r['nob'].items():
            a = nob.setdefault(k, [0, 0]); a[0] += c; a[1] += ok
        for v in r['viol']:
            if v['property'] != prop: continue
            k = (v['function'], v['at'], v['msg'].split('|')[0])
            (open_ if fix else viol).setdefault(k, (v, r['task']))
    kn = known(prop); shown = []
    for k, (v, t) in sorted(viol.items(), key=str):
        for d in kn:
            if d.get('entry', t[1]) == t[1] and d.get('function', v['function']) == v['function'] and d.get('rule', '') in v['msg'] and d.get('case', '') in str(v.get('case')):
                print('KNOWN-FINDING: property=%s %s' % (prop, d.get('what', v['msg'])))
                break
        else: shown.append((k, v, t))
    mine = dict((k, v) for k, v in nob.items() if k[0] == prop)
    rp = os.path.join(ev, 'replay-%s.txt' % prop)
    if os.path.exists(rp): os.remove(rp)
    if shown:
        with open(rp, 'w') as f:
            for k, v, t in shown:
                f.write('property %s: rule broken: %s\n  at %s in %s\n  entry %s, case %s\n  call stack: %s\n  branches taken (line, + taken / - not taken): %s\n\n' %
                        (prop, v['msg'], v['at'], v['function'], t[1], v.get('case'), ' > '.join(v['callstack']), ' '.join(v['path'])))
    exp = plan.explain(prop)
    if os.environ.get('VERIF_TIMES'):
        for r in sorted(res, key=lambda r: -r['wall'])[:12]: print(r['task'], '%.1f' % r['wall'])
    out = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'wall_s': round(time.time() - t0, 2),
           'violations': len(shown),
           'assumptions': plan.ASSUMPTIONS,
           'coverage': {'explanation': exp,
                        'obligations': sum(v[0] for v in mine.values()), 'discharged': sum(v[1] for v in mine.values()),
                        'rule_sites': len(mine),
                        'rules': sorted(set(k[2] for k in mine)),
                        'entries': sorted(set('%s/%s' % (t['entry'], t['mode']) for t in full)),
                        'cases': len(full),
                        'paths_to_return': sum(r['exits'] for r in res),
                        'functions': sorted(fns),
                        'loop_iterations_not_partitioned': dict(('%s %s' % k, v) for k, v in cut.items()),
                        'undecided_paths': dict(('%s: %s' % k, v) for k, v in und.items()),
                        'undecided_in_generalised_loop_states': sorted('%s %s: %s' % k for k in open_ if k not in viol),
                        'task_errors': ['%s: %s' % (t, e) for t, e, _ in errs],
                        'samples': ['%s at %s: %d/%d' % (k[2], k[1], v[1], v[0]) for k, v in sorted(mine.items())[:12]]}}
    with open(os.path.join(ev, prop + '.json'), 'w') as f: json.dump(out, f, indent=1, sort_keys=True)
    for k, v, t in shown:
        print('%s: %s: [%s] %s (in %s, entry %s, %s)' % (prop, v['at'], v['function'], v['msg'], ' > '.join(v['callstack']), t[1], v.get('case')))
    if shown:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for t, e, tb in errs: print('ANALYSIS-ERROR %s %s\n%s' % (t, e, tb))
    miss = plan.missing(prop, mine)
    if miss:
        print('ANALYSIS-ERROR rules without any site: %s' % miss); return 2
    if und: print('note: %d program points left undecided (see evidence)' % len(und))
    print('%s: %d rule sites, %d obligations discharged over %d entry cases in %.1fs' % (prop, len(mine), sum(v[1] for v in mine.values()), len(full), time.time() - t0))
    return 0

if __name__ == '__main__': sys.exit(main())

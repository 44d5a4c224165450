"""Which entry points are analysed for which property."""
from core import *
import core
F_DROP = 2
BUDGET = {'quick': 400, 'thorough': 3000}

R = ('shr_read', 'shr_readv'); W = ('shr_write', 'shr_writev', 'shr_flush'); M = ('shr_close', 'shr_ctl', 'shr_stat', 'shr_farm_stat', 'shr_appdata', 'shr_get_selectable_fd')
PROPS = {
    'C01': {'shr': R + W + M}, 'C02': {'shr': R + W + M}, 'C03': {'shr': W}, 'C04': {'shr': W + R},
    'C05': {'shr': W + R + ('shr_appdata', 'shr_stat')}, 'C06': {'shr': W + R + M}, 'C07': {'shr': W},
    'C08': {'shr': W + R + M}, 'C09': {'shr': W + R + ('shr_ctl',)}, 'C10': {'shr': W + R},
    'C11': {'shr': R + ('shr_get_selectable_fd',)}, 'C12': {'shr': R + ('shr_farm_stat',)}, 'C13': {'shr': R},
    'C14': {'shr': W + ('shr_close',)}, 'C15': {'shr': W + R + ('shr_appdata', 'shr_stat')},
    'C16': {'open': ('shr_init',)}, 'C17': {'open': ('shr_init',)}, 'C18': {'open': ('shr_open',)},
    'C19': {'open': ('shr_open', 'shr_init'), 'shr': ('shr_close', 'shr_flush', 'shr_ctl')},
    'C20': {'shr': ('shr_appdata',)}, 'C21': {'shr': W + R + ('shr_stat',)},
}
for _p in ('C01', 'C02', 'C05', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15'): PROPS[_p]['open'] = ('shr_open',)
for _p in ('C01', 'C02'): PROPS[_p]['open'] = ('shr_open', 'shr_init')
BWX = {'C22': ('bw_open', 'bw_wake', 'bw_close'), 'C23': ('bw_open', 'bw_wake', 'bw_close', 'bw_force'), 'C19': ('bw_open', 'bw_wake', 'bw_close', 'bw_force'),
       'C11': ('bw_force', 'bw_open'), 'C09': ('bw_wait_ul', 'bw_ready_ul', 'bw_ctl', 'bw_open'), 'C10': ('bw_open', 'bw_wake'), 'C02': ('bw_open', 'bw_wake', 'bw_close', 'bw_force')}
for _p, _e in BWX.items(): PROPS.setdefault(_p, {})['bw'] = _e
PROPS['C24'] = {'ux': ('has_pid_socket', 'get_socket_inodes', 'has_socket_name', 'get_col', 'slurp_special')}
PROPS['C25'] = {'tool': ('main/sub',)}
PROPS['C26'] = {'tool': ('main/read', 'main/readhex', 'main/tee', 'main/pub')}
PROPS['C29'] = {'tool': ('main/pub',)}
PROPS['C27'] = {'tool': ('main/mount',)}
PROPS['C28'] = {'tool': ('main/create',), 'open': ('shr_init',)}
PROPS['C30'] = {'tool': ('main/write', 'main/writefile', 'main/writehex')}
PROPS['C31'] = {'tool': ('main/status',)}
COST = {'main/readhex': 50, 'main/pub': 30, 'shr_writev': 40, 'shr_write': 38, 'shr_flush': 20, 'shr_close': 30, 'shr_readv': 5, 'shr_read': 3}

# deeper partitions (two iterations of every loop) that are cheap enough for every change
DEEP = {'C03': {'shr_write': (0,), 'shr_writev': (0,)}, 'C04': {'shr_write': (0,), 'shr_writev': (0,)}, 'C05': {'shr_write': (0,), 'shr_writev': (0,)},
        'C06': {'shr_write': (0,), 'shr_writev': (0,)}, 'C07': {'shr_write': (0,), 'shr_writev': (0,)}, 'C09': {'shr_write': (0,)}, 'C10': {'shr_write': (0,)},
        'C21': {'shr_write': (0,)}, 'C08': {'shr_write': (0,)}, 'C02': {'shr_write': (0,)}, 'C01': {'shr_write': (0,)}, 'C15': {'shr_write': (0,)},
        'C12': {'shr_readv': (0, 1)}, 'C13': {'shr_readv': (0, 1)}}
for p in ('C04', 'C05', 'C06'): DEEP[p]['shr_readv'] = (0, 1)
SPLITS = [((0,), 0), ((0,), 1), ((1,), 0), ((1,), 1), ((2,), 0), ((2,), 1)]

def splits(suite, entry, case, mode):
    """disjoint parts of the entry states, analysed in parallel"""
    if suite == 'shr' and mode == 'part2' and entry in ('shr_write', 'shr_writev', 'shr_flush', 'shr_close'): return SPLITS
    return [None]
def cost(t):
    c = COST.get(t['entry'], 1)
    if not isinstance(t['case'], int): return 6
    if t['entry'] in ('shr_write', 'shr_writev'): c = c if t['case'] == 1 else 8
    if t['mode'] == 'part2': c *= 3
    if t['split'] is not None: c *= (0.05, 0.3, 1)[t['split'][0][0]]
    if t['mode'] == 'fix': c = 100
    return c
def jobs(mods, prop, tier):
    out = []
    for suite, entries in PROPS[prop].items():
        for e in entries:
            n = ncases(mods, suite, e)
            if suite not in PART:
                g = GROUP.get(e, 1); k = rounds(suite, e, tier)
                for c in range(0, n, g):
                    out.append({'suite': suite, 'entry': e, 'case': (c, min(n, c + g)), 'mode': 'part%d' % k, 'split': None, 'only': (prop,), 'budget': BUDGET[tier]})
                continue
            for c in range(n):
                modes = ['part1'] if tier == 'quick' else ['part2', 'fix']
                if tier == 'quick' and c in DEEP.get(prop, {}).get(e, ()): modes = ['part2']
                for m in modes:
                    for sp in splits(suite, e, c, m):
                        out.append({'suite': suite, 'entry': e, 'case': c, 'mode': m, 'split': sp, 'only': (prop,), 'budget': BUDGET[tier]})
    out.sort(key=lambda t: -cost(t))
    return out
UXR = {'has_socket_name': (3, 5), 'get_socket_inodes': (4, 8), 'has_pid_socket': (2, 3), 'get_col': (12, 16), 'slurp_special': (8, 12)}
def rounds(suite, entry, tier):
    if suite == 'bw': return 1100
    if suite == 'ux': return UXR[entry][tier != 'quick']
    if suite == 'tool': return 26 if tier == 'quick' else 40
    return 4 if tier == 'quick' else 8
PART = ('shr',)
GROUP = {'shr_open': 7, 'shr_init': 34}
def module_of(suite): return 'shr-tool' if suite == 'tool' else 'lib'
def interp(mods, suite, entry):
    if suite == 'shr':
        from shrapi import ShrApi
        return ShrApi(mods[module_of(suite)], entry)
    if suite == 'open':
        from openapi import OpenApi
        return OpenApi(mods[module_of(suite)], entry)
    if suite == 'bw':
        from bwapi import BwApi
        return BwApi(mods[module_of(suite)], entry)
    if suite == 'ux':
        from uxapi import UxApi
        return UxApi(mods[module_of(suite)], entry)
    if suite == 'tool':
        import toolapi
        return toolapi.make(mods[module_of(suite)], entry)
def ncases(mods, suite, entry):
    if suite == 'tool':
        I = interp(mods, suite, entry)
        return sum(1 for _ in I.driver()) if I.fits() else 0
    if suite == 'ux' and not interp(mods, suite, entry).fits(): return 0
    if mods[module_of(suite)].func(entry) is None: raise AnalysisError('function %s not found' % entry)
    I = interp(mods, suite, entry)
    return sum(1 for _ in getattr(I, 'drv_' + entry)())
def run_task(mods, t):
    t0 = time.time()
    suite, entry, case, mode, split = t['suite'], t['entry'], t['case'], t['mode'], t['split']
    I = interp(mods, suite, entry)
    I.only = t['only']; I.robust = True; I.deadline = t0 + t['budget']
    if mode.startswith('part'): I.UNROLL = int(mode[4:])
    dn = 'drv_' + entry.replace('/', '_')
    drv = getattr(I, dn) if suite != 'tool' else I.driver
    def one():
        for i, c in enumerate(drv()):
            if (i != case) if isinstance(case, int) else not case[0] <= i < case[1]: continue
            if split is not None:
                I.sect_first = split[0]
                st = c[1]; kz, ko = st.kb[I.gflags]; st.kb = dict(st.kb)
                st.kb[I.gflags] = (kz, ko | F_DROP) if split[1] else (kz | F_DROP, ko)
            yield c
    setattr(I, dn, one)
    err = None
    n = 0
    try: n = I.run_api()
    except AnalysisError as e: I.undecided[(entry, str(e))] = 1
    vs = []
    for v in I.viol.values():
        v.setdefault('case', '')
        vs.append(v)
    return {'task': (suite, entry, case, mode, split), 'error': err, 'viol': vs, 'nob': dict((k, list(v)) for k, v in I.nob.items()),
            'undecided': I.undecided, 'cut': I.cut, 'fns': sorted(I.fns), 'exits': n, 'wall': time.time() - t0, 'steps': STAT['steps']}
def explain(prop):
    return EXPL % ', '.join(sorted(e for es in PROPS[prop].values() for e in es))
EXPL = ('Abstract interpretation of the LLVM IR of the current sources, from the entry points %s with every defined callee inlined, '
        'against models of the system calls and of the ring content of other processes (arbitrary content satisfying the bookkeeping '
        'invariant at every lock acquisition). The first iterations of each loop are kept as separate trace partitions; every obligation '
        'reached on every partition is decided by linear entailment and typestate. A thorough run adds deeper partitions and a fixpoint '
        'over all iterations whose undischarged obligations are listed as undecided.')
ASSUMPTIONS = ['clang -O0 IR represents the sources', 'system calls behave as modelled in engine/libc.py and engine/shrapi.py',
               'sizes and counters stay below 2^60', 'other processes follow the locking rule']
MUST = {'C01': ['ring lock'], 'C02': ['released'], 'C03': ['placed'], 'C04': ['consumed', 'overwritten'], 'C05': ['wrapping'], 'C06': ['bookkeeping'],
        'C07': ['drop mode'], 'C08': ['waits'], 'C09': ['re-check', 'cannot proceed'], 'C10': ['wakes'], 'C11': ['descriptor'], 'C12': ['reader'],
        'C13': ['caller'], 'C14': ['held'], 'C15': ['flush'], 'C16': ['file'], 'C17': ['areas'], 'C18': ['signature'], 'C19': ['release'], 'C20': ['application data'], 'C21': ['counted', 'snapshot']}
def missing(prop, mine):
    if not mine: return 'no obligation of %s was reached' % prop
    return None

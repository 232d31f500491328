"""C04: ramp limits."""
from ..common import *
from ..refmarket import *

GEN = [
    ('kind', [G, L]),
    ('init', [40, 0, 100, 95, 5, 0.4]),
    ('up', [240, 0, 60, 1200]),
    ('down', [240, 0, 60, 1200]),
    ('scada', ['none', (120, 120), (None, 60), (600, None), (None, None), 'absent', (0, 0), 'uponly', 'downonly']),
    ('di', [5, None, 30, 60, 15]),
    ('push', ['high', 'low']),
    ('second', [None, 'fixed', 'scada']),
    ('shape', ['plain', 'rev', 'idx', 'ridx']),
    ('dt', [True, False]),
]
BDU = [
    ('init', [-30, 30, 0, -5, 5, -2, 60, -60, -0.5, 0.25]),
    ('gu', [240, 60, 0, 1200]),
    ('gd', [240, 60, 0, 1200]),
    ('lu', [120, 36, 0, 1200]),
    ('ld', [120, 36, 0, 1200]),
    ('scada', ['none', (60, 60), (None, 30), (2000, None), 'absent']),
    ('di', [5, None, 30, 60]),
    ('push', ['high', 'low']),
    ('second', [None, 'fixed', 'scada', 'bdu']),
    ('shape', ['plain', 'rev', 'idx', 'ridx']),
]


def to_spec(c):
    spec = dict(regions=['N'], shape=c['shape'], di=c['di'], units=[dict(u='P', r='N'), dict(u='W', r='N', t=L)],
                bids=[dict(u='P', t=G, s='energy', v={'1': 400}, p={'1': 100}), dict(u='W', t=L, s='energy', v={'1': 400}, p={'1': 50})])
    rows, scada = [], []
    if c['space'] == 'gen':
        t = c['kind']
        spec['units'].append(dict(u='A', r='N', t=t))
        cheap = (c['push'] == 'high') == (t == G)
        spec['bids'].append(dict(u='A', t=t, s='energy', v={'1': 60, '2': 60}, p={'1': 10 if cheap else 500, '2': 11 if cheap else 501}))
        if t == L:
            spec['bids'][-1]['p'] = {'1': 500 if c['push'] == 'high' else 10, '2': 499 if c['push'] == 'high' else 9}
        rows.append(('A', t, c['init'], c['up'], c['down']))
        if not c['dt'] and t == G:
            spec['units'] = [u for u in spec['units'] if u['u'] != 'W']
            spec['bids'] = [b for b in spec['bids'] if b['u'] != 'W']
            spec['dt'] = False
    else:
        spec['units'] += [dict(u='A', r='N', t=G), dict(u='A', r='N', t=L)]
        hi = c['push'] == 'high'
        spec['bids'] += [dict(u='A', t=G, s='energy', v={'1': 200}, p={'1': 10 if hi else 600}),
                         dict(u='A', t=L, s='energy', v={'1': 200}, p={'1': 5 if hi else 550})]
        rows += [('A', G, c['init'], c['gu'], c['gd']), ('A', L, c['init'], c['lu'], c['ld'])]
    if c['second']:
        if c['second'] == 'bdu':
            spec['units'] += [dict(u='B', r='N', t=G), dict(u='B', r='N', t=L)]
            spec['bids'] += [dict(u='B', t=G, s='energy', v={'1': 50}, p={'1': 20}), dict(u='B', t=L, s='energy', v={'1': 50}, p={'1': 15})]
            rows += [('B', G, 10, 120, 60), ('B', L, 10, 60, 120)]
        else:
            spec['units'].append(dict(u='B', r='N', t=G))
            spec['bids'].append(dict(u='B', t=G, s='energy', v={'1': 50}, p={'1': 20}))
            rows.append(('B', G, 10, 120, 60))
            if c['second'] == 'scada':
                scada.append(('B', 72, 36))
    spec['ramp'] = dict(rows=rows)
    s = c['scada']
    only = None
    if s in ('uponly', 'downonly'):
        only, s = s, (120, 120)
    if s != 'none' or scada:
        if s not in ('none', 'absent'):
            scada.append(('A',) + tuple(s))
        spec['ramp']['scada'] = scada
        if only:
            spec['ramp']['scada'] = [(u, a if only == 'uponly' else None, b if only == 'downonly' else None) for u, a, b in scada]
            spec['ramp']['only'] = only
    spec['demand'] = dict(rows=[('N', 150)])
    return spec


def run_case(c):
    spec = to_spec(c)
    m, o, ref = run_spec(spec)
    return canon(o) if o else 'infeasible'


def cases(tier):
    k = 3 if tier == 'quick' else 4
    for c in deviations(GEN, k):
        yield dict(c, space='gen')
    for c in deviations(BDU, 2 if tier == 'quick' else 3):
        yield dict(c, space='bdu')
    base = {n: v[0] for n, v in BDU}
    names = ['init', 'gu', 'gd', 'lu', 'ld', 'push'] + (['di'] if tier == 'thorough' else [])
    for x in product([(n, v) for n, v in BDU if n in names]):
        # rates of the side that is not pushed never matter; keep the product to relevant pairs in quick
        if tier == 'quick':
            if x['push'] == 'high' and (x['gd'] != 240 or x['lu'] != 120):
                continue
            if x['push'] == 'low' and (x['gu'] != 240 or x['ld'] != 120):
                continue
        yield dict(base, space='bdu', **x)


def run():
    return main('C04', cases, run_case,
                'every combination of initial output, rates, telemetered rates, interval length and unit kind within the bound is dispatched against offers that push the unit as far up or down as possible',
                {'quick': 'ordinary units: <=3 deviations over %d dimensions; bidirectional: <=2 deviations over %d dimensions plus full product of initial output and the relevant rates' % (len(GEN), len(BDU)),
                 'thorough': '<=4 / <=3 deviations plus full product with interval length'})

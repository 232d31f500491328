"""C08: joint ramping."""
from ..common import *
from ..refmarket import *

DIMS = [
    ('kind', [G, L]),
    ('init', [50, 0, 100, 45]),
    ('up', [240, None, 60, 0, 1200]),
    ('down', [240, None, 60, 0, 1200]),
    ('reg', ['both', 'raise', 'lower']),
    ('epref', [0, 10, -10, 60, -60, 0.5, -0.5]),
    ('wr', [6, 1.5, 40]),
    ('di', [5, None, 30, 60]),
    ('cost', [None, 3, 1000]),
    ('second', [None, 'gen', 'load', 'nobid']),
    ('shape', ['plain', 'rev', 'idx', 'ridx']),
    ('fs', [None, 'first0', 'first3', 'second2', 'second3', 'secondsince']),
]
BD = [
    ('kind', ['bdu']),
    ('init', [0, 30, -30, -4]),
    ('up', [240, None, 60, 1200]),
    ('down', [240, None, 60, 1200]),
    ('reg', ['both', 'raise', 'lower']),
    ('sides', ['both', 'gen', 'load']),
    ('epref', [0, 10, -10, 60, -60]),
    ('wr', [6, 1.5, 40]),
    ('di', [5, 30]),
    ('cost', [None, 3, 1000]),
    ('second', [None, 'gen', 'load', 'nobid', 'bdu']),
    ('shape', ['plain', 'rev', 'idx', 'ridx']),
    ('fs', [None]),
]


def to_spec(c):
    t = c['kind']
    spec = dict(regions=['N'], shape=c['shape'], di=c['di'], units=[dict(u='P', r='N'), dict(u='W', r='N', t=L)],
                bids=[dict(u='P', t=G, s='energy', v={'1': 500}, p={'1': 100}), dict(u='W', t=L, s='energy', v={'1': 500}, p={'1': 50})])
    if t == 'bdu':
        spec['units'] += [dict(u='A', r='N'), dict(u='A', r='N', t=L)]
        spec['bids'] += [dict(u='A', t=G, s='energy', v={'1': 100}, p={'1': 100 + c['epref']}),
                         dict(u='A', t=L, s='energy', v={'1': 100}, p={'1': 99 + c['epref']})]
        sides = {'gen': [G], 'load': [L], 'both': [G, L]}[c['sides']]
    else:
        spec['units'].append(dict(u='A', r='N', t=t))
        p = 100 - c['epref'] if t == G else 50 + c['epref']
        spec['bids'].append(dict(u='A', t=t, s='energy', v={'1': 70, '2': 30}, p={'1': p, '2': p}))
        sides = [t]
    svcs = {'both': ['raise_reg', 'lower_reg'], 'raise': ['raise_reg'], 'lower': ['lower_reg']}[c['reg']]
    rows = [('A', c['init'], c['up'], c['down'])]
    fr = []
    for s in svcs:
        for x in sides:
            spec['bids'].append(dict(u='A', t=x, s=s, v={'1': 15, '2': 15}, p={'1': 1, '2': 2}))
        spec['bids'].append(dict(u='P', t=G, s=s, v={'1': 200}, p={'1': c['wr']}))
        fr.append(('r_' + s, 'N', s, 60, '='))
    spec['fcas'] = dict(rows=fr)
    z = c['second']
    if z == 'nobid':
        spec['units'].append(dict(u='Z', r='N'))
        spec['bids'].append(dict(u='Z', t=G, s='energy', v={'1': 10}, p={'1': 3}))
        rows.append(('Z', 4, 12, 12))
    elif z in ('gen', 'load'):
        x = G if z == 'gen' else L
        spec['units'].append(dict(u='Z', r='N', t=x))
        spec['bids'] += [dict(u='Z', t=x, s='energy', v={'1': 40}, p={'1': 3 if x == G else 300}),
                         dict(u='Z', t=x, s=svcs[0], v={'1': 30}, p={'1': 0.5})]
        rows.append(('Z', 20, 120, 180))
    elif z == 'bdu':
        spec['units'] += [dict(u='Z', r='N'), dict(u='Z', r='N', t=L)]
        spec['bids'] += [dict(u='Z', t=G, s='energy', v={'1': 40}, p={'1': 3}), dict(u='Z', t=L, s='energy', v={'1': 40}, p={'1': 2}),
                         dict(u='Z', t=L, s=svcs[-1], v={'1': 30}, p={'1': 0.5})]
        rows.append(('Z', -10, 120, 180))
    spec['jramp'] = dict(rows=rows)
    if c['cost'] is not None:
        spec['jramp']['cost'] = c['cost']
    if c['fs']:
        f = c['fs']
        if f.startswith('first'):
            spec['jramp'].update(run='fast_start_first_run', fs=[dict(u='A', cur=int(f[-1]))])
        elif f == 'secondsince':
            spec['jramp'].update(run='fast_start_second_run', fs=[dict(u='A', end=3, ml=30, since=2.0)])
        else:
            spec['jramp'].update(run='fast_start_second_run', fs=[dict(u='A', end=int(f[-1]), ml=30, since=None)])
    spec['demand'] = dict(rows=[('N', 100)])
    return spec


def run_case(c):
    if c['fs'] == 'secondsince' and c['kind'] == L:
        return 'n/a'
    m, o, ref = run_spec(to_spec(c))
    return canon(o) if o else 'infeasible'


def cases(tier):
    k = 3 if tier == 'quick' else 4
    yield from deviations(DIMS, k)
    yield from deviations(BD, k if tier == 'thorough' else 2)
    base = {n: v[0] for n, v in BD}
    for x in product([(n, v) for n, v in BD if n in ('init', 'up', 'down', 'reg', 'sides', 'epref')]):
        if tier == 'thorough' or (x['up'] == x['down'] and (x['up'] in (60, 240))):
            yield dict(base, **x)


def run():
    return main('C08', cases, run_case,
                'every initial output, telemetered rate (present, zero or missing), regulation offer, price pull, unit kind, interval length and violation cost within the bound is dispatched and compared with the exact co-optimum',
                {'quick': '<=3 deviations over %d dimensions (one-directional), <=2 over %d plus a product (bidirectional)' % (len(DIMS), len(BD)),
                 'thorough': '<=4 deviations and the full product for bidirectional units'})

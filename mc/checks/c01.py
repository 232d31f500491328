"""C01: dispatch is feasible and least cost for the offers as bid."""
from ..common import *
from ..refmarket import *

DIMS = [
    ('dN', [70, 0, 30, 40, 100, 139.5, 140, 400, -10]),
    ('Av', [{'1': 40, '2': 20}, {'1': 40}, {'1': 10, '2': 0, '3': 30}, {'1': 5, '2': 5, '9': 20, '10': 30}, {'10': 60, '1': 0.0}]),
    ('Ap', [{'1': 20, '2': 50, '3': 55, '9': 60, '10': 70}, {'1': -30, '2': 45, '3': 45, '9': 45, '10': 300},
            {'1': 30, '2': 30, '3': 40, '9': 40, '10': 40}, {'1': 0, '2': 0, '3': 14000, '9': 14500, '10': 15000}]),
    ('Alf', [1.0, 0.9, 1.25]),
    ('Bv', [{'1': 50, '2': 30}, {'1': 80}, {'1': 0.5, '2': 79.25}]),
    ('Bp', [{'1': 30, '2': 52}, {'1': 20, '2': 20}, {'1': -1000, '2': 1000}]),
    ('Blf', [1.0, 0.95, 1.04]),
    ('D', [None, ({'1': 30}, {'1': 60}, 1.0), ({'1': 30}, {'1': 10}, 1.0), ({'1': 15, '2': 15}, {'1': 54, '2': 25}, 0.8), ({'1': 25, '3': 5}, {'1': 50, '3': 50}, 1.1),
           ({'1': 20}, {'1': -5}, 1.0)]),
    ('C', [None, (0, 1.0, 10), (30, 1.0, 15), (30, 0.9, -20)]),     # second region: demand, lf, price
    ('F', [None, ('raise_reg', 15, 1), ('lower_6s', 35, 2), ('raise_60s', 12, 3)]),  # fcas: service, requirement, offer pattern
    ('shape', ['plain', 'rev', 'idx', 'ridx', 'cols']),
    ('form', ['full', 'nodt', 'nolf', 'service']),
    ('names', [('A', 'B'), ('B1', 'A2'), ('X', 'X1'), ('UNIT_10', 'UNIT_9')]),
]


def to_spec(c):
    a, b = c['names']
    spec = dict(regions=['N', 'V'], units=[dict(u=a, r='N', lf=c['Alf']), dict(u=b, r='N', lf=c['Blf'])], bids=[], shape=c['shape'])
    spec['bids'].append(dict(u=a, t=G, s='energy', v=c['Av'], p=c['Ap']))
    spec['bids'].append(dict(u=b, t=G, s='energy', v=c['Bv'], p=c['Bp']))
    dem = [('N', c['dN'])]
    loads = False
    if c['D']:
        loads = True
        v, p, lf = c['D']
        spec['units'].append(dict(u='D', r='N', t=L, lf=lf))
        spec['bids'].append(dict(u='D', t=L, s='energy', v=v, p=p))
    if c['C']:
        d, lf, p = c['C']
        spec['units'].append(dict(u='C', r='V', lf=lf))
        spec['bids'].append(dict(u='C', t=G, s='energy', v={'1': 35}, p={'1': p}))
        dem.append(('V', d))
    if c['F']:
        s, vol, pat = c['F']
        spec['bids'].append(dict(u=a, t=G, s=s, v={'1': 10, '2': 10}, p={'1': 3, '2': 12}))
        spec['bids'].append(dict(u=b, t=G, s=s, v={'1': 20}, p={'1': 3 if pat == 1 else 8}))
        if c['D'] and pat != 2:
            spec['bids'].append(dict(u='D', t=L, s=s, v={'1': 7}, p={'1': 5}))
        spec['fcas'] = dict(rows=[('req', 'N', s, vol, '=')])
    spec['demand'] = dict(rows=dem)
    if c['form'] == 'nodt' and not loads:
        spec['dt'] = False
    if c['form'] == 'nolf' and all(u.get('lf', 1.0) == 1.0 for u in spec['units']):
        spec['no_lf'] = True
    if c['form'] == 'service':
        spec['service_col'] = True
    return spec


def run_case(c):
    m, o, ref = run_spec(to_spec(c))
    return canon(o) if o else 'infeasible'


def cases(tier):
    yield from deviations(DIMS, 3 if tier == 'quick' else 4)
    # full product of the dimensions that interact through the merit order
    core = ['dN', 'Ap', 'Alf', 'Bp', 'D', 'F'] if tier == 'thorough' else ['dN', 'Ap', 'Alf', 'D']
    base = {n: v[0] for n, v in DIMS}
    for x in product([(n, v) for n, v in DIMS if n in core]):
        yield dict(base, **x)


def run():
    return main('C01', cases, run_case,
                'every market within the deviation bound is built and dispatched through the public API; feasibility, cost of the '
                'reported dispatch and objective value are compared with an exact reference least-cost solution',
                {'quick': 'all configurations with <=3 deviations over %d dimensions, plus the full product of demand, offer prices, loss factor and load bids' % len(DIMS),
                 'thorough': '<=4 deviations plus larger product'})

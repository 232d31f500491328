"""C03: bid volume, capacity and forecast limits."""
from ..common import *
from ..refmarket import *

DIMS = [
    ('dN', [150, 20, 60, 85, 300, 0]),
    ('capA', [60, None, 0, 25.5, 80, 200]),
    ('capB', [None, 50, 0, 70]),
    ('uigfA', [None, 45, 0, 90, 60]),
    ('uigfB', [None, 30, 100]),
    ('Av', [{'1': 40, '2': 40}, {'1': 80}, {'2': 40, '1': 10, '10': 20}, {'1': 0.001, '2': 50}]),
    ('Dcap', ['noload', None, 10, 25, 0]),
    ('Dp', [90, 5]),
    ('pA', [10, 40, -5]),
    ('fcas', [None, 'raise_reg', 'lower_5min', 'raise_1s', 'lower_1s']),
    ('bdu', [None, (10, 10), (None, 12), (7, None), (0, 5), (20, 30)]),
    ('bducheap', [False, True]),
    ('shape', ['plain', 'rev', 'idx', 'ridx', 'dupidx']),
    ('dt', [True, False]),
    ('names', [('A', 'B'), ('B', 'A'), ('A', 'AA')]),
]


def to_spec(c):
    a, b = c['names']
    spec = dict(regions=['N'], units=[dict(u=a, r='N'), dict(u=b, r='N')], shape=c['shape'],
                bids=[dict(u=a, t=G, s='energy', v=c['Av'], p={'1': c['pA'], '2': c['pA'] + 5, '10': c['pA'] + 6}),
                      dict(u=b, t=G, s='energy', v={'1': 70, '2': 10}, p={'1': 30, '2': 35}),
                      ])
    # a peaker so that demand can be met when the limits allow less
    spec['units'].append(dict(u='P', r='N'))
    spec['bids'].append(dict(u='P', t=G, s='energy', v={'1': 200}, p={'1': 300}))
    cap, ui = [], []
    if c['capA'] is not None:
        cap.append((a, G, c['capA']))
    if c['capB'] is not None:
        cap.append((b, G, c['capB']))
    if c['uigfA'] is not None:
        ui.append((a, c['uigfA']))
    if c['uigfB'] is not None:
        ui.append((b, c['uigfB']))
    if c['Dcap'] != 'noload':
        spec['units'].append(dict(u='D', r='N', t=L))
        spec['bids'].append(dict(u='D', t=L, s='energy', v={'1': 20, '2': 10}, p={'1': c['Dp'], '2': c['Dp'] - 1}))
        if c['Dcap'] is not None:
            cap.append(('D', L, c['Dcap']))
    if c['bdu']:
        g, l = c['bdu']
        spec['units'] += [dict(u='BD', r='N', t=G), dict(u='BD', r='N', t=L)]
        spec['bids'] += [dict(u='BD', t=G, s='energy', v={'1': 20}, p={'1': 12}),
                         dict(u='BD', t=L, s='energy', v={'1': 20}, p={'1': 400 if c['bducheap'] else 8})]
        if g is not None:
            cap.append(('BD', G, g))
        if l is not None:
            cap.append(('BD', L, l))
    if c['fcas']:
        spec['bids'].append(dict(u=a, t=G, s=c['fcas'], v={'1': 12, '2': 8}, p={'1': 1, '2': 9}))
        spec['bids'].append(dict(u=b, t=G, s=c['fcas'], v={'1': 10}, p={'1': 5}))
        spec['fcas'] = dict(rows=[('r', 'N', c['fcas'], 28, '=')])
    if cap:
        spec['cap'] = dict(rows=cap)
    if ui:
        spec['uigf'] = dict(rows=ui)
    spec['demand'] = dict(rows=[('N', c['dN'])])
    if not c['dt'] and all(u.get('t', G) == G for u in spec['units']):
        spec['dt'] = False
    return spec


def run_case(c):
    m, o, ref = run_spec(to_spec(c))
    return canon(o) if o else 'infeasible'


def cases(tier):
    yield from deviations(DIMS, 2 if tier == 'quick' else 3)
    names = ['dN', 'capA', 'capB', 'uigfA', 'Dcap'] if tier == 'quick' else ['dN', 'capA', 'capB', 'uigfA', 'uigfB', 'Dcap', 'Dp']
    base = {n: v[0] for n, v in DIMS}
    for x in product([(n, v) for n, v in DIMS if n in names]):
        yield dict(base, **x)


def run():
    return main('C03', cases, run_case,
                'every combination of volumes, capacities and forecasts within the bound is dispatched at demand levels that push units against each limit; limits and exact usability (least cost) are compared with the reference',
                {'quick': '<=2 deviations over %d dimensions plus full product of demand, capacities, forecast and load capacity' % len(DIMS), 'thorough': '<=3 deviations plus larger product'})

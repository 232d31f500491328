"""C05: energy prices are marginal costs of demand."""
from ..common import *
from ..refmarket import *

DIMS = [
    ('dN', [70, 30, 40, 60, 100, 140, 139.999, 12.5, 200]),
    ('dV', [50, 20, 0, 35, 90, 37.5, 33]),
    ('Alf', [1.0, 0.9, 1.2]),
    ('Ap', [(20, 50), (-40, 45), (30, 30), (0, 14000)]),
    ('Bp', [(30, 52), (20, 20), (45, 300)]),
    ('Cp', [(25, 70), (5, 6), (60, 150), (-1000, 31)]),
    ('net', [None, 'free', 'tight', 'abs5', 'quad', 'abs5t', 'lf', 'two', 'rev5', 'links', 'linksl', 'linksr']),
    ('share', [0.5, 0.0, 1.0]),
    ('D', [None, (30, 60, 1.0), (25, 40, 0.8)]),
    ('F', [None, 'raise_reg', 'lower_5min']),
    ('lim', [None, 'cap', 'ramp', 'gen', 'trap']),
    ('el', [None, 'demand', 'generic']),
    ('shape', ['plain', 'rev', 'idx']),
]


def to_spec(c):
    spec = dict(regions=['N', 'V'], shape=c['shape'],
                units=[dict(u='A', r='N', lf=c['Alf']), dict(u='B', r='N'), dict(u='C', r='V', lf=0.95), dict(u='E', r='V')],
                bids=[dict(u='A', t=G, s='energy', v={'1': 40, '2': 20}, p={'1': c['Ap'][0], '2': c['Ap'][1]}),
                      dict(u='B', t=G, s='energy', v={'1': 50, '2': 30}, p={'1': c['Bp'][0], '2': c['Bp'][1]}),
                      dict(u='C', t=G, s='energy', v={'1': 35, '2': 45}, p={'1': c['Cp'][0], '2': c['Cp'][1]}),
                      dict(u='E', t=G, s='energy', v={'1': 40, '2': 0}, p={'1': 110, '2': 110})],
                demand=dict(rows=[('N', c['dN']), ('V', c['dV'])]))
    if c['el'] == 'demand':
        spec['demand']['cost'] = 15000
    if c['D']:
        v, p, lf = c['D']
        spec['units'].append(dict(u='D', r='N', t=L, lf=lf))
        spec['bids'].append(dict(u='D', t=L, s='energy', v={'1': v}, p={'1': p}))
    n = c['net']
    if n:
        mx = 10 if n in ('tight', 'abs5t') else 60
        row = dict(i='I', fr='N', to='V', min=-mx, max=mx)
        if n == 'rev5':
            row = dict(i='I', fr='V', to='N', min=-mx, max=mx)
        if n == 'lf':
            row.update(flf=0.97, tlf=0.92)
        spec['inter'] = dict(rows=[row])
        if n in ('links', 'linksl', 'linksr'):
            x = [dict(i='I', l='I1', fr='N', to='V', min=0, max=60, g=1, flf=0.97, tlf=0.98), dict(i='I', l='I2', fr='V', to='N', min=0, max=50, g=-1, flf=0.99, tlf=0.96)]
            spec['inter']['rows'] = x[::-1] if n == 'linksr' else x
            if n != 'links':
                spec['loss'] = dict(rows=[dict(i='I', l=d['l'], f='quad' if n == 'linksl' else 'abs5', share=c['share'] if d['l'] == 'I1' else 1 - c['share'], bp=[-60, -40, -20, 0, 20, 40, 60]) for d in x])
        if n == 'two':
            spec['inter']['rows'].append(dict(i='J', fr='V', to='N', min=-15, max=25))
        if n in ('abs5', 'abs5t', 'quad', 'rev5'):
            f = {'quad': 'quad'}.get(n, 'abs5')
            bp = [-mx, -mx // 2, 0, mx // 2, mx]
            spec['loss'] = dict(rows=[dict(i='I', f=f, share=c['share'], bp=bp)])
    if c['F']:
        s = c['F']
        spec['bids'] += [dict(u='A', t=G, s=s, v={'1': 15}, p={'1': 2}), dict(u='B', t=G, s=s, v={'1': 20}, p={'1': 9})]
        spec['fcas'] = dict(rows=[('R', 'N', s, 18, '=')])
        if s == 'raise_reg':
            spec['reg'] = dict(rows=[('A', G, s, 15, 0, 0, 45, 60), ('B', G, s, 20, 0, 0, 60, 80)])
        else:
            spec['jcap'] = dict(rows=[('A', G, s, 15, 5, 20, 60, 60), ('B', G, s, 20, 10, 30, 80, 80)])
    if c['lim'] == 'cap':
        spec['cap'] = dict(rows=[('A', G, 45), ('C', G, 30)])
    elif c['lim'] == 'ramp':
        spec['ramp'] = dict(rows=[('A', G, 20, 240, 240), ('C', G, 60, 60, 120)])
    elif c['lim'] == 'gen' or c['el'] == 'generic':
        spec['generic'] = dict(rows=[('g', '<=', 70)], unit=[('g', 'A', 'energy', 1.0), ('g', 'B', 'energy', 0.5)])
        if c['el'] == 'generic':
            spec['generic'].update(rows=[('g', '<=', 40)], cost=35)
        if n:
            spec['generic']['inter'] = [('g', 'I', 0.25)]
    elif c['lim'] == 'trap':
        spec['uigf'] = dict(rows=[('A', 30)])
    return spec


def run_case(c):
    spec = to_spec(c)
    m, o, ref = run_spec(spec)
    if o is None:
        return 'infeasible'
    if spec.get('loss') and not c.get('neg'):
        lefts = [ref.marginal(i)[0] for i in ref.demand_rows.values()]
        if any(x is None or x < 0 for x in lefts):
            return 'not judged: negative marginal cost with losses (see known_findings.json)'
    ref.check_energy_prices(o)
    return tuple(sorted((k, round(v, 3)) for k, v in o['ep'].items()))


def cases(tier):
    yield from deviations(DIMS, 2 if tier == 'quick' else 3)
    base = {n: v[0] for n, v in DIMS}
    core = ['dN', 'Ap', 'Cp', 'net'] if tier == 'quick' else ['dN', 'dV', 'Ap', 'Bp', 'Cp', 'net']
    for x in product([(n, v) for n, v in DIMS if n in core]):
        yield dict(base, **x)
    yield dict(base, dN=12.5, Ap=(-40, 45), Cp=(-1000, 31), net='quad', neg=True)


def run():
    return main('C05', cases, run_case,
                'every market within the bound is dispatched and each regional price is compared with the exact left and right marginal cost of demand, '
                'obtained by solving the reference model again with the demand moved by 0.001 MW each way',
                {'quick': '<=2 deviations over %d dimensions plus the full product of demand, two offer stacks and the network kind' % len(DIMS),
                 'thorough': '<=3 deviations plus the product over six dimensions'},
                assumptions=['loss functions are convex and break points evenly spaced where prices are judged (the published method linearises around the dispatched flow), and marginal costs are not negative; the negative case is kept as one listed finding'])

"""C02: regional balance and regional summary."""
from ..common import *
from ..refmarket import *

# Topologies: list of (interconnector, from, to)
TOPO = {
    'one': [('I', 'N', 'V')],
    'rev': [('I', 'V', 'N')],
    'chain': [('I', 'N', 'V'), ('J', 'V', 'S')],
    'chain2': [('I', 'V', 'N'), ('J', 'S', 'V')],
    'par': [('I', 'N', 'V'), ('J', 'N', 'V')],
    'parrev': [('I', 'N', 'V'), ('J', 'V', 'N')],
    'ring': [('I', 'N', 'V'), ('J', 'V', 'S'), ('K', 'S', 'N')],
    'links': [('I', 'N', 'V', 'L1'), ('I', 'V', 'N', 'L2')],
    'links2': [('I', 'V', 'N', 'L1'), ('I', 'N', 'V', 'L2'), ('J', 'V', 'S', 'J')],
    'none': [],
}
DIMS = [
    ('topo', ['one', 'rev', 'chain', 'chain2', 'par', 'parrev', 'ring', 'none', 'links', 'links2']),
    ('d', [(20, 90, 15), (90, 20, 15), (60, 60, 60), (0, 100, 0), (100, 0, 0), (15, 20, 90)]),
    ('lim', [(-50, 50), (-50, 30), (0, 80), (-80, 0), (10, 20)]),
    ('loss', [None, ('abs5', 0.5), ('quad', 0.0), ('quad', 0.3), ('abs10', 1.0), ('neg', 0.25)]),
    ('lf', [(1.0, 1.0), (0.9, 1.0), (1.0, 0.9), (1.05, 0.97), (0.95, 1.1)]),
    ('load', [None, ('V', 10, 70), ('N', 20, 5), ('S', 5, 200)]),
    ('pN', [10, 30, -5]),
    ('idle', ['gens', 'noV', 'extra']),
    ('shape', ['plain', 'rev', 'idx', 'cols']),
    ('fcas', [None, 'raise_reg']),
    ('bdu', [None, 'N', 'V']),
]


def to_spec(c):
    regs = ['N', 'V', 'S']
    spec = dict(regions=regs, units=[], bids=[], shape=c['shape'])

    def unit(u, r, v, p, t=G):
        spec['units'].append(dict(u=u, r=r, t=t))
        spec['bids'].append(dict(u=u, t=t, s='energy', v=v, p=p))
    unit('AN', 'N', {'1': 60, '2': 80}, {'1': c['pN'], '2': c['pN'] + 15})
    if c['idle'] != 'noV':
        unit('AV', 'V', {'1': 60, '2': 100}, {'1': 20, '2': 60})
    unit('AS', 'S', {'1': 120}, {'1': 22})
    if c['idle'] == 'extra':
        unit('BN', 'N', {'1': 20}, {'1': 11})
        unit('BV', 'V', {'1': 20}, {'1': 5})
    if c['load']:
        r, v, p = c['load']
        unit('L' + r, r, {'1': v}, {'1': p}, L)
    if c['bdu']:
        unit('BD', c['bdu'], {'1': 15}, {'1': 8})
        unit('BD', c['bdu'], {'1': 15}, {'1': 40}, L)
    if c['fcas']:
        spec['bids'].append(dict(u='AN', t=G, s='raise_reg', v={'1': 30}, p={'1': 2}))
        spec['fcas'] = dict(rows=[('r', 'N', 'raise_reg', 20, '=')])
    spec['demand'] = dict(rows=list(zip(regs, c['d'])))
    topo = TOPO[c['topo']]
    if not topo and c['idle'] == 'noV':
        spec['demand'] = dict(rows=[x for x in spec['demand']['rows'] if x[0] != 'V'])   # nothing could serve it
    if topo:
        spec['inter'] = dict(rows=[dict(i=i, fr=f, to=t, min=c['lim'][0], max=c['lim'][1], flf=c['lf'][0], tlf=c['lf'][1]) for i, f, t, *_ in topo])
        if c['loss']:
            spec['loss'] = dict(rows=[dict(i=i, f=c['loss'][0], share=c['loss'][1], bp=[-100, -50, 0, 50, 100]) for i, f, t, *_ in topo])
        # links of one interconnector run one way only
        for n, (i, f, t, *l) in enumerate(topo):
            if l:
                spec['inter']['rows'][n].update(l=l[0], g=-1 if l[0] == 'L2' else 1)
                if i == 'I':
                    spec['inter']['rows'][n].update(min=0, max=max(c['lim'][1], 30) - 7 * n)
                if c['loss']:
                    spec['loss']['rows'][n].update(l=l[0])
    return spec


def check_summary(m, spec, o):
    call()
    s = m.get_region_dispatch_summary()
    if len(set(s['region'])) != len(s):
        raise Violation('regional summary lists a region more than once:\n%s' % s)
    dem = dict(spec['demand']['rows'])
    inter = (spec.get('inter') or {}).get('rows', [])
    ends = {d['to'] for d in inter} | {d['fr'] for d in inter}
    seen = set()
    regof = {(u['u'], u.get('t', G)): u['r'] for u in spec['units']}
    for row in s.to_dict('records'):
        r = row['region']
        seen.add(r)
        disp = sum((1 if t == G else -1) * v for (u, t, sv), v in o['x'].items() if sv == 'energy' and regof[(u, t)] == r)
        if abs(disp - row['dispatch']) > TOL:
            raise Violation('summary dispatch %s of %s, units sum to %s' % (row['dispatch'], r, disp))
        if inter:
            infl = 0.0
            for d in inter:
                f = o['f'][(d['i'], d.get('l', d['i']))]
                infl += f * (d['to'] == r) - f * (d['fr'] == r)
            if abs(infl - row['inflow']) > TOL:
                raise Violation('summary inflow %s of %s, flows sum to %s' % (row['inflow'], r, infl))
        if spec.get('loss') and r in ends:
            ls = 0.0
            for d2 in spec['loss']['rows']:
                k = (d2['i'], d2.get('l', d2['i']))
                d = [x for x in inter if (x['i'], x.get('l', x['i'])) == k][0]
                ls += o['loss'][k] * (d2['share'] * (d['fr'] == r) + (1 - d2['share']) * (d['to'] == r))
            if abs(ls - row['interconnector_losses']) > TOL:
                raise Violation('summary interconnector losses %s of %s, expected %s' % (row['interconnector_losses'], r, ls))
        total = row['dispatch'] + row.get('inflow', 0.0) - row.get('transmission_losses', 0.0) - row.get('interconnector_losses', 0.0)
        if r in dem and abs(total - dem[r]) > 5e-4:
            raise Violation('summary of %s does not balance: %s, demand %s' % (r, row, dem[r]))
    have = {regof[(u, t)] for (u, t, sv) in o['x'] if sv == 'energy'} | ends
    if True:
        missing = have - seen
        if missing:
            raise Violation('regions %s are missing from the summary:\n%s' % (sorted(missing), s))
    return tuple((row['region'],) + tuple(round(float(v), 3) + 0.0 for k, v in row.items() if k != 'region') for row in s.to_dict('records'))


def run_case(c):
    spec = to_spec(c)
    m, o, ref = run_spec(spec)
    if o is None:
        return 'infeasible'
    return check_summary(m, spec, o)


def cases(tier):
    yield from deviations(DIMS, 2 if tier == 'quick' else 3)
    names = ['topo', 'd', 'loss', 'lf'] + (['lim', 'pN'] if tier == 'thorough' else [])
    base = {n: v[0] for n, v in DIMS}
    for x in product([(n, v) for n, v in DIMS if n in names]):
        yield dict(base, **x)


def run():
    return main('C02', cases, run_case,
                'every market within the bound is dispatched; balance, the terms of the regional summary and their sum are recomputed from the reported unit dispatch and flows',
                {'quick': '<=2 deviations over %d dimensions plus the full product of topology, demand pattern, loss model and link loss factors' % len(DIMS),
                 'thorough': '<=3 deviations plus the product with limits and prices'})

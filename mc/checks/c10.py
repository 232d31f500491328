"""C10: interconnector flows and losses."""
from ..common import *
from ..refmarket import *

BPS = {'even': [-100, -50, 0, 50, 100], 'fine': [-100, -80, -60, -40, -20, 0, 20, 40, 60, 80, 100], 'skew': [-100, -30, -10, 0, 45, 100], 'noz': [-100, -7, 60, 100],
       'two': [-100, 100], 'desc': [100, 50, 0, -50, -100]}
ONE = [
    ('f', ['abs5', 'quad', 'quad2', 'neg', 'concave', 'abs10']),
    ('bp', ['even', 'fine', 'skew', 'noz', 'two']),
    ('share', [0.5, 0.0, 1.0, 0.3]),
    ('lim', [(-60, 60), (-10, 20), (0, 60), (-60, 0), (25, 60), (-60, -25), (0, 0), (-6, 5.5), (-33, 47)]),
    ('dir', ['NV', 'VN']),
    ('d', [(80, 50), (40, 100), (0, 100), (100, 0), (55, 55)]),
    ('pN', [(20, 50), (60, 61), (-30, 35), (35, 36)]),
    ('pV', [(30, 55), (10, 12), (-40, 90), (35.5, 80)]),
    ('lf', [(1.0, 1.0), (0.95, 1.02)]),
    ('seg', [(0, 1), (1, 1), (-3, 2)]),
    ('nolink', [False, True]),
    ('shape', ['plain', 'rev', 'idx', 'ridx']),
]


def gens(spec, r, u, p):
    spec['units'].append(dict(u=u, r=r))
    spec['bids'].append(dict(u=u, t=G, s='energy', v={'1': 60, '2': 120}, p={'1': p[0], '2': p[1]}))


def to_spec(c):
    if c['space'] == 'one':
        spec = dict(regions=['N', 'V'], shape=c['shape'], units=[], bids=[], demand=dict(rows=[('N', c['d'][0]), ('V', c['d'][1])]))
        gens(spec, 'N', 'A', c['pN'])
        gens(spec, 'V', 'B', c['pV'])
        fr, to = c['dir']
        row = dict(i='I', fr=fr, to=to, min=c['lim'][0], max=c['lim'][1])
        if tuple(c['lf']) != (1.0, 1.0):
            row.update(flf=c['lf'][0], tlf=c['lf'][1])
        elif c['nolink']:
            pass
        spec['inter'] = dict(rows=[row])
        if c['nolink'] and tuple(c['lf']) == (1.0, 1.0):
            spec['inter']['nolink'] = True
        if c['f']:
            spec['loss'] = dict(rows=[dict(i='I', f=c['f'], share=c['share'], bp=BPS[c['bp']], seg0=c['seg'][0], segstep=c['seg'][1])])
        return spec
    if c['space'] == 'multi':
        spec = dict(regions=['N', 'V', 'S'], shape=c['shape'], units=[], bids=[], demand=dict(rows=[('N', c['d'][0]), ('V', c['d'][1]), ('S', 30)]))
        gens(spec, 'N', 'A', c['pN'])
        gens(spec, 'V', 'B', c['pV'])
        gens(spec, 'S', 'C', (25, 44))
        rows = [dict(i='I', fr='N', to='V', min=-40, max=50)]
        loss = [dict(i='I', f=c['f'], share=c['share'], bp=BPS['even'])]
        if c['topo'] == 'parallel':
            rows.append(dict(i='J', fr='V', to='N', min=-20, max=30))
            loss.append(dict(i='J', f=c['f2'], share=0.8, bp=BPS['skew']))
            rows.append(dict(i='K', fr='S', to='N', min=-20, max=30))
            loss.append(dict(i='K', f='abs5', share=0.5, bp=BPS['even']))
        elif c['topo'] == 'chain':
            rows.append(dict(i='J', fr='S', to='V', min=-20, max=30))
            loss.append(dict(i='J', f=c['f2'], share=0.8, bp=BPS['skew']))
        else:
            rows += [dict(i='J', fr='S', to='V', min=-20, max=30), dict(i='K', fr='N', to='S', min=-25, max=25)]
            loss += [dict(i='J', f=c['f2'], share=0.8, bp=BPS['even']), dict(i='K', f='quad', share=0.2, bp=BPS['even'])]
        spec['inter'] = dict(rows=rows)
        spec['loss'] = dict(rows=loss)
        return spec
    # link pairs
    spec = dict(regions=['N', 'V'], shape=c['shape'], units=[], bids=[], demand=dict(rows=[('N', c['d'][0]), ('V', c['d'][1])]))
    gens(spec, 'N', 'A', c['pN'])
    gens(spec, 'V', 'B', c['pV'])
    x = c['lim']
    rows = [dict(i='I', l='I1', fr='N', to='V', min=0, max=x, g=1, flf=c['lf'][0], tlf=c['lf'][1]),
            dict(i='I', l='I2', fr='V', to='N', min=0, max=x - 5, g=-1, flf=c['lf'][1], tlf=c['lf'][0])]
    loss = [dict(i='I', l='I1', f=c['f'], share=c['share'], bp=BPS[c['bp']]), dict(i='I', l='I2', f=c['f'], share=1 - c['share'], bp=BPS[c['bp']])]
    if c['third']:
        rows.append(dict(i='J', fr='N', to='V', min=-10, max=10))
        loss.append(dict(i='J', f='abs5', share=0.5, bp=BPS['even']))
    spec['inter'] = dict(rows=rows)
    if c['loss']:
        spec['loss'] = dict(rows=loss)
    return spec


MULTI = [
    ('topo', ['parallel', 'chain', 'ring']),
    ('f', ['abs5', 'quad', 'concave']),
    ('f2', ['quad', 'abs10', 'neg']),
    ('share', [0.5, 0.0, 1.0]),
    ('d', [(80, 50), (20, 100), (100, 0)]),
    ('pN', [(20, 50), (60, 61), (-30, 35)]),
    ('pV', [(30, 55), (10, 12), (-40, 90)]),
    ('shape', ['plain', 'rev', 'ridx']),
]
LINKS = [
    ('lim', [40, 5.5, 100]),
    ('lf', [(1.0, 1.0), (0.95, 1.02), (1.03, 0.9)]),
    ('f', ['abs5', 'quad', 'neg']),
    ('bp', ['even', 'skew']),
    ('share', [0.5, 0.0, 1.0]),
    ('third', [False, True]),
    ('loss', [True, False]),
    ('d', [(80, 50), (20, 100), (100, 0)]),
    ('pN', [(20, 50), (60, 61), (-30, 35), (30, 31)]),
    ('pV', [(30, 55), (10, 12), (-40, 90)]),
    ('shape', ['plain', 'rev', 'ridx']),
]


def run_case(c):
    m, o, ref = run_spec(to_spec(c))
    return canon({k: o[k] for k in ('f', 'loss') if k in o}) if o else 'infeasible'


def cases(tier):
    k = 2 if tier == 'quick' else 3
    for c in deviations(ONE, k):
        # losses larger than the flow limits (a grid without a zero break point on a closed line) are not a meaningful input
        if not (tuple(c['lim']) == (0, 0) and c['bp'] in ('noz', 'two')):
            yield dict(c, space='one')
    base = {n: v[0] for n, v in ONE}
    names = ['f', 'bp', 'lim', 'pN', 'pV'] if tier == 'thorough' else ['f', 'bp', 'pN', 'pV']
    for x in product([(n, v) for n, v in ONE if n in names]):
        yield dict(base, space='one', **x)
    for c in deviations(MULTI, k):
        yield dict(c, space='multi')
    for c in deviations(LINKS, k + 1 if tier == 'thorough' else k):
        yield dict(c, space='links')
    base = {n: v[0] for n, v in LINKS}
    for x in product([(n, v) for n, v in LINKS if n in ('lf', 'd', 'pN', 'pV', 'loss')]):
        yield dict(base, space='links', **x)
    # more must-run supply than demand: losses of a flow to and fro would pay, but only one link may carry flow
    for x in product([('lf', LINKS[1][1]), ('d', [(10, 15), (0, 0), (50, 5)]), ('pN', [(-30, 35), (-30, -20)]), ('pV', [(-40, 90), (-25, -24)]), ('loss', [True, False]), ('third', [False, True]), ('f', ['abs5', 'quad'])]):
        yield dict(base, space='links', **x)


def run():
    return main('C10', cases, run_case,
                'every interconnector definition, loss function, break point grid, limit pair, share, network and price pull within the bound is dispatched; flows, losses and total cost are compared with exact enumeration of loss segments and active links',
                {'quick': '<=2 deviations over %d/%d/%d dimensions (single, multiple, link pairs) plus full products of loss function, grid and offers' % (len(ONE), len(MULTI), len(LINKS)),
                 'thorough': '<=3 (4 for link pairs) deviations plus products with limits'})

"""C18: bidirectional units."""
from ..common import *
from ..refmarket import *
from ..refmarket import _show
from .c02 import check_summary

DIMS = [
    ('pg', [45, 20, 80]),
    ('pl', [30, 44, 70, -10]),
    ('vg', [{'1': 20, '2': 30}, {'1': 0, '2': 0}, {'1': 50}]),
    ('vl', [{'1': 25, '2': 10}, {'1': 0, '2': 0}, {'2': 40}]),
    ('lf', [(1.0, 1.0), (0.8, 1.25), (1.1, 0.9)]),
    ('capg', [None, 30, 0]),
    ('capl', [None, 12, 0]),
    ('ramp', [None, 'up', 'down', 'cross', 'still', 'scada', 'neg']),
    ('jramp', [None, 'tight', 'loose']),
    ('fcas', [None, 'gen', 'load', 'both', 'cont', 'all']),
    ('traps', [False, True]),
    ('other', [None, 'bdu', 'bduV', 'region']),
    ('d', [60, 5, 110, 150]),
    ('net', [False, 'line', 'loss']),
    ('generic', [None, 'le', 'ge']),
    ('shape', ['plain', 'rev', 'ridx', 'idx', 'cols']),
    ('order', ['gl', 'lg']),
    ('tie', [None, 0.001]),
    ('di', [5, 30]),
    ('cost', [None, 2, 2000]),
]


def to_spec(c, bdu=True, zero=False):
    spec = dict(regions=['N', 'V'], shape=c['shape'], di=c['di'],
                units=[dict(u='A', r='N'), dict(u='B', r='V', lf=0.95), dict(u='D', r='N', t=L)],
                bids=[dict(u='A', t=G, s='energy', v={'1': 70, '2': 60}, p={'1': 35, '2': 55}), dict(u='B', t=G, s='energy', v={'1': 60}, p={'1': 38}),
                      dict(u='D', t=L, s='energy', v={'1': 15}, p={'1': 50})],
                demand=dict(rows=[('N', c['d']), ('V', 20)]))
    xr = 'V' if c['other'] == 'region' else 'N'
    sides = [(G, c['pg'], c['vg'], c['lf'][0]), (L, c['pl'], c['vl'], c['lf'][1])]
    if c['order'] == 'lg':
        sides = sides[::-1]
    if bdu:
        for t, p, v, lf in sides:
            spec['units'].insert(1, dict(u='X', r=xr, t=t, lf=lf))
            spec['bids'].insert(1, dict(u='X', t=t, s='energy', v={k: 0 if zero else x for k, x in v.items()}, p={k: p + i for i, k in enumerate(sorted(v))}))
    caps = [('A', G, 100)]
    if bdu and c['capg'] is not None:
        caps.append(('X', G, c['capg']))
    if bdu and c['capl'] is not None:
        caps.insert(0, ('X', L, c['capl']))
    if c['capg'] is not None or c['capl'] is not None:
        spec['cap'] = dict(rows=caps)
    if c['ramp']:
        init, rg, rl = {'up': (0, (120, 60), (60, 240)), 'down': (10, (240, 240), (240, 240)), 'cross': (6, (240, 144), (96, 60)), 'still': (15, (0, 0), (0, 0)), 'scada': (5, (240, 240), (240, 240)),
                        'neg': (-8, (180, 60), (120, 240))}[c['ramp']]
        rows = [('A', G, 50, 300, 300), ('D', L, 5, 60, 60)]
        if zero:
            init = 0  # an idle unit that starts away from zero would have to move
        if bdu:
            rows += [('X', G, init, rg[0], rg[1]), ('X', L, init, rl[0], rl[1])]
        spec['ramp'] = dict(rows=rows)
        if c['ramp'] == 'scada':
            spec['ramp']['scada'] = [('X', 60, 180), ('A', 600, 120)] if bdu else [('A', 600, 120)]
    if c['fcas']:
        f = c['fcas']
        svc = ['raise_6s', 'lower_60s'] if f == 'cont' else ['raise_reg', 'lower_reg'] + (['raise_6s'] if f == 'all' else [])
        xs = {'gen': [G], 'load': [L], 'both': [G, L], 'cont': [G, L], 'all': [G, L]}[f]
        for s in svc:
            if bdu:
                for i, t in enumerate(xs):
                    if t == L and s in ('raise_6s', 'lower_60s'):
                        continue
                    spec['bids'].append(dict(u='X', t=t, s=s, v={'1': 0 if zero else 16}, p={'1': 1 + i}))
            spec['bids'].append(dict(u='A', t=G, s=s, v={'1': 18}, p={'1': 6}))
            spec['bids'].append(dict(u='D', t=L, s=s, v={'1': 9}, p={'1': 4}))
        spec['fcas'] = dict(rows=[('r' + s, r, s, 22, '>=') for s in svc for r in ('N', 'V')], cost=500)
        if c['traps']:
            cont = [s for s in svc if 'reg' not in s]
            spec['fmax'] = dict(rows=[('A', G, svc[0], 14), ('D', L, svc[0], 7)] + ([('X', G, svc[0], 13)] if bdu and G in xs else []))
            if cont:
                spec['jcap'] = dict(rows=[('A', G, cont[0], 18, 0, 0, 70, 120)] + ([('X', G, cont[0], 16, -30, -14, 25, 41)] if bdu else []))
            if len(svc) > len(cont):
                spec['reg'] = dict(rows=[('A', G, 'raise_reg', 18, 0, 0, 70, 100), ('D', L, 'raise_reg', 9, 0, 9, 15, 15)] +
                                   ([('X', t, 'raise_reg', 16, 0, 0 if t == G else 12, 20, 36) for t in xs] if bdu else []))
    if c['jramp']:
        q = (60, 120) if c['jramp'] == 'tight' else (900, 900)
        spec['jramp'] = dict(rows=[('A', 50, 120, 180)] + ([('X', 0 if zero else 4, q[0], q[1])] if bdu else []))
    if bdu and c['other'] in ('bdu', 'bduV'):
        r2 = 'N' if c['other'] == 'bdu' else 'V'
        spec['units'] += [dict(u='Y', r=r2), dict(u='Y', r=r2, t=L)]
        spec['bids'] += [dict(u='Y', t=G, s='energy', v={'1': 15}, p={'1': 41}), dict(u='Y', t=L, s='energy', v={'1': 12}, p={'1': 36})]
        if spec.get('ramp'):
            spec['ramp']['rows'] += [('Y', G, 3, 60, 60), ('Y', L, 3, 60, 60)]
    if c['net']:
        spec['inter'] = dict(rows=[dict(i='I', fr='V', to='N', min=-30, max=25)])
        if c['net'] == 'loss':
            spec['loss'] = dict(rows=[dict(i='I', f='abs5', share=0.5, bp=[-40, 0, 40])])
    if c['generic']:
        spec['generic'] = dict(rows=[('g', '<=' if c['generic'] == 'le' else '>=', 8)], unit=([('g', 'X', 'energy', 1.0)] if bdu else []) + [('g', 'D', 'energy', -0.5)], cost=800)
    if c['tie'] is not None:
        spec['tie'] = c['tie']
    if c['cost'] is not None:
        for f in ('ramp', 'jramp', 'cap', 'fmax', 'jcap', 'reg'):
            if spec.get(f):
                spec[f]['cost'] = c['cost']
    return spec


def others(o):
    return {k: v for k, v in o['x'].items() if k[0] != 'X'}


def run_case(c):
    if c.get('kind') == 'reject':
        return run_reject(c)
    if c.get('kind') == 'same':
        # ordinary units with an idle bidirectional unit next to them behave as if it were not there
        a, b = to_spec(c['m'], bdu=False), to_spec(c['m'], zero=True)
        m1, o1, r1 = run_spec(a, what=('feasible', 'cost') if a.get('tie') else ('feasible', 'cost', 'obj'))
        m2 = build(b)
        try:
            dispatch(m2, b)
            o2 = observe(m2, b)
        except Infeasible:
            o2 = None
        if (o1 is None) != (o2 is None):
            raise Violation('an idle bidirectional unit makes the market %s' % ('infeasible' if o2 is None else 'feasible'))
        if o1 is None:
            return 'infeasible'
        for k, v in others(o2).items():
            if abs(v - o1['x'][k]) > 1e-3:
                if abs(o1['obj'] - o2['obj']) < 1e-3:
                    o2['x'] = others(o2)
                    r1.check(o2, what=('feasible', 'cost'))
                    break
                raise Violation('dispatch of %s is %s next to an idle bidirectional unit, %s without it' % (k, v, o1['x'][k]))
        if abs(o1['obj'] - o2['obj']) > 1e-3:
            raise Violation('objective %s next to an idle bidirectional unit, %s without it' % (o2['obj'], o1['obj']))
        return canon(o1)
    spec = to_spec(c)
    m, o, ref = run_spec(spec, what=('feasible', 'cost') if spec.get('tie') else ('feasible', 'cost', 'obj'))
    if o is None:
        return 'infeasible'
    return check_summary(m, spec, o), canon(o)


def run_reject(c):
    """One side missing from the energy bids or ramp rates of a registered two sided unit."""
    base = {n: v[0] for n, v in DIMS}
    base.update(c['m'])
    base['ramp'] = 'up'
    spec = to_spec(base)
    m = new_market(spec)
    for t in tables(spec):
        if t[0] == c['table']:
            df = t[2][0]
            drop = (df['unit'] == c['u']) & (df['dispatch_type'] == c['side'])
            if 'service' in df.columns:
                drop &= df['service'] == 'energy'
            bad = df[~drop].reset_index(drop=True)
            call()
            try:
                getattr(m, t[1])(bad, *t[2][1:], **t[3])
            except Exception as e:
                name = type(e).__name__
            else:
                raise Violation('%s accepted for bidirectional unit %s without its %s side' % (c['table'], c['u'], c['side']))
        apply(m, t)
    dispatch(m, spec)
    o = observe(m, spec)
    Ref(spec).check(o)
    return name, canon(o)


def cases(tier):
    k = 2 if tier == 'quick' else 3
    yield from deviations(DIMS, k)
    base = {n: v[0] for n, v in DIMS}
    names = ['pg', 'pl', 'd', 'lf'] if tier == 'quick' else ['pg', 'pl', 'd', 'lf', 'capg', 'capl', 'ramp']
    for x in product([(n, v) for n, v in DIMS if n in names]):
        yield dict(base, **x)
    for x in product([(n, v) for n, v in DIMS if n in ('ramp', 'jramp', 'fcas', 'traps') ]):
        for d in ((60, 150) if tier == 'quick' else (5, 60, 110, 150)):
            if x['fcas'] or not x['traps']:
                yield dict(base, **dict(x, d=d))
    small = [(n, v) for n, v in DIMS if n in ('ramp', 'jramp', 'fcas', 'traps', 'd', 'net', 'shape', 'order', 'di', 'cost')]
    for x in deviations(small, 2 if tier == 'quick' else 3):
        yield dict(kind='same', m=dict(base, **x))
    for table in ('vol', 'price', 'ramp'):
        for side in (G, L):
            for m in ({}, {'fcas': 'both'}, {'fcas': 'gen'}, {'other': 'bdu'}, {'order': 'lg'}, {'other': 'bdu', 'fcas': 'load'}):
                for u in ('X', 'Y') if m.get('other') else ('X',):
                    yield dict(kind='reject', table=table, side=side, m=m, u=u)


def run():
    return main('C18', cases, run_case,
                'every market within the bound with a bidirectional unit among one-directional ones is dispatched and compared with an exact model that treats its two sides as one net injection; the regional summary is recomputed; one-sided tables must be rejected; and the market with an idle bidirectional unit must equal the market without it',
                {'quick': '<=2 deviations over %d dimensions, product of prices/demand/loss factors and of ramping/regulation/trapezium settings' % len(DIMS), 'thorough': '<=3 deviations and larger products'})

"""C19: consecutive intervals chained through the previous dispatch."""
import itertools
from ..common import *
from ..refmarket import *
from nempy import time_sequential as ts

# what one interval brings
STEP = [
    ('d', [60, 15, 130]),
    ('rates', ['normal', 'slow', 'asym']),
    ('c', [True, False]),
]
CONF = [
    ('feed', ['full', 'energy', 'noservice', 'rev', 'idx', 'cols', 'extra']),
    ('ramps', ['full', 'rev', 'idx', 'cols']),
    ('bdu', [False, True]),
    ('fcas', [False, True]),
    ('di', [5, 30]),
    ('reuse', [False, True]),
    ('seed', [{'A': 40, 'B': 10, 'D': 5, 'X': 0, 'C': 3}, {'A': 0, 'B': 60, 'D': 0, 'X': 9, 'C': 0}, {'A': 70, 'B': 0, 'D': 15, 'X': -7, 'C': 20}]),
    ('scada', [False, True]),
]
RATES = {'normal': {'A': (240, 240), 'B': (360, 120), 'D': (120, 120), 'C': (60, 60), ('X', G): (120, 180), ('X', L): (240, 60)},
         'slow': {'A': (60, 60), 'B': (120, 60), 'D': (12, 24), 'C': (24, 0), ('X', G): (48, 24), ('X', L): (36, 24)},
         'asym': {'A': (0, 600), 'B': (600, 0), 'D': (0, 240), 'C': (600, 600), ('X', G): (0, 300), ('X', L): (300, 0)}}


def interval_spec(conf, step):
    d, r = step['d'], RATES[step['rates']]
    spec = dict(regions=['N'], di=conf['di'],
                units=[dict(u='A', r='N'), dict(u='B', r='N'), dict(u='D', r='N', t=L), dict(u='P', r='N'), dict(u='W', r='N', t=L)],
                bids=[dict(u='A', t=G, s='energy', v={'1': 50, '2': 30}, p={'1': 20, '2': 41}), dict(u='B', t=G, s='energy', v={'1': 80}, p={'1': 33}),
                      dict(u='D', t=L, s='energy', v={'1': 25}, p={'1': 37}),
                      dict(u='P', t=G, s='energy', v={'1': 500}, p={'1': 300}), dict(u='W', t=L, s='energy', v={'1': 500}, p={'1': -100})],
                demand=dict(rows=[('N', d)]))
    units = ['A', 'B', 'D']
    if step['c'] or conf['reuse']:
        spec['units'].append(dict(u='C', r='N'))
        spec['bids'].append(dict(u='C', t=G, s='energy', v={'1': 40 if step['c'] else 0}, p={'1': 29}))
        if step['c']:
            units.insert(1, 'C')
    if conf['bdu']:
        spec['units'] += [dict(u='X', r='N'), dict(u='X', r='N', t=L)]
        spec['bids'] += [dict(u='X', t=G, s='energy', v={'1': 30}, p={'1': 31}), dict(u='X', t=L, s='energy', v={'1': 28}, p={'1': 27})]
    rows = [(u, L if u == 'D' else G) + r[u] for u in units]
    if conf['bdu']:
        rows += [('X', G) + r['X', G], ('X', L) + r['X', L]]
    if conf['fcas']:
        spec['bids'] += [dict(u='A', t=G, s='raise_reg', v={'1': 20}, p={'1': 3}), dict(u='D', t=L, s='raise_6s', v={'1': 9}, p={'1': 1}),
                         dict(u='B', t=G, s='raise_6s', v={'1': 15}, p={'1': 2})]
        spec['fcas'] = dict(rows=[('rr', 'N', 'raise_reg', 13, '='), ('r6', 'N', 'raise_6s', 17, '=')])
        if conf['bdu']:
            spec['bids'] += [dict(u='X', t=G, s='raise_reg', v={'1': 4}, p={'1': 1})]
    return spec, rows


def shaped(df, how):
    df = df.copy()
    if how == 'energy':
        df = df[df['service'] == 'energy']
    elif how == 'noservice':
        df = df[df['service'] == 'energy'].drop(columns='service')
    elif how == 'rev':
        df = df.iloc[::-1]
    elif how == 'idx':
        df.index = [3] * len(df)
    elif how == 'cols':
        df = df[df.columns[::-1]]
    elif how == 'extra':
        df = pd.concat([df, pd.DataFrame({'unit': ['Z'], 'dispatch_type': [G], 'service': ['energy'], 'dispatch': [77.0]})], ignore_index=True)
    return df


def ramp_table(rows, how):
    df = pd.DataFrame([dict(unit=u, dispatch_type=t, ramp_up_rate=float(a), ramp_down_rate=float(b)) for u, t, a, b in rows])
    return shaped(df, how)


def same_table(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and a.equals(b)


def compare(got, rows, init, what):
    cols = {'unit', 'dispatch_type', 'initial_output', 'ramp_up_rate', 'ramp_down_rate'}
    if set(got.columns) != cols:
        raise Violation('%s: columns %s' % (what, sorted(got.columns)))
    key = lambda r: tuple('%s' % x for x in r[:2])
    g = sorted(([r['unit'], r['dispatch_type'], r['initial_output'], r['ramp_up_rate'], r['ramp_down_rate']] for r in got.to_dict('records')), key=key)
    w = sorted(([u, t, float(init.get(u, 0.0)), float(a), float(b)] for u, t, a, b in rows), key=key)
    if len(g) != len(w) or any(x[:2] != y[:2] or any(not (abs(p - q) < 1e-7) for p, q in zip(x[2:], y[2:])) for x, y in zip(g, w)):
        raise Violation('%s: rows %s instead of %s' % (what, g, w))


def net_output(disp):
    """energy dispatch per unit out of get_unit_dispatch, generation minus load for a unit on both sides"""
    d = {}
    for r in disp.to_dict('records'):
        if r['service'] == 'energy':
            d.setdefault(r['unit'], {})[r['dispatch_type']] = r['dispatch']
    return {u: (v[G] - v[L] if len(v) == 2 else list(v.values())[0]) for u, v in d.items()}


def interval(conf, step, last, market=None):
    """Run one interval after `last` (None: first, from the seed); returns (dispatch table, market)."""
    spec, rows = interval_spec(conf, step)
    rt = ramp_table(rows, conf['ramps'])
    keep = rt.copy()
    if last is None:
        init = conf['seed']
        hist = pd.DataFrame({'unit': list(init), 'initial_output': [float(x) for x in init.values()]})
        call()
        rr = ts.create_seed_ramp_rate_parameters(hist, rt)
    else:
        init = net_output(last)
        feed = shaped(last, conf['feed'])
        fk = feed.copy()
        call()
        rr = ts.construct_ramp_rate_parameters(feed, rt)
        if not same_table(feed, fk):
            raise Violation('the dispatch table given is modified')
    if not same_table(rt, keep):
        raise Violation('the ramp rate table given is modified')
    compare(rr, rows, init, 'ramp parameters')
    full = [(u, t, float(init.get(u, 0.0)), a, b) for u, t, a, b in rows]
    spec['ramp'] = dict(rows=full, cost=15000)
    if conf['scada']:
        spec['ramp']['scada'] = [('A', 120, 48), ('D', 60, 600)]
    m = market if conf['reuse'] and market is not None else new_market(spec)
    for t in tables(spec):
        if t[0] == 'ramp':
            t = (t[0], t[1], [rr] + list(t[2][1:]), t[3])
        apply(m, t)
    dispatch(m, spec)
    o = observe(m, spec)
    Ref(spec).check(o)
    new = m.get_unit_dispatch()
    net = net_output(new)
    h = (conf['di'] or 5) / 60
    if abs(o['obj']) < 15000 * 0.01:  # nothing violated
        for u, t, i, a, b in full:
            if u != 'X' and not (i - b * h - 1e-4 <= net.get(u, 0) <= i + a * h + 1e-4):
                raise Violation('%s moves from %s to %s' % (u, i, net.get(u, 0)))
    return new, m


def state(disp):
    return tuple((r['unit'], r['dispatch_type'], r['service'], round(r['dispatch'], 4) + 0.0) for r in disp.sort_values(list(disp.columns[:3])).to_dict('records'))


def run_case(c):
    if c.get('kind') == 'table':
        return run_table(c)
    conf, depth = c['conf'], c['depth']
    steps = list(product(STEP)) if c['steps'] == 'all' else [dict(zip(('d', 'rates', 'c'), s)) for s in itertools.product((60, 130, 15), ('normal', 'slow'), (True, False))][: c['steps']]
    seen = set()

    def explore(last, market, left):
        if not left:
            return
        for s in steps:
            new, m = interval(conf, s, last, market)
            k = (state(new), left)
            if k in seen:
                continue
            seen.add(k)
            explore(new, m, left - 1)
    new, m = interval(conf, c['first'], None)
    explore(new, m, depth - 1)
    return len(seen), hash(frozenset(seen)) % 10**6


def run_table(c):
    """The functions on their own: every combination of rows."""
    disp = [r for r, on in zip([('A', 'energy', 45.0), ('A', 'raise_reg', 50.0), ('B', 'energy', 88.0), ('B', 'lower_reg', 3.0), ('C', 'raise_6s', 7.0)], c['d']) if on]
    ramps = [r for r, on in zip([('B', 600.0, 300.0), ('A', 120.0, None), ('C', 60.0, 90.0)], c['r']) if on]
    last = pd.DataFrame({'unit': pd.Series([r[0] for r in disp], dtype=object), 'service': pd.Series([r[1] for r in disp], dtype=object), 'dispatch': pd.Series([r[2] for r in disp], dtype=float)})
    rr = pd.DataFrame({'unit': [r[0] for r in ramps], 'ramp_up_rate': [float(r[1]) for r in ramps], 'ramp_down_rate': [float('nan') if r[2] is None else r[2] for r in ramps]})
    call()
    if c['f'] == 'construct':
        got = ts.construct_ramp_rate_parameters(last, rr)
        init = {u: x for u, s, x in disp if s == 'energy'}
        want = [(u, init.get(u, 0.0), a, b) for u, a, b in ramps]
    else:
        hist = pd.DataFrame({'unit': [r[0] for r in disp if r[1] == 'energy'], 'initial_output': [r[2] for r in disp if r[1] == 'energy']})
        if not len(hist):
            return 'empty'
        got = ts.create_seed_ramp_rate_parameters(hist, rr)
        init = {u: x for u, s, x in disp if s == 'energy'}
        want = [(u, init[u], a, b) for u, a, b in ramps if u in init]
    g = sorted((r['unit'], r['initial_output'], r['ramp_up_rate'], None if r['ramp_down_rate'] != r['ramp_down_rate'] else r['ramp_down_rate']) for r in got.to_dict('records'))
    if g != sorted(want):
        raise Violation('%s: %s instead of %s' % (c['f'], g, sorted(want)))
    return str(g)


def cases(tier):
    first = [dict(d=60, rates='normal', c=True), dict(d=130, rates='slow', c=False), dict(d=15, rates='asym', c=True)]
    for conf in deviations(CONF, 2 if tier == 'quick' else 3):
        for f in first[:1] if tier == 'quick' else first:
            yield dict(conf=conf, first=f, depth=3, steps=4 if tier == 'quick' else 6)
    for conf in deviations([x for x in CONF if x[0] not in ('feed', 'ramps')], 1):
        for f in first:
            yield dict(conf=dict({n: v[0] for n, v in CONF}, **conf), first=f, depth=3 if tier == 'quick' else 4, steps='all' if tier == 'quick' else 12)
    for f in ('construct', 'seed'):
        for d in itertools.product([0, 1], repeat=5):
            for r in itertools.product([0, 1], repeat=3):
                if any(r):
                    yield dict(kind='table', f=f, d=d, r=r)


def run():
    return main('C19', cases, run_case,
                'explicit state exploration of chains of intervals: from each seed every sequence of intervals (demand, ramp rates, unit withdrawn or not) up to the depth is run through the real market and helpers, states being the dispatch carried over; at each transition the ramp parameters are compared with the previous dispatch, the dispatch with the exact reference model, and movement with the ramp rates; plus every combination of rows of the helper tables',
                {'quick': 'depth 3, 4 or 18 interval kinds, <=2 deviations of configuration', 'thorough': 'depth 3 with 6 kinds and <=3 deviations, depth 4 with 12 kinds'}, chunk=1)

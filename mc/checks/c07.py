"""C07: trapeziums."""
from ..common import *
from ..refmarket import *

TRAPS = [(20, 20, 40, 60, 80), (20, 0, 0, 60, 80), (20, 20, 40, 80, 80), (20, 0, 0, 80, 80), (30, 5, 65, 65, 80), (10, 40, 50, 70, 70), (24, 40, 42, 66, 70), (0.5, 3, 60, 61, 90)]
ETARGET = [0, 20, 30, 50, 70, 80, 90]


def to_spec(c):
    t = c['kind']
    spec = dict(regions=['N'], shape=c['shape'], units=[dict(u='P', r='N'), dict(u='W', r='N', t=L)],
                bids=[dict(u='P', t=G, s='energy', v={'1': 500}, p={'1': 100}), dict(u='W', t=L, s='energy', v={'1': 500}, p={'1': 50})])
    s1, s2 = c['cont'], c['cont2']
    if t == 'bdu':
        spec['units'] += [dict(u='A', r='N'), dict(u='A', r='N', t=L)]
        spec['bids'] += [dict(u='A', t=G, s='energy', v={'1': 100}, p={'1': 100 + c['epref']}),
                         dict(u='A', t=L, s='energy', v={'1': 100}, p={'1': 99 + c['epref']})]
        sides = {'gen': [G], 'load': [L], 'both': [G, L]}[c['sides']]
        ct = G
    else:
        spec['units'].append(dict(u='A', r='N', t=t))
        # energy preference: positive = wants to move up, negative = wants down
        p = 100 - c['epref'] if t == G else 50 + c['epref']
        spec['bids'].append(dict(u='A', t=t, s='energy', v={'1': 100}, p={'1': p}))
        sides = [t]
        ct = t
    svc = []
    offs = []
    for s in [s1] + ([s2] if s2 else []):
        offs.append((ct, s))
    if c['reg'] in ('raise', 'both'):
        offs += [(x, 'raise_reg') for x in sides]
    if c['reg'] in ('lower', 'both'):
        offs += [(x, 'lower_reg') for x in sides]
    for x, s in offs:
        spec['bids'].append(dict(u='A', t=x, s=s, v={'1': 40}, p={'1': 1}))
    # a competitor sets the worth of the service
    worth = {s1: c['w1'], s2: c['w2'], 'raise_reg': c['wr'], 'lower_reg': c['wr']}
    rows = []
    for s in dict.fromkeys(s for _, s in offs):
        spec['bids'].append(dict(u='P', t=G, s=s, v={'1': 200}, p={'1': worth[s]}))
        rows.append(('r_' + s, 'N', s, 60, '='))
    spec['fcas'] = dict(rows=rows)
    m, a, b, cc, d = TRAPS[c['trap']]
    m2, a2, b2, c2, d2 = TRAPS[c['trap2']]
    if t == 'bdu':
        sh = 50 if c['shift'] else 0
        a, b, cc, d = a - sh, b - sh, cc - sh, d - sh
        a2, b2, c2, d2 = a2 - sh, b2 - sh, c2 - sh, d2 - sh
    jrows = [('A', ct, s1, m, a, b, cc, d)]
    if s2:
        jrows.append(('A', ct, s2, m2, a2, b2, c2, d2))
    if 'j' in c['sets']:
        spec['jcap'] = dict(rows=jrows)
    if 'm' in c['sets']:
        spec['fmax'] = dict(rows=[(r[0], r[1], r[2], r[3]) for r in jrows] + [('A', x, s, 25) for x, s in offs if 'reg' in s])
    if 'r' in c['sets'] and c['reg'] != 'none':
        rr = []
        for x, s in offs:
            if 'reg' in s:
                if t == 'bdu' and x == L:
                    # trapezium of the charging side lives on negative net output
                    rr.append(('A', x, s, m2, -80, -60, -20, 0))
                else:
                    rr.append(('A', x, s, m2, max(a2, 0) if t == 'bdu' else a2, max(b2, 0) if t == 'bdu' else b2, max(c2, 0) if t == 'bdu' else c2, max(d2, 5) if t == 'bdu' else d2))
        spec['reg'] = dict(rows=rr)
    if c['ndt'] and t == G:
        spec['no_fcas_dt'] = True
    spec['demand'] = dict(rows=[('N', 100)])
    if c.get('pin') is not None:
        spec['generic'] = dict(rows=[('pin', '=', c['pin'])], unit=[('pin', 'A', 'energy', 1.0)])
    return spec


def pinned(tier):
    """Energy held at points below, on, between and above the corners of every trapezium."""
    base = {n: v[0] for n, v in DIMS}
    for trap in range(len(TRAPS)):
        _, a, b, c, d = TRAPS[trap]
        pins = {0, 20, 41, 69, 85, a, b, c, d, a + 0.25, d - 0.25, (a + b) / 2, (c + d) / 2, (b + c) / 2}
        for pin in sorted(pins):
            for kind in (G, L):
                for cont in ('raise_6s', 'lower_5min'):
                    for reg in ('none', 'both') if tier == 'quick' else ('none', 'raise', 'lower', 'both'):
                        for trap2 in ((3,) if reg == 'none' else (0,) if tier == 'quick' else (0, 3, 6)):
                            yield dict(base, trap=trap, pin=pin, kind=kind, cont=cont, reg=reg, trap2=trap2, w1=40)


def run_case(c):
    if c['cont'] == c['cont2']:
        return 'n/a'
    spec = to_spec(c)
    m, o, ref = run_spec(spec)
    return canon(o) if o else 'infeasible'


DIMS = [
    ('kind', [G, L]),
    ('trap', list(range(len(TRAPS)))),
    ('trap2', [3, 0, 1, 4]),
    ('epref', [0, 5, -5, 0.5, -0.5, 60, -60]),
    ('cont', ['raise_6s', 'lower_6s', 'raise_5min', 'lower_1s', 'raise_60s', 'raise_1s', 'lower_60s', 'lower_5min']),
    ('cont2', [None, 'lower_60s', 'raise_1s']),
    ('reg', ['none', 'raise', 'lower', 'both']),
    ('w1', [4, 40, 1.5]),
    ('w2', [5, 50]),
    ('wr', [6, 30, 1.2]),
    ('sets', ['jmr', 'j', 'r', 'm']),
    ('shape', ['plain', 'rev', 'idx', 'ridx']),
    ('ndt', [False, True]),
]
BD = [
    ('kind', ['bdu']),
    ('trap', list(range(len(TRAPS)))),
    ('trap2', [3, 0, 1]),
    ('epref', [0, -40, 40, 5, -5]),
    ('cont', ['raise_6s', 'lower_6s', 'lower_5min', 'raise_1s']),
    ('cont2', [None, 'lower_60s', 'raise_1s']),
    ('reg', ['none', 'raise', 'lower', 'both']),
    ('sides', ['both', 'gen', 'load']),
    ('w1', [4, 40, 1.5]),
    ('w2', [5, 50]),
    ('wr', [6, 30, 1.2]),
    ('sets', ['jm', 'j', 'jmr']),
    ('shift', [True, False]),
    ('shape', ['plain', 'rev']),
    ('ndt', [False]),
]


def cases(tier):
    k = 2 if tier == 'quick' else 3
    yield from deviations(DIMS, k)
    yield from deviations(BD, k)
    yield from pinned(tier)
    base = {n: v[0] for n, v in DIMS}
    names = ['kind', 'trap', 'epref', 'reg', 'w1', 'cont']
    lim = {'cont': ['raise_6s', 'lower_6s'], 'w1': [4, 40]} if tier == 'quick' else {}
    if tier == 'thorough':
        names.append('wr')
    for x in product([(n, lim.get(n, v)) for n, v in DIMS if n in names]):
        yield dict(base, **x)
    base = {n: v[0] for n, v in BD}
    names = ['trap', 'epref', 'reg', 'cont', 'sides']
    lim = {'cont': ['raise_6s', 'lower_6s'], 'trap': [0, 1, 4]} if tier == 'quick' else {}
    for x in product([(n, lim.get(n, v)) for n, v in BD if n in names]):
        yield dict(base, **x)


def run():
    return main('C07', cases, run_case,
                'every trapezium, service, unit kind, price pull and combination of regulation and contingency offers within the bound is dispatched and compared with the exact co-optimum over the trapezium region',
                {'quick': '<=2 deviations over %d (one-directional) and %d (bidirectional) dimensions plus the full products of shape, energy pull, regulation offers and service' % (len(DIMS), len(BD)),
                 'thorough': '<=3 deviations plus larger products'})

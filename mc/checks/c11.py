"""C11: generic constraints."""
from ..common import *
from ..refmarket import *

TERMS = {
    'uA': ('unit', ('A', 'energy', 1.0)), 'uB': ('unit', ('B', 'energy', -0.5)), 'uC2': ('unit', ('C', 'energy', 2.0)), 'uD': ('unit', ('D', 'energy', 1.0)),
    'uAr': ('unit', ('A', 'raise_reg', 1.0)), 'uBr': ('unit', ('B', 'raise_reg', -1.5)), 'uNone': ('unit', ('C', 'lower_6s', 3.0)), 'uA0': ('unit', ('A', 'energy', 0.0)),
    'rN': ('region', ('N', 'energy', 1.0)), 'rVr': ('region', ('V', 'raise_reg', 1.0)), 'rNr': ('region', ('N', 'raise_reg', -1.0)), 'rNone': ('region', ('V', 'lower_6s', 1.0)),
    'iI': ('inter', ('I', 1.0)), 'iI2': ('inter', ('I', -0.5)), 'iL': ('inter', ('L', 1.0)), 'iNone': ('inter', ('ZZ', 1.0)),
}


def base(c):
    return dict(regions=['N', 'V'], shape=c.get('shape', 'plain'),
                units=[dict(u='A', r='N', lf=0.95), dict(u='B', r='N'), dict(u='C', r='V'), dict(u='D', r='V', t=L)],
                bids=[dict(u='A', t=G, s='energy', v={'1': 40, '2': 40}, p={'1': 20, '2': 24}), dict(u='B', t=G, s='energy', v={'1': 90}, p={'1': 31}),
                      dict(u='C', t=G, s='energy', v={'1': 100}, p={'1': 37}), dict(u='D', t=L, s='energy', v={'1': 30}, p={'1': 40}),
                      dict(u='A', t=G, s='raise_reg', v={'1': 20}, p={'1': 2}), dict(u='B', t=G, s='raise_reg', v={'1': 20}, p={'1': 3}),
                      dict(u='C', t=G, s='raise_reg', v={'1': 20}, p={'1': 4}), dict(u='D', t=L, s='raise_reg', v={'1': 20}, p={'1': 5})],
                demand=dict(rows=[('N', 60), ('V', 50)]),
                fcas=dict(rows=[('R', 'N', 'raise_reg', 25, '>='), ('R', 'V', 'raise_reg', 25, '>=')]),
                inter=dict(rows=[dict(i='I', fr='N', to='V', min=-40, max=40),
                                 dict(i='L', l='L1', fr='N', to='V', min=0, max=15, g=1, flf=1.0, tlf=0.97),
                                 dict(i='L', l='L2', fr='V', to='N', min=0, max=12, g=-1, flf=0.98, tlf=1.0)]))


def to_spec(c):
    spec = base(c)
    g = dict(rows=[], unit=[], region=[], inter=[])
    for k, (terms, ty, rhs) in enumerate(c['sets']):
        name = c.get('names', ['g', 'g1', 'h', 'R2'])[k]
        if name != 'R':
            g['rows'].append((name, ty, rhs))
        for t in terms:
            kind, x = TERMS[t]
            g[kind].append((name,) + tuple(x))
    if c.get('cost') is not None:
        g['cost'] = c['cost']
    for k in ('unit', 'region', 'inter'):
        if not g[k]:
            del g[k]
    spec['generic'] = g
    return spec


def run_case(c):
    spec = to_spec(c)
    m, o, ref = run_spec(spec)
    return canon(o) if o else 'infeasible'


def clean(ts):
    keys = [(TERMS[t][0],) + tuple(TERMS[t][1][:-1]) for t in ts]
    return len(set(keys)) == len(keys)


def cases(tier):
    names = list(TERMS)
    types = ['<=', '>=', '=']
    rhs1 = [-20, 0, 10, 35, 300]
    for n in (1, 2):
        for ts in itertools.combinations(names, n):
            if not clean(ts):
                continue
            for ty in types:
                for r in (rhs1 if n == 1 or tier == 'thorough' else [-20, 10, 35]):
                    yield dict(sets=[(ts, ty, r)])
    for ts in itertools.combinations(names, 3):
        if clean(ts):
            if tier == 'thorough':
                for ty in types:
                    for r in (0, 20):
                        yield dict(sets=[(ts, ty, r)])
            else:
                yield dict(sets=[(ts, types[sum(map(len, ts)) % 2], 12)])
    # two and three sets; sets with similar names; terms in another set's name; names given in any order
    small = ['uA', 'uAr', 'rN', 'iI', 'iL', 'uD']
    for a in small:
        for b in small:
            for ty in (('<=', '>='), ('>=', '<='), ('=', '<=')):
                for nm in (['g', 'g1'], ['g1', 'g'], ['b', 'a']):
                    yield dict(sets=[([a], ty[0], 20), ([b], ty[1], 8)], names=nm, shape='plain' if nm[0] == 'g' else 'ridx')
    for a, b, d in itertools.permutations(small, 3):
        yield dict(sets=[([a], '<=', 20), ([b], '>=', 3), ([d, 'uB'], '<=', 30)], shape='rev')
    # terms attached to an FCAS requirement set
    for n in (1, 2):
        for ts in itertools.combinations(names, n):
            if clean(ts):
                yield dict(sets=[(ts, None, 0)], names=['R'])
                yield dict(sets=[(ts, None, 0), (['uB'], '<=', 9)], names=['R', 'R2'], shape='idx')
    # elastic
    for ts in itertools.combinations(names, 1):
        for ty in types:
            for cost in (0.5, 6, 9000, {'g': 5.0}, {'g1': 5.0}, {'g': 2, 'g1': 50}):
                yield dict(sets=[(ts, ty, 33), (['uC2'], '<=', 10)], cost=cost)


def run():
    return main('C11', cases, run_case,
                'every generic constraint built from up to three of %d term kinds, each type and right hand side, families of up to three sets, terms attached to FCAS sets and elastic variants are dispatched and compared with the exact optimum under the stated combination' % len(TERMS),
                {'quick': 'all 1- and 2-term sets x types x right hand sides, all 3-term sets, all pairs and triples over six terms', 'thorough': 'all 1-3 term sets x types x right hand sides and the rest'})

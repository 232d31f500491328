"""C06: FCAS requirements and prices."""
from ..common import *
from ..refmarket import *

S1, S2, S3 = 'raise_6s', 'lower_reg', 'raise_1s'
PAIRS = [(r, s) for r in ('N', 'V') for s in (S1, S2)]


def base(c):
    spec = dict(regions=['N', 'V'], shape=c['shape'],
                units=[dict(u='A', r='N', lf=0.9), dict(u='B', r='N'), dict(u='C', r='V'), dict(u='D', r='V', t=L, lf=1.1)],
                bids=[dict(u='A', t=G, s='energy', v={'1': 60}, p={'1': 20}), dict(u='B', t=G, s='energy', v={'1': 80}, p={'1': 30}),
                      dict(u='C', t=G, s='energy', v={'1': 80}, p={'1': 25}), dict(u='D', t=L, s='energy', v={'1': 20}, p={'1': 10})],
                demand=dict(rows=[('N', 60), ('V', 40)]))
    off = {('A', G): (3, 12), ('B', G): (5, 5), ('C', G): (1, 30), ('D', L): (4, 7)}
    for (u, t), (p1, p2) in off.items():
        for k, s in enumerate((S1, S2)):
            if c.get('drop') == (u, s) or c.get('drop') == [u, s]:
                continue
            spec['bids'].append(dict(u=u, t=t, s=s, v={'1': 10, '2': 8 + k}, p={'1': p1 + k, '2': p2 + k}))
    if c.get('coopt'):
        spec['jcap'] = dict(rows=[('A', G, S1, 18, 0, 0, 45, 60), ('C', G, S1, 18, 10, 30, 70, 80), ('D', L, S1, 18, 2, 8, 20, 20)])
        spec['reg'] = dict(rows=[('A', G, S2, 19, 5, 25, 60, 60), ('B', G, S2, 19, 10, 20, 80, 80)])
    return spec


def to_spec(c):
    spec = base(c)
    rows = []
    for k, (members, vol, ty) in enumerate(c['sets']):
        for r, s in members:
            rows.append(('set%d' % k, r, s, vol, ty))
    spec['fcas'] = dict(rows=rows)
    if c.get('notype'):
        spec['fcas']['notype'] = True
    if c.get('cost') is not None:
        spec['fcas']['cost'] = c['cost']
    return spec


def run_case(c):
    spec = to_spec(c)
    m, o, ref = run_spec(spec, energy_price=True, fcas_price=True)
    if o is None:
        return 'infeasible'
    return tuple(sorted((k, round(v, 3)) for k, v in o['fp'].items())), round(o['obj'], 2)


def subsets():
    out = []
    for n in range(1, 5):
        out += [list(x) for x in itertools.combinations(PAIRS, n)]
    return out


def cases(tier):
    subs = subsets()
    types = ['>=', '=', '<=']
    vols = [0, 10, 18, 25, 47] if tier == 'quick' else [0, 5, 10, 18, 25, 36, 47, 60, 75]
    # one set
    for a in subs:
        for v in vols + [200]:
            for ty in types:
                for co in (False, True):
                    yield dict(sets=[(a, v, ty)], coopt=co, shape='plain')
        yield dict(sets=[(a, 18, '=')], notype=True, shape='rev')
    # two overlapping sets
    v2 = [10, 30] if tier == 'quick' else [10, 18, 30, 45]
    for i, a in enumerate(subs):
        for j, b in enumerate(subs):
            for va in v2:
                for vb in v2:
                    if tier == 'quick' and (len(a) > 2 and len(b) > 2):
                        continue
                    for tys in ([('>=', '>='), ('=', '>='), ('>=', '<=')] if tier == 'thorough' else [('>=', '>=')]):
                        yield dict(sets=[(a, va, tys[0]), (b, vb, tys[1])], coopt=False, shape='plain')
    for a in subs:
        for b in subs:
            if tier == 'thorough' or (len(a) <= 2 and len(b) == 1):
                yield dict(sets=[(a, 18, '>='), (b, 12, '<=')], coopt=True, shape='ridx')
                yield dict(sets=[(a, 30, '='), (b, 12, '>=')], coopt=False, shape='idx')
    # three sets
    trip = [s for s in subs if len(s) <= 2]
    for a, b, d in itertools.combinations(trip, 3):
        yield dict(sets=[(a, 12, '>='), (b, 20, '>='), (d, 25, '>=')], coopt=False, shape='plain')
    # elastic, common cost or one per set
    for a in subs:
        for cost in (1.5, 11, 5000, {'set0': 40}, {'set1': 7}, {'set0': 2.5, 'set1': 900}):
            yield dict(sets=[(a, 25, '>='), ([('N', S1)], 60 if cost != {'set0': 40} else 20, '>=')] if not (isinstance(cost, dict) and 'set1' not in cost) else [(a, 25, '>='), ([('N', S1)], 20, '>=')],
                       cost=cost, coopt=False, shape='plain')
            yield dict(sets=[(a, 12, '='), (PAIRS[:2], 3, '<=')], cost=cost, coopt=True, shape='plain')
    for u in 'ABCD':
        for s in (S1, S2):
            for a in subs:
                if a == [('V', s)] or a == [('N', s)] or len(a) >= 2:
                    yield dict(sets=[(a, 10, '>='), (PAIRS, 30, '>=')], drop=(u, s), coopt=False, shape='rev')


def run():
    return main('C06', cases, run_case,
                'every family of one to three requirement sets over two regions and two services within the bound is dispatched; enablement is judged against '
                'the set definition and each price against the sum of exact set marginal costs',
                {'quick': 'all single sets x 6 volumes x 3 types, all pairs of sets (at most one with more than two members), all triples of small sets, elastic variants',
                 'thorough': 'all pairs of sets x 4 x 4 volumes x 3 type combinations and the rest'})

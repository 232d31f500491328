"""C12: elastic constraints."""
from ..common import *
from ..refmarket import *

KEYS = {'cap': ['unit_bid_capacity'], 'uigf': ['uigf_capacity'], 'ramp': ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down'], 'fast': ['fast_start'],
        'demand': ['demand'], 'fcas': ['fcas'], 'fmax': ['fcas_max_availability'], 'jcap': ['joint_capacity'], 'reg': ['energy_and_regulation_capacity'],
        'jramp': ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu'], 'generic': ['generic']}

# each family in two tightnesses: first can be met together with the energy balance, second can not be met at all
FAM = {
    'cap': {'soft': [('A', G, 40), ('D', L, 5)], 'hard': [('A', G, 4), ('B', G, 3), ('X', G, 2), ('C', G, 1)]},
    'uigf': {'soft': [('A', 45)], 'hard': [('A', 1.5), ('B', 2.5), ('C', 0)]},
    'ramp': {'soft': [('A', G, 20, 120, 60), ('B', G, 0, 600, 600), ('D', L, 0, 90, 60), ('X', G, 5, 60, 60), ('X', L, 5, 60, 60)],
             'hard': [('A', G, 150, 60, 60), ('B', G, 0, 12, 12), ('C', G, 90, 12, 12), ('D', L, 30, 12, 12), ('X', G, -60, 60, 60), ('X', L, -60, 60, 60)],
             'bdu': [('X', G, -60, 60, 60), ('X', L, -60, 60, 60)], 'bdd': [('A', G, 20, 600, 600), ('X', G, 70, 60, 60), ('X', L, 70, 60, 60)]},
    'fast': {'soft': [dict(u='B', end=3, t=0, l2=4, l4=4, ml=20), dict(u='C', end=4, t=1, l2=4, l4=4, ml=16)],
             'hard': [dict(u='A', end=2, t=2, l2=4, l4=4, ml=250), dict(u='B', end=0, t=0, l2=4, l4=4, ml=20), dict(u='C', end=3, t=0, l2=4, l4=4, ml=80)]},
    'demand': {'soft': [('N', 90), ('V', 30)], 'hard': [('N', 350), ('V', 30)], 'over': [('N', -200), ('V', 30)]},
    'fcas': {'soft': [('R', 'N', 'raise_reg', 20, '>='), ('S', 'N', 'raise_6s', 12, '=')],
             'hard': [('R', 'N', 'raise_reg', 90, '>='), ('R', 'V', 'raise_reg', 90, '>='), ('S', 'N', 'raise_6s', 66, '='), ('T', 'N', 'lower_reg', 99, '>=')]},
    'fmax': {'soft': [('A', G, 'raise_reg', 12), ('X', G, 'raise_reg', 4)], 'hard': [('A', G, 'raise_reg', 2), ('C', G, 'raise_reg', 1), ('X', G, 'raise_reg', 1), ('X', L, 'raise_reg', 0), ('A', G, 'raise_6s', 1)]},
    'jcap': {'soft': [('A', G, 'raise_6s', 25, 10, 20, 60, 80)], 'hard': [('A', G, 'raise_6s', 25, 90, 95, 96, 99), ('D', L, 'raise_6s', 20, 40, 50, 60, 80), ('X', G, 'raise_6s', 10, 60, 70, 80, 90)]},
    'reg': {'soft': [('A', G, 'raise_reg', 30, 5, 10, 60, 90)], 'hard': [('A', G, 'raise_reg', 30, 150, 160, 170, 190), ('X', G, 'raise_reg', 10, 50, 60, 70, 90), ('C', G, 'raise_reg', 10, 50, 60, 70, 90)]},
    'jramp': {'soft': [('A', 40, 120, 120), ('X', 0, 120, 120)], 'hard': [('A', 0, 12, 600), ('X', -90, 60, 60), ('C', 90, 60, 60), ('D', 50, 60, 60)], 'bdu': [('X', -90, 60, 60)], 'bdd': [('X', 90, 60, 60), ('A', 40, 120, 120)], 'down': [('A', 190, 60, 60), ('D', 50, 60, 60)]},
    'generic': {'soft': [('g', '<=', 40), ('h', '>=', 5)], 'hard': [('g', '<=', -40), ('h', '>=', 300), ('k', '=', 77)]},
}


def to_spec(c):
    spec = dict(regions=['N', 'V'], shape=c.get('shape', 'plain'),
                units=[dict(u='A', r='N', lf=0.97), dict(u='B', r='N'), dict(u='C', r='V'), dict(u='D', r='N', t=L), dict(u='X', r='N', t=G), dict(u='X', r='N', t=L)],
                bids=[dict(u='A', t=G, s='energy', v={'1': 60, '2': 40}, p={'1': 30, '2': 34}), dict(u='B', t=G, s='energy', v={'1': 60}, p={'1': 52}),
                      dict(u='C', t=G, s='energy', v={'1': 30, '2': 40}, p={'1': 25, '2': 61}), dict(u='D', t=L, s='energy', v={'1': 30}, p={'1': 47}),
                      dict(u='X', t=G, s='energy', v={'1': 40}, p={'1': 43}), dict(u='X', t=L, s='energy', v={'1': 30}, p={'1': 21})],
                demand=dict(rows=FAM['demand']['soft']), inter=dict(rows=[dict(i='I', fr='V', to='N', min=-10, max=15)]))
    for u, t, p in (('A', G, 2), ('C', G, 4), ('X', G, 5), ('X', L, 6), ('D', L, 7)):
        for n, s in enumerate(('raise_reg', 'lower_reg', 'raise_6s')):
            if not (u == 'C' and n == 1):
                spec['bids'].append(dict(u=u, t=t, s=s, v={'1': 20}, p={'1': p + n / 4}))
    # something has to ask for the services
    spec['fcas'] = dict(rows=[('q', 'N', 'raise_reg', 25, '>='), ('r', 'N', 'raise_6s', 20, '>='), ('s', 'N', 'lower_reg', 20, '>=')])
    after = {}
    for fam, (kind, cost, how) in sorted(c['fams'].items()):
        spec[fam] = dict(rows=FAM[fam][kind] if isinstance(kind, str) else kind)
        if fam == 'generic':
            spec[fam].update(unit=[('g', 'A', 'energy', 1.0), ('g', 'C', 'energy', 0.5), ('h', 'B', 'energy', 1.0), ('h', 'A', 'raise_reg', 0.5), ('k', 'C', 'energy', -1.0)],
                             inter=[('g', 'I', 2.0)], region=[('k', 'N', 'raise_6s', 0.25)])
            spec[fam]['unit'] = [x for x in spec[fam]['unit'] if x[0] in [r[0] for r in spec[fam]['rows']]]
            spec[fam]['region'] = [x for x in spec[fam]['region'] if x[0] in [r[0] for r in spec[fam]['rows']]]
        if cost is None:
            continue
        if how == 'call':
            spec[fam]['cost'] = cost
        elif how == 'later':
            spec['_later'] = spec.get('_later', []) + [(fam, cost)]
        elif how == 'changed':
            # first another cost, then the real one
            spec[fam]['cost'] = 3.0
            spec['_later'] = spec.get('_later', []) + [(fam, cost)]
    return spec


def key_of(row):
    if row.fam == 'ramp':
        return 'ramp_' + row.name[-1]
    if row.fam == 'bramp':
        return 'bidirectional_ramp_' + row.name[-1]
    if row.fam == 'jramp':
        return 'joint_ramping_%s_reg%s' % (row.name[-1], '_bdu' if len(row.name) == 2 else '')
    return KEYS[row.fam][0]


def run_case(c):
    spec = to_spec(c)
    later = spec.pop('_later', [])
    m = build(spec)
    for fam, cost in later:
        spec[fam] = dict(spec[fam], cost=cost)
        present = {key_of(r) for r in Ref(spec).rows if r.fam in (fam, 'bramp' if fam == 'ramp' else fam)}
        for k in KEYS[fam]:
            if k in present:
                call()
                df = cost
                if isinstance(cost, dict):
                    df = pd.DataFrame({'set': list(cost), 'cost': [float(v) for v in cost.values()]})
                m.make_constraints_elastic(k, df)
    ref = Ref(spec)
    try:
        dispatch(m, spec)
    except Infeasible:
        if ref.best() is not None:
            raise Violation('market reported infeasible, reference least cost %s' % float(ref.best()))
        return 'infeasible'
    o = observe(m, spec)
    ref.check(o)
    degree, free = {}, set()
    for r in ref.rows:
        k = key_of(r)
        if r.cost == 0:
            free.add(k)
        degree[k] = degree.get(k, 0.0) + (ref.violation(r, o) if r.cost is not None else 0.0)
    call()
    names = list(m.get_constraint_set_names())
    if len(set(names)) != len(names) or not set(degree) <= set(names):
        raise Violation('constraint set names are %s, the market has %s' % (sorted(names), sorted(degree)))
    for k in [k for ks in KEYS.values() for k in ks]:
        call()
        d = float(m.get_elastic_constraints_violation_degree(k))
        # where breaking the constraint is free nothing keeps the reported violation at the least possible
        if abs(d - degree.get(k, 0.0)) > 2e-3 and not (k in free and d > degree.get(k, 0.0)):
            raise Violation('violation degree of %s reported as %.5f, dispatch violates it by %.5f MW: %s' % (k, d, degree.get(k, 0.0), o))
    return canon(o), tuple(sorted((k, round(v, 2)) for k, v in degree.items() if v > 1e-6))


def cases(tier):
    fams = list(FAM)
    costs = [None, 0.5, 19, 10000]
    for f in fams:
        for kind in FAM[f]:
            for cost in costs + [1, 37.5, 0]:
                for how in ('call', 'later', 'changed') if cost is not None else ('call',):
                    for shape in ('plain', 'ridx'):
                        yield dict(fams={f: (kind, cost, how)}, shape=shape)
    percost = {'generic': [{'g': 30.0}, {'h': 30.0, 'g': 2.0}, {'g': 9000.0, 'h': 20, 'k': 4.5}, {'zz': 5.0}, {'k': 7.0}, {'g': 30.0, 'h': 30.0, 'k': 30.0}], 'fcas': [{'R': 30.0}, {'R': 0.5, 'S': 800.0}, {'T': 900.0, 'R': 700, 'S': 1}, {'zz': 5.0}, {'R': 30.0, 'S': 30.0, 'T': 30.0}]}
    for f, cs in percost.items():
        for kind in FAM[f]:
            for cost in cs:
                for how in ('call', 'later', 'changed'):
                    yield dict(fams={f: (kind, cost, how)}, shape='ridx' if how == 'call' else 'plain')
    # several sets of one family, every mix of directions and of the side they are broken on, with costs ordered every way round
    for tys in itertools.product(('<=', '>=', '='), repeat=3):
        for sides in itertools.product((0, 1), repeat=3):
            for n, lv in enumerate(itertools.permutations((2.0, 45.0, 9000.0))):
                if tier == 'quick' and n not in ((0, 5) if tys.count('=') >= 2 else (sum(sides) + len(set(tys)),)):
                    continue
                rows = [(st, ty, ((-60, -50, -70) if side == 0 else (90, 80, 70))[i]) for i, (st, ty, side) in enumerate(zip('ghk', tys, sides))]
                yield dict(fams={'generic': (rows, dict(zip('ghk', lv)), 'call')})
                if '<=' not in tys:
                    rows = [(st, 'N', sv, ((3, 2, 4) if side == 0 else (90, 80, 70))[i], ty) for i, (st, sv, ty, side) in enumerate(zip('RST', ('raise_reg', 'raise_6s', 'lower_reg'), tys, sides))]
                    yield dict(fams={'fcas': (rows, dict(zip('RST', lv)), 'call')})
            # sets that share a cost
            for lv in ((45.0, 45.0, 45.0), (45.0, 9000.0, 45.0)):
                rows = [(st, ty, ((-60, -50, -70) if side == 0 else (90, 80, 70))[i]) for i, (st, ty, side) in enumerate(zip('ghk', tys, sides))]
                if tier == 'thorough' or len(set(tys)) == 1 or len(set(sides)) > 1:
                    yield dict(fams={'generic': (rows, dict(zip('ghk', lv)), 'later')})
    for f, g in itertools.combinations(fams, 2):
        ks = [k for k in itertools.product(FAM[f], FAM[g])]
        if tier == 'quick':
            ks = [('hard', 'hard'), ('soft', 'hard'), ('hard', 'soft')]
        for k1, k2 in ks:
            for c1, c2 in itertools.product(costs if tier == 'thorough' else [None, 19, 10000], repeat=2):
                if (c1, c2) != (None, None):
                    yield dict(fams={f: (k1, c1, 'call'), g: (k2, c2, 'call')})
    if tier == 'thorough':
        for tri in itertools.combinations(fams, 3):
            for cs in itertools.product([0.5, 10000], repeat=3):
                yield dict(fams={f: ('hard', c, 'call') for f, c in zip(tri, cs)})
    # everything elastic at once, costs ordered every way round over a few levels
    for base in ([19, 300, 5000], [5000, 300, 19], [300, 19, 5000]):
        for kind in ('soft', 'hard'):
            yield dict(fams={f: (kind, base[n % 3] + n, 'call') for n, f in enumerate(fams)})


def run():
    return main('C12', cases, run_case,
                'every elastic-capable constraint family alone and every pair of families (%d families, satisfiable and unsatisfiable right hand sides), with costs below, around and above every trade-off, set with the constraints, afterwards or changed, single or per set, is dispatched; cost, feasibility and the reported violation degrees are compared with the exact optimum' % len(FAM),
                {'quick': 'families 1-2 of %d, cost levels {none, low, mid, high}' % len(FAM), 'thorough': 'families 1-3, all right hand side kinds'})

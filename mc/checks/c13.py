"""C13: over-constrained dispatch re-run."""
from ..common import *
from ..refmarket import *

GEN = {
    'none': None,
    'ok': [('g', '<=', 500)],
    'tight': [('g', '<=', 60)],
    'over': [('g', '>=', 130)],
    'under': [('g', '<=', -25)],
    'eqover': [('g', '=', 140)],
    'equnder': [('g', '=', -12.5)],
    'line': [('l', '>=', 22.25)],
    'two': [('g', '>=', 130), ('l', '<=', -44)],
    'mixed': [('g', '>=', 130), ('l', '<=', 44), ('f', '>=', 28)],
    'conflict': [('g', '>=', 70), ('g2', '<=', 30)],
    'fc': [('f', '>=', 90)],
    'boost': [('b', '>=', 300)],
    'tiny': [('g', '>=', 100.4)],
    'tinydown': [('g', '<=', -0.3), ('l', '<=', 44)],
    'tinyeq': [('g', '=', 100.05), ('l', '=', 15.5)],
}
LINKS = [('g', 'unit', 'A', 'energy', 1.0), ('g2', 'unit', 'A', 'energy', 1.0), ('f', 'unit', 'A', 'raise_reg', 1.0), ('b', 'unit', 'A', 'energy', 1.0), ('b', 'unit', 'B', 'energy', 2.0), ('b', 'unit', 'C', 'energy', 1.0)]
FC = {
    'none': None,
    'ok': [('R', 'N', 'raise_reg', 20, '>='), ('Q', 'V', 'raise_reg', 3, '>=')],
    'short': [('R', 'N', 'raise_reg', 75, '>='), ('Q', 'V', 'raise_reg', 3, '>=')],
    'shortboth': [('R', 'N', 'raise_reg', 75, '>='), ('Q', 'V', 'raise_reg', 31, '>='), ('T', 'N', 'lower_reg', 60, '>=')],
    'eq': [('R', 'N', 'raise_reg', 66, '=')],
    'bit': [('R', 'N', 'raise_reg', 50.3, '>='), ('Q', 'V', 'raise_reg', 25.6, '=')],
    'most': [('R', 'N', 'raise_reg', -5, '<=')],
    'wide': [('R', 'N', 'raise_reg', 120, '>='), ('R', 'V', 'raise_reg', 120, '>='), ('T', 'N', 'lower_reg', 8, '>=')],
}
DEM = {'base': [('N', 90), ('V', 30)], 'low': [('N', 12), ('V', 4)], 'high': [('N', 150), ('V', 50)], 'unserved': [('N', 300), ('V', 30)]}


def to_spec(c):
    spec = dict(regions=['N', 'V'], shape=c.get('shape', 'plain'),
                units=[dict(u='A', r='N'), dict(u='B', r='N'), dict(u='C', r='V'), dict(u='D', r='N', t=L)],
                bids=[dict(u='A', t=G, s='energy', v={'1': 60, '2': 40}, p={'1': 30, '2': 34}), dict(u='B', t=G, s='energy', v={'1': 60}, p={'1': 52}),
                      dict(u='C', t=G, s='energy', v={'1': 30, '2': 40}, p={'1': 25, '2': 61}), dict(u='D', t=L, s='energy', v={'1': 30}, p={'1': 47})],
                demand=dict(rows=DEM[c['dem']]), inter=dict(rows=[dict(i='I', fr='V', to='N', min=-10, max=15)]))
    if c['dem'] == 'unserved' or c.get('demcost'):
        spec['demand']['cost'] = c.get('demcost') or 20000
    if c.get('loss'):
        spec['loss'] = dict(rows=[dict(i='I', f='abs5', share=0.5, bp=[-50, 0, 50])])
    if FC[c['fc']]:
        for u, t, p in (('A', G, 2), ('C', G, 4), ('D', L, 7)):
            for n, s in enumerate(('raise_reg', 'lower_reg')):
                spec['bids'].append(dict(u=u, t=t, s=s, v={'1': 20, '2': 5}, p={'1': p + n / 4, '2': p + 10}))
        spec['fcas'] = dict(rows=FC[c['fc']])
        if c['fcost'] is not None:
            spec['fcas']['cost'] = c['fcost']
        # energy and FCAS interact
        spec['reg'] = dict(rows=[('A', G, 'raise_reg', 25, 0, 0, 75, 100)])
    if GEN[c['gen']]:
        names = [r[0] for r in GEN[c['gen']]]
        spec['generic'] = dict(rows=GEN[c['gen']], unit=[(s, u, sv, k) for s, kind, u, sv, k in LINKS if s in names])
        if 'l' in names:
            spec['generic']['inter'] = [('l', 'I', 1.0)]
        if c['gcost'] is not None:
            spec['generic']['cost'] = c['gcost']
    return spec


def limits(kind, plain):
    """Ceiling, floor and FCAS ceiling relative to the prices of the plain dispatch."""
    hi, lo = max(plain['ep'].values()), min(plain['ep'].values())
    fh = max(plain['fp'].values()) if plain.get('fp') else 10.0
    off = dict(c=hi + 1.0, f=lo - 1.0, a=fh + 1.0)
    for k in kind:
        if k == 'c':
            off['c'] = hi - 0.5
        elif k == 'C':
            off['c'] = hi
        elif k == 'f':
            off['f'] = lo + 0.5
        elif k == 'F':
            off['f'] = lo
        elif k == 'a':
            off['a'] = fh - 0.5
        elif k == 'A':
            off['a'] = fh
    return off


KINDS = ['', 'c', 'C', 'f', 'F', 'a', 'A', 'cfa']
DEG = ['generic', 'fcas', 'demand']


def run_case(c):
    spec = to_spec(c)
    ref = Ref(spec)
    m = build(spec)
    try:
        dispatch(m, spec)
    except Infeasible:
        if ref.best() is not None:
            raise Violation('market reported infeasible, reference least cost %s' % float(ref.best()))
        return 'infeasible'
    plain = observe(m, spec)
    ref.check(plain)
    deg = {k: float(m.get_elastic_constraints_violation_degree(k)) for k in DEG}
    lim = limits(c['lim'], plain)
    kw = dict(energy_market_ceiling_price=lim['c'], energy_market_floor_price=lim['f'], fcas_market_ceiling_price=lim['a'], allow_over_constrained_dispatch_re_run=True)
    if c.get('missing'):
        kw.pop(c['missing'])
        m2 = build(spec)
        try:
            call()
            m2.dispatch(**kw)
        except ValueError:
            return 'rejected'
        raise Violation('re-run accepted without %s' % c['missing'])
    m2 = m if c.get('same') else build(spec)
    dispatch(m2, spec, **kw)
    o = observe(m2, spec)
    deg2 = {k: float(m2.get_elastic_constraints_violation_degree(k)) for k in DEG}
    for k in ('x', 'f', 'loss'):
        for kk in plain.get(k, {}):
            if abs(plain[k][kk] - o[k][kk]) > TOL:
                raise Violation('%s of %s is %s with the re-run allowed and %s without' % (k, kk, o[k][kk], plain[k][kk]))
    if abs(o['obj'] - plain['obj']) > 1e-3 * max(1, abs(plain['obj']) / 1e4):
        raise Violation('objective %s with the re-run allowed, %s without' % (o['obj'], plain['obj']))
    for k in DEG:
        if abs(deg[k] - deg2[k]) > 2e-3:
            raise Violation('violation degree of %s is %s with the re-run allowed and %s without' % (k, deg2[k], deg[k]))
    viol = {}
    for r in ref.rows:
        if r.fam in ('generic', 'fcas') and r.cost is not None:
            d = ref.lhs(r, plain) - float(r.rhs)
            v = d if r.type in ('<=', '=') and d > 1e-4 else (d if r.type in ('>=', '=') and d < -1e-4 else 0.0)
            if v:
                viol[id(r)] = v + (0.01 if v > 0 else -0.01)
    hit = max(plain['ep'].values()) >= lim['c'] or min(plain['ep'].values()) <= lim['f'] or (bool(plain.get('fp')) and max(plain['fp'].values()) >= lim['a'])
    if not (hit and viol):
        for k in ('ep', 'fp'):
            for kk in plain.get(k, {}):
                if abs(plain[k][kk] - o[k][kk]) > 1e-3 + 1e-6 * abs(plain[k][kk]):
                    raise Violation('price of %s changed from %s to %s by a re-run that was not due (limits %s, violated %s)' % (kk, plain[k][kk], o[k][kk], lim, deg))
        return 'plain', canon(o)
    bumps = {k: Fraction(v).limit_denominator(10**7) for k, v in viol.items()}
    best = ref.best(bumps)
    e = Fraction(1, 10**5)

    def rng(rowi):
        r = ref.rows[rowi]
        b1, b2 = dict(bumps), dict(bumps)
        b1[id(r)] = b1.get(id(r), 0) + e
        b2[id(r)] = b2.get(id(r), 0) - e
        up, dn = ref.best(b1), ref.best(b2)
        return (-np.inf if dn is None else float((best - dn) / e)), (np.inf if up is None else float((up - best) / e))
    for reg, rowi in ref.demand_rows.items():
        lo, hi = rng(rowi)
        p = o['ep'][reg]
        if not (lo - 2e-3 - 1e-5 * abs(p) <= p <= hi + 2e-3 + 1e-5 * abs(p)):
            raise Violation('energy price %s in %s after the re-run, marginal cost of the relaxed market is in [%s, %s] (plain price %s, relaxed %s)' % (p, reg, lo, hi, plain['ep'], viol))
    lo, hi = {}, {}
    for st, (rowi, rs) in ref.fcas_rows.items():
        a, b = rng(rowi)
        for k in rs:
            lo[k] = lo.get(k, 0) + a
            hi[k] = hi.get(k, 0) + b
    for k in lo:
        p = o['fp'][k]
        if not (lo[k] - 2e-3 - 1e-5 * abs(p) <= p <= hi[k] + 2e-3 + 1e-5 * abs(p)):
            raise Violation('fcas price %s of %s after the re-run, marginal cost of the relaxed market is in [%s, %s] (plain price %s, relaxed %s)' % (p, k, lo[k], hi[k], plain['fp'], viol))
    return 'rerun', canon(o)


def cases(tier):
    dems = list(DEM)
    for gen in GEN:
        for fc in FC:
            for lim in KINDS:
                for dem in (dems if tier == 'thorough' else ['base']):
                    yield dict(gen=gen, fc=fc, lim=lim, dem=dem, gcost=9000, fcost=5000)
    for gen in GEN:
        for fc in FC:
            for lim in ('', 'cfa', 'C') if tier == 'thorough' else ('cfa',):
                for dem in dems:
                    for gc, fcst in ((50, 5000), (9000, 8), (9000, None), (None, 5000), (50, 8)):
                        if tier == 'thorough' or (dem == 'base' or gc == 50):
                            yield dict(gen=gen, fc=fc, lim=lim, dem=dem, gcost=gc, fcost=fcst)
    for gen in GEN:
        for fc in ('none', 'short', 'ok'):
            for lim in ('', 'cfa'):
                for extra in (dict(loss=True), dict(same=True), dict(shape='ridx'), dict(demcost=15000), dict(loss=True, same=True, shape='rev')):
                    yield dict(gen=gen, fc=fc, lim=lim, dem='base', gcost=9000, fcost=5000, **extra)
    for gen in ('two', 'mixed', 'conflict'):
        for cost in ({'g': 9000.0}, {'g': 40.0, 'l': 9000.0, 'f': 70.0, 'g2': 8000.0}):
            for lim in ('', 'cfa', 'c', 'a'):
                yield dict(gen=gen, fc='short', lim=lim, dem='base', gcost=cost, fcost={'R': 5000.0})
    for missing in ('energy_market_ceiling_price', 'energy_market_floor_price', 'fcas_market_ceiling_price'):
        yield dict(gen='over', fc='short', lim='', dem='base', gcost=9000, fcost=5000, missing=missing)


def run():
    return main('C13', cases, run_case,
                'every combination of violated/kept generic constraint kinds (%d) and FCAS requirement kinds (%d), price limits below, exactly at and above the plain prices, cost levels and demand levels is dispatched plainly and with the re-run allowed; quantities must agree, and prices must be the plain ones or the exact marginal costs of the relaxed market' % (len(GEN), len(FC)),
                {'quick': 'products of constraint kinds x 8 limit positions at one demand; 5 cost pairs x 4 demands at 3 limit positions', 'thorough': 'all demands in the full products'})

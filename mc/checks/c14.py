"""C14: tie breaking."""
from ..common import *
from ..refmarket import *

# offers per unit: (band -> volume, price as offered); unit loss factor below refers prices to the node
OFF = {
    'lo': ({'1': 20, '2': 10}, {'1': 40, '2': 50}),
    'tie': ({'1': 40}, {'1': 50}),
    'hi': ({'1': 10, '2': 30, '3': 0}, {'1': 50, '2': 60, '3': 70}),
    'dbl': ({'1': 10, '2': 15, '10': 5}, {'1': 50, '2': 50, '10': 60}),
    'zero': ({'1': 15, '2': 25}, {'1': 0, '2': 50}),
    'near': ({'1': 30}, {'1': 50.001}),
    'lf': ({'1': 16, '2': 8}, {'1': 25, '2': 30}),
    'small': ({'1': 0.4, '2': 12.5}, {'1': 50, '2': 60}),
    'big': ({'1': 2600}, {'1': 50}),
    'neg': ({'1': 11, '2': 0.25, '3': 30}, {'1': -20, '2': 50, '3': 60}),
}
NAMES = {'abc': ('A', 'B', 'C', 'D'), 'pre': ('A', 'A1', 'A11', '1'), 'rev': ('D', 'C', 'B', 'A')}


def to_spec(c):
    n = NAMES[c.get('names', 'abc')]
    spec = dict(regions=['N', 'V'], shape=c.get('shape', 'plain'), units=[], bids=[], tie=c.get('cost', 0.1),
                demand=dict(rows=[('N', c['d']), ('V', c.get('dv', 10))]))
    for i, o in enumerate(c['offs']):
        u = n[i]
        spec['units'].append(dict(u=u, r='N', lf=0.5 if o == 'lf' else 1.0))
        spec['bids'].append(dict(u=u, t=G, s='energy', v=OFF[o][0], p=OFF[o][1]))
    spec['units'].append(dict(u='Z', r='V'))
    spec['bids'].append(dict(u='Z', t=G, s='energy', v={'1': 70}, p={'1': 50}))
    if c.get('two_v'):
        spec['units'].append(dict(u='Y', r='V'))
        spec['bids'].append(dict(u='Y', t=G, s='energy', v={'1': 30, '2': 20}, p={'1': 45, '2': 50}))
    if c.get('bid_fcas'):
        spec['bids'].append(dict(u=n[0], t=G, s='raise_reg', v={'1': 10}, p={'1': 50}))
        spec['bids'].append(dict(u=n[1], t=G, s='raise_reg', v={'1': 30}, p={'1': 50}))
        spec['fcas'] = dict(rows=[('R', 'N', 'raise_reg', 12, '>=')])
    if c.get('loads'):
        for u, (v, p) in zip(('L1', 'L2'), c['loads']):
            spec['units'].append(dict(u=u, r='N', t=L))
            spec['bids'].append(dict(u=u, t=L, s='energy', v={'1': v}, p={'1': p}))
    for u, (vg, pg, vl, pl) in zip(('X', 'W'), c.get('bdu') or []):
        for t, v, p in ((G, vg, pg), (L, vl, pl)):
            spec['units'].append(dict(u=u, r='N', t=t))
            spec['bids'].append(dict(u=u, t=t, s='energy', v={'1': v}, p={'1': p}))
    lim = c.get('lim')
    if lim == 'cap':
        spec['cap'] = dict(rows=[(n[0], G, 13)])
    elif lim == 'ramp':
        spec['ramp'] = dict(rows=[(n[1], G, 18, 36, 36)] + ([(u, t, 0, 600, 600) for u in ('X', 'W')[:len(c.get('bdu') or [])] for t in (G, L)]))
    elif lim == 'generic':
        spec['generic'] = dict(rows=[('g', '<=', 25)], unit=[('g', n[0], 'energy', 1.0), ('g', n[1], 'energy', 1.0)])
    elif lim == 'line':
        spec['inter'] = dict(rows=[dict(i='I', fr='N', to='V', min=-20, max=20)])
    return spec


def pairs(ref):
    """Tied bands: same region, direction and referred price, different units."""
    out = []
    bands = [(k, b) for k in ref.bands if k[2] == 'energy' for b in ref.bands[k]]
    for (k1, b1), (k2, b2) in itertools.combinations(bands, 2):
        if k1[0] != k2[0] and k1[1] == k2[1] and ref.region[k1[:2]] == ref.region[k2[:2]] and b1[0] == b2[0]:
            out.append((k1, b1, k2, b2))
    return out


def run_case(c):
    spec = to_spec(c)
    ref = Ref(spec)
    cost = frac(spec['tie'])
    ps = pairs(ref)
    rows = [Row('tie', (k1, k2), {('b',) + k1 + (b1[2],): 1 / b1[1], ('b',) + k2 + (b2[2],): -1 / b2[1]}, '=', 0, cost) for k1, b1, k2, b2 in ps]
    m = build(spec)
    best = ref.best()
    try:
        dispatch(m, spec)
    except Infeasible:
        if best is not None:
            raise Violation('market reported infeasible, reference least cost %s' % float(best))
        return 'infeasible'
    o = observe(m, spec)
    got, _ = ref.check(o, what=('feasible', 'cost'))
    total = ref.best(extra_rows=rows) if rows else best
    # fraction of each unit's volume at each price (bands of one unit at one price act as one)
    frac_of = {}
    for k, bs in ref.bands.items():
        left = o['x'][k]
        byp = {}
        for p, v, n in bs:
            byp[p] = byp.get(p, 0) + v
        for p in sorted(byp):
            q = min(left, float(byp[p]))
            frac_of[(k, p)] = q / float(byp[p])
            left -= q
    gap = sum(abs(frac_of[(k1, b1[0])] - frac_of[(k2, b2[0])]) for k1, b1, k2, b2 in ps)
    want = float((total - best) / cost) if rows else 0.0
    tol = 2e-3
    # a unit with two bands at one price may split them when something else binds; only the objective is compared then
    multi = any(len({b[0] for b in bs}) < len(bs) for bs in ref.bands.values())
    if gap > want + tol and not (multi and want > tol):
        raise Violation('tied offers are dispatched unevenly: sum of differences of dispatched fractions %.5f, smallest possible at least cost %.5f: %s' % (gap, want, _show(o)))
    if abs(o['obj'] - float(total)) > 1e-4 + 1e-6 * abs(float(total)):
        raise Violation('objective %.6f, least offer and tie break cost %.6f' % (o['obj'], float(total)))
    return canon(o), len(ps), round(want, 4)


from ..refmarket import _show


def cases(tier):
    offs = list(OFF)
    dems = [0.3, 15, 30, 47, 66, 90] if tier == 'quick' else [0.3, 5, 15, 22, 30, 38, 47, 55, 66, 78, 90]
    for n in (2, 3):
        for os_ in itertools.product(offs, repeat=n):
            for d in dems if (n == 2 or tier == 'thorough') else [30, 66]:
                yield dict(offs=os_, d=d)
    fours = itertools.combinations_with_replacement(offs, 4)
    for os_ in fours:
        for d in dems if tier == 'thorough' else [47]:
            yield dict(offs=os_, d=d, names='pre')
    base = ['tie', 'lo', 'hi']
    mods = [
        ('lim', [None, 'cap', 'ramp', 'generic', 'line']),
        ('names', ['abc', 'pre', 'rev']),
        ('cost', [0.1, 0.001, 0.02]),
        ('shape', ['plain', 'rev', 'ridx', 'cols']),
        ('two_v', [False, True]),
        ('dv', [10, 60, 0]),
        ('bid_fcas', [False, True]),
        ('loads', [None, [(20, 55), (10, 55)], [(20, 50), (10, 50)], [(20, 55), (10, 56)], [(40, 50), (7, 50)], [(20, -50), (10, 30)], [(12, 0), (9, -40)], [(12, 0), (10, 0)]]),
        ('bdu', [None, [(20, 50, 10, 30)], [(20, 50, 10, 50)], [(20, 50, 10, 55), (10, 60, 20, 55)]]),
        ('d', dems),
        ('offs', [base, ['tie', 'tie'], ['lf', 'tie', 'tie'], ['near', 'tie', 'dbl'], ['dbl', 'dbl', 'hi', 'tie'], ['zero', 'zero', 'lo'], ['small', 'small', 'tie'], ['neg', 'neg', 'small'], ['big', 'small', 'tie']]),
    ]
    for x in deviations(mods, 2 if tier == 'quick' else 3):
        yield x


def run():
    return main('C14', cases, run_case,
                'every combination of two to four units over %d offer patterns (tied, nearly tied, tied through loss factors, several tied bands) and demand levels, and every combination of up to the bounded number of deviations in limits, names, cost, table layout, FCAS bids, loads and bidirectional units, is dispatched; bid cost must stay least and the spread of dispatched fractions the smallest possible, by exact LP' % len(OFF),
                {'quick': 'all pairs and triples of patterns, multisets of four; <=2 deviations over 11 dimensions', 'thorough': 'ten demand levels; <=3 deviations'})

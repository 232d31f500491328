"""C15: results depend only on the latest inputs, not on the history of calls."""
from ..common import *
from ..refmarket import *
from ..refmarket import _show

UNITS = [dict(u='A', r='N', lf=0.97), dict(u='B', r='N'), dict(u='C', r='V'), dict(u='D', r='N', t=L), dict(u='X', r='N', t=G, lf=0.99), dict(u='X', r='N', t=L, lf=1.01)]


def bids(k):
    b = [dict(u='A', t=G, s='energy', v={'1': 60, '2': 40}, p={'1': 30, '2': 34}), dict(u='B', t=G, s='energy', v={'1': 60}, p={'1': 52}),
         dict(u='C', t=G, s='energy', v={'1': 30, '2': 40}, p={'1': 25, '2': 61}), dict(u='D', t=L, s='energy', v={'1': 30}, p={'1': 47}),
         dict(u='X', t=G, s='energy', v={'1': 40}, p={'1': 43}), dict(u='X', t=L, s='energy', v={'1': 30}, p={'1': 21})]
    for n, (u, t, p) in enumerate((('A', G, 2), ('C', G, 4), ('X', G, 5), ('X', L, 6), ('D', L, 7))):
        for m, s in enumerate(('raise_reg', 'lower_reg', 'raise_6s')):
            b.append(dict(u=u, t=t, s=s, v={'1': 20 - n - 0.5 * m}, p={'1': p + m / 4}))
    if k == 1:
        for x in b:
            x['v'] = {kk: vv * 0.75 for kk, vv in x['v'].items()}
            x['p'] = {kk: vv + (3 if x['u'] == 'A' else 1) for kk, vv in x['p'].items()}
    elif k == 2:
        b = b[::-1]
        for x in b:
            if x['s'] == 'energy' and x['u'] in 'AB':
                x['v'] = {'1': 50, '3': 50}
                x['p'] = {'1': 38, '3': 41} if x['u'] == 'A' else {'1': 20, '3': 58}
    elif k == 3:
        # a band priced in the first table goes away
        for x in b:
            x['v'] = {'2': list(x['v'].values())[0], '1': 11}
            x['p'] = {'2': list(x['p'].values())[0] + 2, '1': list(x['p'].values())[0]}
    return b


V = {
    'bids': [0, 1, 2, 3],
    'cap': [[('A', G, 61)], [('A', G, 57), ('B', G, 12)], [('C', G, 22)]],
    'uigf': [[('A', 59)], [('C', 27), ('A', 54)]],
    'ramp': [[('A', G, 40, 210, 300), ('B', G, 5, 180, 60), ('X', G, 3, 120, 90), ('X', L, 3, 60, 60)], [('A', G, 48, 90, 200), ('C', G, 24, 120, 240)],
             [('X', G, -5, 120, 60), ('X', L, -5, 60, 60)]],
    'fast': [[dict(u='B', end=3, t=0, l2=4, l4=4, ml=9)], [dict(u='C', end=4, t=1, l2=4, l4=4, ml=16), dict(u='B', end=0, t=0, l2=4, l4=4, ml=9)], [dict(u='B', end=5, t=0, l2=4, l4=4, ml=9)], 'removed'],
    'demand': [[('N', 68), ('V', 24)], [('N', 72), ('V', 21)], [('N', 63), ('V', 31)]],
    'fcas': [[('R', 'N', 'raise_reg', 16, '>='), ('S', 'N', 'raise_6s', 12, '=')], [('R', 'N', 'raise_reg', 14, '>='), ('T', 'V', 'raise_reg', 3, '>='), ('T', 'N', 'raise_reg', 3, '>=')],
             [('S', 'V', 'raise_6s', 6, '>='), ('L', 'N', 'lower_reg', 26, '>=')]],
    'fmax': [[('A', G, 'raise_reg', 12), ('X', G, 'raise_reg', 4)], [('C', G, 'raise_6s', 3.5), ('A', G, 'raise_6s', 7.5)]],
    'jcap': [[('A', G, 'raise_6s', 18, 10, 20, 60, 80)], [('A', G, 'raise_6s', 18, 0, 0, 45, 66), ('D', L, 'raise_6s', 15, 0, 5, 60, 80)]],
    'reg': [[('A', G, 'raise_reg', 20, 5, 10, 60, 90)], [('X', G, 'raise_reg', 16, 0, 4, 20, 40), ('A', G, 'lower_reg', 19, 10, 33, 60, 90)]],
    'jramp': [[('A', 40, 260, 120), ('X', 0, 120, 120)], [('A', 51, 60, 60), ('C', 20, 120, 120)], [('D', 6, None, 60), ('X', 4, 60, None)]],
    'inter': [0, 1, 2, 3],
    'generic': [0, 1, 2],
    'tie': [0.001],
}


def inter(k, spec):
    spec.pop('loss', None)
    if k == 0:
        spec['inter'] = dict(rows=[dict(i='I', fr='V', to='N', min=-10, max=15)])
        spec['loss'] = dict(rows=[dict(i='I', f='abs5', share=0.5, bp=[-50, 0, 50])])
    elif k == 1:
        spec['inter'] = dict(rows=[dict(i='I', fr='N', to='V', min=-22, max=8)])
        spec['loss'] = dict(rows=[dict(i='I', f='quad', share=0.3, bp=[-50, -25, 0, 25, 50])])
    elif k == 2:
        spec['inter'] = dict(rows=[dict(i='I', fr='V', to='N', min=-10, max=15), dict(i='J', fr='N', to='V', min=-4, max=6)])
        spec['loss'] = dict(rows=[dict(i='I', f='abs10', share=0.5, bp=[-50, 0, 50]), dict(i='J', f='abs5', share=0.9, bp=[-20, 0, 20])])
    else:
        spec['inter'] = dict(rows=[dict(i='I', l='I1', fr='V', to='N', min=0, max=12, tlf=0.98), dict(i='I', l='I2', fr='N', to='V', min=0, max=9, g=-1, flf=1.02)])
        spec['loss'] = dict(rows=[dict(i='I', l='I1', f='abs5', share=0.5, bp=[0, 25, 50]), dict(i='I', l='I2', f='abs5', share=0.5, bp=[0, 25, 50])])


def generic(k, spec):
    g = [dict(rows=[('g', '<=', 66), ('h', '>=', 4)], unit=[('g', 'A', 'energy', 1.0), ('g', 'C', 'energy', 0.5), ('h', 'D', 'energy', 1.0)], inter=[('g', 'I', 0.25)], region=[('h', 'N', 'raise_6s', 0.25)]),
         dict(rows=[('g', '>=', 13)], unit=[('g', 'B', 'energy', 1.0)], inter=[('g', 'I', 0.0)], region=[('g', 'V', 'raise_reg', 0.5)]),
         dict(rows=[('k', '<=', 20), ('g', '<=', 44)], unit=[('k', 'C', 'energy', 1.0)], inter=[('g', 'I', 1.0)], region=[('g', 'N', 'raise_reg', 2.0)])][k]
    spec['generic'] = json.loads(json.dumps(g))


def piece(spec, fam, var, cost):
    """Put a variant of one input into a spec."""
    if fam == 'bids':
        spec['bids'] = bids(var)
    elif fam == 'inter':
        inter(var, spec)
    elif fam == 'tie':
        spec['tie'] = V['tie'][var]
    elif fam == 'generic':
        generic(var, spec)
    elif V[fam][var] == 'removed':
        spec.pop(fam, None)
        return spec
    else:
        spec[fam] = dict(rows=V[fam][var])
    if fam not in ('bids', 'inter', 'tie'):
        spec[fam].pop('cost', None)
        if cost is not None:
            spec[fam]['cost'] = cost
    return spec


CALLS = {'bids': ('vol', 'price'), 'inter': ('inter', 'loss'), 'generic': ('generic', 'gunit', 'gregion', 'ginter')}


def calls_of(spec, fam):
    return [t for t in tables(spec) if t[0] in CALLS.get(fam, (fam,))]


def base_spec(fams, start):
    spec = dict(regions=['N', 'V'], units=UNITS, bids=bids(0))
    for f in fams:
        if f in start:
            piece(spec, f, *start[f])
    return spec


def results(m, spec):
    dispatch(m, spec)
    o = observe(m, spec)
    o['deg'] = {k: float(m.get_elastic_constraints_violation_degree(k)) for k in (
        'unit_bid_capacity', 'uigf_capacity', 'ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down', 'fast_start', 'demand', 'fcas', 'fcas_max_availability',
        'joint_capacity', 'energy_and_regulation_capacity', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu', 'generic')}
    return o


def attempt(m, spec, **kw):
    try:
        dispatch(m, spec, **kw)
    except Infeasible:
        pass


def differ(a, b):
    for k in b:
        if isinstance(b[k], dict):
            if set(a[k]) != set(b[k]):
                return '%s lists %s instead of %s' % (k, sorted(map(str, a[k])), sorted(map(str, b[k])))
            for kk in b[k]:
                if abs(a[k][kk] - b[k][kk]) > 2e-3 + 1e-6 * abs(b[k][kk]):
                    return '%s of %s is %s instead of %s' % (k, kk, a[k][kk], b[k][kk])
        elif abs(a[k] - b[k]) > 2e-3 + 1e-6 * abs(b[k]):
            return '%s is %s instead of %s' % (k, a[k], b[k])
    return None


_FRESH = {}


def fresh_results(spec, cache=False):
    k = json.dumps(jsonable(spec), sort_keys=True)
    if cache and k in _FRESH:
        return _FRESH[k]
    fresh = build(spec)
    try:
        f = results(fresh, spec)
    except Infeasible:
        f = None
    if cache:
        _FRESH[k] = f
    return f


def judge(o, spec, what, cache=False):
    """o: results of the market with a history; spec: latest inputs."""
    f = fresh_results(spec, cache)
    if (o is None) != (f is None):
        raise Violation('%s: market %s, a freshly built one %s' % (what, 'infeasible' if o is None else 'dispatched', 'infeasible' if f is None else 'dispatched'))
    if o is None:
        return 'infeasible'
    d = differ(o, f)
    if d and abs(o['obj'] - f['obj']) < 1e-3:
        # equally good alternatives (ties) are not a difference of inputs: decide with the reference model
        if spec.get('tie') is None:
            ref = Ref(spec)
            ref.check(o)
            if not spec.get('loss'):
                if spec.get('demand'):
                    ref.check_energy_prices(o)
                if spec.get('fcas'):
                    ref.check_fcas_prices(o)
                d = None
            elif not any(k in d for k in ('ep of', 'fp of')):
                d = None
    if d:
        raise Violation('%s: %s (fresh market)\n with history: %s\n fresh: %s' % (what, d, _show(o), _show(f)))
    return canon({k: v for k, v in o.items() if k != 'deg'})


def run_case(c):
    if c['kind'] == 'history':
        fams = c['fams']
        start = {f: v for f, v in c['start'].items()}
        spec = base_spec(fams, start)
        m = build(spec)
        for op in c['ops']:
            if op[0] == 'dispatch':
                try:
                    dispatch(m, spec)
                except Infeasible:
                    pass
            elif op[0] == 'rerun':
                try:
                    dispatch(m, spec, energy_market_ceiling_price=10.0, energy_market_floor_price=-10.0, fcas_market_ceiling_price=1.0, allow_over_constrained_dispatch_re_run=True)
                except Infeasible:
                    pass
            elif op[0] == 'read':
                for meth in ('get_unit_dispatch', 'get_energy_prices', 'get_fcas_prices', 'get_fcas_availability', 'get_region_dispatch_summary', 'get_interconnector_flows'):
                    try:
                        call()
                        df = getattr(m, meth)()
                        # whoever reads a result may do with it what they want
                        for col in df.columns:
                            if df[col].dtype == np.float64:
                                df[col] = -77.0
                    except Exception:
                        pass
            elif op[0] == 'set':
                fam, var, cost = op[1:]
                if fam == 'fast' and V['fast'][var] == 'removed':
                    call()
                    m.remove_fast_start_constraints()
                    spec.pop('fast', None)
                    continue
                piece(spec, fam, var, cost)
                for t in calls_of(spec, fam):
                    apply(m, t)
                if fam == 'bids' and spec.get('tie') is not None:
                    for t in calls_of(spec, 'tie'):
                        apply(m, t)
            elif op[0] == 'elastic':
                fam, cost = op[1:]
                from .c12 import KEYS, key_of
                for k in KEYS[fam]:
                    if k in {key_of(r) for r in Ref(spec).rows if r.fam in (fam, 'bramp' if fam == 'ramp' else fam)}:
                        call()
                        m.make_constraints_elastic(k, cost)
                spec[fam] = dict(spec[fam], cost=cost)
        try:
            o = results(m, spec)
        except Infeasible:
            o = None
        return judge(o, spec, 'after %s' % (c['ops'],))
    if c['kind'] == 'order':
        spec = base_spec(c['fams'], {f: (0, c.get('cost')) for f in c['fams']})
        ts = {t[0]: t for t in tables(spec)}
        m = new_market(spec)
        for k in c['order']:
            apply(m, ts[k])
        try:
            o = results(m, spec)
        except Infeasible:
            o = None
        return judge(o, spec, 'calls in order %s' % (c['order'],))
    if c['kind'] == 'shared':
        # the very same tables used for several calls, several markets
        spec = base_spec(c['fams'], {f: (c['var'].get(f, 0), None) for f in c['fams']})
        if c['nodt']:
            spec['dt'] = False
            spec['no_fcas_dt'] = True
            spec['no_lf'] = True
            spec['units'] = [dict(u=u, r=r) for u, r in (('A', 'N'), ('B', 'N'), ('C', 'V'))]
            spec['bids'] = [b for b in spec['bids'] if b['u'] in 'ABC']
            for f in ('cap', 'ramp', 'fmax', 'jcap', 'reg', 'jramp', 'uigf'):
                if spec.get(f):
                    spec[f]['rows'] = [r for r in spec[f]['rows'] if r[0] in 'ABC']
                    if not spec[f]['rows']:
                        del spec[f]
            if spec.get('generic'):
                spec['generic']['unit'] = [r for r in spec['generic']['unit'] if r[1] in 'ABC']
            if c.get('nolink') and spec.get('inter'):
                spec['inter']['nolink'] = True
        ui = pd.DataFrame([dict(unit=u['u'], region=u['r'], dispatch_type=u.get('t', G), loss_factor=float(u.get('lf', 1.0))) for u in spec['units']])
        if c['nodt']:
            ui = ui.drop(columns=['dispatch_type', 'loss_factor'])
        ts = tables(spec)
        o = []
        call()
        m1 = nm.SpotMarket(market_regions=['N', 'V'], unit_info=ui)
        for t in ts:
            apply(m1, t)
        if c['how'] in ('twice', 'twice_dispatch'):
            if c['how'] == 'twice_dispatch':
                attempt(m1, spec)
            for t in ts:
                apply(m1, t)
            try:
                o.append(results(m1, spec))
            except Infeasible:
                o.append(None)
        else:
            if c['how'] == 'after':
                attempt(m1, spec)
            call()
            m2 = nm.SpotMarket(market_regions=['N', 'V'], unit_info=ui)
            for t in ts:
                apply(m2, t)
            if c['how'] == 'scribble':
                # the caller reuses its tables for something else afterwards
                for t in ts:
                    for df in list(t[2]) + list(t[3].values()):
                        if isinstance(df, pd.DataFrame):
                            for col in df.columns:
                                if df[col].dtype == np.float64:
                                    df[col] = 3.0
                if 'loss_factor' in ui.columns:
                    ui['loss_factor'] = 0.5
            for m in (m2, m1):
                try:
                    o.append(results(m, spec))
                except Infeasible:
                    o.append(None)
        return [judge(x, spec, 'tables shared (%s)' % c['how']) for x in o]
    if c['kind'] == 'two':
        # two different markets built alternately; judged by the reference model, not by a third market of the process
        s1 = base_spec(c['fams'], {f: (0, None) for f in c['fams']})
        s2 = base_spec(c['fams'], {f: (1, None) for f in c['fams']})
        s2['bids'] = bids(1)
        s2['units'] = UNITS[::-1]
        if c.get('di'):
            s2['di'] = c['di']
        ms, tss = [new_market(s1), new_market(s2)], [tables(s1), tables(s2)]
        pos = [0, 0]
        for k in c['merge']:
            n = (len(tss[k]) + 2) // 3
            for t in tss[k][pos[k]:pos[k] + n]:
                apply(ms[k], t)
            pos[k] += n
        out = []
        for k in c['disp']:
            try:
                o = results(ms[k], (s1, s2)[k])
            except Infeasible:
                o = None
            ref = Ref((s1, s2)[k])
            if o is None:
                if ref.best() is not None:
                    raise Violation('market %d of two reported infeasible, least cost %s' % (k, float(ref.best())))
                continue
            ref.check(o)
            ref.check_energy_prices(o)
            ref.check_fcas_prices(o)
            out.append(canon({kk: v for kk, v in o.items() if kk != 'deg'}))
        return out


ALL = [f for f in V if f not in ('tie', 'fast')]


def cases(tier):
    full = {f: (0, None) for f in V if f != 'tie'}
    full_e = {f: (0, (4000 + 100 * n) if f not in ('bids', 'inter') else None) for n, f in enumerate(full)}
    fams = list(full)
    settable = {f: [(v, c) for v in range(len(V[f])) for c in ((None, 300.0) if f not in ('bids', 'inter', 'tie') else (None,))] for f in V}
    # one family set again once or twice, alone and with everything else present
    for f in fams:
        small = [f] + [g for g in ('demand', 'fcas', 'inter') if g != f]
        for start in ({g: (0, None) for g in small}, full, full_e):
            for a in settable[f]:
                for pre in ([], [['dispatch'], ['read']]) if tier == 'thorough' else ([['dispatch']],) if start is not full_e else ([['dispatch'], ['read']],):
                    yield dict(kind='history', fams=list(start), start=start, ops=pre + [['set', f, a[0], a[1]]])
                    if start is full_e and f not in ('bids', 'inter'):
                        continue
                    for b in settable[f]:
                        if tier == 'thorough' or start is not full or f in ('bids', 'inter'):
                            yield dict(kind='history', fams=list(start), start=start, ops=pre + [['set', f, a[0], a[1]]] + pre + [['set', f, b[0], b[1]]])
    # two different families
    for f, g in itertools.permutations(fams, 2):
        for a, b in ([((1, None), (1, 300.0))] if tier == 'quick' else itertools.product(settable[f], settable[g])):
            a = a if a in settable[f] else (a[0], None)
            b = b if b in settable[g] else (b[0], None)
            for mid in ([], [['dispatch']]) if tier == 'thorough' else ([['dispatch']],):
                yield dict(kind='history', fams=fams, start=full, ops=[['set', f, a[0], a[1]]] + mid + [['set', g, b[0], b[1]]])
    # elastic afterwards, then set again without; dispatching repeatedly; re-runs; reading results in between
    for f in fams:
        if f in ('bids', 'inter'):
            continue
        for ops in ([['elastic', f, 250.0]], [['elastic', f, 250.0], ['elastic', f, 9000.0]], [['dispatch'], ['elastic', f, 250.0], ['dispatch'], ['set', f, 0, None]],
                    [['elastic', f, 250.0], ['set', f, 1, None]], [['set', f, 1, 20.0], ['elastic', f, 9000.0]]):
            yield dict(kind='history', fams=fams, start=full, ops=ops)
    for start in (full, full_e):
        for n in range(0, 4):
            for ops in itertools.product([['dispatch'], ['rerun'], ['read']], repeat=n):
                yield dict(kind='history', fams=fams, start=start, ops=list(ops))
    for f in ('bids', 'demand', 'cap'):
        for a in settable[f]:
            yield dict(kind='history', fams=['bids', 'demand', 'tie'] + ([f] if f == 'cap' else []), start={'bids': (0, None), 'demand': (0, None), 'tie': (0, None), 'cap': (0, None)}, ops=[['dispatch'], ['set', f, a[0], a[1]]])
    # orders of the building calls
    def orders(keys, before):
        for p in itertools.permutations(keys):
            if all(p.index(a) < p.index(b) for a, b in before if a in p and b in p):
                yield list(p)
    for p in orders(['vol', 'price', 'demand', 'fcas', 'inter', 'loss'], [('vol', 'price'), ('inter', 'loss')]):
        yield dict(kind='order', fams=['bids', 'demand', 'fcas', 'inter'], order=p)
    for p in orders(['vol', 'price', 'generic', 'gunit', 'gregion', 'ginter'], [('vol', 'price')]):
        yield dict(kind='order', fams=['bids', 'demand', 'fcas', 'inter', 'generic'], order=['demand', 'inter', 'loss'] + p + ['fcas'])
        if tier == 'thorough':
            yield dict(kind='order', fams=['bids', 'demand', 'fcas', 'inter', 'generic'], order=p + ['demand', 'inter', 'loss', 'fcas'], cost=700.0)
    for p in orders(['vol', 'price', 'fmax', 'jcap', 'reg', 'jramp'], [('vol', 'price'), ('vol', 'jramp')]):
        yield dict(kind='order', fams=['bids', 'demand', 'fcas', 'fmax', 'jcap', 'reg', 'jramp'], order=['demand'] + p + ['fcas'])
        if tier == 'thorough':
            yield dict(kind='order', fams=['bids', 'demand', 'fcas', 'fmax', 'jcap', 'reg', 'jramp'], order=['fcas'] + p + ['demand'], cost=700.0)
    for p in orders(['vol', 'cap', 'uigf', 'ramp', 'fast', 'demand'] + (['fcas'] if tier == 'thorough' else []), [('vol', 'cap'), ('vol', 'uigf')]):
        yield dict(kind='order', fams=['bids', 'cap', 'uigf', 'ramp', 'fast', 'demand'] + (['fcas'] if 'fcas' in p else []), order=p + ['price'], cost=700.0 if p[0] == 'ramp' else None)
    if tier == 'thorough':
        for p in orders(['demand', 'fcas', 'cap', 'ramp', 'jramp', 'generic', 'inter'], []):
            yield dict(kind='order', fams=['bids', 'demand', 'fcas', 'cap', 'ramp', 'jramp', 'generic', 'inter'], order=['vol'] + p + ['loss', 'gunit', 'gregion', 'ginter', 'price'])
    # shared tables
    for how in ('twice', 'twice_dispatch', 'second', 'after', 'scribble'):
        for nodt in (False, True):
            for nl in (False, True) if nodt else (False,):
                for var in ({}, {f: 1 for f in ('cap', 'uigf', 'ramp', 'fmax', 'jcap', 'reg', 'jramp', 'inter', 'demand')}):
                    yield dict(kind='shared', how=how, nodt=nodt, nolink=nl, var=var, fams=fams)
                    for f in fams:
                        yield dict(kind='shared', how=how, nodt=nodt, nolink=nl, var=var, fams=['bids', 'demand'] + ([f] if f not in ('bids', 'demand') else []))
    # two markets built alternately
    fs = ['bids', 'cap', 'ramp', 'fast', 'demand', 'fcas', 'fmax', 'jcap', 'reg', 'jramp', 'generic']
    for merge in sorted(set(itertools.permutations([0, 0, 0, 1, 1, 1]))):
        for disp in ([0, 1], [1, 0], [0, 1, 0]):
            for di in (None, 30):
                yield dict(kind='two', fams=fs, merge=merge, disp=disp, di=di)


def run():
    return main('C15', cases, run_case,
                'every call history within the bound (inputs set again once or twice with and without violation cost, made elastic, removed, dispatched, re-run and read in between), every order of the building calls, tables shared between calls and markets, and every interleaving of building two markets is executed; the results must equal those of one freshly built market with the latest inputs (interleavings: the exact reference model)',
                {'quick': '1-2 sets in one family, one set in each of two families, up to 3 dispatch/re-run/read steps, permutations of 6 calls', 'thorough': 'all variants in both families, permutations of 7 calls'})

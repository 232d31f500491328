"""C17: malformed inputs are rejected and leave the market as it was; well formed ones are accepted."""
from ..common import *
from ..refmarket import *
from . import c15
from .c15 import base_spec, results


def judge(o, spec, what):
    return c15.judge(o, spec, what, cache=True)


# Columns of every input table as documented: kind[,flag...]; flags: opt (may be left out), real (no missing or infinite number),
# pos (not negative), key (part of the row key), max1 (not above one), and a domain.
UNIT, REG = 'unit', 'region'
TRAP = dict(unit='str key unit', dispatch_type='str key dt opt', max_availability='float real pos', enablement_min='float real', low_break_point='float real',
            high_break_point='float real', enablement_max='float real')
BANDS = {str(i): 'float real opt' for i in range(2, 11)}
SCHEMA = {
    # table: (call, which argument, columns)
    'vol': ('vol', 0, dict({'unit': 'str key unit', 'dispatch_type': 'str key dt', 'service': 'str key service', '1': 'float real pos', '2': 'float real pos opt'})),
    'price': ('price', 0, dict({'unit': 'str key unit', 'dispatch_type': 'str key dt', 'service': 'str key service', '1': 'float real', '2': 'float real opt'})),
    'cap': ('cap', 0, dict(unit='str key unit', dispatch_type='str key dt', capacity='float real')),
    'uigf': ('uigf', 0, dict(unit='str key unit', capacity='float real')),
    'ramp': ('ramp', 0, dict(unit='str key unit', dispatch_type='str key dt', initial_output='float real', ramp_up_rate='float real', ramp_down_rate='float real')),
    'scada': ('ramp', 'scada_ramp_rates', dict(unit='str key unit', scada_ramp_up_rate='float opt', scada_ramp_down_rate='float opt')),
    'first': ('ramp1', 'fast_start_profiles', dict(unit='str key unit', current_mode='int pos')),
    'second': ('ramp2', 'fast_start_profiles', dict(unit='str key unit', end_mode='int pos', min_loading='float real pos', time_since_end_of_mode_two='float pos')),
    'fast': ('fast', 0, dict(unit='str key unit', end_mode='int pos', time_in_end_mode='float real pos', mode_two_length='float real pos', mode_four_length='float real pos', min_loading='float real pos')),
    'demand': ('demand', 0, dict(region='str key region', demand='float real')),
    'fcas': ('fcas', 0, dict(set='str key', region='str key region', service='str key service', volume='float real', type='str type opt')),
    'fmax': ('fmax', 0, dict(unit='str key unit', dispatch_type='str key dt opt', service='str key fcas', max_availability='float real pos')),
    'jcap': ('jcap', 0, dict(TRAP, service='str key cont')),
    'reg': ('reg', 0, dict(TRAP, service='str key regu')),
    'jramp': ('jramp', 0, dict(unit='str key unit', initial_output='float real', scada_ramp_up_rate='float', scada_ramp_down_rate='float')),
    'jfirst': ('jramp1', 'fast_start_profiles', dict(unit='str key unit', current_mode='int pos')),
    'jsecond': ('jramp2', 'fast_start_profiles', dict(unit='str key unit', end_mode='int pos', min_loading='float real pos', time_since_end_of_mode_two='float pos')),
    'inter': ('inter', 0, dict(interconnector='str key', link='str key opt', to_region='str region', from_region='str region', max='float real', min='float real',
                               generic_constraint_factor='int sign opt', from_region_loss_factor='float real pos opt', to_region_loss_factor='float real pos opt')),
    'lossf': ('loss', 0, dict(interconnector='str key inter', link='str key opt', loss_function='callable', from_region_loss_share='float real pos max1')),
    'lossb': ('loss', 1, dict(interconnector='str key', link='str key opt', loss_segment='int key', break_point='float real')),
    'generic': ('generic', 0, dict(set='str key', type='str type', rhs='float real')),
    'gunit': ('gunit', 0, dict(set='str key', unit='str key unit', service='str key service', coefficient='float real')),
    'gregion': ('gregion', 0, dict(set='str key', region='str key region', service='str key service', coefficient='float real')),
    'ginter': ('ginter', 0, dict(set='str key', interconnector='str key', coefficient='float real')),
    'info': (None, 'unit_info', dict(unit='str key', region='str region', dispatch_type='str key dt opt', loss_factor='float real pos opt')),
    'elastic': (None, 'violation_cost', dict(set='str key', cost='float real')),
}
METH = {'set': 'set_generic_constraints'}


def faults(cols):
    """All single faults of a table with these columns: (kind, column)."""
    yield ('extra', None)
    yield ('dup', None)
    valcols = [c for c, d in cols.items() if 'key' not in d.split()]
    if valcols:
        yield ('dupval', None)
    for c, d in cols.items():
        d = d.split()
        if 'opt' not in d:
            yield ('missing', c)
        if d[0] == 'str':
            yield ('number', c)
            yield ('nan', c)
            if any(x in d for x in ('unit', 'region', 'service', 'fcas', 'cont', 'regu', 'dt', 'type', 'inter')):
                yield ('unknown', c)
            if 'fcas' in d or 'cont' in d or 'regu' in d:
                yield ('wrongservice', c)
        elif d[0] == 'callable':
            yield ('number', c)
            yield ('text', c)
        elif d[0] == 'int':
            yield ('float', c)
            yield ('text', c)
            if 'sign' in d:
                yield ('zero', c)
        else:
            yield ('int', c)
            yield ('text', c)
            if 'real' in d:
                for k in ('nan', 'inf', '-inf'):
                    yield (k, c)
            if 'max1' in d:
                yield ('above1', c)
                yield ('barelyabove1', c)
        if 'pos' in d:
            yield ('negative', c)
            if d[0] != 'int':
                yield ('barelynegative', c)


def spoil(df, cols, kind, col, where):
    """Apply one fault to a copy of the table; where: 'first' or 'last' row."""
    df = df.copy()
    i = 0 if where == 'first' else len(df) - 1
    loc = lambda c: (df.index[i], c)
    if kind == 'extra':
        df['comment'] = 1.0
    elif kind == 'missing':
        df = df.drop(columns=col)
    elif kind in ('dup', 'dupval'):
        r = df.iloc[[i]].copy()
        if kind == 'dupval':
            for c, d in cols.items():
                d = d.split()
                if c in r.columns and d[0] == 'float' and 'key' not in d:
                    r[c] = r[c] * 0.5
        df = pd.concat([df, r] if where == 'last' else [r, df], ignore_index=True)
    elif kind == 'number':
        df[col] = df[col].astype(object)
        df.iloc[i, df.columns.get_loc(col)] = 3.0
    elif kind == 'text':
        df[col] = df[col].astype(object)
        df.iloc[i, df.columns.get_loc(col)] = '12'
    elif kind == 'unknown':
        df.iloc[i, df.columns.get_loc(col)] = 'Nowhere'
    elif kind == 'wrongservice':
        d = cols[col].split()
        df.iloc[i, df.columns.get_loc(col)] = 'energy' if 'fcas' in d else 'raise_reg' if 'cont' in d else 'raise_6s'
    elif kind == 'float':
        df[col] = df[col].astype(np.float64)
    elif kind == 'int':
        df[col] = df[col].fillna(0).astype(np.int64)
    elif kind == 'zero':
        df.iloc[i, df.columns.get_loc(col)] = 0
    elif kind in ('nan', 'inf', '-inf', 'negative', 'above1', 'barelynegative', 'barelyabove1'):
        v = {'barelynegative': -0.001, 'barelyabove1': 1.001, 'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'negative': -2.0, 'above1': 1.25}[kind]
        if kind == 'negative' and cols[col].split()[0] == 'int':
            v = -2
        df.iloc[i, df.columns.get_loc(col)] = v
    return df


def full(c=None):
    start = {k: (0, None) for k in ('cap', 'uigf', 'ramp', 'fast', 'demand', 'fcas', 'fmax', 'jcap', 'reg', 'jramp', 'inter', 'generic')}
    start['inter'] = (2, None)
    spec = base_spec(list(start), start)
    spec['ramp'] = dict(spec['ramp'], scada=[('A', 180, 240), ('B', None, 30)])
    spec['fcas'] = dict(spec['fcas'], cost=900)
    spec['generic']['cost'] = 700
    # every table has several rows
    spec['cap'] = dict(rows=spec['cap']['rows'] + [['X', 'load', 25], ['C', 'generator', 66]])
    spec['uigf'] = dict(rows=spec['uigf']['rows'] + [['C', 64]])
    spec['jcap'] = dict(rows=spec['jcap']['rows'] + [['C', 'generator', 'raise_6s', 17, 0, 8, 50, 75]])
    spec['reg'] = dict(rows=spec['reg']['rows'] + [['C', 'generator', 'raise_reg', 18, 0, 6, 50, 85]])
    spec['fast'] = dict(rows=spec['fast']['rows'] + [dict(u='C', end=4, t=2, l2=4, l4=4, ml=8)])
    spec['generic'] = dict(spec['generic'], inter=spec['generic']['inter'] + [['h', 'J', 0.5]], region=spec['generic']['region'] + [['g', 'V', 'raise_reg', 0.125]])
    return spec


PROF1 = [dict(u='B', cur=3), dict(u='C', cur=4)]
PROF2 = [dict(u='B', end=3, ml=9, since=2), dict(u='C', end=4, ml=12, since=None)]


def table_calls(spec):
    """key -> (method, args, kwargs) of the full spec, with the fast start variants of the ramping calls."""
    out = {}
    for key, meth, args, kw in tables(spec):
        out[key] = (key, meth, args, kw)
    for key in ('ramp', 'jramp'):
        for n, run, prof in (('1', 'fast_start_first_run', PROF1), ('2', 'fast_start_second_run', PROF2)):
            k, meth, args, kw = out[key]
            out[key + n] = (key, meth, args, dict(kw, run_type=run, fast_start_profiles=ramp_profile_frame(prof, run)))
    return out


def must_reject(f, what):
    call()
    try:
        f()
    except Exception as e:
        return type(e).__name__
    raise Violation('%s was accepted' % what)


LEAF = ('cap', 'uigf', 'ramp', 'fast', 'fmax', 'jcap', 'reg', 'jramp', 'gunit', 'gregion', 'ginter', 'loss')


def without(spec, key):
    spec = json.loads(json.dumps(spec))
    if key in ('gunit', 'gregion', 'ginter'):
        spec['generic'].pop({'gunit': 'unit', 'gregion': 'region', 'ginter': 'inter'}[key])
    else:
        spec.pop(key)
    return spec


def run_case(c):
    if c['kind'] == 'table':
        return run_table(c)
    if c['kind'] == 'early':
        return run_early(c)
    if c['kind'] == 'elastic':
        return run_elastic(c)
    if c['kind'] == 'arg':
        return run_arg(c)
    if c['kind'] == 'early_loss':
        return run_early_loss(c)
    if c['kind'] == 'monotone':
        return run_monotone(c)
    return run_valid(c)


def run_table(c):
    spec = full()
    name = c['table']
    key, arg, cols = SCHEMA[name]
    what = '%s with %s' % (name, c['faults'])
    if name == 'info':
        from nempy import markets as nm_
        df = pd.DataFrame([dict(unit=u['u'], region=u['r'], dispatch_type=u.get('t', G), loss_factor=float(u.get('lf', 1.0))) for u in spec['units']])
        for k, col in c['faults']:
            df = spoil(df, cols, k, col, c['where'])
        return must_reject(lambda: nm_.SpotMarket(market_regions=['N', 'V'], unit_info=df), what)
    if name == 'elastic':
        m = build(spec)
        df = pd.DataFrame({'set': ['g', 'h'], 'cost': [600.0, 800.0]})
        for k, col in c['faults']:
            df = spoil(df, cols, k, col, c['where'])
        r = must_reject(lambda: m.make_constraints_elastic('generic', df), what)
        return r, judge(results(m, spec), spec, 'after the rejected ' + what)
    tc = table_calls(spec)
    ckey, meth, args, kw = tc[key]
    args, kw = list(args), dict(kw)
    df = args[arg] if isinstance(arg, int) else kw[arg]
    for k, col in c['faults']:
        df = spoil(df, cols, k, col, c['where'])
    if isinstance(arg, int):
        args[arg] = df
    else:
        kw[arg] = df
    before = df.copy()
    if c['mode'] == 'after':
        m = build(spec)
        r = must_reject(lambda: getattr(m, meth)(*args, **kw), what)
    else:
        sp = without(spec, ckey) if c['mode'] == 'instead' else spec
        m = new_market(sp)
        r = None
        for t in tables(spec):
            if t[0] == ckey:
                r = must_reject(lambda: getattr(m, meth)(*args, **kw), what)
                if c['mode'] == 'instead':
                    continue
            apply(m, t)
        spec = sp
    if not df.equals(before):
        raise Violation('the rejected table was changed')
    return r, judge(results(m, spec), spec, 'after the rejected ' + what)


def run_early(c):
    """Calls that depend on inputs not given yet."""
    spec = full()
    spec.pop('loss') if c['what'] == 'elastic' else None
    ts = tables(spec)
    m = new_market(spec)
    tc = {t[0]: t for t in ts}
    w = c['what']
    if w in tc:
        r = must_reject(lambda: getattr(m, tc[w][1])(*tc[w][2], **tc[w][3]), 'the early call of ' + w)
    elif w == 'tie':
        r = must_reject(lambda: m.set_tie_break_constraints(0.001), 'tie breaking before bids')
    elif w == 'elastic':
        r = must_reject(lambda: m.make_constraints_elastic(c['key'], 100.0), 'making %s elastic before it was set' % c['key'])
    elif w == 'dispatch':
        r = must_reject(lambda: m.dispatch(), 'dispatching a market without variables')
    for t in ts:
        apply(m, t)
    return r, judge(results(m, spec), spec, 'after the early call of ' + w)


def run_elastic(c):
    spec = full()
    m = build(spec)
    bad = {'text': 'dear', 'none': None, 'list': [100.0], 'dict': {'g': 100.0}, 'series': pd.Series([1.0])}[c['cost']]
    r = must_reject(lambda: m.make_constraints_elastic(c['key'], bad), 'violation cost %r' % (bad,))
    return r, judge(results(m, spec), spec, 'after the rejected violation cost')


def run_arg(c):
    spec = full()
    m = build(spec)
    tc = table_calls(spec)
    k, meth, args, kw = tc[c['call'] + '2']
    kw = dict(kw)
    if c['what'] == 'run':
        kw['run_type'] = 'third_run'
    else:
        kw['fast_start_profiles'] = None
    r = must_reject(lambda: getattr(m, meth)(*args, **kw), 'a ramping call with a bad %s' % c['what'])
    return r, judge(results(m, spec), spec, 'after the rejected ramping call')


def run_early_loss(c):
    spec = full()
    ts = tables(spec)
    spec = without(spec, 'loss')
    m = new_market(spec)
    loss = [t for t in ts if t[0] == 'loss'][0]
    r = must_reject(lambda: getattr(m, loss[1])(*loss[2], **loss[3]), 'losses before interconnectors')
    for t in ts:
        if t[0] != 'loss':
            apply(m, t)
    o = results(m, spec)
    fresh = build(spec)
    dispatch(fresh, spec)
    a, b = m.get_region_dispatch_summary(), fresh.get_region_dispatch_summary()
    if list(a.columns) != list(b.columns) or not np.allclose(a.iloc[:, 1:], b.iloc[:, 1:], atol=1e-3):
        raise Violation('the regional summary of a market whose early losses were rejected differs: %s, fresh %s' % (a.to_dict('records'), b.to_dict('records')))
    return r, judge(o, spec, 'after the early losses')


def run_monotone(c):
    spec = full()
    m = build(spec)
    df = [t for t in tables(spec) if t[0] == 'price'][0][2][0].copy()
    df.loc[df.index[0], ['1', '2']] = [34.0, 30.0]
    r = must_reject(lambda: m.set_unit_price_bids(df), 'price bids that fall from band to band')
    return r, judge(results(m, spec), spec, 'after the rejected price bids')


def run_valid(c):
    """Well formed tables must be accepted: optional columns left out, columns and rows in any order, any sign where allowed."""
    spec = full()
    if c['what'] == 'shape':
        spec['shape'] = c['shape']
        m, o, ref = run_spec(spec)
        return canon(o)
    name = c['table']
    key, arg, cols = SCHEMA[name]
    tc = table_calls(spec)
    ckey, meth, args, kw = tc[key]
    args, kw = list(args), dict(kw)
    df = (args[arg] if isinstance(arg, int) else kw[arg]).copy()
    if c['what'] == 'drop':
        df = df.drop(columns=[x for x in c['cols'] if x in df.columns])
    elif c['what'] == 'service':
        df = df[(df['service'] == 'energy') == c['energy']]
    elif c['what'] == 'rows':
        df = df.iloc[:0 + c['n']]
    elif c['what'] == 'value':
        df.iloc[0, df.columns.get_loc(c['col'])] = {'zero': 0.0, 'neg': -3.0, 'nan': np.nan, 'big': 1e5, 'tiny': 1e-9}[c['v']]
    if isinstance(arg, int):
        args[arg] = df
    else:
        kw[arg] = df
    m = build(spec)
    call()
    getattr(m, meth)(*args, **kw)
    return 'accepted'


def cases(tier):
    thorough = tier == 'thorough'
    for name, (key, arg, cols) in SCHEMA.items():
        fs = list(faults(cols))
        modes = ['after', 'before'] + (['instead'] if (key or '').rstrip('12') in LEAF else [])
        if name in ('info', 'elastic'):
            modes = ['after']
        for f in fs:
            for where in ('last', 'first'):
                for mode in modes:
                    if (mode != 'after' and where == 'first') and not thorough:
                        continue
                    yield dict(kind='table', table=name, faults=[f], where=where, mode=mode)
        if thorough:
            for a, b in itertools.combinations(fs, 2):
                if a[1] == b[1] or 'missing' in (a[0], b[0]) and a[1] == b[1]:
                    continue
                if {a[0], b[0]} & {'dup', 'dupval', 'extra'}:
                    continue
                for mode in modes:
                    yield dict(kind='table', table=name, faults=[a, b], where='last', mode=mode)
    for w in ('price', 'cap', 'uigf', 'jramp', 'loss', 'tie', 'dispatch'):
        yield dict(kind='early', what=w)
    yield dict(kind='early_loss')
    yield dict(kind='monotone')
    for k in ('demand', 'fcas', 'generic', 'ramp_up', 'unit_bid_capacity', 'nonsense'):
        yield dict(kind='early', what='elastic', key=k)
    for cost in ('text', 'none', 'list', 'dict', 'series'):
        for k in ('fcas', 'generic', 'demand', 'joint_capacity'):
            yield dict(kind='elastic', cost=cost, key=k)
    for call_ in ('ramp', 'jramp'):
        for w in ('run', 'profiles'):
            yield dict(kind='arg', call=call_, what=w)
    for s in SHAPES:
        yield dict(kind='valid', what='shape', shape=s)
    for name, (key, arg, cols) in SCHEMA.items():
        if name in ('info', 'elastic'):
            continue
        opt = [x for x, d in cols.items() if 'opt' in d.split() and not x == 'dispatch_type']
        if name in ('vol', 'price'):
            opt = []
            for e in (False, True):
                yield dict(kind='valid', what='service', table=name, energy=e)
        if name == 'inter':
            opt = ['generic_constraint_factor', 'from_region_loss_factor', 'to_region_loss_factor']
        if name in ('lossf', 'lossb'):
            opt = []
        for n in range(1, len(opt) + 1):
            for sub in itertools.combinations(opt, n):
                yield dict(kind='valid', what='drop', table=name, cols=sub)
        if name not in ('vol', 'price', 'inter', 'lossf', 'lossb', 'ramp'):
            yield dict(kind='valid', what='rows', table=name, n=1)
        for col, d in cols.items():
            d = d.split()
            if d[0] != 'float':
                continue
            yield dict(kind='valid', what='value', table=name, col=col, v='zero')
            if 'max1' not in d:
                yield dict(kind='valid', what='value', table=name, col=col, v='big')
            yield dict(kind='valid', what='value', table=name, col=col, v='tiny')
            if 'pos' not in d:
                yield dict(kind='valid', what='value', table=name, col=col, v='neg')
            if 'real' not in d:
                yield dict(kind='valid', what='value', table=name, col=col, v='nan')


def run():
    return main('C17', cases, run_case,
                'for every input table of every building call, every single fault (missing, additional or wrongly typed column, missing or infinite number, forbidden negative (by much or little), unknown name, repeated key) at the first and last row is given to the real API after a valid call, before it and instead of it; the call must raise and the market must then give the results of a market that never saw it. Calls before their prerequisites, bad violation costs and run types likewise. Every optional column subset, boundary value and table layout must be accepted',
                {'quick': 'all single faults x up to 3 histories', 'thorough': 'all pairs of faults in different columns as well'},
                assumptions=['empty tables, negative values where existing users rely on them (demand, ramp rates, capacities) and repeated break point positions are left unspecified'])

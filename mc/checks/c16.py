"""C16: fast start inflexibility profiles, and ramping in fast start runs."""
from ..common import *
from ..refmarket import *

DIMS = [
    ('end', [2, 0, 1, 3, 4, 5, 6]),
    ('t', [1, 0, 2.5, 4, 9]),
    ('l2', [4, 5, 10]),
    ('l4', [4, 5, 10]),
    ('ml', [20, 0, 7.5, 45]),
    ('p', [20, 90]),
    ('F', [G, L]),
    ('end2', [None, 0, 1, 2, 3, 4, 5]),
    ('end3', [None, 2, 0, 3, 4, 5]),
    ('dt', [True, False]),
    ('cost', [None, 5, 5000]),
    ('fcas', [False, True]),
    ('d', [70, 30, 130]),
    ('shape', ['plain', 'rev', 'ridx', 'idx']),
    ('op', ['set', 'remove', 'readd', 'twice', 'removetwice', 'dispatchremove']),
]


def fast_spec(c):
    F = c['F'] if c['dt'] else G
    spec = dict(regions=['N'], shape=c['shape'], dt=c['dt'],
                units=[dict(u='A', r='N'), dict(u='F', r='N', t=F), dict(u='H', r='N')],
                bids=[dict(u='A', t=G, s='energy', v={'1': 100}, p={'1': 50}), dict(u='F', t=F, s='energy', v={'1': 30, '2': 30}, p={'1': c['p'], '2': c['p'] + 5}),
                      dict(u='H', t=G, s='energy', v={'1': 50}, p={'1': 55})],
                demand=dict(rows=[('N', c['d'])]))
    rows = [dict(u='F', end=c['end'], t=c['t'], l2=c['l2'], l4=c['l4'], ml=c['ml'])]
    if c['end2'] is not None:
        rows.append(dict(u='H', end=c['end2'], t=3, l2=6, l4=8, ml=24))
    if c['end3'] is not None:
        rows.insert(0, dict(u='A', end=c['end3'], t=2, l2=5, l4=8, ml=40))
    spec['fast'] = dict(rows=rows)
    if c['cost'] is not None:
        spec['fast']['cost'] = c['cost']
    if c['fcas']:
        spec['bids'] += [dict(u='F', t=F, s='raise_reg', v={'1': 15}, p={'1': 1}), dict(u='A', t=G, s='raise_reg', v={'1': 15}, p={'1': 4})]
        spec['fcas'] = dict(rows=[('R', 'N', 'raise_reg', 20, '>=')])
    return spec


RUN = [
    ('run', ['fast_start_first_run', 'fast_start_second_run', None]),
    ('mF', [2, 0, 1, 3, 4, 5]),
    ('since', [None, 0, 1.5, 4, 5]),
    ('ml', [20, 0, 45]),
    ('init', [10, 0, 35]),
    ('rate', [60, 240, 600]),
    ('scada', [None, 30, 300]),
    ('p', [20, 90]),
    ('F', [G, L]),
    ('mH', [None, 1, 3]),
    ('di', [5, 30]),
    ('d', [70, 30, 130]),
    ('what', ['both', 'ramp', 'jramp']),
    ('shape', ['plain', 'ridx']),
    ('cost', [None, 3, 4000]),
]


def run_spec_of(c):
    F = c['F']
    spec = dict(regions=['N'], shape=c['shape'], di=c['di'],
                units=[dict(u='A', r='N'), dict(u='F', r='N', t=F), dict(u='H', r='N')],
                bids=[dict(u='A', t=G, s='energy', v={'1': 200}, p={'1': 50}), dict(u='F', t=F, s='energy', v={'1': 30, '2': 60}, p={'1': c['p'], '2': c['p'] + 5}),
                      dict(u='H', t=G, s='energy', v={'1': 50}, p={'1': 45}),
                      dict(u='F', t=F, s='raise_reg', v={'1': 15}, p={'1': 1}), dict(u='H', t=G, s='raise_reg', v={'1': 15}, p={'1': 2}), dict(u='A', t=G, s='raise_reg', v={'1': 40}, p={'1': 9}),
                      dict(u='F', t=F, s='lower_reg', v={'1': 15}, p={'1': 1}), dict(u='A', t=G, s='lower_reg', v={'1': 40}, p={'1': 9})],
                demand=dict(rows=[('N', c['d'])]),
                fcas=dict(rows=[('R', 'N', 'raise_reg', 20, '>='), ('Lo', 'N', 'lower_reg', 12, '>=')]))
    fs = None
    if c['run'] == 'fast_start_first_run':
        fs = [dict(u='F', cur=c['mF'])] + ([dict(u='H', cur=c['mH'])] if c['mH'] is not None else [])
    elif c['run'] == 'fast_start_second_run':
        # the time since mode two only exists for units that have left mode two
        since = c['since'] if c['mF'] in (3, 4) else None
        fs = [dict(u='F', end=c['mF'], ml=c['ml'], since=since)] + ([dict(u='H', end=c['mH'], ml=15, since=2 if c['mH'] == 3 else None)] if c['mH'] is not None else [])
    if c['what'] in ('both', 'ramp'):
        spec['ramp'] = dict(rows=[('F', F, c['init'], c['rate'], c['rate'] / 2), ('H', G, 12, 120, 120), ('A', G, 50, 6000, 6000)])
        if c['scada'] is not None:
            spec['ramp']['scada'] = [('F', c['scada'], c['scada']), ('H', 90, None)]
        if fs:
            spec['ramp'].update(run=c['run'], fs=fs)
        if c['cost'] is not None:
            spec['ramp']['cost'] = c['cost']
    if c['what'] in ('both', 'jramp'):
        spec['jramp'] = dict(rows=[('F', c['init'], c['rate'], c['rate'] / 2), ('H', 12, 120, 120)])
        if fs:
            spec['jramp'].update(run=c['run'], fs=fs)
        if c['cost'] is not None:
            spec['jramp']['cost'] = c['cost']
    return spec


def run_case(c):
    if c['space'] == 'run':
        m, o, ref = run_spec(run_spec_of(c))
        return canon(o) if o else 'infeasible'
    spec = fast_spec(c)
    m = build(spec)
    op = c['op']
    without = {k: v for k, v in spec.items() if k != 'fast'}
    if op in ('remove', 'removetwice', 'dispatchremove'):
        if op == 'dispatchremove':
            try:
                dispatch(m, spec)
            except Infeasible:
                pass
        call()
        m.remove_fast_start_constraints()
        if op == 'removetwice':
            m.remove_fast_start_constraints()
        spec = without
    elif op == 'readd':
        call()
        m.remove_fast_start_constraints()
        for t in tables(spec):
            if t[0] == 'fast':
                apply(m, t)
    elif op == 'twice':
        for t in tables(dict(spec, fast=dict(rows=[dict(u='A', end=0, t=1, l2=4, l4=4, ml=3)], cost=7))):
            if t[0] == 'fast':
                apply(m, t)
        for t in tables(spec):
            if t[0] == 'fast':
                apply(m, t)
    ref = Ref(spec)
    try:
        dispatch(m, spec)
    except Infeasible:
        if ref.best() is not None:
            raise Violation('market reported infeasible, reference least cost %s' % float(ref.best()))
        return 'infeasible'
    o = observe(m, spec)
    ref.check(o)
    return canon(o)


def cases(tier):
    k = 2 if tier == 'quick' else 3
    for c in deviations(DIMS, k):
        yield dict(c, space='fast')
    base = {n: v[0] for n, v in DIMS}
    names = ['end', 't', 'l2', 'l4', 'ml', 'p'] if tier == 'thorough' else ['end', 't', 'ml', 'p']
    for x in product([(n, v) for n, v in DIMS if n in names]):
        yield dict(base, space='fast', **x)
        if tier == 'quick' and x['end'] in (2, 4):
            yield dict(base, space='fast', **dict(x, l2=10, l4=5))
    for x in product([(n, v) for n, v in DIMS if n in ('end', 'end2', 'end3') + (('d', 'cost') if tier == 'thorough' else ())]):
        yield dict(base, space='fast', **x)
    for x in product([(n, v) for n, v in DIMS if n in ('end', 'end2', 'd')]):
        yield dict(base, space='fast', **x)
    for c in deviations(RUN, k):
        yield dict(c, space='run')
    base = {n: v[0] for n, v in RUN}
    for x in product([('run', RUN[0][1][:2]), ('mF', RUN[1][1]), ('since', RUN[2][1]), ('init', RUN[4][1]), ('rate', RUN[5][1][:2] if tier == 'quick' else RUN[5][1]), ('p', [20])]):
        yield dict(base, space='run', **x)
    for x in product([('run', RUN[0][1][1:2]), ('mF', [3, 4]), ('since', [1.5, 5, 12]), ('ml', [20, 45]), ('init', RUN[4][1]), ('rate', [60, 240]), ('di', [30]), ('what', ['ramp', 'jramp'])]):
        yield dict(base, space='run', **dict(x, d=130))


def run():
    return main('C16', cases, run_case,
                'every end mode, time in mode, mode length, minimum loading, offer, set/remove history and every fast start run type with every mode, time since mode two, initial output and rate within the bound is dispatched and compared with the exact optimum under the profile',
                {'quick': '<=2 deviations over %d and %d dimensions plus products of mode, time, loading and offer, and of run, mode, time since mode two, initial output and rate' % (len(DIMS), len(RUN)), 'thorough': '<=3 deviations and larger products'})

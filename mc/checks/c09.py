"""C09: reported FCAS availability."""
from ..common import *
from ..refmarket import *
from . import c07, c08

FAMS = ('fmax', 'jcap', 'reg', 'jramp')


def expected(ref, o):
    """(unit, side, service) -> availability from the reference rows at the observed dispatch."""
    out = {}
    for r in ref.rows:
        if r.fam not in FAMS:
            continue
        d = ref.lhs(r, o)
        for k, v in r.terms.items():
            if k[0] != 'x' or k[3] == 'energy' or not ref.exists(k):
                continue
            key = k[1:]
            v = float(v)
            room = float('inf')
            if r.type == '<=' and v > 1e-5:
                room = max(float(r.rhs) - d, 0.0) / v
            elif r.type == '>=' and v < -1e-5:
                room = max(d - float(r.rhs), 0.0) / -v
            out[key] = min(out.get(key, float('inf')), room)
    return {k: o['x'][k] + v for k, v in out.items()}


def check_availability(m, spec, ref, o):
    call()
    df = m.get_fcas_availability()
    if list(df.columns) != ['unit', 'service', 'availability']:
        raise Violation('columns %s' % list(df.columns))
    want = expected(ref, o)
    got = sorted(((u, s), float(a)) for u, s, a in zip(df['unit'], df['service'], df['availability']))
    exp = sorted(((k[0], k[2]), v) for k, v in want.items())
    if len(got) != len(exp) or any(a[0] != b[0] or (a[1] != b[1] and not abs(a[1] - b[1]) < 1e-3) for a, b in zip(got, exp)):
        raise Violation('availability %s, the constraints leave %s; dispatch %s' % (got, exp, _show_x(o)))
    return tuple((k, round(v, 3)) for k, v in got)


def _show_x(o):
    return {k: round(v, 4) for k, v in o['x'].items()}


def to_spec(c):
    if c['base'] == 'trap':
        spec = c07.to_spec(c)
        if c.get('jr') and c['reg'] != 'none':
            spec['jramp'] = dict(rows=[('A', c['jr'], 240, 120)])
    else:
        spec = c08.to_spec(c)
        spec['fmax'] = dict(rows=[('A', b['t'], b['s'], 22 + 3 * (b['t'] == L)) for b in spec['bids'] if b['u'] == 'A' and b['s'] != 'energy'])
    for i, (s, r, sv, v, ty) in enumerate(spec['fcas']['rows']):
        spec['fcas']['rows'][i] = (s, r, sv, c['req'], ty)
    return spec


def run_case(c):
    if c['base'] == 'trap' and c['cont'] == c['cont2']:
        return 'n/a'
    spec = to_spec(c)
    m, o, ref = run_spec(spec)
    if o is None:
        return 'infeasible'
    return check_availability(m, spec, ref, o)


REQ = [7, 0, 60]
JR = [None, 45]


def cases(tier):
    k = 2 if tier == 'quick' else 3
    extra = [('req', REQ), ('jr', JR)]
    for c in deviations(c07.DIMS + extra, k):
        if c['sets'] not in ('r',) or c['reg'] != 'none':
            yield dict(c, base='trap')
    for c in c07.pinned(tier):
        for req in REQ if c['reg'] != 'none' or tier == 'thorough' else (0, 1.5):
            yield dict(c, base='trap', req=req, jr=None)
    for c in deviations(c07.BD + extra, k):
        yield dict(c, base='trap')
    for c in deviations([d for d in c08.DIMS if d[0] not in ('fs', 'cost')] + [('req', [25, 0, 60]), ('fs', [None]), ('cost', [None])], k):
        yield dict(c, base='ramp')
    for c in deviations([d for d in c08.BD if d[0] not in ('fs', 'cost')] + [('req', [25, 0, 60]), ('fs', [None]), ('cost', [None])], k):
        yield dict(c, base='ramp')


def run():
    return main('C09', cases, run_case,
                'for every market within the bound the reported availability of each service is compared with the enablement left by each of the unit\'s own limits at the observed dispatch',
                {'quick': '<=2 deviations over the dimensions of the trapezium and joint ramping checks plus requirement level', 'thorough': '<=3 deviations'})

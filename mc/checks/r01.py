"""R01: right hand side programs. The reference evaluator follows appendix A of the Constraint Implementation Guidelines shipped with the
repository (docs/pdfs), with the one reading the implementation documents for itself: a constant stands for its factor."""
import itertools, math
from ..common import *
from ..nemde import *
from nempy.historical_inputs.rhs_calculator import RHSCalc

SIMPLE = {'STEP': lambda v: 1.0 if v > 0 else 0.0, 'POW2': lambda v: v * v, 'POW3': lambda v: v * v * v, 'SQRT': lambda v: math.sqrt(v), 'ABS': abs, 'NEG': lambda v: -v}
BINARY = {'ADD': lambda a, b: a + b, 'SUB': lambda a, b: a - b, 'MUL': lambda a, b: a * b, 'DIV': lambda a, b: a / b, 'MAX': max, 'MIN': min}


class Unspecified(Exception):
    pass


def value_of(t, env):
    k = (t['SpdType'], t['SpdID'])
    if k in env['values']:
        return sum(env['values'][k])
    if t['SpdType'] == 'X' and t['SpdID'] in env['equations']:
        return evaluate(env['equations'][t['SpdID']], env)
    if t.get('Default') is None:
        raise Unspecified()
    return t['Default']


def evaluate(terms, env):
    owners = {t['TermID'] for t in terms if t['SpdType'] == 'G'}
    return stack_after([t for t in terms if t.get('GroupTerm') not in owners], terms, env)[-1]


def run_terms(program, terms, env):
    return stack_after(program, terms, env)[-1]


def stack_after(program, terms, env):
    st, flag = [0.0], False
    for t in program:
        typ, op, f = t['SpdType'], t.get('Operation'), t['Multiplier']
        if typ == 'U':
            if op is None:
                st[-1] *= f
            elif op in SIMPLE:
                if op == 'SQRT' and st[-1] < 0:
                    raise Unspecified()
                st[-1] = SIMPLE[op](st[-1]) * f
            elif op in BINARY or op in ('EXCH', 'RSD', 'RSU'):
                if len(st) < 2:
                    raise Unspecified()
                if op in BINARY:
                    b, a = st.pop(), st.pop()
                    if op == 'DIV' and b == 0:
                        raise Unspecified()
                    st.append(BINARY[op](a, b) * f)
                else:
                    if op == 'EXCH':
                        st[-1], st[-2] = st[-2], st[-1]
                    elif op == 'RSD':
                        st = st[1:] + st[:1]
                    else:
                        st = st[-1:] + st[:-1]
                    st[-1] *= f
            elif op == 'DUP':
                st.append(st[-1] * f)
            elif op == 'POP':
                if len(st) < 2 or f != 1:
                    raise Unspecified()
                flag = st.pop() <= 0
            elif op == 'EXLEZ':
                if flag is None or (flag and len(st) < 2):
                    raise Unspecified()
                if flag:
                    st[-1], st[-2] = st[-2], st[-1]
                    flag = None
                st[-1] *= f
            else:
                raise Unspecified()
            continue
        if typ == 'C':
            v, f = f, 1.0
            if op in ('STEP', 'POP'):
                raise Unspecified()
        elif typ == 'G':
            v = run_terms([x for x in terms if x.get('GroupTerm') == t['TermID']], terms, env)
        else:
            v = value_of(t, env)
        if op is None:
            st[-1] += v * f
        elif op in SIMPLE:
            if op == 'SQRT' and v < 0:
                raise Unspecified()
            st[-1] += SIMPLE[op](v) * f
        elif op in BINARY:
            if op == 'DIV' and v == 0:
                raise Unspecified()
            st[-1] = BINARY[op](st[-1], v) * f
        elif op == 'PUSH':
            st.append(v * f)
        elif op == 'POP':
            flag = v <= 0
        else:
            raise Unspecified()
    return st


def T(typ, i, f=1.0, op=None, default=None, **kw):
    return dict(SpdType=typ, SpdID=i, Multiplier=f, Operation=op, Default=1.0 if typ == 'C' else default, **kw)


def number(terms):
    """gives the terms of the macros consecutive ids; group references inside a macro are relative"""
    out, n = [], 0
    for m in terms:
        base = n
        for t in m:
            n += 1
            t = dict(t, TermID=n)
            if t.get('GroupTerm') is not None:
                t['GroupTerm'] = base + t['GroupTerm']
            out.append(t)
    return out


def variants(tier):
    yield 0, dict(A=3.0, S=0.0, I=-2.0, R=5.0, W=1.0, T=4.0, E=2.5, M=7.0, N=-1.0)
    yield 1, dict(A=-3.0, S=1.0, I=0.0, R=-5.0, W=0.0, T=0.0, E=-2.5, M=1.0, N=2.0)
    if tier != 'quick':
        yield 2, dict(A=0.0, S=1.0, I=9.0, R=0.5, W=1.0, T=-4.0, E=0.0, M=-7.0, N=0.0)


def env_of(k, v):
    values = {('A', 'a'): [v['A']], ('A', 'a2'): [v['A'], 1.5, -0.25], ('S', 's'): [v['S']], ('I', 'i'): [v['I']], ('R', 'r'): [v['R']], ('W', 'w'): [v['W']], ('T', 'u'): [v['T']], ('E', 'e'): [v['E']],
              ('M', 'm'): [v['M']], ('N', 'm'): [v['N']],
              # the same name with another type is another value
              ('S', 'a'): [10.0], ('E', 'u'): [20.0], ('T', 'e'): [30.0], ('E', 'm'): [40.0]}
    eq = {'x1': number([[T('E', 'e', 2.0)], [T('A', 'a', 1.0, 'MAX')], [T('C', 'k', 1.0)]]),
          'x2': number([[T('S', 's', 1.0)], [T('C', 'k', 100.0, 'PUSH')], [T('S', 's', 1.0, 'POP')], [T('U', '', 2.0, 'EXLEZ')]]),
          'x3': number([[T('A', 'a', 1.0, None, GroupTerm=3), T('E', 'e', -1.0, None, GroupTerm=3), T('G', 'g', 3.0)], [T('T', 'u', 1.0)]]),
          'a': number([[T('C', 'k', 50.0)]])}
    return dict(values=values, equations=eq)


def spec_of(env, programs):
    def xt(t):
        return {k: (v if not isinstance(v, float) else repr(v)) for k, v in t.items() if v is not None}
    scada = {}
    for (typ, i), vs in env['values'].items():
        if typ in 'ASRIW':
            good, bad = scada.setdefault(typ, ([], []))
            for j, v in enumerate(vs):
                e = dict(SpdID=i, Value=repr(v), EMS_ID='E%d' % j, Can_Use_Value='True')
                (bad if j == 2 else good).append(e)
    ic = [(i, vs[0]) for (typ, i), vs in env['values'].items() if typ == 'T']
    mn = {i: (vs[0], env['values'][('N', i)][0]) for (typ, i), vs in env['values'].items() if typ == 'M'}
    return dict(traders=[dict(id=i, ic={'InitialMW': v, 'AGCStatus': 1}) for i, v in ic] + [dict(id='zz')],
                periods=[dict(id='u', trades=[trade('ENOF')]), dict(id='zz', trades=[trade('ENOF')])],
                inters=[dict(id=i, offers=[('NSW1', a), ('VIC1', b)], fr='NSW1', to='VIC1') for i, (a, b) in mn.items()] + [dict(id='plain', fr='NSW1', to='QLD1')],
                entered=[(i, repr(vs[0])) for (typ, i), vs in env['values'].items() if typ == 'E'] + [('unused', '1')],
                scada=[(typ, g, b) for typ, (g, b) in scada.items()],
                equations=[(i, [xt(t) for t in ts]) for i, ts in env['equations'].items()] + [('empty', None)],
                constraints=[dict(id='P%d' % n, terms=[xt(t) for t in p]) for n, p in enumerate(programs)] + [dict(id='no_terms')],
                constraint_solution=[('P%d' % n, n, '0') for n in range(len(programs))] + [('no_terms', 1, '0')])


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def show(p):
    return ' ; '.join('%s:%s%s x%s%s%s' % (t['SpdType'], t['SpdID'], ' ' + t['Operation'] if t.get('Operation') else '', t['Multiplier'], ' [group %s]' % t['GroupTerm'] if t.get('GroupTerm') else '',
                                           ' default %s' % t['Default'] if t.get('Default') is not None else '') for t in p)


# the alphabet: macros of one or several terms
def alphabet(tier):
    al = [[T('C', 'k', 2.0)], [T('C', 'k', -1.5, 'PUSH')], [T('A', 'a', -1.0)], [T('A', 'a2', 2.0)], [T('T', 'u', 1.5, 'PUSH')], [T('I', 'i', 0.5, 'PUSH')], [T('S', 's', 3.0)], [T('E', 'e', -2.0)], [T('R', 'r', 1.0, 'PUSH')],
          [T('W', 'w', 4.0, 'MUL')], [T('M', 'm', 1.5, 'MIN')], [T('N', 'm', 2.0, 'MAX')], [T('X', 'x1', -1.0)], [T('X', 'x2', 0.5, 'PUSH')], [T('X', 'x3', 3.0, 'SUB')], [T('X', 'x1', 2.0, 'STEP')]]
    al += [[T('T', 'u', 2.0, op)] for op in ('STEP', 'POW2', 'ABS', 'NEG')] + [[T('E', 'e', 0.5, op)] for op in ('POW3', 'ADD', 'DIV')] + [[T('A', 'a', 2.0, 'SUB')], [T('R', 'r', 2.0, 'SQRT')]]
    al += [[T('U', '', f, op)] for op, f in ((None, -2.0), ('STEP', 5.0), ('POW2', 0.5), ('POW3', 2.0), ('SQRT', 2.0), ('ABS', 1.5), ('NEG', 3.0), ('ADD', 2.0), ('SUB', 1.5), ('MUL', -1.0), ('DIV', 2.0), ('MAX', 3.0), ('MIN', 2.0),
                                              ('DUP', 0.5), ('EXCH', 2.0), ('RSD', 3.0), ('RSU', -1.0), ('POP', 1.0), ('EXLEZ', 2.0))]
    al += [[T('S', 's', 1.0, 'POP')], [T('I', 'i', 1.0, 'POP')]]
    # constants with operators
    al += [[T('C', 'k', 3.0, op)] for op in ('ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN')] + [[T('C', 'k', -3.0, op)] for op in ('POW2', 'POW3', 'ABS', 'NEG')] + [[T('C', 'k', 4.0, 'SQRT')]]
    # missing values
    al += [[T('T', 'gone', 2.0, 'PUSH', default=6.0)], [T('E', 'gone', 2.0, 'ADD', default=-6.0)], [T('E', 'gone', 3.0, 'STEP', default=6.0)], [T('E', 'gone', 2.0, None, default=7.0)], [T('T', 'gone', 2.0, 'ABS', default=-6.0)],
           [T('A', 'gone', 2.0, 'PUSH', default=6.0)], [T('S', 'gone', 2.0, None, default=0.5)], [T('X', 'gone', 1.5, 'MAX', default=6.0)], [T('E', 'gone', 1.0, 'POP', default=0.0)], [T('M', 'gone', 3.0, 'SUB', default=2.0)],
           # the name belongs to something of another type
           [T('N', 'gone', 2.0, None, default=9.0)], [T('E', 'x1', 1.0, 'SUB', default=5.0)], [T('M', 'x2', 2.0, None, default=3.0)], [T('T', 'm', 1.0, 'PUSH', default=8.0)],
           [T('A', 'a', 1.0, 'PUSH', default=77.0)], [T('E', 'e', 1.0, None, default=77.0)]]
    # groups: terms collected by a group term
    g = [T('A', 'a', 1.0, GroupTerm=3), T('E', 'e', -1.0, GroupTerm=3)]
    al += [g + [T('G', 'g', 2.0)], g + [T('G', 'g', 1.0, 'PUSH')], g + [T('G', 'g', 0.5, 'MAX')], g + [T('G', 'g', 2.0, 'ABS')], [T('T', 'u', 1.0, 'PUSH', GroupTerm=4), T('A', 'a', 1.0, 'PUSH', GroupTerm=4), T('U', '', 2.0, 'SUB', GroupTerm=4), T('G', 'g', -1.0)],
           [T('X', 'x3', 1.0, GroupTerm=2), T('G', 'g', 3.0)]]
    a, e, G = [lambda g=None, f=1.0, op=None, typ=typ: T(typ, typ.lower(), f, op, GroupTerm=g) for typ in 'AEG']
    # the group term before its members, groups inside groups
    al += [[G(f=2.0), a(1), e(1)], [G(f=2.0), a(1), e(1), G(f=-3.0, op='PUSH'), e(4, 0.5), a(4, 1.0, 'MAX')], [a(3), e(3), G(5, 2.0), e(5), G(f=3.0)], [e(5), a(4), e(4), G(5, 2.0, 'MIN'), G(f=1.0)], [e(6), a(4), e(4), G(6, 2.0, 'PUSH'), a(6, 3.0), G(f=-1.0, op='MAX')],
           [G(f=2.0), G(1, -2.0), a(2), e(2), e(1)], [G(f=2.0, op='PUSH'), e(1), G(1, 3.0), a(3), e(1, 0.5)]]
    return al


def forests(n, depth):
    """all ways to arrange n terms in groups nested up to the depth; 0 is a term, a list a group"""
    if n == 0:
        yield []
        return
    for rest in forests(n - 1, depth):
        yield [0] + rest
    for k in range(1, n) if depth else ():
        for inner in forests(k, depth - 1):
            for rest in forests(n - 1 - k, depth):
                yield [inner] + rest


def layout(forest, before, op):
    out = []

    def put(nodes, owner, depth):
        for j, nd in enumerate(nodes):
            if nd == 0:
                typ, i, f = (('A', 'a', 1.0), ('E', 'e', -1.0), ('T', 'u', 2.0), ('R', 'r', 0.5))[sum(t['SpdType'] != 'G' for t in out) % 4]
                out.append(T(typ, i, f, op if j else None, owner=owner))
            else:
                g = T('G', 'g', (2.0, -3.0, 5.0)[depth], op if j else None, owner=owner)
                if before:
                    out.append(g)
                put(nd, g, depth + 1)
                if not before:
                    out.append(g)
    put(forest, None, 0)
    for n, t in enumerate(out):
        t['TermID'] = n + 1
    for t in out:
        o = t.pop('owner')
        if o is not None:
            t['GroupTerm'] = o['TermID']
    return out


def run_layout(c):
    """groups with all their members before, or all after, the group term"""
    env = env_of(0, dict(variants('quick'))[0])
    try:
        return judge(env, [layout(c['forest'], c['before'], op) for op in (None, 'SUB', 'PUSH')])
    except Violation as e:
        raise Violation('group layout: %s' % e)


def run_case(c):
    if c['kind'] == 'layout':
        return run_layout(c)
    if c['kind'] == 'odd':
        return run_odd(c)
    if c['kind'] == 'types':
        return run_types(c)
    if c['kind'] == 'deep':
        return run_deep(c)
    al = alphabet(c['tier'])
    env = env_of(c['variant'], dict(variants('thorough'))[c['variant']])
    first = [al[i] for i in c['first']]
    programs = [number(first + list(rest)) for n in range(c['more'] + 1) for rest in itertools.product(al, repeat=n)]
    return judge(env, programs)


def judge(env, programs):
    want = []
    for p in programs:
        try:
            want.append(evaluate(p, env))
        except Unspecified:
            want.append(None)
    keep = [i for i, w in enumerate(want) if w is not None]
    if not keep:
        return 0, 0
    programs, want = [programs[i] for i in keep], [want[i] for i in keep]
    with manager(spec_of(env, programs)) as m:
        rc = RHSCalc(m)
        first = {}
        for n, p in enumerate(programs):
            call()
            try:
                got = rc.compute_constraint_rhs('P%d' % n)
            except Exception as e:
                raise Violation('program { %s } fails with %s %s instead of giving %s' % (show(p), type(e).__name__, e, want[n]))
            if not close(got, want[n]):
                raise Violation('program { %s } gives %s instead of %s' % (show(p), got, want[n]))
            if rc.get_nemde_rhs('P%d' % n) != n:
                raise Violation('published right hand side of P%d wrong' % n)
        ids = ['P%d' % n for n in range(len(programs))][::-1]
        call()
        df = rc.compute_constraint_rhs(ids)
        if list(df['set']) != ids or list(df.columns) != ['set', 'rhs']:
            raise Violation('computing a list of constraints returns other sets')
        for i, got in zip(ids, df['rhs']):
            if not close(got, want[int(i[1:])]):
                raise Violation('computed again, program { %s } gives %s instead of %s' % (show(programs[int(i[1:])]), got, want[int(i[1:])]))
    return len(programs), round(sum(want), 6)


DEEP = [[T('U', '', f, op)] for op, f in ((None, -2.0), ('STEP', 5.0), ('NEG', 3.0), ('ADD', 2.0), ('SUB', 1.5), ('MUL', -1.0), ('DIV', 2.0), ('MAX', 3.0), ('MIN', 2.0), ('DUP', 0.5), ('EXCH', 2.0), ('RSD', 3.0), ('RSU', -1.0),
                                          ('POP', 1.0), ('EXLEZ', 2.0))] + [[T('S', 's', 1.0, 'POP')], [T('E', 'e', 1.0, 'PUSH')], [T('A', 'a', 1.0)], [T('T', 'u', 1.0, 'SUB')]]
DEEP += [[T('C', 'k', v, 'PUSH'), T('U', '', 1.0, 'POP')] for v in (0.0, 1e-9, -1e-9)]


def run_deep(c):
    """stack operators above several values; the whole stack is then read out by a fold"""
    env = env_of(0, dict(variants('quick'))[0])
    prefix = [[T('C', 'k', v, 'PUSH')] for v in (3.0, -7.0, 11.0, 13.0, -17.0)[:c['depth']]]
    programs = []
    for n in range(c['more'] + 1):
        for rest in itertools.product(DEEP, repeat=n):
            p = prefix + [DEEP[i] for i in c['first']] + list(rest)
            try:
                d = len(stack_after(number(p), number(p), env))
            except Unspecified:
                continue
            programs.append(number(p + ([[T('U', '', 10.0)], [T('U', '', 1.0, 'ADD')]] * (d - 1))))
    return judge(env, programs)


def run_types(c):
    """every type of value with every operation, there or missing, above two values that are read out afterwards"""
    env = env_of(c['variant'], dict(variants('thorough'))[c['variant']])
    typ = c['type']
    name = dict(A='a', S='s', I='i', R='r', W='w', T='u', E='e', M='m', N='m', X='x1', G='g')[typ]
    programs = []
    for op in (None, 'PUSH', 'POP') + tuple(SIMPLE) + tuple(BINARY):
        for f in (2.0, -0.5):
            for there in (True, False):
                for default in (None, -6.0, 0.0, 4.0) if there else (-6.0, 0.0, 4.0):
                    if typ == 'G' and not there:
                        continue
                    t = [T(typ, name if there else 'gone', f, op, default=default)]
                    if typ == 'G':
                        t = [T('A', 'a', 1.0, GroupTerm=2), dict(t[0])]
                    p = [[T('C', 'k', -7.0, 'PUSH')], [T('C', 'k', 3.0, 'PUSH')], t] + [[T('U', '', 2.0, 'EXLEZ')]] * (op == 'POP')
                    p = number(p)
                    try:
                        d = len(stack_after([x for x in p if 'GroupTerm' not in x], p, env))
                    except Unspecified:
                        continue
                    n = len(p)
                    programs.append(p + [dict(x, TermID=n + 1 + j) for j, x in enumerate([T('U', '', 10.0), T('U', '', 1.0, 'ADD')] * (d - 1))])
    return judge(env, programs)


def run_odd(c):
    """branching is refused, not silently miscomputed"""
    env = env_of(0, dict(variants('quick'))[0])
    p = number([[T('A', 'a', 1.0)], [T('B', 'b', 1.0)], [T('C', 'k', 2.0)]])
    with manager(spec_of(env, [p, p])) as m:
        rc = RHSCalc(m)
        call()
        try:
            v = rc.compute_constraint_rhs('P0')
        except ValueError:
            return 'refused'
        raise Violation('a branching program is given the value %s' % v)


def cases(tier):
    n = len(alphabet(tier))
    yield dict(kind='odd')
    for k in range(2, 6 if tier == 'quick' else 7):
        for f in forests(k, 3):
            if any(f):
                for before in (False, True):
                    yield dict(kind='layout', forest=f, before=before)
    for v in (0, 1, 2):
        for typ in 'ASIRWTEMNXG':
            yield dict(kind='types', variant=v, type=typ)
    for d in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for i in range(len(DEEP)):
            if tier == 'quick':
                yield dict(kind='deep', depth=d, first=[i], more=1)
            else:
                for j in range(len(DEEP)):
                    yield dict(kind='deep', depth=d, first=[i, j], more=1)
    for k, _ in variants(tier):
        for i in range(n):
            if tier == 'quick':
                yield dict(kind='programs', tier=tier, variant=k, first=[i], more=2)
            else:
                for j in range(n):
                    yield dict(kind='programs', tier=tier, variant=k, first=[i, j], more=2)


def run():
    return main('R01', cases, run_case,
                'every program over an alphabet of terms (each value type, operator, constant, missing value with default, function and group) up to the length bound is put into an interval file as a constraint and computed with the real calculator, one by one and again as one list in reverse order, and compared with an evaluator written from the published description; programs the description gives no value to are left out',
                {'quick': 'all programs of up to 3 of %d terms (groups count as one), 2 value assignments; all programs of up to 2 of 22 stack terms above 2-4 pushed values, with the whole stack read out; every type of value with every operation, there and missing, 3 value assignments' % len(alphabet('quick')), 'thorough': 'all programs of up to 4 terms, 3 value assignments; up to 3 stack terms above 2-5 pushed values'},
                assumptions=['stack underflow, division by zero, roots of negative numbers, operators on constants without a value and a second exchange after one test are not specified', 'a constant stands for its factor'], chunk=1)

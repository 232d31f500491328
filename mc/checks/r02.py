"""R02: changing the inputs of right hand sides. Every history of updates, computations and dependency questions is replayed on the real
calculator and on a plain model (a map of values)."""
import itertools
from ..common import *
from ..nemde import *
from .r01 import T, number, spec_of, evaluate, close, show
from nempy.historical_inputs.rhs_calculator import RHSCalc
from nempy.help_functions.helper_functions import update_rhs_values
import pandas as pd


def env0():
    v = {('A', 'a'): [3.0], ('A', 'two'): [1.0, 2.0], ('S', 's'): [1.0], ('I', 'i'): [-2.0], ('W', 'w'): [1.0], ('R', 'r'): [5.0], ('T', 'u'): [4.0], ('E', 'e'): [2.5], ('M', 'm'): [7.0], ('N', 'm'): [-1.0],
         ('S', 'a'): [10.0], ('E', 'u'): [20.0], ('T', 'e'): [30.0]}
    eq = {'x0': number([[T('X', 'x1', 1.0)], [T('C', 'k', 0.25)]]),            # refers to a function that comes later
          'x1': number([[T('E', 'e', 2.0)], [T('A', 'a', 1.0, 'PUSH')], [T('U', '', 1.0, 'ADD')]]),
          'x2': number([[T('X', 'x1', 3.0)], [T('S', 's', 1.0, 'PUSH')], [T('U', '', 1.0, 'ADD')], [T('T', 'gone', 1.0, None, default=0.125)]]),
          'e': number([[T('W', 'w', 2.0)]])}
    return dict(values=v, equations=eq)


PROGRAMS = [
    number([[T('A', 'a', 2.0)], [T('A', 'a', 1.0, 'PUSH')], [T('U', '', 1.0, 'ADD')]]),
    number([[T('X', 'x1', 1.0)], [T('X', 'x1', -3.0)], [T('E', 'e', 0.5)]]),
    number([[T('X', 'x2', 1.0)], [T('W', 'w', 8.0)]]),
    number([[T('T', 'u', 1.0)], [T('M', 'm', 1.0)], [T('N', 'm', 1.0)], [T('I', 'i', 1.0)]]),
    number([[T('S', 'a', 1.0)], [T('E', 'u', 1.0)], [T('T', 'e', 1.0)], [T('X', 'e', 1.0)], [T('R', 'r', 1.0)]]),
    number([[T('A', 'two', 1.0)], [T('C', 'a', 1.0)]]),
    number([[T('A', 'a', 1.0, None, GroupTerm=2), T('G', 'g', 2.0)], [T('X', 'x0', 1.0)]]),
    # operators and groups may be called like a value
    number([[T('S', 's', 1.0, None, GroupTerm=2), T('G', 'a', 2.0)], [T('C', 'e', 3.0, 'PUSH')], [T('U', 'u', 1.0, 'ADD')]]),
]
KEYS = [('A', 'a'), ('S', 's'), ('I', 'i'), ('W', 'w'), ('T', 'u'), ('E', 'e'), ('M', 'm'), ('N', 'm'), ('S', 'a'), ('E', 'u'), ('T', 'e')]
REFUSED = [('C', 'k'), ('R', 'r'), ('X', 'x1'), ('A', 'two'), ('A', 'none'), ('T', 'none'), ('E', 'none'), ('M', 'none'), ('N', 'none'), ('T', 'm'), ('E', 's'), ('W', 'u'), ('M', 'u')]


def term_dep(t, key, env):
    if (t['SpdType'], t['SpdID']) == key:
        return True
    return t['SpdType'] == 'X' and any(term_dep(x, key, env) for x in env['equations'].get(t['SpdID'], []))


def dependents(key, env):
    return ['P%d' % n for n, p in enumerate(PROGRAMS) if any(term_dep(t, key, env) for t in p)]


def values_ok(rc, env, hist):
    for n, p in enumerate(PROGRAMS):
        call()
        got, want = rc.compute_constraint_rhs('P%d' % n), evaluate(p, env)
        if not close(got, want):
            raise Violation('after %s the right hand side { %s } is %s instead of %s' % (hist, show(p), got, want))
        if rc.get_nemde_rhs('P%d' % n) != n:
            raise Violation('after %s the published right hand side of constraint %d is %s' % (hist, n, rc.get_nemde_rhs('P%d' % n)))


def step(rc, env, op, hist):
    if op[0] == 'set':
        _, key, val, text = op
        call()
        rc.update_spd_id_value(key[1], key[0], repr(val) if text else val)
        env['values'][key] = [val]
    elif op[0] == 'refuse':
        call()
        try:
            rc.update_spd_id_value(op[1][1], op[1][0], '99.0')
        except Exception:
            return
        raise Violation('after %s an update of %s %s is accepted' % (hist, *op[1]))
    elif op[0] == 'compute':
        values_ok(rc, env, hist)
    elif op[0] == 'one':
        call()
        got, want = rc.compute_constraint_rhs('P%d' % op[1]), evaluate(PROGRAMS[op[1]], env)
        if not close(got, want):
            raise Violation('after %s the right hand side { %s } is %s instead of %s' % (hist, show(PROGRAMS[op[1]]), got, want))
    elif op[0] == 'depend':
        call()
        got, want = rc.get_rhs_constraint_equations_that_depend_value(op[1][1], op[1][0]), dependents(op[1], env)
        if sorted(got) != sorted(want):
            raise Violation('constraints depending on %s %s: %s instead of %s' % (*op[1], got, want))


def run_case(c):
    if c['kind'] == 'history':
        return run_history(c)
    if c['kind'] == 'depend':
        return run_depend(c)
    return run_table(c)


def run_history(c):
    env, other = env0(), env0()
    n = 0
    with manager(spec_of(env, PROGRAMS)) as m:
        untouched = RHSCalc(m)
        for tail in itertools.product(*c['tails']):
            env = env0()
            rc = RHSCalc(m)
            ops = [tuple(o) for o in c['ops']] + list(tail)
            for k, op in enumerate(ops):
                op = tuple(tuple(x) if isinstance(x, list) else x for x in op)
                step(rc, env, op, ops[:k])
            values_ok(rc, env, ops)
            n += 1
        # changes made in one calculator stay in it
        values_ok(untouched, other, 'updates of another calculator')
        values_ok(RHSCalc(m), other, 'updates of another calculator before')
    return n


def run_depend(c):
    """what a value influences is found by changing it: every constraint whose value changes is listed and nothing that cannot change is"""
    key = tuple(c['key'])
    env = env0()
    with manager(spec_of(env, PROGRAMS)) as m:
        rc = RHSCalc(m)
        step(rc, env, ('depend', key), [])
        if key in KEYS:
            before = [rc.compute_constraint_rhs('P%d' % n) for n in range(len(PROGRAMS))]
            listed = rc.get_rhs_constraint_equations_that_depend_value(key[1], key[0])
            rc.update_spd_id_value(key[1], key[0], '123.456')
            after = [rc.compute_constraint_rhs('P%d' % n) for n in range(len(PROGRAMS))]
            changed = ['P%d' % n for n in range(len(PROGRAMS)) if not close(before[n], after[n])]
            if not set(changed) <= set(listed):
                raise Violation('changing %s %s changes %s but %s are listed' % (*key, changed, listed))
            # a list of constraints in, the same list out
            call()
            df = rc.compute_constraint_rhs(listed)
            if list(df['set']) != listed or not all(close(a, rc.compute_constraint_rhs(i)) for i, a in zip(df['set'], df['rhs'])):
                raise Violation('the values of %s computed together differ' % (listed,))
        return len(env['values'])


def run_table(c):
    """new values replace those of the named sets only"""
    col = c['col']
    rows = [dict(r) for r in c['rows']]
    t = pd.DataFrame(rows)
    new = pd.DataFrame(c['new'], columns=['set', 'rhs'])
    keep_t, keep_n = t.copy(), new.copy()
    call()
    got = update_rhs_values(t, new)
    want = [dict(r, **{col: dict(c['new']).get(r['set'], r[col])}) for r in rows]
    if sorted(map(str, plain_rows(got))) != sorted(map(str, plain_rows(pd.DataFrame(want)))):
        raise Violation('values of %s replaced by %s: %s' % (rows, c['new'], plain_rows(got)))
    if not t.equals(keep_t) or not new.equals(keep_n):
        raise Violation('the tables passed are changed')
    return len(rows)


def plain_rows(df):
    return [sorted((k, float(v) if isinstance(v, (int, float)) else v) for k, v in r.items()) for r in df.to_dict('records')]


def cases(tier):
    for key in KEYS + [('R', 'r'), ('A', 'two'), ('C', 'k'), ('X', 'x1'), ('X', 'x2'), ('T', 'gone'), ('A', 'none'), ('C', 'a')]:
        yield dict(kind='depend', key=key)
    sets = [('set', k, v, True) for k in KEYS for v in (0.0, 6.5)] + [('set', ('A', 'a'), -4.0, False), ('set', ('E', 'e'), -4.0, False), ('set', ('T', 'u'), -4.0, False)]
    others = [('refuse', k) for k in REFUSED] + [('one', n) for n in range(len(PROGRAMS))] + [('depend', ('A', 'a'))]
    ops = sets + others
    # a step that computes keeps whatever state the calculator holds between computations
    for a in ops:
        if tier == 'quick':
            yield dict(kind='history', ops=[a], tails=[ops])
            yield dict(kind='history', ops=[a], tails=[ops, sets])
        else:
            for b in ops:
                yield dict(kind='history', ops=[a, b], tails=[ops, sets])
    for col in 'volume', 'rhs':
        for names in itertools.product(['a', 'b', 'c'], repeat=3):
            for new in ([], [('a', 5.0)], [('b', 0.0), ('a', -1.0)], [('c', 7.0), ('zz', 9.0)]):
                yield dict(kind='table', col=col, rows=[{'set': s, col: float(i + 1), 'type': '>=', 'service': 'raise_reg', 'region': 'R%d' % i} for i, s in enumerate(names)], new=new)


def run():
    return main('R02', cases, run_case,
                'every history of updates (each kind of value, refused updates), single computations and dependency questions up to the length bound is replayed on the real calculator and a map of values; after each history every constraint is recomputed, a second calculator on the same file must be unaffected; dependency lists are compared with reachability through functions and with what really changes; the table helper is run over all assignments of three rows to three sets',
                {'quick': 'all histories of 2 steps over 46 operations, all of 3 steps that end with an update', 'thorough': 'all histories of 4 steps that end with an update'},
                assumptions=['updates of values the calculator cannot set must raise; which exception is not fixed'], chunk=1)

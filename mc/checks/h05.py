"""H05: the constraint tables of an interval are complete and separated by purpose."""
import itertools
from ..common import *
from ..nemde import *
from ..histunits import same_rows
from .x02 import CN
from nempy.historical_inputs.constraints import ConstraintData
from nempy.historical_inputs.demand import DemandData

NAME = dict(ENOF='energy', LDOF='energy', DROF='energy', BDOF='energy', L5RE='lower_reg', R5RE='raise_reg', R5MI='raise_5min', L5MI='lower_5min', R60S='raise_60s', L60S='lower_60s', R6SE='raise_6s', L6SE='lower_6s', R1SE='raise_1s', L1SE='lower_1s')
TYPE = dict(LE='<=', GE='>=', EQ='=')
ALL = list(NAME)
UNIT = {'none': [], 'one': [('U1', 'ENOF')], 'services': [('U1', 'ENOF'), ('U1', 'R6SE'), ('U1', 'L5RE')], 'both sides': [('B', 'ENOF'), ('B', 'LDOF')], 'two': [('U2', 'LDOF'), ('U1', 'BDOF')], 'every': [('U1', s) for s in ALL]}
REGION = {'none': [], 'one': [('NSW1', 'R6SE')], 'two': [('NSW1', 'L5MI'), ('QLD1', 'L5MI')], 'mixed': [('QLD1', 'R5RE'), ('QLD1', 'L1SE')], 'energy': [('VIC1', 'ENOF')], 'every': [('TAS1', s) for s in ALL]}
INTER = {'none': [], 'one': ['V-S'], 'two': ['N-Q', 'V-S']}
SET = [('type', ['LE', 'GE', 'EQ']), ('unit', list(UNIT)), ('region', list(REGION)), ('inter', list(INTER)), ('rhs', [100.0, 0.0, -55.5]), ('solved', [True, False])]
SMALL = [('type', ['LE', 'GE', 'EQ']), ('unit', ['none', 'one', 'services']), ('region', ['none', 'one', 'two']), ('inter', ['none', 'one']), ('rhs', [100.0, -55.5]), ('solved', [True, False])]
PLAIN = {n: v[0] for n, v in SET}


def build(c):
    exp = {k: [] for k in ('rhs', 'excluded', 'fcas', 'unit', 'region', 'inter', 'cost')}
    cons, sol = [], []
    runs = c['runs']
    # collections of the file hold at least two elements
    for k, f in enumerate(c['sets'] + [PLAIN, PLAIN]):
        i = 'S%d' % k
        con = dict(id=i, type=f['type'], price=1000.0 * (k + 1) + 0.5, unit=[], region=[], inter=[])
        n = 0
        for key, spec in (('unit', UNIT), ('region', REGION)):
            for a, s in spec[f[key]]:
                n += 1
                con[key].append((a, s, (1.0, -1.0, 0.125)[n % 3] * n))
                exp[key].append((i, a, NAME[s], con[key][-1][2]))
        for a in INTER[f['inter']]:
            n += 1
            con['inter'].append((a, -0.5 * n))
            exp['inter'].append((i, a, -0.5 * n))
        cons.append(con)
        exp['cost'].append((i, con['price']))
        if f['solved']:
            for r in runs:
                sol.append((i, f['rhs'] + (k if r == '0' else 77.0), r))
            row = (i, f['rhs'] + k, TYPE[f['type']])
            exp['rhs'].append(row)
            if con['region']:
                exp['fcas'] += [(i, NAME[s], a, row[2], row[1]) for a, s, _ in con['region']]
            else:
                exp['excluded'].append(row)
    if c.get('order'):
        sol.reverse()
    case = {k: 3.0 * j + 1.5 for j, k in enumerate(CN)}
    exp['prices'] = {CN[k]: v for k, v in case.items()}
    spec = dict(constraints=cons, constraint_solution=sol, case=case, period_solution=[dict(VIOL, Intervention=r) for r in runs], case_solution=[dict(VIOL, Intervention=r) for r in runs])
    return spec, exp


READ = [('rhs', 'get_rhs_and_type', ['set', 'rhs', 'type']), ('excluded', 'get_rhs_and_type_excluding_regional_fcas_constraints', ['set', 'rhs', 'type']), ('fcas', 'get_fcas_requirements', ['set', 'service', 'region', 'type', 'volume']),
        ('unit', 'get_unit_lhs', ['set', 'unit', 'service', 'coefficient']), ('region', 'get_region_lhs', ['set', 'region', 'service', 'coefficient']), ('inter', 'get_interconnector_lhs', ['set', 'interconnector', 'coefficient']),
        ('cost', 'get_violation_costs', ['set', 'cost'])]
DEMANDS = {'plain': [('NSW1', 7000.5), ('QLD1', 5000.0)], 'one': [('TAS1', 0.0)], 'negative': [('SA1', -20.25), ('VIC1', 1.0), ('NSW1', 3.0)]}


def run_case(c):
    spec, exp = build(c)
    dem = DEMANDS[c.get('demand', 'plain')]
    rows = dict(DISPATCHREGIONSUM=[dict(SETTLEMENTDATE=t, REGIONID=r, TOTALDEMAND=d + x, DEMANDFORECAST=7.0, INITIALSUPPLY=9.0) for r, d in dem for t, x in (('2024/07/10 12:00:00', 1), (INTERVAL, 0), ('2024/07/10 12:10:00', 2))])
    with loader(spec, rows, ocd=c.get('ocd', False)) as l:
        data = ConstraintData(l)
        call()
        reads = READ if not c.get('backwards') else READ[::-1]
        for _ in range(c.get('repeat', 1)):
            for key, method, cols in reads:
                call()
                same_rows(getattr(data, method)(), cols, exp[key], method)
            got = data.get_constraint_violation_prices()
            if {k: float(v) for k, v in got.items()} != exp['prices']:
                raise Violation('violation prices %s instead of %s' % (got, exp['prices']))
            if bool(data.is_over_constrained_dispatch_rerun()) != bool(c.get('ocd', False)):
                raise Violation('over constrained rerun reported as %s' % data.is_over_constrained_dispatch_rerun())
            same_rows(DemandData(l).get_operational_demand(), ['region', 'demand'], dem, 'operational demand')
    return repr(exp)


def cases(tier):
    k = 3 if tier == 'quick' else 4
    for f in deviations(SET, 6):
        yield dict(sets=[f], runs=['0'])
    singles = [f for f in deviations(SMALL, 2 if tier == 'quick' else 3)]
    for a, b in itertools.product(singles, repeat=2):
        yield dict(sets=[a, b], runs=['0'])
    for f in deviations(SMALL, k):
        for g in deviations(SMALL, 1):
            for runs in (['0'], ['0', '1'], ['1', '0']):
                yield dict(sets=[f, g], runs=runs, order=runs == ['1', '0'])
    for ocd, demand, backwards, runs in itertools.product([False, True], DEMANDS, [False, True], [['0'], ['0', '1']]):
        for f in deviations(SMALL, 1):
            yield dict(sets=[f], runs=runs, ocd=ocd, demand=demand, backwards=backwards, repeat=2)


def run():
    return main('H05', cases, run_case,
                'interval files with every mix of term kinds (unit, region, interconnector; every service code), constraint types, right hand sides, unsolved constraints, physical and pricing runs are read through the real loader; the right hand sides, requirements, terms, costs, prices and demands returned are compared with what was written, repeatedly and in both call orders',
                {'quick': 'all combinations of the six features of one constraint beside a plain one, all pairs of constraints with up to 2 deviations each, three constraints', 'thorough': 'pairs with up to 3 deviations, three constraints with up to 4'},
                assumptions=['a constraint without a solution in the file has no right hand side and is in no right hand side table', 'collections of the file hold at least two elements'])

"""X02: what the interval file says is what the readers return."""
import itertools, math
from ..common import *
from ..nemde import *

TT = dict(ENOF='ENERGY', LDOF='ENERGY', DROF='ENERGY', BDOF='ENERGY', L5RE='LOWERREG', R5RE='RAISEREG', R5MI='RAISE5MIN', L5MI='LOWER5MIN', R60S='RAISE60SEC', L60S='LOWER60SEC',
          R6SE='RAISE6SEC', L6SE='LOWER6SEC', R1SE='RAISE1SEC', L1SE='LOWER1SEC')
SIDE = dict(GENERATOR='GENERATOR', NORMALLY_ON_LOAD='GENERATOR', WDR='GENERATOR', BIDIRECTIONAL='GENERATOR', LOAD='LOAD')
DIR = dict(GEN='GENERATOR', LOAD='LOAD')
VOL = dict(MaxAvail='MAXAVAIL', EnablementMin='ENABLEMENTMIN', EnablementMax='ENABLEMENTMAX', LowBreakpoint='LOWBREAKPOINT', HighBreakpoint='HIGHBREAKPOINT', RampDnRate='RAMPDOWNRATE', RampUpRate='RAMPUPRATE',
           **{'BandAvail%d' % i: 'BANDAVAIL%d' % i for i in range(1, 11)})
PRC = {'PriceBand%d' % i: 'PRICEBAND%d' % i for i in range(1, 11)}
FAST = ('MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4')
VN = dict(TotalAreaGenViolation='regional_demand', TotalInterconnectorViolation='interocnnector', TotalGenericViolation='generic_constraint', TotalRampRateViolation='ramp_rate',
          TotalUnitMWCapacityViolation='unit_capacity', TotalEnergyConstrViolation='energy_constraint', TotalEnergyOfferViolation='energy_offer', TotalASProfileViolation='fcas_profile',
          TotalFastStartViolation='fast_start', TotalMNSPRampRateViolation='mnsp_ramp_rate', TotalMNSPOfferViolation='msnp_offer', TotalMNSPCapacityViolation='mnsp_capacity', TotalUIGFViolation='ugif')
CN = dict(EnergyDeficitPrice='regional_demand', InterconnectorPrice='interocnnector', GenericConstraintPrice='generic_constraint', RampRatePrice='ramp_rate', CapacityPrice='unit_capacity', OfferPrice='energy_offer',
          ASProfilePrice='fcas_profile', ASMaxAvailPrice='fcas_max_avail', ASEnablementMinPrice='fcas_enablement_min', ASEnablementMaxPrice='fcas_enablement_max', FastStartPrice='fast_start',
          MNSPRampRatePrice='mnsp_ramp_rate', MNSPOfferPrice='msnp_offer', MNSPCapacityPrice='mnsp_capacity', UIGFSurplusPrice='uigf', VoLL='voll', TieBreakPrice='tiebreak')
RP = dict(EnergyPrice='ENERGY', LRegPrice='LOWERREG', RRegPrice='RAISEREG', R5Price='RAISE5MIN', RL5Price='LOWER5MIN', R60Price='RAISE60SEC', L60Price='LOWER60SEC', R6Price='RAISE6SEC',
          L6Price='LOWER6SEC', R1Price='RAISE1SEC', L1Price='LOWER1SEC')


class Values:
    """distinct numbers, some negative, some with a fraction, zero first"""
    def __init__(self):
        self.n = -1

    def __call__(self, positive=False):
        self.n += 1
        v = self.n * 1.25
        return v if positive or self.n % 3 != 1 else -v


def build(c):
    """case -> (document spec, expected result of every reader)"""
    v = Values()
    spec = {}
    runs = c['runs']                                   # e.g. ['0'], ['0', '1'], ['1', '0']
    interv = len(runs) > 1
    exp = {k: [] for k in ('ic', 'fast', 'vol', 'price', 'uigf', 'rhs', 'type', 'region', 'unit', 'inter', 'mnsp', 'service')}
    spec['traders'], spec['periods'] = [], []
    for k, t in enumerate(c['traders']):
        name = t['id']
        ic = {n: v() for n in t['ic']}
        attrs = {}
        if t.get('fast') is not None:
            for a in FAST:
                v.n += 1
                attrs[a] = v.n
            row = dict(attrs)
            for a in t['fast']:
                v.n += 1
                attrs[a] = v.n
                row[a.replace('WhatIf', '')] = v.n
            exp['fast'].append((name,) + tuple(float(row[a]) for a in FAST))
        exp['ic'].append((name, t['type'], ic.get('WhatIfInitialMW' if interv else 'InitialMW'), ic.get('SCADARampUpRate'), ic.get('SCADARampDnRate'), ic.get('AGCStatus')))
        pr = []
        for tt, d, missing in t['price']:
            b = {a: v() for a in PRC if a not in missing}
            pr.append(dict(dict(TradeType=tt, Direction=d), **b))
            exp['price'].append((name, TT[tt], DIR[d] if d else SIDE[t['type']]) + tuple(b.get(a) for a in PRC))
        spec['traders'].append(dict(id=name, type=t['type'], ic=ic, attrs=attrs, price=pr))
        if t.get('trades') is not None:
            tr = []
            for tt, d, missing in t['trades']:
                b = {a: v(True) for a in VOL if a not in missing}
                tr.append(dict(dict(TradeType=tt, Direction=d), **b))
                exp['vol'].append((name, TT[tt], DIR[d] if d else None) + tuple(b.get(a, 0.0 if a.startswith('Band') else None) for a in VOL))
            spec['periods'].append(dict(id=name, trades=tr, uigf=t.get('uigf')))
            if t.get('uigf') is not None:
                exp['uigf'].append((name, float(t['uigf'])))
    if c.get('swap'):
        spec['periods'].reverse()
    spec['case'] = {k: v() for k in CN}
    exp['costs'] = {CN[k]: x for k, x in spec['case'].items()}
    spec['period_solution'], spec['case_solution'] = [], []
    for r in runs:
        p = {k: v() for k in VN if k not in c['in_case']}
        q = {k: v() for k in VN if k in c['in_case'] or k in c['in_both']}
        spec['period_solution'].append(dict(p, Intervention=r))
        spec['case_solution'].append(dict(q, Intervention=r))
        if r == '0':
            exp['viol'] = {VN[k]: p.get(k, q.get(k)) for k in VN}
    spec['region_solution'] = []
    for r in runs:
        for g in ('NSW1', 'QLD1'):
            p = {k: v() for k in RP if not (g == 'NSW1' and k in c['no_price'])}
            if r == '0':
                exp['service'] += [(g, RP[k], x) for k, x in p.items()]
            spec['region_solution'].append(dict(p, RegionID=g, Intervention=None if c.get('unmarked') and not interv else r))
    spec['constraints'], spec['constraint_solution'] = [], []
    for k, (nu, nr, ni) in enumerate(c['lhs']):
        i = 'SET%d' % k
        con = dict(id=i, type=('LE', 'GE', 'EQ')[k % 3], price=v(), unit=[], region=[], inter=[])
        exp['type'].append((i, con['type'], con['price']))
        for j in range(nu):
            con['unit'].append(('U%d' % (j // 2), ('ENOF', 'R6SE', 'LDOF')[(j + k) % 3], v()))
        for j in range(nr):
            con['region'].append((('NSW1', 'QLD1')[j % 2], ('ENOF', 'L5RE', 'R60S')[j], v()))
        for j in range(ni):
            con['inter'].append((('V-S', 'N-Q', 'T-V')[j], v()))
        exp['unit'] += [(i, u, s, f) for u, s, f in con['unit']]
        exp['region'] += [(i, u, s, f) for u, s, f in con['region']]
        exp['inter'] += [(i, u, f) for u, f in con['inter']]
        spec['constraints'].append(con)
        for r in runs:
            x = v()
            if k not in c['no_solution']:
                spec['constraint_solution'].append((i, x, r))
                if r == '0':
                    exp['rhs'].append((i, x))
    if c.get('sort_runs'):
        spec['constraint_solution'].sort(key=lambda s: s[2] != c['sort_runs'])
    spec['inters'] = []
    for k, off in enumerate(c['offers']):
        i = 'I%d' % k
        o = [(g, v()) for g in ('NSW1', 'QLD1')] if off else None
        if o and off == 'swap':
            o.reverse()
        spec['inters'].append(dict(id=i, offers=o, fr='NSW1', to='QLD1'))
        exp['mnsp'] += [(i, g, x) for g, x in o or []]
    exp['interv'] = interv
    return spec, exp


def frame(df, cols):
    if list(df.columns) != cols:
        if sorted(df.columns) != sorted(cols):
            raise Violation('columns %s instead of %s' % (list(df.columns), cols))
        df = df[cols]
    rows = []
    for r in df.itertuples(index=False):
        rows.append(tuple(None if x is None or (isinstance(x, float) and math.isnan(x)) else (x if isinstance(x, str) else float(x)) for x in r))
    return rows


READ = [
    ('ic', 'get_unit_initial_conditions', ['DUID', 'TRADERTYPE', 'INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS']),
    ('fast', 'get_unit_fast_start_parameters', ['DUID'] + list(FAST)),
    ('vol', 'get_unit_volume_bids', ['DUID', 'BIDTYPE', 'DIRECTION'] + list(VOL.values())),
    ('price', 'get_unit_price_bids', ['DUID', 'BIDTYPE', 'DIRECTION'] + list(PRC.values())),
    ('uigf', 'get_UIGF_values', ['DUID', 'UIGF']),
    ('rhs', 'get_constraint_rhs', ['set', 'rhs']),
    ('type', 'get_constraint_type', ['set', 'type', 'cost']),
    ('region', 'get_constraint_region_lhs', ['set', 'region', 'service', 'coefficient']),
    ('unit', 'get_constraint_unit_lhs', ['set', 'unit', 'service', 'coefficient']),
    ('inter', 'get_constraint_interconnector_lhs', ['set', 'interconnector', 'coefficient']),
    ('mnsp', 'get_market_interconnector_link_bid_availability', ['interconnector', 'to_region', 'availability']),
    ('service', 'get_service_prices', ['region', 'service', 'price']),
]


def check_all(reader, exp, order, has_service, where):
    for k, f, cols in (READ if order else READ[::-1]):
        if k == 'service' and not has_service:
            continue
        call()
        df = getattr(reader, f)()
        if k == 'service':
            df = df.copy()
            df['price'] = df['price'].astype(float)
        got, want = sorted(frame(df, cols), key=repr), sorted(exp[k], key=repr)
        if got != want:
            raise Violation('%s %s returns %s but the file says %s' % (where, f, [x for x in got if x not in want][:3], [x for x in want if x not in got][:3]) + (' (repeated rows)' if len(got) != len(set(got)) else ''))
    for k, f in (('viol', 'get_violations'), ('costs', 'get_constraint_violation_prices')):
        call()
        got = getattr(reader, f)()
        if got != exp[k]:
            raise Violation('%s %s differs from the file: %s' % (where, f, [(n, got.get(n), exp[k].get(n)) for n in set(got) | set(exp[k]) if got.get(n) != exp[k].get(n)]))
    if has_service:
        call()
        if reader.is_intervention_period() != exp['interv']:
            raise Violation('intervention flag wrong')


def run_case(c):
    spec, exp = build(c)
    other, exp2 = build(dict(base(), lhs=[(2, 1, 1), (1, 2, 2), (1, 1, 1), (0, 0, 2)], offers=['swap', True], runs=['0', '1'] if len(c['runs']) == 1 else ['0']))
    t2 = '2024/07/10 12:10:00'
    with scratch() as d, no_network():
        for t, s in ((INTERVAL, spec), (t2, other)):
            with open(os.path.join(d, file_name(t)), 'w') as f:
                f.write(document(s))
        m = xml_cache.XMLCacheManager(d)
        l = loaders.RawInputsLoader(m, None)
        if c.get('after'):
            l.set_interval(t2)
            check_all(m, exp2, True, True, 'other interval:')
        l.set_interval(INTERVAL)
        check_all(m, exp, True, True, '')
        check_all(l, exp, False, False, 'loader')
        if c.get('after'):
            m.load_interval(t2)
            check_all(m, exp2, False, True, 'other interval again:')
    return sum(len(x) for x in exp.values() if isinstance(x, list)), c['runs']


def tr(i, typ='GENERATOR', ic=('InitialMW', 'AGCStatus'), **kw):
    d = dict(id=i, type=typ, ic=list(ic), price=[('ENOF', None, ())], trades=[('ENOF', None, ()), ('R6SE', None, ())])
    d.update(kw)
    return d


def base():
    return dict(traders=[tr('U0', price=[('ENOF', None, ()), ('R6SE', None, ())]), tr('U1', fast=[], uigf=5.5)], runs=['0'], in_case=[], in_both=[], no_price=[], lhs=[(1, 1, 1), (2, 0, 0)], no_solution=[], offers=[True, None])


def cases(tier):
    big = tier != 'quick'
    RUNS = (['0'], ['0', '1'], ['1', '0'])
    TYPES = list(SIDE)

    def mk(**kw):
        b = base()
        b.update(kw)
        return b
    for after in (False, True):
        for runs in RUNS:
            yield mk(runs=runs, after=after)
    # initial conditions: every subset of at least two conditions, rotated and reversed
    ICS = ('InitialMW', 'WhatIfInitialMW', 'SCADARampUpRate', 'SCADARampDnRate', 'AGCStatus', 'HMW')
    for n in range(2, 7):
        for sub in itertools.combinations(ICS, n):
            orders = {sub, sub[::-1], sub[1:] + sub[:1], sub[2:] + sub[:2]} if not big else set(itertools.permutations(sub))
            for o in sorted(orders):
                for runs in RUNS[:2]:
                    for pos in (0, 1):
                        ts = [tr('U0', ic=('AGCStatus', 'InitialMW', 'WhatIfInitialMW', 'SCADARampUpRate', 'SCADARampDnRate')), tr('U1')]
                        ts[pos] = tr('U%d' % pos, ic=o, typ=TYPES[len(o) % 5])
                        yield mk(traders=ts, runs=runs)
    # fast start data
    WI = (None, [], ['WhatIfCurrentMode'], ['WhatIfCurrentModeTime'], ['WhatIfCurrentMode', 'WhatIfCurrentModeTime'])
    for a, b, e in itertools.product(WI, WI, (None, [])):
        for runs in RUNS:
            yield mk(traders=[tr('U0', fast=a), tr('U1', fast=b), tr('U2', fast=e)], runs=runs)
    # volume and price bids
    tts = list(TT)
    for typ in TYPES:
        for tt in tts:
            for d in (None, 'GEN', 'LOAD'):
                for extra in ([], [('R60S', None, ())], [('BDOF', 'GEN', ()), ('BDOF', 'LOAD', ('BandAvail1', 'RampUpRate'))]):
                    yield mk(traders=[tr('U0', typ, price=[(tt, d, ())] + extra, trades=[(tt, d, ())] + extra), tr('U1', 'LOAD', trades=extra + [(tt, d, ())])])
    fields = list(VOL) + list(PRC)
    for n in (1, 2) if not big else (1, 2, 3):
        for miss in itertools.combinations(fields, n):
            for pos in (0, 1):
                t = [('ENOF', None, miss), ('R6SE', 'GEN', ())] if pos == 0 else [('ENOF', None, ()), ('R6SE', 'GEN', miss)]
                yield mk(traders=[tr('U0', 'LOAD', price=t, trades=t), tr('U1')])
    for tt in (set(fields), set(VOL), set(PRC)):
        t = [('ENOF', None, sorted(tt))]
        yield mk(traders=[tr('U0', price=t, trades=t), tr('U1', price=t, trades=t)])
    # forecasts, missing periods, order of records
    for u in itertools.product((None, 0, 7.5, -1), repeat=3):
        for swap in (False, True):
            yield mk(traders=[tr('U%d' % k, uigf=x) for k, x in enumerate(u)], swap=swap)
    for gone in (0, 1, 2):
        ts = [tr('U%d' % k, uigf=k) for k in range(4)]
        ts[gone]['trades'] = None
        yield mk(traders=ts)
    # violations
    for n in (0, 1, 2) if not big else (0, 1, 2, 3):
        for sub in itertools.combinations(VN, n):
            for runs in RUNS:
                yield mk(runs=runs, in_case=sub)
                yield mk(runs=runs, in_both=sub)
    for runs in RUNS:
        yield mk(runs=runs, in_case=list(VN))
        yield mk(runs=runs, in_both=list(VN))
    # service prices
    for n in range(0, 3 if not big else 5):
        for sub in itertools.combinations(RP, n):
            for runs in RUNS:
                yield mk(runs=runs, no_price=sub)
            yield mk(no_price=sub, unmarked=True)
    # constraints
    for a in itertools.product((0, 1, 2), repeat=3):
        for b in itertools.product((0, 1, 2), repeat=3) if big else ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (1, 0, 2), (0, 2, 0)):
            yield mk(lhs=[a, b, (1, 0, 1)])
            yield mk(lhs=[b, a], runs=['0', '1'])
    for n in range(0, 3):
        for sub in itertools.combinations(range(4), n):
            for runs in RUNS:
                for so in (None, '0', '1'):
                    yield mk(lhs=[(1, 0, 0)] * 4, no_solution=sub, runs=runs, sort_runs=so)
    for off in itertools.product((None, True, 'swap'), repeat=3):
        yield mk(offers=off)


def run():
    return main('X02', cases, run_case,
                'interval files are generated from record lists in which every number is different; every subset of records and fields within the bound is written to a file, loaded by the real cache manager, and what each reader (directly and through the inputs loader, twice, in both orders, and after loading another interval) returns is compared with the record list',
                {'quick': 'all subsets of initial conditions in 4 orders, all fast start attribute combinations of 2-3 units, every trade type x direction x trader kind, all pairs of missing bid fields, violations and prices in either place, all factor counts 0-2', 'thorough': 'all orders of initial conditions, triples of missing fields'},
                assumptions=['collections of units, constraints and initial conditions have at least two entries, as in all published files', 'field names are those the readers document; published files could not be consulted offline'])

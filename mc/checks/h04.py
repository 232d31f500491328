"""H04: interconnector definitions and losses of an interval follow the published loss model."""
import itertools, math
from ..common import *
from ..nemde import *
from ..histunits import same_rows
from nempy.historical_inputs.interconnectors import InterconnectorData
from nempy.historical_inputs.demand import DemandData
from nempy import markets
import pandas as pd

FLOWS = (-400.0, -100.0, -33.5, -1.0, 0.0, 0.25, 1.0, 77.0, 100.0, 350.0)
DEMANDS = {'plain': {'NSW1': (7000.0, 20.0, 6900.0), 'QLD1': (5000.0, -15.0, 5100.0), 'TAS1': (900.0, 0.0, 950.0), 'VIC1': (4000.0, 33.0, 3900.5)},
           'other': {'NSW1': (6100.0, 0.0, 6300.0), 'QLD1': (4000.0, 120.0, 3900.0), 'TAS1': (0.0, 5.0, 0.0), 'VIC1': (3000.0, 1.0, 3100.0)},
           'negative': {'NSW1': (-100.0, -20.0, -90.0), 'QLD1': (5.0, 0.0, -15.0), 'TAS1': (900.0, -100.0, 50.0), 'VIC1': (4000.0, 0.0, 3900.5)},
           # regions the loss factor model mentions may be absent from the interval
           'fewer': {'NSW1': (7000.0, 20.0, 6900.0), 'VIC1': (4000.0, 33.0, 3900.5)}}
COEFS = {'none': {}, 'one': {'NSW1': 1.2e-5}, 'two': {'NSW1': 1.2e-5, 'QLD1': -3.5e-5}, 'three': {'QLD1': -6e-6, 'VIC1': 6.3e-6, 'TAS1': 1e-5}, 'zero': {'NSW1': 0.0}}
POINTS = {'even': [-300.0, -100.0, 0.0, 100.0, 300.0], 'one side': [0.0, 120.0, 480.0], 'other side': [-480.0, -7.5], 'many': [float(x) for x in range(-500, 501, 50)]}
SHARES = [0.5, 0.0, 1.0, 0.37]
# the first values are a regulated interconnector
DIMS = [('type', ['REGULATED', 'MNSP']), ('id', ['QNI', 'T-V-MNSP1', 'Z']), ('ends', [('NSW1', 'QLD1'), ('QLD1', 'NSW1'), ('TAS1', 'VIC1')]), ('share', SHARES), ('const', [0.9, 1.0, 1.05]), ('flow_coef', [1.9e-4, 0.0, 6e-4]), ('coefs', list(COEFS)),
        ('limits', [(300.0, 700.0), (0.0, 0.0), (-50.0, 100.0), (1e4, 25.5)]), ('points', list(POINTS)), ('demand', list(DEMANDS)), ('version', ['single', 'older', 'future', 'version']), ('dispatched', [True, False]),
        ('links', ['forward first', 'reverse first']), ('offers', [(478.0, 400.0), (0.0, 478.0), (478.0, 0.0), (0.5, 12.25)]), ('offer order', ['to', 'from']), ('tlf', [(1.0, 1.0, 1.0, 1.0), (0.97, 1.02, 0.95, 1.04)]), ('capacity', [478.0, 600.0]),
        ('others', ['regulated', 'market', 'both', 'undispatched', 'none'])]
FIRST_M = dict(type='MNSP', id='T-V-MNSP1', ends=('TAS1', 'VIC1'), others='regulated')
DIMS_M = [(n, [FIRST_M[n]] + [x for x in v if x != FIRST_M[n]] if n in FIRST_M else v) for n, v in DIMS]
PLAIN = {n: v[0] for n, v in DIMS}
MARKET = {n: v[0] for n, v in DIMS_M}

STAMP = '2024/01/01 00:00:00'


def versions(how, row, wrong):
    """published records: the one in effect and ones that are not"""
    if how == 'older':
        return [dict(wrong, EFFECTIVEDATE='2019/07/01 00:00:00', VERSIONNO=1), dict(row, EFFECTIVEDATE=STAMP, VERSIONNO=1)]
    if how == 'future':
        return [dict(row, EFFECTIVEDATE=STAMP, VERSIONNO=1), dict(wrong, EFFECTIVEDATE='2024/07/10 12:10:00', VERSIONNO=2)]
    if how == 'version':
        return [dict(wrong, EFFECTIVEDATE=STAMP, VERSIONNO=1), dict(row, EFFECTIVEDATE=STAMP, VERSIONNO=2)]
    return [dict(row, EFFECTIVEDATE=STAMP, VERSIONNO=1)]


def others(f):
    out = []
    if f['others'] in ('regulated', 'both', 'undispatched'):
        out.append(dict(PLAIN, id='OTHER', ends=('VIC1', 'NSW1'), coefs='three', const=0.97, flow_coef=2e-4, points='one side', share=0.41, limits=(120.0, 80.0), dispatched=f['others'] != 'undispatched'))
    if f['others'] in ('market', 'both'):
        out.append(dict(MARKET, id='BASSY', ends=('TAS1', 'VIC1'), coefs='two', const=0.99, flow_coef=1e-4, points='many', share=0.6, offers=(90.0, 70.0), tlf=(0.91, 0.92, 0.93, 0.94)))
    return out


def build(f, interval):
    fs = [f] + others(f)
    rows = {k: [] for k in ('INTERCONNECTOR', 'INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL', 'DISPATCHINTERCONNECTORRES', 'MNSP_INTERCONNECTOR', 'DISPATCHREGIONSUM')}
    inters, defs, losses, points = [], [], [], []
    dem = DEMANDS[f['demand']]
    for r, (tot, fc, ini) in dem.items():
        rows['DISPATCHREGIONSUM'].append(dict(SETTLEMENTDATE=interval, REGIONID=r, TOTALDEMAND=tot, DEMANDFORECAST=fc, INITIALSUPPLY=ini))
        rows['DISPATCHREGIONSUM'].append(dict(SETTLEMENTDATE='2024/07/10 12:10:00', REGIONID=r, TOTALDEMAND=1.0, DEMANDFORECAST=2.0, INITIALSUPPLY=3.0))
    for g in fs:
        i, (a, b) = g['id'], g['ends']
        how = g['version']
        rows['INTERCONNECTOR'].append(dict(INTERCONNECTORID=i, REGIONFROM=a, REGIONTO=b))
        row = dict(INTERCONNECTORID=i, FROMREGIONLOSSSHARE=g['share'], LOSSCONSTANT=g['const'], ICTYPE=g['type'], LOSSFLOWCOEFFICIENT=g['flow_coef'], IMPORTLIMIT=g['limits'][0], EXPORTLIMIT=g['limits'][1])
        wrong = dict(row, FROMREGIONLOSSSHARE=0.111, LOSSCONSTANT=0.222, LOSSFLOWCOEFFICIENT=0.333, IMPORTLIMIT=44.0, EXPORTLIMIT=55.0)
        rows['INTERCONNECTORCONSTRAINT'] += versions(how, row, wrong)
        for k, p in enumerate(POINTS[g['points']]):
            rows['LOSSMODEL'] += versions(how, dict(INTERCONNECTORID=i, LOSSSEGMENT=k + 1, MWBREAKPOINT=p), dict(INTERCONNECTORID=i, LOSSSEGMENT=k + 1, MWBREAKPOINT=p / 2 + 3))
        for r, cf in COEFS[g['coefs']].items():
            rows['LOSSFACTORMODEL'] += versions(how, dict(INTERCONNECTORID=i, REGIONID=r, DEMANDCOEFFICIENT=cf), dict(INTERCONNECTORID=i, REGIONID=r, DEMANDCOEFFICIENT=cf + 0.01))
        if g['dispatched']:
            rows['DISPATCHINTERCONNECTORRES'].append(dict(INTERCONNECTORID=i, SETTLEMENTDATE=interval, MWFLOW=1.0, MWLOSSES=0.0))
        else:
            rows['DISPATCHINTERCONNECTORRES'].append(dict(INTERCONNECTORID=i, SETTLEMENTDATE='2024/07/10 12:00:00', MWFLOW=1.0, MWLOSSES=0.0))
        links = []
        if g['type'] == 'MNSP':
            t = g['tlf']
            links = [dict(INTERCONNECTORID=i, LINKID=i + '+', FROMREGION=a, TOREGION=b, FROM_REGION_TLF=t[0], TO_REGION_TLF=t[1], LHSFACTOR=1.0, MAXCAPACITY=g['capacity']),
                     dict(INTERCONNECTORID=i, LINKID=i + '-', FROMREGION=b, TOREGION=a, FROM_REGION_TLF=t[2], TO_REGION_TLF=t[3], LHSFACTOR=-1.0, MAXCAPACITY=g['capacity'])]
            if g['links'] != 'forward first':
                links.reverse()
            for l in links:
                rows['MNSP_INTERCONNECTOR'] += versions(how, l, dict(l, FROM_REGION_TLF=0.5, TO_REGION_TLF=0.6, LHSFACTOR=-l['LHSFACTOR']))
            off = [(b, g['offers'][0]), (a, g['offers'][1])]
            if g['offer order'] != 'to':
                off.reverse()
            inters.append(dict(id=i, fr=a, to=b, offers=off))
        else:
            inters.append(dict(id=i, fr=a, to=b))
        if not g['dispatched']:
            continue
        share = 1.0 if i == 'T-V-MNSP1' else g['share']
        slope = g['const'] - 1 + sum(cf * (dem[r][1] + dem[r][2]) for r, cf in COEFS[g['coefs']].items() if r in dem)
        if g['type'] == 'MNSP':
            t = g['tlf']
            each = [(i + '+', a, b, 0.0, g['offers'][0], t[0], t[1], 1.0), (i + '-', b, a, 0.0, g['offers'][1], t[2], t[3], -1.0)]
        else:
            each = [(i, a, b, -g['limits'][0], g['limits'][1], 1.0, 1.0, 1.0)]
        for l, x, y, lo, hi, t1, t2, s in each:
            defs.append((i, l, x, y, lo, hi, t1, t2, s))
            losses.append((i, l, share) + tuple(slope * (s * q) + g['flow_coef'] / 2 * q * q for q in FLOWS))
            for k, p in enumerate(POINTS[g['points']]):
                points.append((i, l, s * (k + 1), s * p))
    # collections of the file hold at least two elements
    while len(inters) < 2:
        inters.append(dict(id='FILL%d' % len(inters), fr='NSW1', to='QLD1'))
    return dict(inters=inters), rows, defs, losses, points, [(r, x[0]) for r, x in dem.items()]


D = ['interconnector', 'link', 'from_region', 'to_region', 'min', 'max', 'from_region_loss_factor', 'to_region_loss_factor', 'generic_constraint_factor']
P = ['interconnector', 'link', 'loss_segment', 'break_point']


def evaluated(df):
    if sorted(df.columns) != sorted(['interconnector', 'link', 'loss_function', 'from_region_loss_share']):
        raise Violation('loss function columns %s' % list(df.columns))
    rows = [(r.interconnector, r.link, r.from_region_loss_share) + tuple(r.loss_function(q) for q in FLOWS) for r in df.itertuples()]
    return pd.DataFrame(rows, columns=['interconnector', 'link', 'share'] + ['f%d' % k for k in range(len(FLOWS))])


def run_case(c):
    f = {k: (tuple(v) if isinstance(v, list) else v) for k, v in c['f'].items()}
    doc, rows, defs, losses, points, demand = build(f, INTERVAL)
    with loader(doc, rows) as l:
        data = InterconnectorData(l)
        order = ['defs', 'loss', 'demand'] if not c.get('loss_first') else ['loss', 'demand', 'defs', 'loss']
        for what in order * c.get('repeat', 1):
            call()
            if what == 'defs':
                d = data.get_interconnector_definitions()
                same_rows(d, D, defs, 'interconnector definitions')
                table = d
            elif what == 'demand':
                same_rows(DemandData(l).get_operational_demand(), ['region', 'demand'], demand, 'operational demand')
            else:
                lf, bp = data.get_interconnector_loss_model()
                e = evaluated(lf)
                same_rows(e, list(e.columns), losses, 'loss functions')
                same_rows(bp, P, points, 'break points')
        if c.get('market'):
            integrate(table, lf, bp, defs, losses)
    return repr((defs, losses, points))


def integrate(d, lf, bp, defs, losses):
    """the tables are what the market model takes: losses at a forced flow are the published ones at a break point"""
    regions = sorted({r for x in defs for r in x[2:4]})
    table = {(x[0], x[1]): x for x in defs}
    # interpolation covers the flows between the outermost break points only
    covered = all(min(g) <= 0 <= max(g) for g in ([float(b) for b in bp[bp['link'] == l]['break_point']] for l in bp['link'].unique()))
    for name, link in table if covered else ():
        x = table[(name, link)]
        pts = [float(b) for b in bp[bp['link'] == link]['break_point'] if x[4] <= b <= x[5] and b != 0]
        if not pts:
            continue
        for q in pts[:1] + pts[-1:]:
            m = markets.SpotMarket(market_regions=regions, unit_info=pd.DataFrame([dict(unit='G' + r, region=r) for r in regions] + [dict(unit='L' + r, region=r, dispatch_type='load') for r in regions]).fillna('generator'))
            vol = pd.DataFrame([dict(unit=u + r, dispatch_type=t, **{'1': 1e5}) for r in regions for u, t in (('G', 'generator'), ('L', 'load'))])
            m.set_unit_volume_bids(vol)
            pr = vol.copy()
            pr['1'] = [100.0, 1.0] * len(regions)
            m.set_unit_price_bids(pr)
            m.set_demand_constraints(pd.DataFrame(dict(region=regions, demand=[1000.0] * len(regions))))
            dd = d.copy()
            for c in ('min', 'max'):
                dd[c] = dd.apply(lambda r: r[c] if r['link'] == link else 0.0 if r['min'] <= 0 <= r['max'] else r[c], axis=1)
            dd.loc[dd['link'] == link, 'min'] = q
            dd.loc[dd['link'] == link, 'max'] = q
            m.set_interconnectors(dd)
            m.set_interconnector_losses(lf, bp)
            call()
            with quiet():
                m.dispatch()
            fl = m.get_interconnector_flows()
            row = fl[(fl['interconnector'] == name) & (fl['link'] == link)].iloc[0]
            i = [y for y in losses if y[1] == link][0]
            # the published loss at the break point
            fun = lf[lf['link'] == link]['loss_function'].iloc[0]
            if abs(row['flow'] - q) > 1e-4 or abs(row['losses'] - fun(q)) > 1e-4:
                raise Violation('at %s the link %s has flow %s and losses %s instead of %s' % (q, link, row['flow'], row['losses'], fun(q)))


def cases(tier):
    k = 2 if tier == 'quick' else 3
    for dims in (DIMS, DIMS_M):
        for f in deviations(dims, k):
            yield dict(f=f)
        for f in deviations(dims, 1):
            yield dict(f=f, loss_first=True, repeat=2)
            yield dict(f=f, market=True)


def run():
    return main('H04', cases, run_case,
                'every interconnector deviating from a plain regulated and a plain market one in up to the bounded number of features (kind, direction, share, coefficients, regions in the loss factor model, limits, break points, demands, superseded records, dispatched or not, links, offers, other interconnectors of the interval) is written to a database and an interval file; the definitions, loss functions (at ten flows), break points and demands returned are compared with the published loss model; a market built from the tables is dispatched at forced flows',
                {'quick': 'up to 2 deviating features of 18', 'thorough': 'up to 3 deviating features of 18'},
                assumptions=['link factors are 1 and -1', 'market interconnectors have offers', 'the loss share of Basslink is one (documented replacement)', 'flow is multiplied by the link factor before the loss model is applied'])

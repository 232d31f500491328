"""H02: the unit tables handed over from an interval's inputs."""
import itertools
from ..common import *
from ..nemde import *
from ..histunits import *
from nempy.historical_inputs.units import UnitData

BEFORE, AFTER = '2023/07/07 13:35:00', '2023/07/07 13:40:00'
DIRN = dict(GEN='generator', LOAD='load')


def unit(k, f):
    """a unit with numbers of its own; f: dict of features"""
    n = 10.0 * (k + 1)
    kind = f['kind']
    bid = lambda j: dict(avail=n + j, bands=[n + j], prices=[n + i + j for i in range(10)], ramp=None if f.get('ramp') == 'none' else (n * 6 + j + 1, n * 6 + j + 2))
    dirs = [None] if kind != 'bdu' else {'both': ['GEN', 'LOAD'], 'gen': ['GEN'], 'load': ['LOAD']}[f.get('dirs', 'both')]
    if f.get('swap'):
        dirs = dirs[::-1]
    u = dict(id='%s%d' % (f.get('name', 'U'), k), kind=kind, bids=[(d, bid(j)) for j, d in enumerate(dirs)] if not f.get('fcas_only') else [], initial=(-n if f.get('neg') else n) + 0.25, agc=1, detail=[], agc_limits={})
    r = f.get('scada', 'both')
    u['up'], u['down'] = (n + 3 if r in ('both', 'up') else None), (n + 4 if r in ('both', 'down') else None)
    if r == 'zero':
        u['up'], u['down'] = 0.0, 0.0
    if r in ('up0', 'down0', 'tiny'):
        u['up'], u['down'] = dict(up0=(0.0, None), down0=(None, 0.0), tiny=(0.04, 0.3))[r]
    for j, d in enumerate(f.get('detail', ['now'])):
        start, end = dict(now=('2020/01/01 00:00:00', '2100/12/31 00:00:00'), old=('2010/01/01 00:00:00', '2020/01/01 00:00:00'), future=('2090/01/01 00:00:00', '2100/12/31 00:00:00'))[d]
        u['detail'].append(dict(region='REG%d' % ((k + j) % 3), tlf=0.9 + k / 100 + j / 1000, dlf=1 - k / 50 - j / 500, stlf=0.7 + k / 100 + j / 1000 if f.get('stlf') else None, start=start, end=end, type='BIDIRECTIONAL' if kind == 'bdu' else 'GENERATOR', d=d))
    if f.get('uigf'):
        u['uigf'] = n + 7 if f['uigf'] != 'zero' else 0.0
    if f.get('fcas') or f.get('fcas_only'):
        u['fcas'] = [dict(tt='R5RE', dir='GEN' if kind == 'bdu' else None, avail=5, bands=[5], prices=list(range(10)), trap=(0, 1, 100, 110)), dict(tt='L6SE', avail=6, bands=[6], prices=list(range(10)), trap=(0, 1, 100, 110))]
    return u


def run_case(c):
    units = [unit(k, f) for k, f in enumerate(c['units'])]
    interval = c['interval']
    spec, rows_ = pieces(units)
    for r in rows_['DISPATCHLOAD']:
        r['SETTLEMENTDATE'] = interval
    if c.get('periods_reversed'):
        spec['periods'].reverse()
        rows_['DUDETAILSUMMARY'].reverse()
    with loader(spec, rows_, interval=interval) as l:
        ud = UnitData(l)
        for again in range(2):
            check(ud, units, interval)
    return c['units'][0]['kind'], len(units)


def check(ud, units, interval):
    info, avail, uigf, ramp, scada, init = [], [], [], [], [], []
    semi = {u['id'] for u in units if u.get('uigf') is not None}
    for u in units:
        d = [x for x in u['detail'] if x['d'] == 'now'] or [x for x in u['detail'] if x['d'] == 'old']
        dirs = [DIRN[x] if x else SIDE[u['kind']] for x, _ in u['bids']]
        dirs += [DIRN[f['dir']] if f.get('dir') else SIDE[u['kind']] for f in u.get('fcas', [])]
        for s in sorted(set(dirs)):
            if d:
                tlf = d[0]['stlf'] if u['kind'] == 'bdu' and s == 'generator' and d[0].get('stlf') is not None else d[0]['tlf']
                info.append((u['id'], s, d[0]['region'], tlf * d[0]['dlf']))
        for x, b in u['bids']:
            s = DIRN[x] if x else SIDE[u['kind']]
            if not (interval < AFTER and u['id'] in semi):
                avail.append((u['id'], s, b['avail']))
            r = b['ramp'] or (None, None)
            ramp.append((u['id'], s, r[1], r[0], u['initial']))
        if u.get('uigf') is not None:
            uigf.append((u['id'], u['uigf']))
        if u['up'] is not None or u['down'] is not None:
            scada.append((u['id'], u['down'], u['up'], u['initial']))
        init.append((u['id'], u['initial']))
    [call() for _ in range(7)]
    same_rows(ud.get_unit_info(), ['unit', 'dispatch_type', 'region', 'loss_factor'], info, 'unit information')
    same_rows(ud.get_unit_bid_availability(), ['unit', 'dispatch_type', 'capacity'], avail, 'bid availability')
    same_rows(ud.get_unit_uigf_limits(), ['unit', 'capacity'], uigf, 'forecasts')
    same_rows(ud.get_bid_ramp_rates(), ['unit', 'dispatch_type', 'ramp_down_rate', 'ramp_up_rate', 'initial_output'], ramp, 'bid ramp rates')
    same_rows(ud.get_scada_ramp_rates(inlude_initial_output=True), ['unit', 'scada_ramp_down_rate', 'scada_ramp_up_rate', 'initial_output'], scada, 'telemetered ramp rates')
    same_rows(ud.get_scada_ramp_rates(), ['unit', 'scada_ramp_down_rate', 'scada_ramp_up_rate'], [s[:3] for s in scada], 'telemetered ramp rates')
    same_rows(ud.get_initial_unit_output(), ['unit', 'initial_output'], init, 'initial output')


def features(tier):
    base = []
    for kind in KINDS:
        b = dict(kind=kind)
        dims = [('scada', ('both', 'up', 'down', 'none', 'zero', 'up0', 'down0', 'tiny')), ('ramp', ('both', 'none')), ('detail', (['now'], ['old', 'now'], ['now', 'old'], ['now', 'future'], [])),
                ('fcas', (False, True)), ('uigf', (None, 'some', 'zero')), ('stlf', (False, True)), ('neg', (False, True))]
        if kind == 'bdu':
            dims += [('dirs', ('both', 'gen', 'load')), ('swap', (False, True))]
        else:
            dims += [('fcas_only', (False, True))]
        for combo in deviations(dims, 1 if tier == 'quick' else 2):
            base.append(dict(b, **combo))
    return base


def cases(tier):
    fs = features(tier)
    for i in (BEFORE, AFTER, INTERVAL):
        # every unit next to every other one
        fs2 = fs if tier == 'quick' else fs[::3]
        others = fs if tier == 'quick' else [f for f in fs if len([k for k in f if f[k] not in (None, False, 'both', ['now'])]) <= 2][::2]
        for a, b in itertools.product(fs2, others):
            m, n = fs.index(a), fs.index(b)
            # each pair in one order only
            if tier == 'quick' and ((m - n if (m + n) % 2 else n - m) < 0 or i != AFTER and (m + n) % (3 if i == BEFORE else 9)):
                continue
            yield dict(units=[a, b], interval=i)
        for k in range(0, len(fs), 7):
            yield dict(units=fs[k:k + 9] if k + 9 <= len(fs) else fs[-9:], interval=i, periods_reversed=True)
        # identifiers that look alike
        for a in fs[:6]:
            yield dict(units=[dict(a, name='U1'), dict(a, name='U'), dict(a, name='U1#')], interval=i)


def run():
    return main('H02', cases, run_case,
                'interval files and registration tables with every kind of unit and every combination of present and absent telemetry, bids, forecasts and registration records are written and read through the real loader; each unit table is compared row by row with what the unit\'s own records say, twice in a row',
                {'quick': 'all pairs of units (in one order) that deviate in one feature from the plain one at the change of treatment of semi-scheduled availability, a third and a ninth of them at intervals before and after it', 'thorough': 'pairs of units deviating in two features'},
                assumptions=['registration: the record with the latest start not after the interval applies', 'before 2023-07-07 13:40 the bid availability of units with a forecast is not a limit'], chunk=8)

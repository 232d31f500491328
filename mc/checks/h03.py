"""H03: from bids to processed offers. The oracle is written from sections 4 and 5 of AEMO's "FCAS Model in NEMDE" (docs/pdfs): an offer's
effective trapezium is described by its limits and the slopes of its sides, not by the sequence of scaling steps the code takes."""
import itertools
from ..common import *
from ..nemde import *
from ..histunits import *
from nempy.historical_inputs import units as hu
from nempy.historical_inputs.units import UnitData

ALL = ['R5RE', 'L5RE', 'R6SE', 'L5MI']
REST = ['R5RE', 'L5RE', 'R1SE', 'L1SE', 'R60S', 'L60S', 'L6SE', 'R5MI']
TR = ['unit', 'service', 'dispatch_type', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point', 'enablement_max']
BID = ['unit', 'service', 'dispatch_type'] + [str(i) for i in range(1, 11)]
REG = ('R5RE', 'L5RE')
DIRN = dict(GEN='generator', LOAD='load')


def side(u, d):
    return DIRN[d] if d else SIDE[u['kind']]


def effective(u, f):
    """(max availability, enablement min, low break point, high break point, enablement max) after scaling"""
    lo, lb, hb, hi = [float(x) for x in f['trap']]
    av = float(f['avail'])
    emin, emax, emav = lo, hi, av
    if f['tt'] in REG:
        p = 'RAISEREG' if f['tt'] == 'R5RE' else 'LOWERREG'
        lim = u.get('agc_limits') or {}
        a, b = lim.get(p + 'ENABLEMENTMIN'), lim.get(p + 'ENABLEMENTMAX')
        if a is not None and a > 0:
            emin = max(emin, a)
        if b is not None and b > 0:
            emax = min(emax, b)
        rate = u.get('up' if f['tt'] == 'R5RE' else 'down')
        if rate:
            emav = min(emav, rate / 12.0)
    if u.get('uigf') is not None:
        emax = min(emax, u['uigf'])
    if av <= 0:
        return None
    # the angle of each side is kept
    return emav, emin, emin + (lb - lo) * emav / av, emax - (hi - hb) * emav / av, emax


def capacity(u, s, interval):
    if u.get('uigf') is not None and interval < '2023/07/07 13:40:00':
        return None
    for d, b in u['bids']:
        if side(u, d) == s:
            return b['avail']
    return None


def offered(u, f):
    return f['avail'] > 0 and any(b > 0 for b in f['bands'])


def enabled(u, f, interval):
    e = effective(u, f)
    if e is None or not offered(u, f):
        return None
    av, emin, lb, hb, emax = e
    s = side(u, f.get('dir'))
    cap = capacity(u, s, interval)
    if f['tt'] in REG and u.get('agc') == 0:
        return None
    init = round(u['initial'], 5)
    if u['kind'] != 'bdu':
        ok = (cap is None or cap >= emin) and emax >= 0 and emin <= max(init, 0.0) <= emax
    elif f['tt'] not in REG:
        other = capacity(u, 'load', interval)
        ok = (cap is None or cap >= emin) and emax >= 0 and (other is None or -other <= emax) and emin <= init <= emax
    else:
        # regulation of a bidirectional unit: the trapeziums of the two directions are joined at zero
        mates = [g for g in u['fcas'] if g['tt'] == f['tt'] and side(u, g.get('dir')) != s and offered(u, g)]
        mates = [effective(u, g) for g in mates if capacity(u, side(u, g['dir']), interval) is None or capacity(u, side(u, g['dir']), interval) >= effective(u, g)[1]]
        if s == 'generator':
            left, right = (mates[0][1] if mates else emin), emax
            ok = emax >= 0 and (cap is None or cap >= emin)
        else:
            left, right = emin, (mates[0][4] if mates else emax)
            ok = emin <= 0 and (cap is None or (cap >= emin and -cap <= emax))
        ok = ok and left <= init <= right
    return e if ok else None


def expected(units, interval):
    vol, pri, trap = [], [], []
    ten = lambda x: tuple(float(v) for v in (list(x) + [0] * 10)[:10])
    for u in units:
        if not u['detail']:
            continue
        d = u['detail'][0]
        for x, b in u['bids']:
            s = side(u, x)
            lf = (d['stlf'] if u['kind'] == 'bdu' and s == 'generator' and d.get('stlf') is not None else d['tlf']) * d['dlf']
            vol.append((u['id'], 'energy', s) + ten(b['bands']))
            pri.append((u['id'], 'energy', s) + tuple(p * lf for p in b['prices']))
        for f in u.get('fcas', []):
            e = enabled(u, f, interval)
            if e:
                s = side(u, f.get('dir'))
                vol.append((u['id'], SERVICE[f['tt']], s) + ten(f['bands']))
                pri.append((u['id'], SERVICE[f['tt']], s) + tuple(float(p) for p in f['prices']))
                trap.append((u['id'], SERVICE[f['tt']], s) + e)
    return vol, pri, trap


def explain(u, f):
    return 'unit of kind %s, initial %s, bids %s, rates up %s down %s, AGC %s %s, forecast %s, offer %s avail %s bands %s trapezium %s' % (
        u['kind'], u['initial'], [(d, b['avail']) for d, b in u['bids']], u.get('up'), u.get('down'), u.get('agc'), u.get('agc_limits'), u.get('uigf'), f['tt'], f['avail'], f['bands'], f['trap'])


def judge(units, interval):
    spec, rows_ = pieces(units)
    for r in rows_['DISPATCHLOAD']:
        r['SETTLEMENTDATE'] = interval
    vol, pri, trap = expected(units, interval)
    with loader(spec, rows_, interval=interval) as l:
        ud = UnitData(l)
        for name in ('get_fcas_max_availability', 'get_fcas_regulation_trapeziums', 'get_contingency_services', 'add_fcas_trapezium_constraints'):
            call()
            try:
                getattr(ud, name)()
            except hu.MethodCallOrderError:
                continue
            raise Violation('%s answers before the bids have been processed' % name)
        for again in range(2):
            call()
            v, p = ud.get_processed_bids()
            call()
            ud.add_fcas_trapezium_constraints()
            t = rows(concat(ud), TR, 'trapeziums')
            compare(t, trap, units, 'processed offers')
            same_rows(v, BID, vol, 'volume bids')
            same_rows(p, BID, pri, 'price bids')
            same_rows(ud.get_fcas_max_availability(), TR[:4], [r[:4] for r in trap], 'maximum availabilities')
            same_rows(ud.get_fcas_regulation_trapeziums(), TR, [r for r in trap if r[1] in ('raise_reg', 'lower_reg')], 'regulation trapeziums')
            same_rows(ud.get_contingency_services(), TR, [r for r in trap if r[1] not in ('raise_reg', 'lower_reg')], 'contingency trapeziums')
    return len(trap)


def concat(ud):
    import pandas as pd
    return pd.concat([ud.get_fcas_regulation_trapeziums(), ud.get_contingency_services()])


def compare(got, want, units, what):
    """names the unit, for readable reports"""
    by = {u['id']: u for u in units}
    g, w = {}, {}
    for r in got:
        g.setdefault(r[:3], []).append(r[3:])
    for r in want:
        w.setdefault(r[:3], []).append(r[3:])
    for k in sorted(set(g) | set(w)):
        a, b = g.get(k, []), w.get(k, [])
        u = by[k[0]]
        f = [x for x in u['fcas'] if SERVICE[x['tt']] == k[1] and side(u, x.get('dir')) == k[2]]
        if len(a) != len(b):
            raise Violation('%s: %s %s is listed %d times instead of %d: %s' % (what, k[1], k[2], len(a), len(b), explain(u, f[0])))
        if any(abs(x - y) > 1e-6 for r, s in zip(a, b) for x, y in zip(r, s)):
            raise Violation('%s: %s %s has max availability, enablement min, break points, enablement max %s instead of %s: %s' % (what, k[1], k[2], a, b, explain(u, f[0])))


# ---- enumeration ----
LIMITS = {'none': None, 'null': {}, 'zero': dict(RAISEREGENABLEMENTMIN=0.0, RAISEREGENABLEMENTMAX=0.0, LOWERREGENABLEMENTMIN=0.0, LOWERREGENABLEMENTMAX=0.0),
          'tight': dict(RAISEREGENABLEMENTMIN=30.0, RAISEREGENABLEMENTMAX=75.0, LOWERREGENABLEMENTMIN=25.0, LOWERREGENABLEMENTMAX=90.0),
          'loose': dict(RAISEREGENABLEMENTMIN=5.0, RAISEREGENABLEMENTMAX=200.0, LOWERREGENABLEMENTMIN=1.0, LOWERREGENABLEMENTMAX=150.0),
          'max': dict(RAISEREGENABLEMENTMAX=75.0, LOWERREGENABLEMENTMAX=50.0), 'min': dict(RAISEREGENABLEMENTMIN=35.0, LOWERREGENABLEMENTMIN=45.0),
          'tiny': dict(RAISEREGENABLEMENTMIN=0.3, RAISEREGENABLEMENTMAX=0.8, LOWERREGENABLEMENTMIN=0.6, LOWERREGENABLEMENTMAX=0.9), 'tinymin': dict(RAISEREGENABLEMENTMIN=0.3, LOWERREGENABLEMENTMIN=0.6)}
TRAPS = {'slopes': (20, 40, 80, 100), 'flat': (20, 20, 70, 70), 'left': (0, 10, 100, 100), 'steep': (0, 0, 30, 90), 'nil': (0, 0, 0, 0), 'above': (60, 70, 110, 130), 'wide': (0, 50, 50, 120)}
BANDS = {'first': [10], 'last': [0] * 9 + [4], 'nothing': [0], 'many': [1, 0, 3, 0, 2], 'small': [0, 0.4]}
BANDS.update({'only%d' % b: [0] * (b - 1) + [6.0] for b in range(2, 10)})
DIMS = [('kind', ['gen', 'load', 'wdr']), ('trap', list(TRAPS)), ('avail', [20, 10, 0, 0.5]), ('bands', list(BANDS)), ('limits', ['loose', 'none', 'null', 'zero', 'tight', 'max', 'min', 'tiny', 'tinymin']), ('rates', [(None, None), (120.0, 60.0), (0.0, 180.0), (60.0, None), (900.0, 800.0), (3.0, 0.6)]),
        ('uigf', [None, 85.0, 40.0, 5.0, 0.0]), ('initial', [50.0, 20.0, 70.0, 70.000004, 70.00001, 100.0, 0.0, -0.5, 19.99999, 130.0, 0.7]), ('energy', [100.0, None, 20.0, 19.0, 0.0]), ('agc', [1, 0]), ('detail', [True, False]), ('services', ['some', 'rest'])]
B_TRAPS = {'both': ((-100, -80, 80, 100), (0, 0, 80, 100), (-100, -80, 0, 0)), 'up': ((10, 20, 80, 100), (10, 20, 80, 100), (0, 0, 0, 0)), 'down': ((-100, -80, -30, -10), (0, 0, 0, 0), (-100, -80, -30, -10)),
           'narrow': ((-5, -5, 5, 5), (0, 0, 5, 5), (-5, -5, 0, 0))}
B_DIMS = [('trap', list(B_TRAPS)), ('offers', ['all', 'gen', 'load', 'con']), ('avail', [20, 0, 0.5]), ('load_avail', [20, 0, 0.5]), ('bands', ['first', 'last', 'nothing', 'only5', 'small']), ('rates', [(None, None), (120.0, 60.0), (0.0, 180.0), (3.0, 0.6)]), ('limits', ['loose', 'none']),
          ('initial', [0.0, 50.0, -50.0, -100.0, 100.0, 5.0, -5.0, 101.0, -100.00001, 4.0, 0.5, -0.5]), ('gen', [100.0, 5.0, 0.0, None]), ('load', [100.0, 5.0, 0.0, None]), ('agc', [1, 0]), ('stlf', [True, False]), ('services', ['some', 'rest'])]


# the same around a unit to which every scaling step applies
FIRST = dict(limits='tight', rates=(120.0, 60.0), uigf=85.0)
DIMS2 = [(n, [FIRST[n]] + [x for x in v if x != FIRST[n]] if n in FIRST else v) for n, v in DIMS]


def unit(k, f):
    bands, n = BANDS[f['bands']], k % 7
    fc = [dict(tt=tt, avail=f['avail'], bands=[b * (j + 1) for b in bands], prices=[n + j + i * 2 for i in range(10)], trap=TRAPS[f['trap']]) for j, tt in enumerate(ALL if f['services'] == 'some' else REST)]
    return dict(id='U%d' % k, kind=f['kind'], bids=[] if f['energy'] is None else [(None, dict(avail=f['energy'], bands=[f['energy'] / 2, 7.0 + n], prices=[10.0 * i + n for i in range(10)], ramp=(600, 600)))], fcas=fc, initial=f['initial'], up=f['rates'][0], down=f['rates'][1],
                agc=f['agc'], uigf=f['uigf'], agc_limits=LIMITS[f['limits']], detail=[dict(region='R', tlf=0.9 + n / 100, dlf=0.98)] if f['detail'] else [])


def bdu(k, f):
    n = k % 7
    con, gen, load = B_TRAPS[f['trap']]
    bands = BANDS[f['bands']]
    fc = []
    for j, tt in enumerate(REG):
        if f['offers'] in ('all', 'gen'):
            fc.append(dict(tt=tt, dir='GEN', avail=f['avail'], bands=[b * (j + 1) for b in bands], prices=[n + j + i for i in range(10)], trap=gen))
        if f['offers'] in ('all', 'load'):
            fc.append(dict(tt=tt, dir='LOAD', avail=f['load_avail'], bands=[b * (j + 3) for b in bands], prices=[n + j + i * 3 for i in range(10)], trap=load))
    for j, tt in enumerate(('R1SE', 'L6SE', 'R60S') if f['services'] == 'some' else ('R6SE', 'L1SE', 'L60S', 'R5MI', 'L5MI')):
        fc.append(dict(tt=tt, avail=f['avail'], bands=[b * (j + 5) for b in bands], prices=[n + j + i * 5 for i in range(10)], trap=con))
    bids = [(d, dict(avail=f[x], bands=[f[x] / 2 + 1, 7.0 + n], prices=[10.0 * i + n + (d == 'GEN') for i in range(10)], ramp=(600, 600))) for d, x in (('GEN', 'gen'), ('LOAD', 'load')) if f[x] is not None]
    return dict(id='B%d' % k, kind='bdu', bids=bids, fcas=fc, initial=f['initial'], up=f['rates'][0], down=f['rates'][1], agc=f['agc'], agc_limits=LIMITS[f['limits']],
                detail=[dict(region='R', tlf=0.9 + n / 100, dlf=0.98, stlf=0.8 + n / 100 if f['stlf'] else None, type='BIDIRECTIONAL')])


def listing(c):
    if c['what'] == 'bdu':
        return itertools.islice(deviations(B_DIMS, c['k']), c['from'], c['to'])
    return itertools.islice(deviations(DIMS2 if c['what'] == 'scaled' else DIMS, c['k']), c['from'], c['to'])


def run_case(c):
    if c['kind'] == 'few':
        us = [(bdu if 'offers' in f else unit)(k, dict(f, rates=tuple(f['rates']))) for k, f in enumerate(c['units'])]
    else:
        us = [(bdu if c['what'] == 'bdu' else unit)(k, f) for k, f in enumerate(listing(c))]
    # collections of the file hold at least two units
    us.append(dict(id='plain', kind='gen', bids=[(None, dict(avail=40.0, bands=[40.0], prices=[float(i) for i in range(10)]))], initial=1.0, agc=1, fcas=[], detail=[dict(region='R', tlf=1.0, dlf=1.0)], agc_limits={}))
    return judge(us, c['interval'])


def cases(tier):
    k = 3 if tier == 'quick' else 4
    size = 120
    few = [dict(f) for f in deviations(DIMS, 1)] + [dict(f) for f in deviations(B_DIMS, 1)]
    for f in few:
        yield dict(kind='few', units=[f], interval=INTERVAL)
    for a, b in itertools.product(few[1:], repeat=2) if tier != 'quick' else zip(few, few[17:] + few[:17]):
        yield dict(kind='few', units=[a, b], interval=INTERVAL)
    for what, dims in ('bdu', B_DIMS), ('unit', DIMS), ('scaled', DIMS2):
        n = sum(1 for _ in deviations(dims, k))
        for i in range(0, n, size):
            yield dict(kind='many', what=what, k=k, **{'from': i, 'to': i + size}, interval=INTERVAL)
    # before the bid availability of semi-scheduled units was a limit
    n = sum(1 for _ in deviations(DIMS, 2))
    for i in range(0, n, size):
        yield dict(kind='many', what='unit', k=2, **{'from': i, 'to': i + size}, interval='2023/07/07 13:35:00')


def run():
    return main('H03', cases, run_case,
                'every unit deviating from a plain one in up to the bounded number of features (kind, trapezium, availability, bands, telemetered enablement limits, ramp rates, forecast, initial output, energy availability, AGC status, registration, services) offers two regulation and two to six contingency services; files with batches of them and with one or two of them are processed by the real code and the bids, trapeziums and prices compared with the published rules; the processing is repeated and the order of calls checked',
                {'quick': 'up to 3 deviating features of 12 (13 for bidirectional units) from a plain unit and from one to which all scaling steps apply', 'thorough': 'up to 4 deviating features, all pairs of single deviations'},
                assumptions=['a negative initial output of a unit that is not bidirectional counts as zero', 'negative telemetered enablement limits are not specified', 'for bidirectional units (not in the published document) the limits of the two directions are joined as the code documents', 'AGC status absent is not specified'], chunk=1)

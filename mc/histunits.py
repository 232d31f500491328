"""Specs of historical units -> an interval file plus database rows, for the checks of the unit tables."""
from .nemde import *

# kind: trader type, energy trade type
KINDS = dict(gen=('GENERATOR', 'ENOF'), load=('LOAD', 'LDOF'), nload=('NORMALLY_ON_LOAD', 'ENOF'), wdr=('WDR', 'DROF'), bdu=('BIDIRECTIONAL', 'BDOF'))
SIDE = dict(gen='generator', load='load', nload='generator', wdr='generator', bdu='generator')
SERVICE = dict(R5RE='raise_reg', L5RE='lower_reg', R6SE='raise_6s', R1SE='raise_1s', R60S='raise_60s', R5MI='raise_5min', L6SE='lower_6s', L1SE='lower_1s', L60S='lower_60s', L5MI='lower_5min')


def pieces(units):
    """units: list of dicts
    id, kind, bids [ (direction or None, dict(avail, bands, prices, ramp)) ] energy offers,
    fcas [ dict(tt, dir, avail, trap, bands, prices) ], initial, up, down, agc, uigf, detail [dict(...)] records, agc_limits dict or None"""
    traders, periods, details, load = [], [], [], []
    for u in units:
        typ, tt = KINDS[u['kind']]
        ic = {}
        for k, n in (('initial', 'InitialMW'), ('up', 'SCADARampUpRate'), ('down', 'SCADARampDnRate'), ('agc', 'AGCStatus')):
            if u.get(k) is not None:
                ic[n] = u[k]
        ic['HMW'] = 12345.0
        ic['WhatIfInitialMW'] = 54321.0
        prices, trades = [], []
        for d, b in u.get('bids', []):
            prices.append(price(tt, d, b['prices']))
            r = b.get('ramp') or (None, None)
            trades.append(trade(tt, d, b['avail'], b['bands'], RampUpRate=r[0], RampDnRate=r[1]))
        for f in u.get('fcas', []):
            prices.append(price(f['tt'], f.get('dir'), f['prices']))
            trades.append(trade(f['tt'], f.get('dir'), f['avail'], f['bands'], f['trap']))
        traders.append(dict(id=u['id'], type=typ, ic=ic, price=prices))
        periods.append(dict(id=u['id'], trades=trades, uigf=u.get('uigf')))
        for d in u.get('detail', []):
            details.append(dict(DUID=u['id'], START_DATE=d.get('start', '2020/01/01 00:00:00'), END_DATE=d.get('end', '2100/12/31 00:00:00'), DISPATCHTYPE=d.get('type', 'GENERATOR'), CONNECTIONPOINTID='CP' + u['id'],
                                REGIONID=d['region'], TRANSMISSIONLOSSFACTOR=d['tlf'], DISTRIBUTIONLOSSFACTOR=d['dlf'], SCHEDULE_TYPE='SCHEDULED', SECONDARY_TLF=d.get('stlf')))
        if u.get('agc_limits') is not None:
            load.append(dict(dict(SETTLEMENTDATE=INTERVAL, DUID=u['id'], TOTALCLEARED=1.0), **u['agc_limits']))
    return dict(traders=traders, periods=periods), dict(DUDETAILSUMMARY=details, DISPATCHLOAD=load)


def rows(df, cols, what):
    """records of a table as a sorted list of tuples, absent values as None"""
    from .common import Violation
    if sorted(df.columns) != sorted(cols):
        raise Violation('%s: columns %s instead of %s' % (what, list(df.columns), cols))
    out = []
    for r in df[cols].itertuples(index=False):
        out.append(tuple(x if isinstance(x, str) else (None if x is None or x != x else round(float(x), 9)) for x in r))
    return out


def key(r):
    return tuple((x is None, x if isinstance(x, str) else '', 0 if x is None or isinstance(x, str) else x) for x in r)


def same_rows(df, cols, want, what):
    from .common import Violation
    got = sorted(rows(df, cols, what), key=key)
    want = sorted([tuple(x if isinstance(x, str) or x is None else round(float(x), 9) for x in w) for w in want], key=key)
    if len(got) == len(want) and all(len(a) == len(b) and all(x == y or (isinstance(x, float) and isinstance(y, float) and abs(x - y) < 1e-6) for x, y in zip(a, b)) for a, b in zip(got, want)):
        return
    if got != want:
        a, b = [g for g in got if g not in want], [w for w in want if w not in got]
        raise Violation('%s: wrong rows %s, missing rows %s, %d rows instead of %d (columns %s)' % (what, str(a[:3])[:400], str(b[:3])[:400], len(got), len(want), cols))

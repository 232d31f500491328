"""D01: which records a query of the local database returns."""
import itertools
from ..common import *
from ..nemde import *

S = ['2024/02/29 23:55:00', '2024/03/01 00:00:00', '2024/03/01 04:00:00', '2024/03/01 04:05:00', '2024/03/01 12:00:00']
D = ['2023/12/01 00:00:00', '2024/02/29 00:00:00', '2024/03/01 00:00:00']
Q = ['2023/11/30 23:55:00', '2023/12/01 00:00:00', '2024/02/28 23:55:00', '2024/02/29 00:00:00', '2024/02/29 23:55:00', '2024/03/01 00:00:00', '2024/03/01 12:00:00', '2031/01/01 00:00:00']
VERS = ('DUDETAIL', 'MNSP_INTERCONNECTOR', 'INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL')
MULTI = dict(DISPATCHREGIONSUM='REGIONID', DISPATCHLOAD='DUID', DISPATCHPRICE='REGIONID', DISPATCHCONSTRAINT='CONSTRAINTID', DISPATCHINTERCONNECTORRES='INTERCONNECTORID')
MATCH = ('GENCONDATA', 'SPDREGIONCONSTRAINT', 'SPDCONNECTIONPOINTCONSTRAINT', 'SPDINTERCONNECTORCONSTRAINT')
LOADER = dict(DISPATCHREGIONSUM='get_regional_loads', DISPATCHLOAD='get_agc_enablement_limits', DUDETAILSUMMARY='get_unit_details', MNSP_INTERCONNECTOR='get_market_interconnectors',
              INTERCONNECTORCONSTRAINT='get_interconnector_constraint_parameters', LOSSMODEL='get_interconnector_loss_segments', LOSSFACTORMODEL='get_interconnector_loss_parameters')


def fill(cols, i, **keys):
    """a record with a distinct number in every other column"""
    r = {}
    for k, c in enumerate(cols):
        r[c] = keys[c] if c in keys else i * 100 + k + 0.5
    r['LASTCHANGED'] = '2024/01/01 00:00:00'
    return r


def expect(got, want, cols, what):
    a, b = records(got), as_records(want, cols)
    if a != b:
        x, y = [r for r in a if r not in b], [r for r in b if r not in a]
        raise Violation('%s: %d records instead of %d; not applicable: %s missing: %s' % (what, len(a), len(b), str(x[:2])[:500], str(y[:2])[:500]))


class Null:
    def __init__(self):
        self.interval = None

    def load_interval(self, i):
        self.interval = i


def ask(db, table, t, want):
    tab = getattr(db, table)
    call()
    expect(tab.get_data(t), want, tab.table_columns, '%s at %s' % (table, t))
    if table in LOADER:
        l = loaders.RawInputsLoader(Null(), db)
        l.set_interval(t)
        call()
        expect(getattr(l, LOADER[table])(), want, tab.table_columns, 'loader: %s at %s' % (table, t))


def run_case(c):
    return dict(multi=run_multi, day=run_day, start=run_start, version=run_version, match=run_match, nofilter=run_nofilter)[c['kind']](c)


def run_multi(c):
    """months added one by one in the given order, queried in between"""
    arch = Archive()
    with database({}) as db, network(arch):
        tab = getattr(db, c['table'])
        key = MULTI[c['table']]
        have = []
        for m, pick in c['months']:
            rows = [fill(tab.table_columns, 1 + n, SETTLEMENTDATE=S[s], **{key: k}) for n, (s, k) in enumerate(itertools.product(range(len(S)), ('A', 'B'))) if n in pick]
            arch.put(c['table'], 2024, m, rows, columns=tab.table_columns + ['LASTCHANGED'])
            call()
            tab.add_data(year=2024, month=m)
            have += rows
            for t in S + ['2024/03/01 00:05:00', '2030/01/01 00:00:00']:
                ask(db, c['table'], t, [r for r in have if r['SETTLEMENTDATE'] == t])
    return len(have)


def run_day(c):
    """trading day and interval filters (tables a user defines)"""
    import datetime as dt
    with database({}) as db:
        cols = ['SETTLEMENTDATE', 'DUID', 'BIDTYPE', 'PRICEBAND1']
        tab = mms_db.InputsByDay(table_name='BIDDAYOFFER_D', table_columns=cols, table_primary_keys=['SETTLEMENTDATE', 'DUID', 'BIDTYPE'], con=db.con)
        tab.create_table_in_sqlite_db()
        icols = ['INTERVAL_DATETIME', 'DUID', 'BIDTYPE', 'BANDAVAIL1']
        tabi = mms_db.InputsByIntervalDateTime(table_name='BIDPEROFFER_D', table_columns=icols, table_primary_keys=['INTERVAL_DATETIME', 'DUID', 'BIDTYPE'], con=db.con)
        tabi.create_table_in_sqlite_db()
        days = [dt.date(*c['first']) + dt.timedelta(days=i) for i in range(3)]
        rows, irows = [], []
        t = dt.datetime(days[0].year, days[0].month, days[0].day, 3, 55)
        times = []
        while t <= dt.datetime(days[2].year, days[2].month, days[2].day, 4, 10):
            times.append(t)
            t += dt.timedelta(minutes=5)
        for n, (d, u) in enumerate(itertools.product(days, 'AB')):
            if n in c['pick']:
                rows.append(dict(SETTLEMENTDATE=d.strftime('%Y/%m/%d 00:00:00'), DUID=u, BIDTYPE='ENERGY', PRICEBAND1=n + 0.5))
        for n, x in enumerate(times[::7]):
            irows.append(dict(INTERVAL_DATETIME=x.strftime('%Y/%m/%d %H:%M:%S'), DUID='A', BIDTYPE='ENERGY', BANDAVAIL1=n + 0.5))
        insert(db.con, 'BIDDAYOFFER_D', rows)
        insert(db.con, 'BIDPEROFFER_D', irows)
        for x in times:
            q = x.strftime('%Y/%m/%d %H:%M:%S')
            day = x.date() if (x.hour, x.minute) >= (4, 5) else x.date() - dt.timedelta(days=1)
            call()
            expect(tab.get_data(q), [r for r in rows if r['SETTLEMENTDATE'] == day.strftime('%Y/%m/%d 00:00:00')], cols, 'trading day of %s' % q)
            call()
            expect(tabi.get_data(q), [r for r in irows if r['INTERVAL_DATETIME'] == q], icols, 'interval %s' % q)
    return len(rows)


def run_start(c):
    arch = Archive()
    with database({}) as db, network(arch):
        tab = db.DUDETAILSUMMARY
        rows, n = [], 0
        for u, starts in c['units'].items():
            ds = [D[i] for i in starts]
            for k, s in enumerate(ds):
                n += 1
                rows.append(fill(tab.table_columns, n, DUID=u, START_DATE=s, END_DATE=ds[k + 1] if k + 1 < len(ds) else '2999/12/31 00:00:00', DISPATCHTYPE='GENERATOR', CONNECTIONPOINTID='C%d' % n, REGIONID='NSW1',
                                 SCHEDULE_TYPE='SCHEDULED'))
        order = {'asc': rows, 'desc': rows[::-1], 'mix': rows[1::2] + rows[::2]}[c['order']]
        arch.put('DUDETAILSUMMARY', 2024, 3, order, columns=tab.table_columns + ['LASTCHANGED'])
        call()
        tab.set_data(year=2024, month=3)
        for t in Q:
            want = []
            for u in c['units']:
                ok = [r for r in rows if r['DUID'] == u and r['START_DATE'] <= t]
                if ok:
                    want.append(max(ok, key=lambda r: r['START_DATE']))
            ask(db, 'DUDETAILSUMMARY', t, want)
    return len(rows)


def run_version(c):
    """versioned tables: highest version of the latest effective date, per key"""
    arch = Archive()
    t = c['table']
    with database({}) as db, network(arch):
        tab = getattr(db, t)
        cols = tab.table_columns
        rows, n = [], 0
        for key, recs in c['keys'].items():
            for d, v in recs:
                segs = [{}]
                if t == 'LOSSMODEL':
                    segs = [dict(LOSSSEGMENT=s, MWBREAKPOINT=s * 10.0 + v) for s in range(1, 2 + (v % 2 == 0) + (d == 1))]
                if t == 'LOSSFACTORMODEL':
                    segs = [dict(REGIONID=r) for r in (('NSW1', 'QLD1') if d != 1 else ('NSW1', 'SA1', 'VIC1'))]
                for s in segs:
                    n += 1
                    kk = dict(DUID=key) if t == 'DUDETAIL' else dict(INTERCONNECTORID=key)
                    if t == 'MNSP_INTERCONNECTOR':
                        kk = dict(INTERCONNECTORID=key[:1], LINKID=key, FROMREGION='NSW1', TOREGION='QLD1')
                    if t == 'INTERCONNECTORCONSTRAINT':
                        kk['ICTYPE'] = 'REGULATED'
                    kk.update(s)
                    rows.append(fill(cols, n, EFFECTIVEDATE=D[d], VERSIONNO=v, **kk))
        order = {'asc': rows, 'desc': rows[::-1], 'mix': rows[1::2] + rows[::2]}[c['order']]
        arch.put(t, 2024, 3, order, columns=cols + ['LASTCHANGED'])
        used = c.get('used')
        joined = t in ('INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL')
        if joined:
            f = []
            for i, x in enumerate(Q):
                for j, k in enumerate(c['keys']):
                    if used == 'all' or (used == 'first' and j == 0) or (used == 'alternate' and (i + j) % 2 == 0):
                        f.append(dict(INTERCONNECTORID=k, SETTLEMENTDATE=x, MWFLOW=1.5, MWLOSSES=0.5))
            arch.put('DISPATCHINTERCONNECTORRES', 2024, 3, f, columns=['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES'])
            db.DISPATCHINTERCONNECTORRES.add_data(year=2024, month=3)
        call()
        tab.set_data(year=2024, month=3)
        for q in (Q if not c.get('back') else Q[::-1]):
            want = []
            for k in c['keys']:
                name = 'LINKID' if t == 'MNSP_INTERCONNECTOR' else ('DUID' if t == 'DUDETAIL' else 'INTERCONNECTORID')
                if joined and not any(r['INTERCONNECTORID'] == k and r['SETTLEMENTDATE'] == q for r in f):
                    continue
                ok = [r for r in rows if r[name] == k and r['EFFECTIVEDATE'] <= q]
                if ok:
                    e = max(r['EFFECTIVEDATE'] for r in ok)
                    v = max(r['VERSIONNO'] for r in ok if r['EFFECTIVEDATE'] == e)
                    want += [r for r in ok if r['EFFECTIVEDATE'] == e and r['VERSIONNO'] == v]
            ask(db, t, q, want)
    return len(rows)


def run_match(c):
    arch = Archive()
    t = c['table']
    with database({}) as db, network(arch):
        tab = getattr(db, t)
        rows, n = [], 0
        for s, d, v in c['defined']:
            for extra in ([{}] if t == 'GENCONDATA' else [dict(x=1), dict(x=2)]):
                n += 1
                kk = dict(GENCONID=s, EFFECTIVEDATE=D[d], VERSIONNO=v, CONSTRAINTTYPE='LE', BIDTYPE='ENERGY')
                for col in ('REGIONID', 'CONNECTIONPOINTID', 'INTERCONNECTORID'):
                    kk[col] = 'K%d' % extra.get('x', 0)
                rows.append(fill(tab.table_columns, n, **kk))
        arch.put(t, 2010, 1, rows, columns=tab.table_columns + ['LASTCHANGED'])
        ran = []
        for q, s, d, v in c['ran']:
            n += 1
            ran.append(fill(db.DISPATCHCONSTRAINT.table_columns, n, SETTLEMENTDATE=Q[q], CONSTRAINTID=s, GENCONID_EFFECTIVEDATE=D[d], GENCONID_VERSIONNO=v))
        arch.put('DISPATCHCONSTRAINT', 2010, 1, ran, columns=db.DISPATCHCONSTRAINT.table_columns)
        db.DISPATCHCONSTRAINT.add_data(year=2010, month=1)
        call()
        tab.set_data(year=2010, month=1)
        for q in range(len(Q)):
            want = [r for r in rows if any(a == q and (r['GENCONID'], r['EFFECTIVEDATE'], r['VERSIONNO']) == (s, D[d], v) for a, s, d, v in c['ran'])]
            ask(db, t, Q[q], want)
    return len(rows)


def run_nofilter(c):
    arch = Archive()
    with database({}) as db, network(arch):
        rows = [dict(INTERCONNECTORID='I%d' % i, REGIONFROM='NSW1', REGIONTO='QLD1') for i in range(c['n'])]
        arch.put('INTERCONNECTOR', 2024, 3, rows, columns=['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO', 'DESCRIPTION'])
        call()
        db.INTERCONNECTOR.set_data(year=2024, month=3)
        expect(db.INTERCONNECTOR.get_data(), rows, ['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'], 'INTERCONNECTOR')
        l = loaders.RawInputsLoader(Null(), db)
        l.set_interval(Q[0])
        expect(l.get_interconnector_definitions(), rows, ['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'], 'loader INTERCONNECTOR')
    return c['n']


def cases(tier):
    big = tier != 'quick'
    N = len(S) * 2
    for table in MULTI:
        for a in itertools.chain.from_iterable(itertools.combinations(range(N), k) for k in ((0, 1, 2, 3, 5) if not big else range(N + 1))):
            rest = [i for i in range(N) if i not in a]
            if big or hash(a) % 3 == 0 or len(a) < 3:
                yield dict(kind='multi', table=table, months=[(3, list(a)), (2, rest)])
    for first in ((2024, 2, 28), (2023, 12, 30), (2024, 7, 1)):
        for k in range(7):
            for pick in itertools.combinations(range(6), k):
                yield dict(kind='day', first=first, pick=list(pick))
    subs = [list(x) for k in range(4) for x in itertools.combinations(range(3), k)]
    for a, b in itertools.product(subs, subs):
        for o in ('asc', 'desc', 'mix'):
            yield dict(kind='start', units={'A': a, 'B': b}, order=o)
    recs = list(itertools.product(range(3), (1, 2, 10)))
    pool = [list(x) for k in range(0, len(recs) + 1) for x in itertools.combinations(recs, k)]
    small = [[], [(0, 1)], [(1, 2), (1, 10)], [(0, 10), (2, 1)], [(0, 2), (1, 1), (2, 9)]]
    for t in VERS:
        keys = ('X1', 'X2') if t == 'MNSP_INTERCONNECTOR' else ('A', 'B')
        for n, a in enumerate(pool):
            for m, b in enumerate(small):
                if not big and (n + m) % 3 and len(a) > 2:
                    continue
                for used in (('all', 'first', 'alternate') if t[:4] in ('INTE', 'LOSS') else (None,)):
                    if not big and used != 'all' and (n + m) % 5:
                        continue
                    for o in ('asc', 'desc', 'mix') if big else (('asc', 'desc', 'mix')[(n + m) % 3],):
                        yield dict(kind='version', table=t, keys={keys[0]: a, keys[1]: b}, used=used, order=o, back=n % 2 == 0)
    defs = list(itertools.product(('S', 'T'), (1, 2), (1, 2)))
    for t in MATCH:
        for k in range(0, len(defs) + 1):
            for d in itertools.combinations(defs, k):
                for ran in ([], [(3, 'S', 1, 1)], [(3, 'S', 1, 2), (3, 'T', 2, 1), (4, 'S', 2, 2)], [(1, 'S', 2, 1), (5, 'S', 1, 1), (5, 'T', 1, 1), (5, 'U', 1, 1)], [(5, 'S', 0, 1), (6, 'T', 2, 10)]):
                    if big or (len(d) <= 4 and (len(d) <= 2 or t == 'GENCONDATA')):
                        yield dict(kind='match', table=t, defined=list(d), ran=ran)
    for n in (0, 1, 3):
        yield dict(kind='nofilter', n=n)


def run():
    return main('D01', cases, run_case,
                'small table contents are published on a stand-in of the download site, loaded with the real loading calls, and every table is queried (directly and through the inputs loader) at times before, at and after every boundary; the answer is compared record by record with the records selected from the content by the definition of the filter',
                {'quick': 'all subsets of 3 effective dates x 3 versions (incl. 10) for one key with 5 contents of another, 3 row orders; all subsets of settlement records in 2 months; every five minutes of 2 days for trading day tables', 'thorough': 'all row orders and subsets for all tables'},
                assumptions=['tables are loaded with the loading calls (records inserted by hand into text typed version columns compare as text)', 'the ranges of one unit follow each other without gaps; what to return in a gap is not checked'])

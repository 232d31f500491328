"""D02: loading the local database, every history of create, add, set and populate calls against a model of the table contents."""
import itertools
from ..common import *
from ..nemde import *
from .d01 import fill, MULTI, MATCH

SINGLE = ('DUDETAILSUMMARY', 'DUDETAIL', 'INTERCONNECTOR', 'INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL', 'MNSP_INTERCONNECTOR')
TEXT = dict(DISPATCHTYPE='GENERATOR', SCHEDULE_TYPE='SCHEDULED', ICTYPE='REGULATED', CONSTRAINTTYPE='LE')


def content(tab, year, month, variant):
    """the published records of a table in a month: (rows in the file, rows wanted from it)"""
    name, cols = tab.table_name, tab.table_columns
    tag = year * 100 + month
    rows = []

    def rec(i, **kw):
        r = fill(cols, tag + i / 10, **kw)
        for c in cols:
            if c in TEXT:
                r[c] = TEXT[c]
        return r
    if name in MULTI:
        key = MULTI[name]
        for d in (1, 2, 28):
            for k in ('A', 'B'):
                t = '%d/%02d/%02d 00:05:00' % (year, month, d)
                n = len(rows)
                if variant == 'allint':
                    rows.append(dict(rec(n, SETTLEMENTDATE=t, **{key: k}), INTERVENTION=1))
                elif variant == 'intervention':
                    for iv in ((0, 1) if d == 1 else (1, 0)):
                        rows.append(dict(rec(n + 50 * iv, SETTLEMENTDATE=t, **{key: k}), INTERVENTION=iv))
                else:
                    rows.append(rec(n, SETTLEMENTDATE=t, **{key: k}))
                    if variant == 'zero':
                        rows[-1]['INTERVENTION'] = 0
        if variant == 'repeat':
            rows += rows[:3]
        if variant == 'overlap':
            # one record of the month before is published again
            y, m = (year, month - 1) if month > 1 else (year - 1, 12)
            rows.insert(0, fill(cols, y * 100 + m, SETTLEMENTDATE='%d/%02d/01 00:05:00' % (y, m), **{key: 'A'}))
    else:
        ids = [k for k in tab.table_primary_keys if k not in ('EFFECTIVEDATE', 'VERSIONNO', 'START_DATE', 'BIDTYPE')]
        for n, (a, d) in enumerate(itertools.product('AB', ('2010/01/01 00:00:00', '%d/%02d/01 00:00:00' % (year, month)))):
            if name == 'INTERCONNECTOR' and d[:4] == '2010':
                continue
            kk = {i: a + i[:2] for i in ids}
            kk.update(EFFECTIVEDATE=d, START_DATE=d, END_DATE='2999/12/31 00:00:00', VERSIONNO=1 + (n % 2), BIDTYPE='ENERGY')
            segs = [{}]
            if name == 'LOSSMODEL':
                segs = [dict(LOSSSEGMENT=s) for s in (1, 2, 10)]
            if name == 'LOSSFACTORMODEL':
                segs = [dict(REGIONID=s) for s in ('NSW1', 'VIC1')]
            for s in segs:
                for c in cols:
                    if c in ('REGIONID', 'CONNECTIONPOINTID', 'REGIONFROM', 'REGIONTO', 'FROMREGION', 'TOREGION') and c not in kk and c not in s:
                        s[c] = 'R1'
                rows.append(rec(len(rows), **dict(kk, **s)))
    cols = list(cols)
    if variant == 'short':
        cols = [c for c in cols if c != cols[-1]]
        for r in rows:
            r.pop(tab.table_columns[-1], None)
    pub = ['LASTCHANGED'] + cols + (['INTERVENTION'] if variant in ('intervention', 'zero', 'allint') else []) + ['EXTRA']
    for r in rows:
        r['EXTRA'] = 'x'
    want, seen = [], set()
    for r in rows:
        if r.get('INTERVENTION', 0) == 0:
            k = tuple(r[x] for x in tab.table_primary_keys)
            if name not in MULTI or k not in seen:
                seen.add(k)
                want.append(r)
    return rows, pub, want


def table_rows(db, name):
    return pd.read_sql_query('SELECT * FROM %s' % name, con=db.con)


def key_of(tab, r):
    return tuple(plain(r.get(k)) for k in tab.table_primary_keys)


def compare(db, tab, model, what):
    got, want = records(table_rows(db, tab.table_name)), as_records(model, tab.table_columns)
    if got != want:
        raise Violation('%s: table %s holds %d records instead of %d; extra %s missing %s' % (what, tab.table_name, len(got), len(want), str([r for r in got if r not in want][:2])[:400], str([r for r in want if r not in got][:2])[:400]))


def months_back(y, m, first=(2010, 1)):
    while (y, m) >= first:
        yield y, m
        y, m = (y, m - 1) if m > 1 else (y - 1, 12)


def run_case(c):
    return dict(hist=run_hist, populate=run_populate, clash=run_clash)[c['kind']](c)


def run_clash(c):
    """a month with two records of one key, which differ elsewhere: one of them is stored, and all the others"""
    arch = Archive()
    with database({}, create=False) as db, network(arch):
        tab = getattr(db, c['table'])
        rows, cols, want = content(tab, *c['month'], 'plain')
        twice = [dict(rows[2]), dict(rows[2])]
        for k in cols:
            if isinstance(twice[1].get(k), float):
                twice[1][k] += 0.25
        arch.put(c['table'], *c['month'], rows[:2] + [twice[0]] + rows[3:] + [twice[1]], cols)
        db.create_tables()
        call()
        tab.add_data(year=c['month'][0], month=c['month'][1])
        got = records(table_rows(db, c['table']))
        for w in (want, want[:2] + [twice[1]] + want[3:]):
            if got == as_records(w, tab.table_columns):
                return len(got)
        raise Violation('a month with two records of one key: table %s holds %d records instead of %d' % (c['table'], len(got), len(want)))


def run_hist(c):
    """ops on one table: create / add y m / set y m"""
    arch = Archive(fail={(c['table'], y, m): how for y, m, how in c.get('fail', [])})
    with database({}, create=False) as db, network(arch):
        tab = getattr(db, c['table'])
        wants = {}
        for y, m, var in c['months']:
            if var is None:
                continue
            rows, cols, want = content(tab, y, m, var)
            arch.put(c['table'], y, m, rows, cols)
            wants[(y, m)] = (want, var)
        broken = {(y, m) for y, m, how in c.get('fail', [])}
        other = 'DISPATCHPRICE' if c['table'] != 'DISPATCHPRICE' else 'DISPATCHLOAD'
        db.create_tables()
        insert(db.con, other, [{'SETTLEMENTDATE': 'x', MULTI[other]: 'q'}])
        model = []
        pk = True
        for op in c['ops']:
            before = list(model)
            call()
            what = 'after %s' % (op,)
            if op[0] == 'create':
                tab.create_table_in_sqlite_db()
                model = []
            else:
                y, m = op[1], op[2]
                err = None
                try:
                    (tab.add_data if op[0] == 'add' else tab.set_data)(year=y, month=m)
                except Exception as e:
                    err = e
                there = (y, m) in wants and (y, m) not in broken
                if op[0] == 'add':
                    if not there:
                        if err is None:
                            raise Violation('%s: adding a month that could not be downloaded reports success' % what)
                    else:
                        want = wants[(y, m)][0]
                        have = {key_of(tab, r) for r in model}
                        new = [r for r in want if key_of(tab, r) not in have]
                        if len(new) == len(want):
                            if err is not None:
                                raise Violation('%s: failed with %s: %s' % (what, type(err).__name__, err))
                            model = model + want
                        elif err is None:
                            model = model + new
                elif c['table'] in MATCH:
                    ok, keys = [], set()
                    found = False
                    for k in months_back(y, m):
                        if k in wants and k not in broken and wants[k][1] != 'short':
                            found = True
                            for r in wants[k][0]:
                                if key_of(tab, r) not in keys:
                                    ok.append(r)
                            keys |= {key_of(tab, r) for r in ok}
                    if err is None:
                        if found:
                            model = ok
                    elif not any(k in broken for k in months_back(y, m)):
                        raise Violation('%s: failed with %s: %s' % (what, type(err).__name__, err))
                    else:
                        return 'stopped', type(err).__name__
                else:
                    if there:
                        if err is not None:
                            raise Violation('%s: failed with %s: %s' % (what, type(err).__name__, err))
                        model = list(wants[(y, m)][0])
                    elif err is None:
                        raise Violation('%s: setting a month that could not be downloaded reports success' % what)
            compare(db, tab, model, what)
        if len(table_rows(db, other)) != 1:
            raise Violation('another table was changed')
        return len(model)


def run_populate(c):
    arch = Archive()
    with database({}, create=False) as db, network(arch):
        tabs = {n: t for n, t in db.__dict__.items() if hasattr(t, 'create_table_in_sqlite_db')}
        cache = {}
        for y, m in months_back(*c['upto'], first=tuple(c['from'])):
            for n, t in tabs.items():
                rows, cols, want = content(t, y, m, 'intervention' if n in ('DISPATCHLOAD', 'DISPATCHPRICE') else 'zero')
                arch.put(n, y, m, rows, cols)
                cache[(n, y, m)] = want
        for a, b in c['ranges']:
            call()
            db.populate(start_year=a[0], start_month=a[1], end_year=b[0], end_month=b[1], verbose=c.get('verbose', False))
            start = (a[0], a[1] - 1) if a[1] > 1 else (a[0] - 1, 12)
            for n, t in tabs.items():
                if n in MULTI:
                    want = [r for y, m in months_back(*b, first=start) for r in cache[(n, y, m)]]
                elif n in MATCH:
                    want, keys = [], set()
                    for y, m in months_back(*b):
                        for r in cache.get((n, y, m), []):
                            if key_of(t, r) not in keys:
                                keys.add(key_of(t, r))
                                want.append(r)
                else:
                    want = cache[(n, b[0], b[1])]
                compare(db, t, want, 'after populate %s to %s' % (a, b))
    return len(arch.asked)


def cases(tier):
    big = tier != 'quick'
    M = [(2023, 12), (2024, 1), (2024, 2), (2024, 7), (2024, 8), (2025, 1)]
    variants = ('plain', 'intervention', 'zero', 'repeat', 'short', 'allint')
    for t in MULTI:
        for var in variants:
            months = [(y, m, var) for y, m in M]
            ops = [('create',)] + [('add', y, m) for y, m in M]
            for h in itertools.product(ops, repeat=2 if not big else 3):
                yield dict(kind='hist', table=t, months=months, ops=list(h))
            for h in itertools.product([('create',), ('add', 2023, 12), ('add', 2024, 1), ('add', 2024, 8), ('add', 2011, 1)], repeat=3 if not big else 4):
                if big or var in ('plain', 'intervention'):
                    yield dict(kind='hist', table=t, months=months, ops=list(h))
        for y, m in M:
            yield dict(kind='clash', table=t, month=(y, m))
        for h in itertools.product([('add', 2023, 12), ('add', 2024, 1), ('add', 2024, 2)], repeat=3):
            yield dict(kind='hist', table=t, months=[(2023, 12, 'plain'), (2024, 1, 'overlap'), (2024, 2, 'overlap')], ops=list(h))
            for how in ('404', 'html', 'refuse'):
                yield dict(kind='hist', table=t, months=[(2023, 12, 'plain'), (2024, 1, 'plain'), (2024, 2, 'plain')], ops=list(h), fail=[(2024, 1, how)])
    for t in SINGLE:
        for var in ('plain', 'short'):
            months = [(y, m, var) for y, m in M]
            ops = [('create',)] + [('set', y, m) for y, m in M] + [('set', 2024, 3)]
            for h in itertools.product(ops, repeat=2 if not big else 3):
                yield dict(kind='hist', table=t, months=months, ops=list(h))
        for how in ('404', 'html', 'refuse'):
            for h in itertools.product([('set', 2023, 12), ('set', 2024, 1)], repeat=3):
                yield dict(kind='hist', table=t, months=[(2023, 12, 'plain'), (2024, 1, 'plain')], ops=list(h), fail=[(2024, 1, how)])
    for t in MATCH:
        pats = [p for p in itertools.product((None, 'plain', 'short'), repeat=3)]
        for p in pats:
            months = [(2010, 1, p[0]), (2010, 2, p[1]), (2011, 1, p[2])]
            for h in itertools.product([('set', 2010, 1), ('set', 2010, 2), ('set', 2011, 1), ('set', 2010, 12)] + [('create',)], repeat=2 if not big else 3):
                if big or h[0][0] == 'set':
                    yield dict(kind='hist', table=t, months=months, ops=list(h))
        for how in ('404',):
            yield dict(kind='hist', table=t, months=[(2010, 1, 'plain'), (2010, 2, 'plain'), (2011, 1, 'plain')], ops=[('set', 2011, 3), ('set', 2010, 1)], fail=[(2010, 2, how)])
        yield dict(kind='hist', table=t, months=[(2024, 7, 'plain'), (2024, 8, 'plain'), (2023, 12, 'plain'), (2009, 12, 'plain')], ops=[('set', 2024, 9)])
    pts = [(2010, 11), (2010, 12), (2011, 1), (2011, 2), (2011, 12), (2012, 1)]
    for a, b in itertools.combinations_with_replacement(pts, 2):
        yield dict(kind='populate', upto=(2012, 2), **{'from': (2010, 10)}, ranges=[(a, b)])
    for r in itertools.product(itertools.combinations_with_replacement(pts[:4], 2), repeat=2):
        if big or r[0] == ((2010, 12), (2011, 1)):
            yield dict(kind='populate', upto=(2011, 3), **{'from': (2010, 10)}, ranges=list(r))
    yield dict(kind='populate', upto=(2024, 10), **{'from': (2024, 5)}, ranges=[((2024, 7), (2024, 9))], verbose=True)
    yield dict(kind='populate', upto=(2025, 3), **{'from': (2024, 10)}, ranges=[((2024, 12), (2025, 2))])
    yield dict(kind='populate', upto=(2025, 10), **{'from': (2025, 6)}, ranges=[((2025, 7), (2025, 9))])
    if big:
        for m in range(1, 13):
            for n in range(m, m + 14):
                b = (2011 + (m + n - 1 - m) // 12, (n - 1) % 12 + 1)
                yield dict(kind='populate', upto=(2013, 3), **{'from': (2010, 10)}, ranges=[((2011, m), (2011 + (n - 1) // 12, (n - 1) % 12 + 1))])


def run():
    return main('D02', cases, run_case,
                'every history of create, add and set calls up to the depth on every table, and every populate range within the bound, is run against a stand-in of the download site (good months, missing months, failing downloads, intervention runs, repeated records, columns missing or added); after every call the content of the table is compared with a model',
                {'quick': 'histories of 2-3 calls over 6 months incl. the change of archive layout; populate over all pairs of 6 months', 'thorough': 'histories of 3-4 calls; populate over all ranges of up to 14 months'},
                assumptions=['the network is replaced below requests', 'adding records whose key is already there may be refused as a whole'])

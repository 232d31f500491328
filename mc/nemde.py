"""Synthetic dispatch input files (XML) and local databases (sqlite), written from plain specs and served to the real readers, plus
stand-ins for the network."""
import contextlib, io, os, shutil, sqlite3, tempfile, zipfile
from xml.sax.saxutils import quoteattr
from .common import call
import pandas as pd
import requests
from nempy.historical_inputs import xml_cache, mms_db, loaders

INTERVAL = '2024/07/10 12:05:00'

CASE = dict(EnergyDeficitPrice=1, InterconnectorPrice=2, GenericConstraintPrice=3, RampRatePrice=4, CapacityPrice=5, OfferPrice=6, ASProfilePrice=7,
            ASMaxAvailPrice=8, ASEnablementMinPrice=9, ASEnablementMaxPrice=10, FastStartPrice=11, MNSPRampRatePrice=12, MNSPOfferPrice=13, MNSPCapacityPrice=14,
            UIGFSurplusPrice=15, VoLL=16, TieBreakPrice=17)
VIOL = dict(TotalAreaGenViolation=0, TotalInterconnectorViolation=0, TotalGenericViolation=0, TotalRampRateViolation=0, TotalUnitMWCapacityViolation=0,
            TotalEnergyConstrViolation=0, TotalEnergyOfferViolation=0, TotalASProfileViolation=0, TotalFastStartViolation=0, TotalMNSPRampRateViolation=0,
            TotalMNSPOfferViolation=0, TotalMNSPCapacityViolation=0, TotalUIGFViolation=0)


def el(tag, attrs=None, *kids):
    return '<%s%s>%s</%s>' % (tag, ''.join(' %s=%s' % (k, quoteattr(str(v))) for k, v in (attrs or {}).items() if v is not None), ''.join(kids), tag)


def trader(t):
    """t: id, type, ic {name: value}, attrs {...}, price [{TradeType, Direction?, PriceBand1..}]"""
    return el('Trader', dict(dict(TraderID=t['id'], TraderType=t.get('type', 'GENERATOR')), **t.get('attrs', {})),
              el('TraderInitialConditionCollection', None, *[el('TraderInitialCondition', dict(InitialConditionID=k, Value=v)) for k, v in t.get('ic', {'InitialMW': 0, 'AGCStatus': 1}).items()]),
              el('TradePriceStructureCollection', None, el('TradePriceStructure', None, el('TradeTypePriceStructureCollection', None,
                 *[el('TradeTypePriceStructure', p) for p in t.get('price', [price('ENOF')])]))))


def price(tt, direction=None, bands=None, **kw):
    d = dict(TradeType=tt, Direction=direction)
    d.update({'PriceBand%d' % (i + 1): b for i, b in enumerate(bands or [i * 10 for i in range(10)])})
    d.update(kw)
    return d


def trade(tt, direction=None, avail=100, bands=None, trap=None, ramp=None, **kw):
    d = dict(TradeType=tt, Direction=direction, MaxAvail=avail)
    if trap is not None:
        d.update(zip(('EnablementMin', 'LowBreakpoint', 'HighBreakpoint', 'EnablementMax'), trap))
    bands = list(bands or [avail])
    d.update({'BandAvail%d' % (i + 1): (bands + [0] * 10)[i] for i in range(10)})
    if ramp is not None:
        d.update(RampUpRate=ramp[0], RampDnRate=ramp[1])
    d.update(kw)
    return d


def period(p):
    return el('TraderPeriod', dict(TraderID=p['id'], UIGF=p.get('uigf')), el('TradeCollection', None, *[el('Trade', t) for t in p['trades']]))


def inter(i):
    kids = []
    if i.get('offers'):
        kids.append(el('MNSPOfferCollection', None, *[el('MNSPOffer', dict(RegionID=r, MaxAvail=a)) for r, a in i['offers']]))
    return el('InterconnectorPeriod', dict(InterconnectorID=i['id'], MNSP='1' if i.get('offers') else '0', FromRegion=i.get('fr'), ToRegion=i.get('to')), *kids)


def term(t):
    return el('RHSTerm', t)


def constraint(c):
    lhs = [el('TraderFactor', dict(Factor=f, TradeType=s, TraderID=u)) for u, s, f in c.get('unit', [])] + \
          [el('InterconnectorFactor', dict(Factor=f, InterconnectorID=i)) for i, f in c.get('inter', [])] + \
          [el('RegionFactor', dict(Factor=f, TradeType=s, RegionID=r)) for r, s, f in c.get('region', [])]
    kids = [el('LHSFactorCollection', None, *lhs)]
    if c.get('terms') is not None:
        kids.append(el('RHSTermCollection', None, *[term(t) for t in c['terms']]))
    return el('GenericConstraint', dict(ConstraintID=c['id'], Type=c.get('type', 'LE'), ViolationPrice=c.get('price', 100)), *kids)


def document(d):
    inputs = [el('Case', d.get('case', CASE)),
              el('TraderCollection', None, *[trader(t) for t in d.get('traders', [])]),
              el('PeriodCollection', None, el('Period', None,
                 el('TraderPeriodCollection', None, *[period(p) for p in d.get('periods', [])]),
                 el('InterconnectorPeriodCollection', None, *[inter(i) for i in d.get('inters', [])]),
                 el('EnteredValuePeriodCollection', None, *[el('EnteredValuePeriod', dict(SpdID=k, SpdType='E', Value=v)) for k, v in d.get('entered', [])]))),
              el('GenericConstraintCollection', None, *[constraint(c) for c in d.get('constraints', [])])]
    if 'scada' in d:
        sets = []
        for typ, good, bad in d['scada']:
            kids = [el('ScadaValuesCollection', None, *[el('ScadaValues', v) for v in good])]
            if bad:
                kids.append(el('BadScadaValuesCollection', None, *[el('ScadaValues', v) for v in bad]))
            sets.append(el('ConstraintScadaData', dict(SpdType=typ), *kids))
        inputs.append(el('ConstraintScadaDataCollection', None, *sets))
    if 'equations' in d:
        inputs.append(el('GenericEquationCollection', None, *[
            el('GenericEquation', dict(EquationID=k), *([el('RHSTermCollection', None, *[term(t) for t in v])] if v is not None else [])) for k, v in d['equations']]))
    ps = d.get('period_solution', [dict(VIOL, Intervention='0')])
    cs = d.get('case_solution', [dict(VIOL, Intervention='0')] * (1 if len(ps) == 1 else len(ps)))
    outputs = [el('CaseSolution', c) for c in cs] + [el('PeriodSolution', p) for p in ps] + \
              [el('RegionSolution', r) for r in d.get('region_solution', [])] + \
              [el('ConstraintSolution', dict(ConstraintID=i, RHS=v, Intervention=k)) for i, v, k in d.get('constraint_solution', [])]
    return '<?xml version="1.0"?>' + el('NEMSPDCaseFile', None, el('NemSpdInputs', None, *inputs), el('NemSpdOutputs', None, *outputs))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='nemde_mc_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def file_name(interval, ocd=False):
    """independent of the code under test: count intervals from 04:05 of the market day"""
    import datetime as dt
    t = dt.datetime.strptime(interval, '%Y/%m/%d %H:%M:%S')
    day = t.date() if (t.hour, t.minute) >= (4, 5) else t.date() - dt.timedelta(days=1)
    n = (t - dt.datetime(day.year, day.month, day.day, 4, 0)).total_seconds() / 300
    assert n == int(n)
    return 'NEMSPDOutputs_%04d%02d%02d%03d00%s.loaded' % (day.year, day.month, day.day, n, '_OCD' if ocd else '')


@contextlib.contextmanager
def manager(doc, interval=INTERVAL, ocd=False):
    """a real XMLCacheManager with the document loaded"""
    with scratch() as d, no_network():
        with open(os.path.join(d, file_name(interval, ocd)), 'w') as f:
            f.write(doc if isinstance(doc, str) else document(doc))
        m = xml_cache.XMLCacheManager(d)
        call()
        m.load_interval(interval)
        yield m


class Refused(Exception):
    pass


class Response:
    def __init__(self, content, status=200):
        self.content, self.status_code, self.ok = content, status, status == 200
        self.text = content.decode('latin1')

    def raise_for_status(self):
        if self.status_code != 200:
            raise requests.HTTPError(str(self.status_code))

    def iter_content(self, n=1 << 16):
        for i in range(0, len(self.content), n):
            yield self.content[i:i + n]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


@contextlib.contextmanager
def network(serve):
    """every HTTP request in the block is answered by serve(url) -> Response (below requests.get, whatever way it is called)"""
    import time
    old = requests.sessions.Session.request
    sleeps = {}

    def request(self, method, url, **kw):
        return serve(url)
    requests.sessions.Session.request = request
    ts = time.sleep
    time.sleep = lambda s: None
    if hasattr(xml_cache, 'sleep'):
        sleeps['x'] = xml_cache.sleep
        xml_cache.sleep = lambda s: None
    try:
        yield
    finally:
        requests.sessions.Session.request = old
        time.sleep = ts
        if 'x' in sleeps:
            xml_cache.sleep = sleeps['x']


def no_network():
    def serve(url):
        raise Refused('request for %s' % url)
    return network(serve)


def zipped(files):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_STORED) as z:
        for n, c in files:
            z.writestr(n, c)
    return b.getvalue()


@contextlib.contextmanager
def database(rows, create=True):
    """a real DBManager on an in-memory sqlite database with {table: [row dict]} inserted"""
    con = sqlite3.connect(':memory:')
    try:
        db = mms_db.DBManager(connection=con)
        if create:
            db.create_tables()
        for t, rs in rows.items():
            insert(con, t, rs)
        yield db
    finally:
        con.close()


def insert(con, table, rs):
    if table in ('LOSSMODEL', 'LOSSFACTORMODEL'):
        # several records per key; these tables are always written as a whole
        pd.DataFrame(rs, columns=list(rs[0]) if rs else [c[1] for c in con.execute('PRAGMA table_info(%s)' % table)]).to_sql(table, con=con, if_exists='replace', index=False)
        return
    for r in rs:
        con.execute('INSERT INTO %s (%s) VALUES (%s)' % (table, ','.join(r), ','.join('?' * len(r))), list(r.values()))
    con.commit()


@contextlib.contextmanager
def loader(doc, rows, interval=INTERVAL, ocd=False):
    with manager(doc, interval, ocd) as m, database(rows) as db:
        l = loaders.RawInputsLoader(m, db)
        call()
        l.set_interval(interval)
        yield l


# ---- monthly archives of the market management system ----
def mms_csv(rows, columns, short=False):
    """one published table file: comment line, header line, data lines, end of report line"""
    lines = ['C,NEMP.WORLD,X,AEMO,PUBLIC,2024/01/01,00:00:00,1,,1', ','.join(['I', 'X', 'Y', '1'] + columns)]
    lines += [','.join(['D', 'X', 'Y', '1'] + ['' if r.get(c) is None else ('"%s"' % r[c] if isinstance(r[c], str) else repr(r[c])) for c in columns]) for r in rows]
    return '\n'.join(lines + ['C,"END OF REPORT",%d' % (len(rows) + 3)]) + '\n'


class Archive:
    """stands in for the download site: files {(table, year, month): (rows, columns)}; anything else is 404"""
    def __init__(self, files=None, fail=None):
        self.files, self.asked, self.fail = dict(files or {}), [], fail or {}

    def put(self, table, year, month, rows, columns=None):
        cols = columns or sorted({k for r in rows for k in r})
        self.files[(table, year, month)] = (rows, cols)

    def __call__(self, url):
        import re
        from urllib.parse import unquote
        u = unquote(url)
        m = re.fullmatch(r'https?://(?:www\.)?nemweb\.com\.au/Data_Archive/Wholesale_Electricity/MMSDM/(\d{4})/MMSDM_(\d{4})_(\d\d)/MMSDM_Historical_Data_SQLLoader/DATA/'
                         r'(?:PUBLIC_DVD_(\w+?)_(\d{6})010000|PUBLIC_ARCHIVE#(\w+)#FILE01#(\d{6})010000)\.zip', u)
        if not m:
            return Response(b'<html>no such page</html>', 404)
        y, y2, mth, t1, d1, t2, d2 = m.groups()
        new = (int(y), int(mth)) >= (2024, 8)
        if y != y2 or (d2 if new else d1) != y + mth or '#' in url:
            return Response(b'<html>no such page</html>', 404)
        key = ((t2 if new else t1), int(y), int(mth))
        self.asked.append(key)
        how = self.fail.get(key)
        if how == 'html':
            return Response(b'<html>overloaded</html>', 200)
        if how == 'refuse':
            raise requests.ConnectionError('no network')
        if how == '404' or key not in self.files:
            return Response(b'<html>no such page</html>', 404)
        rows, cols = self.files[key]
        return Response(zipped([('PUBLIC_DVD_%s_%s%s010000.CSV' % (key[0], y, mth), mms_csv(rows, cols))]))


def plain(x):
    """database values for comparison: numbers (also as text) as floats, missing as None"""
    if x is None or (isinstance(x, float) and x != x):
        return None
    try:
        return float(x)
    except ValueError:
        return x


def records(df):
    """sorted list of sorted (column, value) tuples"""
    return sorted((tuple(sorted((c, plain(v)) for c, v in zip(df.columns, r))) for r in df.itertuples(index=False)), key=repr)


def as_records(rows, columns):
    return sorted((tuple(sorted((c, plain(r.get(c))) for c in columns)) for r in rows), key=repr)

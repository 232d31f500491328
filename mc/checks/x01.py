"""X01: intervals, market days and the input file cache."""
import datetime as dt, itertools, os
from ..common import *
from ..nemde import *
from nempy.historical_inputs.xml_cache import MissingDataError

F = '%Y/%m/%d %H:%M:%S'


def numbered(first, days):
    """(interval, market day, number) by plain counting from 04:05 of the first market day"""
    t = dt.datetime(first.year, first.month, first.day, 4, 5)
    day = first
    for _ in range(days):
        for n in range(1, 289):
            yield t, day, n
            t += dt.timedelta(minutes=5)
        day = day + dt.timedelta(days=1)


def doc_for(t):
    """a document that says which interval it is of"""
    v = (t - dt.datetime(2000, 1, 1)).total_seconds() / 300
    return document(dict(case=dict(CASE, VoLL=v)))


def stamp(m):
    return dt.datetime(2000, 1, 1) + dt.timedelta(seconds=300 * m.get_constraint_violation_prices()['voll'])


def run_case(c):
    return dict(names=run_names, cache=run_cache, populate=run_populate, find=run_find)[c['kind']](c)


def run_names(c):
    first = dt.date(*c['first'])
    with scratch() as d, no_network():
        m = xml_cache.XMLCacheManager(d)
        seen = set()
        for t, day, n in numbered(first, c['days']):
            m.interval = t.strftime(F)
            call()
            name = m.get_file_name()
            want = 'NEMSPDOutputs_%04d%02d%02d%03d00.loaded' % (day.year, day.month, day.day, n)
            if name.replace('_OCD', '') != want:
                raise Violation('interval %s is read from %s instead of %s' % (t, name, want))
            if name in seen:
                raise Violation('two intervals share %s' % name)
            seen.add(name)
    return len(seen), sorted(seen)[0]


class Server:
    def __init__(self, behaviour):
        self.behaviour, self.urls, self.bad = behaviour, [], 0

    def __call__(self, url):
        self.urls.append(url)
        b = self.behaviour
        if b == 'refuse':
            raise requests.ConnectionError('no network')
        name = os.path.basename(url)
        day = name.split('_')[1]
        y, mth = day[:4], day[4:6]
        want = 'NEMDE/%s/NEMDE_%s_%s/NEMDE_Market_Data/NEMDE_Files/NemSpdOutputs_%s_loaded.zip' % (y, y, mth, day)
        if not url.endswith(want):
            raise Violation('request for %s' % url)
        if b == 'html' or (b == 'flaky' and len(self.urls) % 2 == 1):
            return Response(b'<html>not here</html>', 404 if b == 'html' else 200)
        first = dt.date(int(day[:4]), int(day[4:6]), int(day[6:8]))
        files = []
        for t, _, n in numbered(first, 1):
            if b == 'gap' and n % 2 == 0:
                continue
            nm = file_name(t.strftime(F), ocd=(b == 'ocd' or (b == 'mixed' and n % 2 == 1)))
            files.append((nm, doc_for(t)))
        return Response(zipped(files))


def run_cache(c):
    """A history of loads against a cache folder and a server."""
    times = [dt.datetime(*t) for t in c['times']]
    srv = Server(c['server'])
    res = []
    with scratch() as d, network(srv):
        for t, how in c['cached']:
            t = dt.datetime(*t)
            for ocd in ((False, True) if how == 'both' else (how == 'ocd',)):
                with open(os.path.join(d, file_name(t.strftime(F), ocd)), 'w') as f:
                    f.write(doc_for(t))
        have = {dt.datetime(*t): how for t, how in c['cached']}
        m = xml_cache.XMLCacheManager(d)
        for t in times:
            before = len(srv.urls)
            iv = t.strftime(F)
            call()
            try:
                m.load_interval(iv)
                ok = True
            except (MissingDataError, zipfile.BadZipFile, requests.RequestException) as e:
                ok = False
            n = len(srv.urls) - before
            number = int(file_name(iv)[22:25])
            served = {'ok': 'plain', 'ocd': 'ocd', 'flaky': 'plain', 'gap': 'plain' if number % 2 else None, 'mixed': 'ocd' if number % 2 else 'plain', 'html': None, 'refuse': None}[c['server']]
            if t in have:
                if n:
                    raise Violation('%s was downloaded although it is in the cache' % t)
                if not ok:
                    raise Violation('%s is in the cache but is reported missing' % t)
            elif ok != (served is not None):
                raise Violation('%s: load %s' % (t, 'succeeded without the file' if ok else 'failed although the file can be downloaded'))
            if ok:
                if stamp(m) != t:
                    raise Violation('%s: the data loaded is of %s' % (t, stamp(m)))
                kind = have.get(t, served)
                if not m.interval_inputs_in_cache() or m.get_file_name() != file_name(iv, kind == 'ocd') or not os.path.exists(str(m.get_file_path())):
                    raise Violation('%s: file name %s (cache holds %s)' % (t, m.get_file_name(), kind))
                l = loaders.RawInputsLoader(m, None)
                if l.is_over_constrained_dispatch_rerun() != (kind == 'ocd'):
                    raise Violation('%s: over constrained flag wrong for the %s file' % (t, kind))
            elif t not in have:
                m.interval = iv
                if m.interval_inputs_in_cache() or m.get_file_name() != file_name(iv):
                    raise Violation('%s is missing but the cache says otherwise (%s)' % (t, m.get_file_name()))
            res.append((ok, n))
            if n and c['server'] not in ('html', 'refuse'):
                # the whole market day is in the cache now
                day = file_name(iv)[14:22]
                for x, _, k in numbered(dt.date(int(day[:4]), int(day[4:6]), int(day[6:8])), 1):
                    if not (c['server'] == 'gap' and k % 2 == 0):
                        w = 'ocd' if c['server'] == 'ocd' or (c['server'] == 'mixed' and k % 2 == 1) else 'plain'
                        have[x] = w if have.get(x, w) == w else 'both'
    return res


def run_populate(c):
    srv = Server('ok')
    days = set()
    with scratch() as d, network(srv):
        m = xml_cache.XMLCacheManager(d)
        call()
        if c['how'] == 'month':
            m.populate(start_year=c['a'][0], start_month=c['a'][1], end_year=c['b'][0], end_month=c['b'][1], verbose=False)
            start = dt.datetime(c['a'][0], c['a'][1], 1)
            e = c['b'][0] * 12 + c['b'][1]
            end = dt.datetime(e // 12, e % 12 + 1, 1)
        else:
            a, b = c['a'], c['b']
            m.populate_by_day(start_year=a[0], start_month=a[1], start_day=a[2], end_year=b[0], end_month=b[1], end_day=b[2], verbose=False)
            start, end = dt.datetime(*a), dt.datetime(*b) + dt.timedelta(days=1)
        have = set(os.listdir(d))
        t = start
        while t <= end:
            if file_name(t.strftime(F)) not in have:
                raise Violation('%s is not in the cache after populating %s to %s' % (t, c['a'], c['b']))
            t += dt.timedelta(minutes=5)
    if len(srv.urls) != len(set(srv.urls)):
        raise Violation('a day was downloaded more than once')
    return len(srv.urls)


def run_find(c):
    """find_intervals_with_violations returns the first intervals of the range that have violations, in order"""
    srv = Server('html')
    with scratch() as d, network(lambda u: Response(zipped([]))):
        hit = {}
        for t, v in c['files']:
            t = dt.datetime(*t)
            sol = dict(VIOL, Intervention='0', **{k: 1.5 for k in v})
            with open(os.path.join(d, file_name(t.strftime(F))), 'w') as f:
                f.write(document(dict(period_solution=[sol])))
            if v:
                hit[t.strftime(F)] = v
        m = xml_cache.XMLCacheManager(d)
        call()
        got = m.find_intervals_with_violations(limit=c['limit'], start_year=c['a'][0], start_month=c['a'][1], end_year=c['b'][0], end_month=c['b'][1])
    names = dict(TotalRampRateViolation='ramp_rate', TotalUIGFViolation='ugif', TotalFastStartViolation='fast_start')
    start = dt.datetime(c['a'][0], c['a'][1], 1)
    e = c['b'][0] * 12 + c['b'][1]
    end = dt.datetime(e // 12, e % 12 + 1, 1)
    want = {t: [names[x] for x in hit[t]] for t in sorted(hit) if start <= dt.datetime.strptime(t, F) <= end}
    want = dict(list(want.items())[:c['limit']])
    if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in want.items()} or list(got) != list(want):
        raise Violation('intervals with violations %s instead of %s' % (got, want))
    return str(sorted(got))


def cases(tier):
    # every interval of every market day of the years
    if tier == 'quick':
        spans = [((2019, 12, 1), 430), ((2023, 12, 20), 80), ((2024, 12, 20), 25), ((2000, 2, 20), 20), ((2012, 12, 25), 15)]
    else:
        spans = [((2009, 6, 1), 6600), ((1999, 12, 1), 500), ((2099, 12, 1), 120)]
    for first, days in spans:
        d = dt.date(*first)
        while days > 0:
            yield dict(kind='names', first=(d.year, d.month, d.day), days=min(20, days))
            d += dt.timedelta(days=20)
            days -= 20
    pts = [(2024, 7, 10, 12, 5), (2024, 7, 10, 4, 0), (2024, 7, 10, 4, 5), (2024, 2, 29, 0, 0), (2024, 1, 1, 0, 0), (2024, 7, 10, 12, 10)]
    cached = [[], [(pts[0], 'plain')], [(pts[0], 'ocd')], [(pts[5], 'plain')], [(pts[1], 'ocd'), (pts[2], 'plain')], [(pts[4], 'plain'), (pts[3], 'ocd')]]
    n = 2 if tier == 'quick' else 3
    for srv in ('ok', 'ocd', 'flaky', 'gap', 'mixed', 'html', 'refuse'):
        for ca in cached:
            for ts in itertools.product(pts, repeat=n):
                yield dict(kind='cache', server=srv, cached=ca, times=ts)
    yield dict(kind='populate', how='month', a=(2024, 2), b=(2024, 2))
    yield dict(kind='populate', how='month', a=(2023, 12), b=(2024, 1))
    for a, b in (((2024, 1, 1), (2024, 1, 1)), ((2024, 2, 28), (2024, 3, 1)), ((2023, 12, 31), (2024, 1, 2)), ((2024, 7, 9), (2024, 7, 10)), ((2023, 2, 28), (2023, 3, 1))):
        yield dict(kind='populate', how='day', a=a, b=b)
    if tier != 'quick':
        for y, m in itertools.product((2023, 2024), range(1, 13)):
            yield dict(kind='populate', how='month', a=(y, m), b=(y, m))
    files = [((2024, 2, 1, 0, 0), ['TotalRampRateViolation']), ((2024, 2, 1, 0, 5), []), ((2024, 2, 29, 23, 55), ['TotalUIGFViolation', 'TotalFastStartViolation']), ((2024, 3, 1, 0, 0), ['TotalUIGFViolation']),
             ((2024, 3, 1, 0, 5), ['TotalFastStartViolation']), ((2024, 1, 31, 23, 55), ['TotalFastStartViolation']), ((2023, 12, 31, 23, 55), ['TotalFastStartViolation'])]
    for limit in (1, 2, 5):
        for a, b in (((2024, 2), (2024, 2)), ((2023, 12), (2023, 12)), ((2023, 12), (2024, 2))):
            yield dict(kind='find', limit=limit, a=a, b=b, files=files)


def run():
    return main('X01', cases, run_case,
                'the file of every five minute interval of the spans is compared with the one found by counting from 04:05; every history of loads up to the depth over cache contents x server behaviours (each variant of the file served, missing intervals, bad archives, no network) is run with a stand-in network and the loaded data must be of that interval; population of every listed range must leave every interval of the range in the cache',
                {'quick': '570 market days; histories of 2 loads over 6 intervals, 6 cache contents, 7 servers', 'thorough': '7200 market days (2009-2027 and century ends); histories of 3 loads; every month of two years'},
                assumptions=['the network is replaced below requests', 'an archive holds either the normal or the over-constrained file of an interval'])

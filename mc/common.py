"""Exploration driver shared by all checks: exhaustive enumeration of a case list over the real code, in parallel,
evidence, replay artefacts and the known-findings file."""
import os, sys, json, time, signal, hashlib, itertools, traceback, contextlib, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NEMPY_REPO', '/repo')
sys.dont_write_bytecode = True
SRC = os.path.join(REPO, 'src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

import warnings
warnings.simplefilter('ignore')

OUT = os.path.join(VERIF, 'out')


class Violation(Exception):
    """Raised by a case runner when the property is broken on that case."""


class Stats:
    """Counters of one case (transitions = calls into the real code)."""
    calls = 0
    outcomes = 0


def call():
    Stats.calls += 1


@contextlib.contextmanager
def quiet():
    """Silence the solver's own printing (both python and C level)."""
    sys.stdout.flush()
    old = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.close(dn)
    try:
        with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f):
            yield
    finally:
        os.dup2(old, 1)
        os.close(old)


def deviations(dims, k):
    """All assignments of the dimensions that differ from the default (first value) in at most k dimensions,
    fewest deviations first. dims: list of (name, [default, alt, ...])."""
    names = [d[0] for d in dims]
    base = {n: v[0] for n, v in dims}
    alts = {n: v[1:] for n, v in dims}
    for r in range(0, k + 1):
        for combo in itertools.combinations(names, r):
            for vals in itertools.product(*[alts[n] for n in combo]):
                c = dict(base)
                c.update(zip(combo, vals))
                yield c


def product(dims):
    names = [d[0] for d in dims]
    for vals in itertools.product(*[d[1] for d in dims]):
        yield dict(zip(names, vals))


_RUN = None


def _work(arg):
    i, case = arg
    Stats.calls = 0
    t = time.time()
    try:
        with quiet():
            out = _RUN(case)
        viol = None
    except Violation as e:
        out, viol = None, str(e)
    except Exception as e:
        # An unexpected exception out of the code under test is a violation as well: every enumerated case is valid input
        # unless the case runner expects the error itself.
        tb = traceback.format_exc()
        out, viol = None, 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-1500:])
    h = hashlib.sha1(repr(out).encode()).hexdigest() if viol is None else None
    return i, viol, h, Stats.calls, (out if viol is None else None), time.time() - t


def _child(conn):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        for arg in job:
            conn.send(('start', arg[0]))
            conn.send(('done', _work(arg)))
        conn.send(('idle', None))


ABORTS = {-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL}


def farm(cases, procs, chunk, lost, case_limit=120, tries=3):
    """Run all cases in forked workers. The native MIP library can abort the process (heap corruption inside CBC); the case is then
    repeated alone in fresh workers; it is a violation when every one of `tries` attempts aborts, and given up on (recorded in lost) when
    workers were ended from outside. A case that does not return within
    case_limit seconds twice is a violation: every enumerated case is a few milliseconds of work."""
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = [[(i, cases[i]) for i in range(k, min(k + chunk, len(cases)))] for k in range(0, len(cases), chunk)][::-1]
    workers = {}
    attempts, signals = {}, {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_child, args=(b,), daemon=True)
        p.start()
        b.close()
        workers[a] = dict(p=p, job=[], cur=None, t=time.time(), idle=True)

    def feed():
        for c, w in list(workers.items()):
            if w['idle'] and todo:
                w['job'] = list(todo.pop())
                w.update(idle=False, t=time.time(), cur=None)
                c.send(w['job'])

    def reap(c, why):
        w = workers.pop(c)
        if why == 'crash':
            w['p'].join(5)
        sig = w['p'].exitcode
        w['p'].kill()
        w['p'].join()
        c.close()
        if w['cur'] is None:
            if w['job']:
                todo.append(w['job'])
            return None
        i = w['cur']
        rest = [x for x in w['job'] if x[0] != i]
        if rest:
            todo.append(rest)
        attempts[i] = attempts.get(i, 0) + 1
        if why == 'hang' and attempts[i] >= 2:
            return (i, 'no answer within %d s' % case_limit, None, 0, None, case_limit)
        signals.setdefault(i, set()).add(sig)
        if attempts[i] >= tries:
            if signals[i] <= ABORTS:
                return (i, 'the native solver library aborted the process', None, 0, None, 0)
            lost.append(i)
            return None
        todo.append([(i, cases[i])])
        return None

    try:
        for _ in range(min(procs, len(todo))):
            spawn()
        feed()
        while any(not w['idle'] for w in workers.values()) or todo:
            while len(workers) < procs and len(workers) < len(todo) + sum(not w['idle'] for w in workers.values()):
                spawn()
            feed()
            for c in wait(list(workers), timeout=1.0):
                try:
                    while c.poll():
                        what, x = c.recv()
                        w = workers[c]
                        if what == 'start':
                            w.update(cur=x, t=time.time())
                        elif what == 'done':
                            w['job'] = [j for j in w['job'] if j[0] != x[0]]
                            w['cur'] = None
                            yield x
                        else:
                            w.update(idle=True, job=[], cur=None)
                except (EOFError, ConnectionError):
                    r = reap(c, 'crash')
                    if r:
                        yield r
            now = time.time()
            for c, w in list(workers.items()):
                if not w['idle'] and now - w['t'] > case_limit and not c.poll():
                    r = reap(c, 'hang')
                    if r:
                        yield r
    finally:
        for c, w in workers.items():
            w['p'].kill()
        for c, w in workers.items():
            w['p'].join()


def jsonable(x):
    return json.loads(json.dumps(x, default=lambda o: list(o) if isinstance(o, (set, tuple)) else repr(o)))


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get('known', []) if f['property'] == prop]


def case_key(case):
    return hashlib.sha1(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()[:16]


def main(prop, make_cases, run_case, describe, bounds, level='model_checking', assumptions=None, procs=None, chunk=None,
         prepare=None):
    """make_cases(tier) -> iterable of JSON-able cases; run_case(case) -> outcome (repr-able) or raises Violation."""
    global _RUN
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--limit', type=int)
    ap.add_argument('--procs', type=int, default=procs or int(os.environ.get('VERIF_PROCS', 0)) or os.cpu_count() or 4)
    ap.add_argument('--all', action='store_true', help='report every violating case')
    ap.add_argument('--grep')
    a = ap.parse_args(sys.argv[2:] if len(sys.argv) > 1 and not sys.argv[1].startswith('-') else None)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    _RUN = run_case
    if prepare:
        prepare()
    if a.replay:
        case = json.load(open(a.replay))['case']
        r = _work((0, case))
        print(json.dumps(jsonable(case)))
        print('VIOLATION' if r[1] else 'ok', r[1] or r[4])
        return 1 if r[1] else 0
    cases = [jsonable(c) for c in make_cases(tier)]
    seen = set()
    uniq = []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    cases = uniq
    if a.grep:
        cases = [c for c in cases if a.grep in json.dumps(c)]
    if a.limit:
        cases = cases[:a.limit]
    n = len(cases)
    known = load_known(prop)
    outcomes = {}
    calls = 0
    samples = []
    viols = []
    done = 0
    lost = []
    if a.procs == 1:
        results = map(_work, enumerate(cases))
    else:
        results = farm(cases, a.procs, chunk or max(1, min(20, n // (a.procs * 8) or 1)), lost)
    slow = 0
    try:
        for i, viol, h, ncalls, out, dt in results:
            done += 1
            calls += ncalls
            slow = max(slow, dt)
            if viol is None:
                if h not in outcomes:
                    outcomes[h] = i
                    if len(samples) < 3:
                        samples.append(dict(case=cases[i], outcome=repr(out)[:400]))
            else:
                viols.append((i, viol))
                fresh = [v for v in viols if not _is_known(v, cases, known)]
                if len(fresh) >= 1 and not a.all and (len(fresh) >= 25 or time.time() - t0 > 240):
                    break
            if tier == 'quick' and time.time() - t0 > 780:
                print('time limit of the quick tier reached after %d of %d cases' % (done, n))
                break
    finally:
        if hasattr(results, 'close'):
            results.close()
    if lost:
        print('%d cases lost, their workers were ended: %s' % (len(lost), [case_key(cases[i]) for i in lost[:10]]))
    viols.sort()
    fresh, listed = [], {}
    for v in viols:
        f = _is_known(v, cases, known)
        if f:
            listed.setdefault(f['id'], (f, []))[1].append(v)
        else:
            fresh.append(v)
    for fid, (f, vs) in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s (%d enumerated cases)' % (prop, f['what'], len(vs)))
    rc = 0
    if fresh:
        rc = 1
        i, msg = fresh[0]
        path = os.path.join(OUT, '%s_%s.json' % (prop, case_key(cases[i])))
        json.dump(dict(property=prop, case=cases[i], message=msg,
                       replay_cmd='python run.py %s --replay %s' % (prop, path)), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('case: ' + json.dumps(cases[i])[:1500])
        print('what: ' + msg[:1500])
        print('violating cases so far: %d of %d explored' % (len(fresh), done))
        if a.all:
            for i, msg in fresh[:200]:
                print('---', i, json.dumps(cases[i])[:300], '\n    ', msg[:400])
    wall = time.time() - t0
    cov = dict(rule=describe, bounds=bounds.get(tier) if isinstance(bounds, dict) else bounds,
               exhaustive=bool(done == n and not a.limit and not a.grep), samples=samples)
    if level == 'model_checking':
        cov.update(states=n, transitions=calls, traces_validated_against_impl=done, solver_crashes=len(lost), distinct_outcomes=len(outcomes))
    else:
        cov.update(evaluations=done, distinct_nontrivial=len(outcomes))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions or [], wall_s=round(wall, 2),
              violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s tier=%s cases=%d executed=%d distinct_outcomes=%d calls=%d slowest_case=%.2fs wall=%.1fs violations=%d' % (
        prop, tier, n, done, len(outcomes), calls, slow, wall, len(fresh)))
    return rc


def _is_known(v, cases, known):
    i, msg = v
    for f in known:
        if case_key(cases[i]) in f.get('cases', []) and f.get('message_contains', '') in msg:
            return f
    return None

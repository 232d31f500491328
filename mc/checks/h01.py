"""H01: fast start modes over the interval. The reference runs a minute-resolution timetable; the code works with table masks."""
import itertools, math
from ..common import *
from ..nemde import *
from nempy.historical_inputs.units import UnitData
import pandas as pd

COLS = ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading', 'time_since_end_of_mode_two']


def advance(mode, time, lengths, committed, minutes=5.0):
    """the timetable run forward: (end mode, time in it, time since mode two was left, if it was left within the interval)"""
    if mode == 0:
        if not committed:
            return 0, 0.0, None
        mode, time = 1, 0.0
    left, since = minutes, None
    while mode < 4:
        rest = lengths[mode - 1] - time
        if not rest < left:
            return mode, time + left, since
        left -= rest
        if mode == 2:
            since = left
        mode, time = mode + 1, 0.0
    return 4, min(time + left, float(lengths[3])), since


def doc(units):
    """units: name -> dict(mode, time, lengths, load)"""
    traders, periods = [], []
    for n, u in units.items():
        attrs = {}
        if u is not None:
            attrs = dict(MinLoadingMW=u['load'], CurrentMode=u['mode'], CurrentModeTime=u['time'], **{'T%d' % (i + 1): l for i, l in enumerate(u['lengths'])})
        traders.append(dict(id=n, attrs=attrs))
        periods.append(dict(id=n, trades=[trade('ENOF', ramp=(60, 60))]))
    return dict(traders=traders, periods=periods)


def dispatch_table(rows):
    return pd.DataFrame([dict(unit=u, dispatch_type='generator', service=s, dispatch=d) for u, s, d in rows], columns=['unit', 'dispatch_type', 'service', 'dispatch'])


def same(a, b):
    if b is None or (isinstance(b, float) and math.isnan(b)):
        return a is None or a != a
    return a == a and abs(float(a) - float(b)) < 1e-9


def check(ud, units, energy, rows, what):
    table = dispatch_table(rows)
    keep = table.copy()
    call()
    got = ud.get_fast_start_profiles_for_dispatch(table)
    if not table.equals(keep):
        raise Violation('%s: the dispatch table passed is changed' % what)
    if list(got.columns) != COLS:
        raise Violation('%s: columns %s' % (what, list(got.columns)))
    want = {n: u for n, u in units.items() if u is not None and n in energy}
    names = list(got['unit'])
    if sorted(names) != sorted(want):
        raise Violation('%s: units %s instead of %s' % (what, sorted(names)[:20], sorted(want)[:20]))
    for r in got.to_dict('records'):
        u = want[r['unit']]
        m, t, s = advance(u['mode'], float(u['time']), u['lengths'], energy[r['unit']] > 0)
        exp = dict(unit=r['unit'], end_mode=m, time_in_end_mode=t, mode_two_length=u['lengths'][1], mode_four_length=u['lengths'][3], min_loading=u['load'], time_since_end_of_mode_two=s)
        for k in COLS[1:]:
            if not same(r[k], exp[k]):
                raise Violation('%s: unit in mode %d for %s min of lengths %s, dispatched %s: %s is %s instead of %s' % (what, u['mode'], u['time'], u['lengths'], energy[r['unit']], k, r[k], exp[k]))
    return len(names)


def states(lengths, step):
    yield 0, 0
    yield 0, 3
    for m in 1, 2, 3, 4:
        for t in sorted(set(list(range(0, lengths[m - 1] + 1, step)) + [lengths[m - 1]])):
            yield m, t


def run_case(c):
    if c['kind'] == 'all':
        units, energy = {'slow': None, 'other': None}, {}
        for k, (m, t) in enumerate(states(c['lengths'], c['step'])):
            for j, e in enumerate((0.0, 0.5, 40.0)):
                n = 'U%d_%d' % (k, j)
                units[n] = dict(mode=m, time=t, lengths=c['lengths'], load=10 + k)
                energy[n] = e
        energy['slow'] = 7.0
        return both(units, energy)
    if c['kind'] == 'mix':
        units = {'slow': None}
        energy = {'slow': 3.0}
        for k, (l, m, t, e) in enumerate(c['units']):
            units['U%d' % k] = dict(mode=m, time=t, lengths=l, load=10 + k)
            if e is not None:
                energy['U%d' % k] = e
        return both(units, energy, c.get('order', 1))
    return run_history(c)


def both(units, energy, order=1):
    with loader(doc(units), {}) as l:
        ud = UnitData(l)
        first(ud, units)
        rows = [(n, 'energy', e) for n, e in energy.items()][::order]
        n = check(ud, units, energy, rows, 'energy only')
        # other services do not commit a unit, nor repeat it
        rows = [(n, 'raise_reg', 9.0) for n in energy] + rows + [(n, 'lower_5min', 0.0) for n in energy]
        check(ud, units, energy, rows, 'with other services')
        # asked again with the opposite outcome: nothing is left over from the calls before
        other = {n: (0.0 if e > 0 else 25.0) for n, e in energy.items()}
        check(ud, units, other, [(n, 'energy', e) for n, e in other.items()], 'second question')
        first(ud, units)
    return n


def first(ud, units):
    call()
    got = ud.get_fast_start_profiles_for_dispatch()
    want = [(n, u['mode']) for n, u in units.items() if u is not None]
    if list(got.columns) != ['unit', 'current_mode'] or sorted(zip(got['unit'], got['current_mode'])) != sorted(want):
        raise Violation('modes at the start of the interval: %s instead of %s' % (got.to_dict('records')[:5], want[:5]))


def run_history(c):
    """interval after interval, each starting from what the last one ended with, against the time since commitment"""
    l = c['lengths']
    ends = [sum(l[:i + 1]) for i in range(4)]
    state, p = (0, 0.0), None
    seen = []
    for k, e in enumerate(c['energy']):
        units = {'U': dict(mode=state[0], time=int(state[1]), lengths=l, load=33), 'slow': None}
        with loader(doc(units), {}) as ld:
            ud = UnitData(ld)
            call()
            r = ud.get_fast_start_profiles_for_dispatch(dispatch_table([('U', 'energy', e), ('slow', 'energy', 1.0)])).to_dict('records')
        if len(r) != 1:
            raise Violation('unit listed %d times' % len(r))
        if p is None and e > 0:
            p = 0
        before = p
        p = None if p is None else p + 5
        if p is None:
            want = (0, 0.0)
        else:
            m = next((i for i in range(3) if p <= ends[i]), 3)
            want = (m + 1, p - (ends[m - 1] if m else 0) if m < 3 else min(p - ends[2], l[3]))
        got = (r[0]['end_mode'], r[0]['time_in_end_mode'])
        if got[0] != want[0] or not same(got[1], want[1]):
            raise Violation('%s minutes after commitment with mode lengths %s the unit is in mode %s for %s minutes, not in mode %s for %s' % (p, l, *got, *want))
        state = (int(got[0]), float(got[1]))
        seen.append(state)
    return seen


def cases(tier):
    vals = (0, 1, 4, 5, 7) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11)
    for l in itertools.product(vals, repeat=4):
        yield dict(kind='all', lengths=list(l), step=1)
    # few units, so that whole groups of them are absent
    one = [([2, 2, 0, 4], 0, 0, 5.0), ([2, 2, 0, 4], 0, 0, 0.0), ([6, 3, 8, 4], 1, 1, 1.0), ([3, 9, 9, 9], 1, 2, 0.0), ([0, 3, 10, 5], 2, 1, 2.0), ([0, 8, 10, 5], 2, 2, 2.0), ([1, 1, 10, 10], 3, 2, 0.0), ([1, 1, 4, 10], 3, 4, 0.0),
           ([1, 1, 4, 10], 4, 8, 0.0), ([1, 1, 1, 1], 0, 0, 3.0), ([5, 5, 5, 5], 1, 0, 3.0), ([5, 5, 5, 5], 2, 0, None), ([0, 0, 0, 0], 0, 0, 3.0), ([0, 0, 0, 0], 4, 0, 3.0), ([6, 2, 2, 2], 0, 4, 3.0)]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for us in itertools.combinations(one, n):
            for o in 1, -1:
                yield dict(kind='mix', units=[list(u) for u in us], order=o)
    hv = (0, 3, 5, 8, 12) if tier == 'quick' else (0, 1, 3, 5, 8, 12, 15)
    for l in itertools.product(hv, repeat=3):
        for l4 in (0, 7) if tier == 'quick' else (0, 4, 7, 20):
            for start in 0, 1:
                yield dict(kind='history', lengths=list(l) + [l4], energy=[0.0] * start + [5.0] + [5.0, 0.0] * (3 if tier == 'quick' else 5))


def run():
    return main('H01', cases, run_case,
                'interval files with fast start units in every mode, time in mode and dispatch outcome for every combination of mode lengths are written and read through the real loader; end modes, times and the time since mode two are compared with a timetable run forward; small groups of units, repeated questions and histories of consecutive intervals against the time elapsed since commitment',
                {'quick': 'mode lengths 0,1,4,5,7 minutes, every whole minute in the mode; groups of up to 3 of 15 units; histories of up to 8 intervals', 'thorough': 'mode lengths of 11 values up to 11 minutes; groups of up to 4; histories of up to 12 intervals'},
                assumptions=['a time in the current mode beyond the length of the mode is not specified', 'fast start units bid energy in one direction'], chunk=4)

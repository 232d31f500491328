"""Market specifications, their construction through nempy's public API, and an independent reference model of them.

A spec is a plain dict (JSON-able); see `build`.  `Ref(spec)` knows nothing of nempy: it lists every constraint as a row over
(unit, direction, service) totals, link flows and link losses, with exact numbers, and finds the least cost by exact LP over every
choice of loss segment / active link."""
import itertools, copy
from fractions import Fraction
from . import common
from .common import Violation, call
from .lp import LP, frac, Q

import pandas as pd
import numpy as np
from nempy import markets as nm

G, L = 'generator', 'load'
TOL = 2e-4

LOSS = {
    'abs5': lambda f: abs(f) * 0.05,
    'abs10': lambda f: abs(f) * 0.1,
    'quad': lambda f: f * f * 0.0005,
    'quad2': lambda f: f * f * 0.001 + 0.01 * f,
    'neg': lambda f: f * 0.02,
    'concave': lambda f: 8.0 - 0.0008 * (100.0 - min(abs(f), 100.0)) ** 2,
}
LOSSQ = {
    'abs5': lambda f: abs(f) * Fraction(1, 20),
    'abs10': lambda f: abs(f) * Fraction(1, 10),
    'quad': lambda f: f * f * Fraction(5, 10000),
    'quad2': lambda f: f * f * Fraction(1, 1000) + f * Fraction(1, 100),
    'neg': lambda f: f * Fraction(2, 100),
    'concave': lambda f: 8 - Fraction(8, 10000) * (100 - min(abs(f), Fraction(100))) ** 2,
}


# ------------------------------------------------------------------------------------------------------------------
# spec -> real market
# ------------------------------------------------------------------------------------------------------------------
def bdus(spec):
    n = {}
    for u in spec['units']:
        n[u['u']] = n.get(u['u'], 0) + 1
    return {u for u, k in n.items() if k == 2}


class Shape:
    """How tables are presented to the API (must never matter): row order, index labels, column order."""

    def __init__(self, rows='given', index='default', cols='given'):
        self.rows, self.index, self.cols = rows, index, cols

    def __call__(self, df):
        if self.rows == 'reversed':
            df = df.iloc[::-1].reset_index(drop=True)
        elif self.rows == 'rotated' and len(df) > 1:
            df = pd.concat([df.iloc[1:], df.iloc[:1]]).reset_index(drop=True)
        if self.index == 'offset':
            df.index = [7 + 3 * i for i in range(len(df))]
        elif self.index == 'constant':
            df.index = [5 for i in range(len(df))]
        elif self.index == 'reversed':
            df.index = list(range(len(df)))[::-1]
        if self.cols == 'reversed':
            df = df[df.columns[::-1]]
        return df


SHAPES = {'plain': Shape(), 'rev': Shape(rows='reversed'), 'idx': Shape(index='offset'), 'ridx': Shape(rows='rotated', index='reversed'),
          'dupidx': Shape(index='constant'), 'cols': Shape(cols='reversed')}


def _f(x):
    return np.float64(x)


def has_dt(spec):
    return spec.get('dt', True)


def tables(spec):
    """All input tables of the spec as fresh DataFrames, in a default call order: list of (key, method, args, kwargs)."""
    sh = SHAPES[spec.get('shape', 'plain')]
    dt = has_dt(spec)
    out = []
    bands = []
    for b in spec['bids']:
        for k in b['v']:
            if k not in bands:
                bands.append(k)
    service_col = spec.get('service_col', any(b['s'] != 'energy' for b in spec['bids']))

    def bidframe(key, fill):
        rows = []
        for b in spec['bids']:
            r = {'unit': b['u']}
            if dt:
                r['dispatch_type'] = b['t']
            if service_col:
                r['service'] = b['s']
            for k in bands:
                r[k] = float(b[key].get(k, fill))
            rows.append(r)
        return sh(pd.DataFrame(rows))

    out.append(('vol', 'set_unit_volume_bids', [bidframe('v', 0.0)], {}))
    if not spec.get('no_price'):
        out.append(('price', 'set_unit_price_bids', [bidframe('p', 0.0)], {}))

    def kw(d):
        c = d.get('cost')
        if c is None:
            return {}
        if isinstance(c, dict):
            return {'violation_cost': sh(pd.DataFrame({'set': list(c), 'cost': [float(v) for v in c.values()]}))}
        return {'violation_cost': c}

    if spec.get('cap'):
        rows = [dict(unit=u, dispatch_type=t, capacity=float(c)) for u, t, c in spec['cap']['rows']]
        df = pd.DataFrame(rows)
        if not dt:
            df = df.drop(columns='dispatch_type')
        out.append(('cap', 'set_unit_bid_capacity_constraints', [sh(df)], kw(spec['cap'])))
    if spec.get('uigf'):
        df = pd.DataFrame([dict(unit=u, capacity=float(c)) for u, c in spec['uigf']['rows']])
        out.append(('uigf', 'set_unconstrained_intermittent_generation_forecast_constraint', [sh(df)], kw(spec['uigf'])))
    if spec.get('ramp'):
        df = ramp_frame(spec['ramp']['rows'], dt)
        k = kw(spec['ramp'])
        if spec['ramp'].get('scada') is not None:
            sf = scada_frame(spec['ramp']['scada'])
            if spec['ramp'].get('only') == 'uponly':
                sf = sf.drop(columns='scada_ramp_down_rate')
            elif spec['ramp'].get('only') == 'downonly':
                sf = sf.drop(columns='scada_ramp_up_rate')
            k['scada_ramp_rates'] = sh(sf)
        if spec['ramp'].get('run'):
            k['run_type'] = spec['ramp']['run']
            k['fast_start_profiles'] = sh(ramp_profile_frame(spec['ramp']['fs'], spec['ramp']['run']))
        out.append(('ramp', 'set_unit_ramp_rate_constraints', [sh(df)], k))
    if spec.get('fast'):
        df = fast_frame(spec['fast']['rows'])
        out.append(('fast', 'set_fast_start_constraints', [sh(df)], kw(spec['fast'])))
    if spec.get('demand'):
        df = pd.DataFrame([dict(region=r, demand=float(d)) for r, d in spec['demand']['rows']])
        out.append(('demand', 'set_demand_constraints', [sh(df)], kw(spec['demand'])))
    if spec.get('fcas'):
        rows = [dict(set=s, region=r, service=sv, volume=float(v), type=ty) for s, r, sv, v, ty in spec['fcas']['rows']]
        df = pd.DataFrame(rows)
        if spec['fcas'].get('notype'):
            df = df.drop(columns='type')
        out.append(('fcas', 'set_fcas_requirements_constraints', [sh(df)], kw(spec['fcas'])))
    if spec.get('fmax'):
        df = pd.DataFrame([dict(unit=u, dispatch_type=t, service=s, max_availability=float(m)) for u, t, s, m in spec['fmax']['rows']])
        if spec.get('no_fcas_dt'):
            df = df.drop(columns='dispatch_type')
        out.append(('fmax', 'set_fcas_max_availability', [sh(df)], kw(spec['fmax'])))
    for key, meth in (('jcap', 'set_joint_capacity_constraints'), ('reg', 'set_energy_and_regulation_capacity_constraints')):
        if spec.get(key):
            df = pd.DataFrame([dict(unit=u, dispatch_type=t, service=s, max_availability=float(m), enablement_min=float(a), low_break_point=float(b),
                                    high_break_point=float(c), enablement_max=float(d)) for u, t, s, m, a, b, c, d in spec[key]['rows']])
            if spec.get('no_fcas_dt'):
                df = df.drop(columns='dispatch_type')
            out.append((key, meth, [sh(df)], kw(spec[key])))
    if spec.get('jramp'):
        df = pd.DataFrame([dict(unit=u, initial_output=float(i), scada_ramp_up_rate=nan(a), scada_ramp_down_rate=nan(b)) for u, i, a, b in spec['jramp']['rows']])
        k = kw(spec['jramp'])
        if spec['jramp'].get('run'):
            k['run_type'] = spec['jramp']['run']
            k['fast_start_profiles'] = sh(ramp_profile_frame(spec['jramp']['fs'], spec['jramp']['run']))
        out.append(('jramp', 'set_joint_ramping_constraints_reg', [sh(df)], k))
    if spec.get('inter'):
        rows = []
        for d in spec['inter']['rows']:
            r = dict(interconnector=d['i'], to_region=d['to'], from_region=d['fr'], max=float(d['max']), min=float(d['min']))
            if not spec['inter'].get('nolink'):
                r['link'] = d.get('l', d['i'])
                r['generic_constraint_factor'] = int(d.get('g', 1))
                r['from_region_loss_factor'] = float(d.get('flf', 1.0))
                r['to_region_loss_factor'] = float(d.get('tlf', 1.0))
            rows.append(r)
        out.append(('inter', 'set_interconnectors', [sh(pd.DataFrame(rows))], {}))
        if spec.get('loss'):
            rows, bps = [], []
            for d in spec['loss']['rows']:
                r = dict(interconnector=d['i'], from_region_loss_share=float(d['share']), loss_function=LOSS[d['f']])
                if not spec['inter'].get('nolink'):
                    r['link'] = d.get('l', d['i'])
                rows.append(r)
                for n, x in enumerate(d['bp']):
                    q = dict(interconnector=d['i'], loss_segment=int(d.get('seg0', 0)) + n * int(d.get('segstep', 1)), break_point=float(x))
                    if not spec['inter'].get('nolink'):
                        q['link'] = d.get('l', d['i'])
                    bps.append(q)
            df1, df2 = pd.DataFrame(rows), pd.DataFrame(bps)
            df2['loss_segment'] = df2['loss_segment'].astype(np.int64)
            out.append(('loss', 'set_interconnector_losses', [sh(df1), sh(df2)], {}))
    if spec.get('generic'):
        g = spec['generic']
        df = pd.DataFrame([dict(set=s, type=t, rhs=float(r)) for s, t, r in g['rows']])
        if len(df):
            out.append(('generic', 'set_generic_constraints', [sh(df)], kw(g)))
        if g.get('unit'):
            out.append(('gunit', 'link_units_to_generic_constraints', [sh(pd.DataFrame([dict(set=s, unit=u, service=sv, coefficient=float(c)) for s, u, sv, c in g['unit']]))], {}))
        if g.get('region'):
            out.append(('gregion', 'link_regions_to_generic_constraints', [sh(pd.DataFrame([dict(set=s, region=u, service=sv, coefficient=float(c)) for s, u, sv, c in g['region']]))], {}))
        if g.get('inter'):
            out.append(('ginter', 'link_interconnectors_to_generic_constraints', [sh(pd.DataFrame([dict(set=s, interconnector=u, coefficient=float(c)) for s, u, c in g['inter']]))], {}))
    if spec.get('tie') is not None:
        out.append(('tie', 'set_tie_break_constraints', [spec['tie']], {}))
    return out


def nan(x):
    return np.nan if x is None else float(x)


def ramp_frame(rows, dt=True):
    df = pd.DataFrame([dict(unit=u, dispatch_type=t, initial_output=float(i), ramp_up_rate=float(a), ramp_down_rate=float(b)) for u, t, i, a, b in rows])
    if not dt:
        df = df.drop(columns='dispatch_type')
    return df


def scada_frame(rows):
    df = pd.DataFrame([dict(unit=u, scada_ramp_up_rate=nan(a), scada_ramp_down_rate=nan(b)) for u, a, b in rows],
                      columns=['unit', 'scada_ramp_up_rate', 'scada_ramp_down_rate'])
    return df.astype({'scada_ramp_up_rate': np.float64, 'scada_ramp_down_rate': np.float64})


def fast_frame(rows):
    df = pd.DataFrame([dict(unit=d['u'], end_mode=d['end'], time_in_end_mode=float(d['t']), mode_two_length=float(d['l2']),
                            mode_four_length=float(d['l4']), min_loading=float(d['ml'])) for d in rows])
    df['end_mode'] = df['end_mode'].astype(np.int64)
    return df


def ramp_profile_frame(rows, run):
    if run == 'fast_start_first_run':
        df = pd.DataFrame([dict(unit=d['u'], current_mode=d['cur']) for d in rows])
        df['current_mode'] = df['current_mode'].astype(np.int64)
    else:
        df = pd.DataFrame([dict(unit=d['u'], end_mode=d['end'], min_loading=float(d['ml']), time_since_end_of_mode_two=nan(d.get('since'))) for d in rows])
        df['end_mode'] = df['end_mode'].astype(np.int64)
        df['time_since_end_of_mode_two'] = df['time_since_end_of_mode_two'].astype(np.float64)
    return df


def new_market(spec):
    ui = pd.DataFrame([dict(unit=u['u'], region=u['r'], dispatch_type=u.get('t', G), loss_factor=float(u.get('lf', 1.0))) for u in spec['units']])
    if not has_dt(spec):
        ui = ui.drop(columns='dispatch_type')
    if spec.get('no_lf'):
        ui = ui.drop(columns='loss_factor')
    sh = SHAPES[spec.get('shape', 'plain')]
    kw = {}
    if spec.get('di') is not None:
        kw['dispatch_interval'] = spec['di']
    call()
    return nm.SpotMarket(market_regions=list(spec['regions']), unit_info=sh(ui), **kw)


ORDER = {'default': None,
         'late_bids_dep': ['demand', 'inter', 'loss', 'generic', 'gunit', 'gregion', 'ginter', 'fcas']}


def apply(m, t):
    key, meth, args, kw = t
    call()
    getattr(m, meth)(*args, **kw)


def build(spec, order=None):
    m = new_market(spec)
    ts = tables(spec)
    if order:
        ts = [ts[i] for i in order]
    for t in ts:
        apply(m, t)
    for key, cost in (spec.get('elastic_after') or {}).items():
        call()
        m.make_constraints_elastic(key, cost)
    return m


class Infeasible(Exception):
    pass


def dispatch(m, spec, **kw):
    call()
    try:
        m.dispatch(**kw)
    except ValueError as e:
        if 'infeasible' in str(e).lower():
            raise Infeasible()
        raise


def r6(x):
    x = round(float(x), 5)
    return 0.0 if x == 0 else x


def observe(m, spec):
    """All observable results in canonical form."""
    o = {}
    call()
    d = m.get_unit_dispatch()
    o['x'] = {(u, t, s): float(v) for u, t, s, v in zip(d['unit'], d['dispatch_type'], d['service'], d['dispatch'])}
    if len(o['x']) != len(d):
        raise Violation('unit dispatch lists a unit/direction/service more than once:\n%s' % d)
    if spec.get('demand'):
        e = m.get_energy_prices()
        o['ep'] = {r: float(v) for r, v in zip(e['region'], e['price'])}
        if len(o['ep']) != len(e):
            raise Violation('energy prices list a region more than once:\n%s' % e)
    if spec.get('fcas'):
        e = m.get_fcas_prices()
        o['fp'] = {(r, s): float(v) for r, s, v in zip(e['region'], e['service'], e['price'])}
        if len(o['fp']) != len(e):
            raise Violation('fcas prices list a region/service more than once:\n%s' % e)
    if spec.get('inter'):
        f = m.get_interconnector_flows()
        o['f'] = {(i, l): float(v) for i, l, v in zip(f['interconnector'], f['link'], f['flow'])}
        if len(o['f']) != len(f):
            raise Violation('flows list a link more than once:\n%s' % f)
        if spec.get('loss'):
            o['loss'] = {(i, l): float(v) for i, l, v in zip(f['interconnector'], f['link'], f['losses'])}
    o['obj'] = float(m.objective_value)
    return o


def canon(o):
    """Hashable rounded form of an observation."""
    out = []
    for k in sorted(o):
        v = o[k]
        if isinstance(v, dict):
            out.append((k, tuple(sorted((kk, round(vv, 3) + 0.0) for kk, vv in v.items()))))
        else:
            out.append((k, round(v, 2) + 0.0))
    return tuple(out)


# ------------------------------------------------------------------------------------------------------------------
# reference model
# ------------------------------------------------------------------------------------------------------------------
class Row:
    __slots__ = ('fam', 'name', 'terms', 'type', 'rhs', 'cost', 'price_key')

    def __init__(self, fam, name, terms, type_, rhs, cost=None, price_key=None):
        self.fam, self.name, self.terms, self.type, self.rhs, self.cost, self.price_key = fam, name, terms, type_, frac(rhs), cost, price_key

    def __repr__(self):
        return '%s %s: %s %s %s' % (self.fam, self.name, {k: float(v) for k, v in self.terms.items()}, self.type, float(self.rhs))


def rowcost(c, setname=None):
    if c is None:
        return None
    if isinstance(c, dict):
        return None if setname not in c else frac(c[setname])
    return frac(c)


def composite(init, h, up_gen, down_gen, up_load, down_load):
    """Highest and lowest net output reachable by a bidirectional unit within h hours, in MW.
    Discharging it moves up at the generator's ramp up rate and down at the generator's ramp down rate; charging (net negative) it moves
    up at the load's ramp down rate and down at the load's ramp up rate."""
    # upward
    t, p = h, init
    if p < 0:
        if down_load == 0:
            hi = p
            t = 0
        else:
            need = -p / down_load
            if need >= t:
                hi = p + down_load * t
                t = 0
            else:
                t -= need
                p = Fraction(0)
                hi = p + up_gen * t
    else:
        hi = p + up_gen * t
    t, p = h, init
    if p > 0:
        if down_gen == 0:
            lo = p
        else:
            need = p / down_gen
            if need >= t:
                lo = p - down_gen * t
            else:
                lo = -(up_load * (t - need))
    else:
        lo = p - up_load * t
    return hi, lo


class Ref:
    def __init__(self, spec):
        self.spec = spec
        self.bdu = bdus(spec)
        self.lf = {(u['u'], u.get('t', G)): frac(u.get('lf', 1.0)) for u in spec['units']}
        self.region = {(u['u'], u.get('t', G)): u['r'] for u in spec['units']}
        self.h = Fraction(spec.get('di') if spec.get('di') is not None else 5) / 60 if not isinstance(spec.get('di'), float) else frac(spec['di']) / 60
        self.bands = {}
        for b in spec['bids']:
            k = (b['u'], b['t'], b['s'])
            for n, v in b['v'].items():
                v = frac(v)
                if v < Fraction(1, 10000):
                    continue
                p = frac(b['p'].get(n, 0))
                if b['s'] == 'energy':
                    p = p / self.lf[(b['u'], b['t'])]
                    if b['t'] == L:
                        p = -p
                self.bands.setdefault(k, []).append((p, v, n))
        for k in self.bands:
            self.bands[k].sort()
        self.rows = []
        self.skipped = []
        self._rows()

    # -- terms -------------------------------------------------------------------------------------------------
    def E(self, u, t):
        """Energy of one side as limits of that unit see it (load side of a bidirectional unit counts negative)."""
        return {('x', u, t, 'energy'): Fraction(-1 if (t == L and u in self.bdu) else 1)}

    def net(self, u):
        return {('x', u, G, 'energy'): Fraction(1), ('x', u, L, 'energy'): Fraction(-1)}

    def add(self, *a, **k):
        self.rows.append(Row(*a, **k))

    def _rows(self):
        s = self.spec
        h = self.h
        if s.get('cap'):
            for u, t, c in s['cap']['rows']:
                self.add('cap', (u, t), {('x', u, t, 'energy'): Fraction(1)}, '<=', c, rowcost(s['cap'].get('cost')))
        if s.get('uigf'):
            for u, c in s['uigf']['rows']:
                self.add('uigf', u, {('x', u, G, 'energy'): Fraction(1)}, '<=', c, rowcost(s['uigf'].get('cost')))
        if s.get('ramp'):
            self._ramp(s['ramp'])
        if s.get('fast'):
            for d in s['fast']['rows']:
                for (u, t) in self.lf:
                    if u != d['u']:
                        continue
                    e = self.E(u, t)
                    c = rowcost(s['fast'].get('cost'))
                    ml = frac(d['ml'])
                    if d['end'] in (0, 1):
                        self.add('fast', u, e, '<=', 0, c)
                    elif d['end'] == 2:
                        tgt = frac(d['t']) / frac(d['l2']) * ml
                        self.add('fast', u, e, '<=', tgt, c)
                        self.add('fast', u, e, '>=', tgt, c)
                    elif d['end'] == 3:
                        self.add('fast', u, e, '>=', ml, c)
                    elif d['end'] == 4:
                        self.add('fast', u, e, '>=', ml - frac(d['t']) / frac(d['l4']) * ml, c)
        self.demand_rows = {}
        if s.get('demand'):
            for r, d in s['demand']['rows']:
                terms = {}
                for (u, t, sv) in self.bands:
                    if sv == 'energy' and self.region[(u, t)] == r:
                        terms[('x', u, t, sv)] = Fraction(1 if t == G else -1)
                for link in (s.get('inter') or {}).get('rows', []):
                    key = (link['i'], link.get('l', link['i']))
                    if link['to'] == r:
                        terms[('f',) + key] = frac(link.get('tlf', 1))
                    if link['fr'] == r:
                        terms[('f',) + key] = -frac(link.get('flf', 1))
                for d2 in (s.get('loss') or {}).get('rows', []):
                    key = (d2['i'], d2.get('l', d2['i']))
                    link = self.link(key)
                    if link['to'] == r:
                        terms[('l',) + key] = -(1 - frac(d2['share']))
                    if link['fr'] == r:
                        terms[('l',) + key] = -frac(d2['share'])
                self.demand_rows[r] = len(self.rows)
                self.add('demand', r, terms, '=', d, rowcost(s['demand'].get('cost')))
        g = s.get('generic') or {}

        def generic_terms(setname):
            terms = {}

            def plus(k, v):
                terms[k] = terms.get(k, 0) + v
            for st, u, sv, c in g.get('unit') or []:
                if st == setname:
                    for (u2, t, sv2) in self.bands:
                        if u2 == u and sv2 == sv:
                            sign = -1 if (t == L and u in self.bdu and sv == 'energy') else 1
                            plus(('x', u, t, sv), frac(c) * sign)
            for st, r, sv, c in g.get('region') or []:
                if st == setname:
                    for (u2, t, sv2) in self.bands:
                        if sv2 == sv and self.region[(u2, t)] == r:
                            plus(('x', u2, t, sv), frac(c))
            for st, i, c in g.get('inter') or []:
                if st == setname:
                    for link in (s.get('inter') or {}).get('rows', []):
                        if link['i'] == i:
                            plus(('f', i, link.get('l', i)), frac(c) * link.get('g', 1))
            return terms

        self.fcas_rows = {}
        if s.get('fcas'):
            sets = {}
            for st, r, sv, v, ty in s['fcas']['rows']:
                sets.setdefault(st, dict(v=v, ty='=' if s['fcas'].get('notype') else ty, rs=[]))['rs'].append((r, sv))
            for st, d in sets.items():
                terms = {}
                for (u, t, sv) in self.bands:
                    if (self.region[(u, t)], sv) in d['rs']:
                        terms[('x', u, t, sv)] = Fraction(1)
                for k, v in generic_terms(st).items():
                    terms[k] = terms.get(k, 0) + v
                self.fcas_rows[st] = (len(self.rows), d['rs'])
                self.add('fcas', st, terms, d['ty'], d['v'], rowcost(s['fcas'].get('cost'), st))
        if s.get('fmax'):
            for u, t, sv, m in s['fmax']['rows']:
                self.add('fmax', (u, t, sv), {('x', u, t, sv): Fraction(1)}, '<=', m, rowcost(s['fmax'].get('cost')))
        if s.get('jcap'):
            c0 = rowcost(s['jcap'].get('cost'))
            for u, t, sv, m, a, b, c, d in s['jcap']['rows']:
                m, a, b, c, d = map(frac, (m, a, b, c, d))
                up = dict(self.net(u) if u in self.bdu else {('x', u, t, 'energy'): Fraction(1)})
                lo = dict(up)
                up[('x', u, t, sv)] = (d - c) / m
                lo[('x', u, t, sv)] = -(b - a) / m
                if u in self.bdu:
                    for side in (G, L):
                        up[('x', u, side, 'raise_reg')] = Fraction(1)
                        lo[('x', u, side, 'lower_reg')] = Fraction(-1)
                else:
                    up[('x', u, t, 'raise_reg' if t == G else 'lower_reg')] = Fraction(1)
                    lo[('x', u, t, 'lower_reg' if t == G else 'raise_reg')] = Fraction(-1)
                self.add('jcap', (u, t, sv, 'upper'), up, '<=', d, c0)
                self.add('jcap', (u, t, sv, 'lower'), lo, '>=', a, c0)
        if s.get('reg'):
            c0 = rowcost(s['reg'].get('cost'))
            for u, t, sv, m, a, b, c, d in s['reg']['rows']:
                m, a, b, c, d = map(frac, (m, a, b, c, d))
                up = dict(self.E(u, t))
                lo = dict(up)
                up[('x', u, t, sv)] = (d - c) / m
                lo[('x', u, t, sv)] = -(b - a) / m
                self.add('reg', (u, t, sv, 'upper'), up, '<=', d, c0)
                self.add('reg', (u, t, sv, 'lower'), lo, '>=', a, c0)
        if s.get('jramp'):
            self._jramp(s['jramp'])
        if s.get('generic'):
            for st, ty, rhs in g['rows']:
                self.add('generic', st, generic_terms(st), ty, rhs, rowcost(g.get('cost'), st))
        for fam, cost in (s.get('elastic_after') or {}).items():
            fam = FAMKEY.get(fam, fam)
            for row in self.rows:
                if row.fam == fam or (isinstance(fam, tuple) and (row.fam, row.name[-1]) == fam):
                    row.cost = rowcost(cost, row.name if not isinstance(row.name, tuple) else None)
        # rows without any variable in the market constrain nothing that the market can influence
        self.empty = [r for r in self.rows if not any(self.exists(k) for k in r.terms) and r.cost is None]

    def exists(self, k):
        return k[0] != 'x' or k[1:] in self.bands

    def link(self, key):
        for d in self.spec['inter']['rows']:
            if (d['i'], d.get('l', d['i'])) == key:
                return d
        raise KeyError(key)

    def _fs_skip(self, cfg):
        """Units without ramp limits in this fast start run, and ramp-from-min-loading overrides."""
        run = cfg.get('run')
        skip, over = set(), {}
        if run == 'fast_start_first_run':
            skip = {d['u'] for d in cfg['fs'] if d['cur'] in (0, 1, 2)}
        elif run == 'fast_start_second_run':
            skip = {d['u'] for d in cfg['fs'] if d['end'] in (0, 1, 2)}
            over = {d['u']: (frac(d['ml']), frac(d['since'])) for d in cfg['fs'] if d.get('since') is not None}
        return skip, over

    def _ramp(self, cfg):
        h = self.h
        scada = {u: (a, b) for u, a, b in (cfg.get('scada') or [])}
        skip, over = self._fs_skip(cfg)
        byunit = {}
        for u, t, i, a, b in cfg['rows']:
            byunit.setdefault(u, {})[t] = (frac(i), frac(a), frac(b))

        def lim(rate, s):
            return rate if s is None else min(rate, frac(s))
        c0 = rowcost(cfg.get('cost'))
        for u, sides in byunit.items():
            sa, sb = scada.get(u, (None, None))
            if u in self.bdu:
                gi, gu, gd = sides[G]
                li, lu, ld = sides[L]
                hi, lo = composite(gi, h, gu, gd, lu, ld)
                if sa is not None:
                    hi = min(hi, gi + frac(sa) * h)
                if sb is not None:
                    lo = max(lo, gi - frac(sb) * h)
                self.add('bramp', (u, 'up'), self.net(u), '<=', hi, c0)
                self.add('bramp', (u, 'down'), self.net(u), '>=', lo, c0)
            else:
                if u in skip:
                    continue
                for t, (i, a, b) in sides.items():
                    a, b = lim(a, sa), lim(b, sb)
                    hi = i + a * h
                    if u in over:
                        ml, since = over[u]
                        hi = ml + since * a / 60
                    self.add('ramp', (u, t, 'up'), {('x', u, t, 'energy'): Fraction(1)}, '<=', hi, c0)
                    self.add('ramp', (u, t, 'down'), {('x', u, t, 'energy'): Fraction(1)}, '>=', i - b * h, c0)

    def _jramp(self, cfg):
        h = self.h
        skip, over = self._fs_skip(cfg)
        c0 = rowcost(cfg.get('cost'))
        for u, i, a, b in cfg['rows']:
            if u in skip:
                continue
            i = frac(i)
            up = None if a is None else i + frac(a) * h
            if up is not None and u in over:
                ml, since = over[u]
                up = ml + since * frac(a) / 60
            dn = None if b is None else i - frac(b) * h
            rr = [k for k in self.bands if k[0] == u and k[2] == 'raise_reg']
            lr = [k for k in self.bands if k[0] == u and k[2] == 'lower_reg']
            if u in self.bdu:
                if rr and up is not None:
                    terms = dict(self.net(u))
                    for k in rr:
                        terms[('x',) + k] = Fraction(1)
                    self.add('jramp', (u, 'raise'), terms, '<=', up, c0)
                if lr and dn is not None:
                    terms = dict(self.net(u))
                    for k in lr:
                        terms[('x',) + k] = Fraction(-1)
                    self.add('jramp', (u, 'lower'), terms, '>=', dn, c0)
            else:
                for k in rr:
                    t = k[1]
                    e = {('x', u, t, 'energy'): Fraction(1)}
                    if t == G and up is not None:
                        self.add('jramp', (u, t, 'raise'), {**e, ('x',) + k: Fraction(1)}, '<=', up, c0)
                    elif t == L:
                        # raise for a load means consuming less
                        v = None if a is None else i - frac(a) * h
                        if v is not None:
                            self.add('jramp', (u, t, 'raise'), {**e, ('x',) + k: Fraction(-1)}, '>=', v, c0)
                for k in lr:
                    t = k[1]
                    e = {('x', u, t, 'energy'): Fraction(1)}
                    if t == G and dn is not None:
                        self.add('jramp', (u, t, 'lower'), {**e, ('x',) + k: Fraction(-1)}, '>=', dn, c0)
                    elif t == L:
                        v = None if b is None else i + frac(b) * h
                        if v is not None:
                            self.add('jramp', (u, t, 'lower'), {**e, ('x',) + k: Fraction(1)}, '<=', v, c0)

    # -- discrete choices --------------------------------------------------------------------------------------
    def choices(self):
        """All (per link: fixed-to-zero or (lo, hi, loss slope, loss const)) choices."""
        s = self.spec
        links = [(d['i'], d.get('l', d['i'])) for d in (s.get('inter') or {}).get('rows', [])]
        loss = {(d['i'], d.get('l', d['i'])): d for d in (s.get('loss') or {}).get('rows', [])}
        groups = {}
        for k in links:
            if k[0] != k[1]:
                groups.setdefault(k[0], []).append(k)
        opts = []
        for k in links:
            d = self.link(k)
            lo, hi = frac(d['min']), frac(d['max'])
            o = []
            if k in loss:
                bp = sorted(frac(b) for b in loss[k]['bp'])
                fn = LOSSQ[loss[k]['f']]
                for a, b in zip(bp, bp[1:]):
                    slope = (fn(b) - fn(a)) / (b - a)
                    l2, h2 = max(lo, a), min(hi, b)
                    if l2 <= h2:
                        o.append((l2, h2, slope, fn(a) - slope * a))
            elif lo <= hi:
                o.append((lo, hi, None, None))
            opts.append(o)
        for pick in itertools.product(*opts):
            pick = dict(zip(links, pick))
            acts = [range(len(g)) for g in groups.values()]
            for act in itertools.product(*acts):
                p2 = dict(pick)
                ok = True
                for (gname, g), a in zip(groups.items(), act):
                    for n, k in enumerate(g):
                        if n != a:
                            lo, hi, sl, c = p2[k]
                            if not (lo <= 0 <= hi):
                                ok = False
                            p2[k] = (Fraction(0), Fraction(0), sl, c)
                if ok:
                    yield p2

    def lp(self, choice, bumps=None, extra_rows=()):
        """LP of one choice. Returns (LP, constant, row map)."""
        costs, ubs, idx = [], [], {}

        def var(name, cost, ub):
            idx[name] = len(costs)
            costs.append(cost)
            ubs.append(ub)
            return idx[name]
        tot = {}
        for k, bs in self.bands.items():
            for n, (p, v, bn) in enumerate(bs):
                j = var(('b',) + k + (bn,), p, v)
                tot.setdefault(('x',) + k, []).append(j)
        fl = {}
        for k, (lo, hi, sl, c) in choice.items():
            if lo != hi:
                fl[k] = var(('f',) + k, Fraction(0), hi - lo)
        rows = []
        for r in list(self.rows) + list(extra_rows):
            coef, rhs = {}, r.rhs + (bumps or {}).get(id(r), 0)
            for k, v in r.terms.items():
                if k[0] == 'x':
                    for j in tot.get(k, []):
                        coef[j] = coef.get(j, 0) + v
                elif k[0] == 'b':
                    if k in idx:
                        coef[idx[k]] = coef.get(idx[k], 0) + v
                else:
                    lo, hi, sl, c = choice[k[1:]]
                    if k[0] == 'l':
                        rhs -= v * (sl * lo + c)
                        v = v * sl
                    else:
                        rhs -= v * lo
                    if k[1:] in fl:
                        coef[fl[k[1:]]] = coef.get(fl[k[1:]], 0) + v
            if r.cost is not None:
                if r.type in ('<=', '='):
                    coef[var(('d-', id(r)), r.cost, None)] = Fraction(-1)
                if r.type in ('>=', '='):
                    coef[var(('d+', id(r)), r.cost, None)] = Fraction(1)
            elif r in self.empty:
                coef, rhs = {}, Fraction(0)
            rows.append((coef, r.type, rhs))
        return LP(costs, rows, ubs), idx

    def best(self, bumps=None, extra_rows=()):
        """Least cost over all choices, or None when infeasible."""
        if bumps is None and not extra_rows:
            if not hasattr(self, '_b0'):
                self._b0 = (self._best_of(None, ()),)
            return self._b0[0]
        return self._best_of(bumps, extra_rows)

    def _best_of(self, bumps, extra_rows):
        best = None
        for ch in self.choices():
            lp, idx = self.lp(ch, bumps, extra_rows)
            v = lp.solve()
            if v is not None and (best is None or v < best):
                best = v
        return best

    def best_solution(self, extra_rows=()):
        best = None
        for ch in self.choices():
            lp, idx = self.lp(ch, None, extra_rows)
            v = lp.solve()
            if v is not None and (best is None or v < best[0]):
                x = lp.solution()
                tot = {}
                for name, j in idx.items():
                    if name[0] == 'b':
                        tot[name[1:4]] = tot.get(name[1:4], 0) + x[j]
                best = (v, tot)
        return best

    # -- evaluation of observed results ---------------------------------------------------------------------------
    def value(self, k, o):
        if k[0] == 'x':
            return o['x'].get(k[1:], 0.0)
        if k[0] == 'f':
            return o['f'][k[1:]]
        if k[0] == 'l':
            return o['loss'][k[1:]]

    def lhs(self, row, o):
        return sum(float(v) * self.value(k, o) for k, v in row.terms.items() if self.exists(k))

    def violation(self, row, o):
        """(MW over, MW under)"""
        d = self.lhs(row, o) - float(row.rhs)
        if row in self.empty:
            return 0.0
        if row.type == '<=':
            return max(d, 0.0)
        if row.type == '>=':
            return max(-d, 0.0)
        return abs(d)

    def bid_cost(self, o):
        c = 0.0
        for k, bs in self.bands.items():
            left = o['x'].get(k, 0.0)
            for p, v, n in bs:
                q = min(left, float(v))
                c += q * float(p)
                left -= q
            if left > TOL:
                raise Violation('%s %s %s dispatched %.6f MW above its bid volume' % (k + (left,)))
        return c

    def check(self, o, what=('feasible', 'cost', 'obj')):
        """Judge an observation of the dispatch of this market."""
        for k, v in o['x'].items():
            if k not in self.bands:
                raise Violation('dispatch of %s reported but it has no bid volume: %s' % (k, v))
            if v < -TOL:
                raise Violation('negative dispatch %s for %s' % (v, k))
        for k in self.bands:
            if k not in o['x']:
                raise Violation('no dispatch reported for %s' % (k,))
        cost = self.bid_cost(o)
        for k, v in o.get('f', {}).items():
            d = self.link(k)
            if not (d['min'] - TOL <= v <= d['max'] + TOL):
                raise Violation('flow %s of %s outside its limits' % (v, k))
        self.check_losses(o)
        scale = 1.0
        for r in self.rows:
            v = self.violation(r, o)
            if r.cost is None:
                if v > TOL * (1 + abs(float(r.rhs)) / 100):
                    raise Violation('constraint violated by %.6f MW: %s, with dispatch %s' % (v, r, _show(o)))
            else:
                cost += v * float(r.cost)
                scale = max(scale, float(r.cost))
        best = self.best()
        if best is None:
            raise Violation('reference model finds no feasible dispatch but %s was reported' % _show(o))
        best = float(best)
        tol = 2e-3 + 1e-6 * abs(best) + 1e-6 * scale
        if 'cost' in what and abs(cost - best) > tol:
            raise Violation('dispatch costs %.6f, least cost is %.6f: %s' % (cost, best, _show(o)))
        if 'obj' in what and abs(o['obj'] - best) > tol:
            raise Violation('objective value %.6f, least cost is %.6f: %s' % (o['obj'], best, _show(o)))
        return cost, best

    def check_losses(self, o):
        for d in (self.spec.get('loss') or {}).get('rows', []):
            k = (d['i'], d.get('l', d['i']))
            want = self.loss_at(d, o['f'][k])
            if abs(want - o['loss'][k]) > TOL:
                raise Violation('losses of %s at flow %.5f are %.6f, interpolation gives %.6f' % (k, o['f'][k], o['loss'][k], want))
        groups = {}
        for (i, l), v in o.get('f', {}).items():
            if i != l and abs(v) > TOL:
                groups.setdefault(i, []).append(l)
        for i, ls in groups.items():
            if len(ls) > 1:
                raise Violation('links %s of %s carry flow at the same time: %s' % (ls, i, o['f']))

    @staticmethod
    def loss_at(d, f):
        bp = sorted(float(b) for b in d['bp'])
        fn = LOSS[d['f']]
        if f < bp[0] - TOL or f > bp[-1] + TOL:
            raise Violation('flow %s outside the break points %s' % (f, bp))
        f = min(max(f, bp[0]), bp[-1])
        for a, b in zip(bp, bp[1:]):
            if a <= f <= b:
                return fn(a) + (fn(b) - fn(a)) * (f - a) / (b - a)

    # -- prices -----------------------------------------------------------------------------------------------------
    def marginal(self, rowi, best=None, tighten=None):
        """(left, right) marginal cost of the right hand side of row number rowi; None = unlimited."""
        row = self.rows[rowi]
        if best is None:
            best = self.best()
        e = Fraction(1, Q)
        up = self.best({id(row): e})
        dn = self.best({id(row): -e})
        right = None if up is None else float((up - best) / e)
        left = None if dn is None else float((best - dn) / e)
        return left, right

    def check_energy_prices(self, o, best=None):
        best = self.best() if best is None else best
        out = {}
        for r, rowi in self.demand_rows.items():
            if r not in o['ep']:
                raise Violation('no energy price for region %s' % r)
            left, right = self.marginal(rowi, best)
            p = o['ep'][r]
            tol = 2e-3 + 1e-5 * abs(p)
            if (left is not None and p < left - tol) or (right is not None and p > right + tol):
                raise Violation('energy price %s in %s outside marginal cost range [%s, %s]: %s' % (p, r, left, right, _show(o)))
            out[r] = (left, right)
        if set(o['ep']) != set(self.demand_rows):
            raise Violation('energy prices for regions %s, demand set for %s' % (sorted(o['ep']), sorted(self.demand_rows)))
        return out

    def check_fcas_prices(self, o, best=None):
        """Price of (region, service) = sum of marginal values of sets covering it."""
        best = self.best() if best is None else best
        lo, hi = {}, {}
        for st, (rowi, rs) in self.fcas_rows.items():
            left, right = self.marginal(rowi, best)
            for k in rs:
                lo[k] = lo.get(k, 0.0) + (-np.inf if left is None else left)
                hi[k] = hi.get(k, 0.0) + (np.inf if right is None else right)
        if set(o['fp']) != set(lo):
            raise Violation('fcas prices for %s, requirements cover %s' % (sorted(o['fp']), sorted(lo)))
        for k in lo:
            p = o['fp'][k]
            tol = 2e-3 + 1e-5 * abs(p)
            if p < lo[k] - tol or p > hi[k] + tol:
                raise Violation('fcas price %s of %s outside [%s, %s]: %s' % (p, k, lo[k], hi[k], _show(o)))
        return lo, hi


FAMKEY = {'unit_bid_capacity': 'cap', 'uigf_capacity': 'uigf', 'demand': 'demand', 'fcas': 'fcas', 'fcas_max_availability': 'fmax',
          'joint_capacity': 'jcap', 'energy_and_regulation_capacity': 'reg', 'generic': 'generic', 'fast_start': 'fast',
          'ramp_up': ('ramp', 'up'), 'ramp_down': ('ramp', 'down'), 'bidirectional_ramp_up': ('bramp', 'up'), 'bidirectional_ramp_down': ('bramp', 'down')}


def _show(o):
    return {k: ({'/'.join(kk) if isinstance(kk, tuple) else kk: round(vv, 4) for kk, vv in v.items()} if isinstance(v, dict) else v) for k, v in o.items()}


def run_spec(spec, energy_price=False, fcas_price=False, what=('feasible', 'cost', 'obj'), kw=None):
    """Build the market through the public API, dispatch, and compare with the reference. Returns (market, observation or None, ref)."""
    ref = Ref(spec)
    m = build(spec)
    try:
        dispatch(m, spec, **(kw or {}))
    except Infeasible:
        if ref.best() is not None:
            raise Violation('market reported infeasible, reference least cost %s' % float(ref.best()))
        return m, None, ref
    o = observe(m, spec)
    cost, best = ref.check(o, what)
    if energy_price:
        ref.check_energy_prices(o, ref.best())
    if fcas_price:
        ref.check_fcas_prices(o, ref.best())
    return m, o, ref



"""spec -> flixOpt objects, through the public constructors only."""

import copy
import json
import random

import numpy as np

from .view import is_ts


class Form:
    """how a value is handed over: python number, numpy number, constant array, array, TimeSeriesData"""

    def __init__(self, fx, mode='plain', seed=0, n=None):
        self.fx, self.mode, self.n = fx, mode, n
        self.rng = random.Random(seed)
        self.handed = []  # (object, copy) to detect mutation of the caller's data
        self.shared = None  # cache: equal parameters are handed over as one and the same object

    def arr(self, v):
        a = np.array(v, dtype=float)
        if self.mode != 'plain' and a.ndim == 1:
            r = self.rng.random()
            if r < 0.15 and np.all(a == np.round(a)):
                a = a.astype(self.rng.choice([np.int64, np.int32]))
            elif r < 0.3:  # part of something larger
                b = np.full((len(a), 3), -7.5)
                b[:, 1] = a
                a = b[:, 1]
            elif r < 0.4:
                a = a[::-1].copy()[::-1]
            elif r < 0.6:
                a.setflags(write=False)
        self.handed.append((a, a.copy()))
        return a

    def watch(self, d):
        self.handed.append((d, copy.copy(d)))
        return d

    def watch_times(self, a):
        self.handed.append((a, a.copy()))
        return a

    def mutated(self):
        for a, b in self.handed:
            if isinstance(a, np.ndarray):
                if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
                    return f'array {b.tolist()} became {a.tolist()}'
            elif isinstance(a, dict):
                if list(map(id, a)) != list(map(id, b)) or any(a[k] is not b[k] for k in b):
                    return f'dict {b} became {a}'
            elif isinstance(a, list):
                if list(map(id, a)) != list(map(id, b)):
                    return f'list {b} became {a}'
        return None

    def other_effects(self, b):
        """the cache belongs to a system with other effects"""
        return self.shared is not None and self.shared.setdefault('effects', b) is not b

    def cached(self, kind, v, make, ok=True):
        if self.shared is None or not ok:
            return make()
        key = (kind, json.dumps(v, sort_keys=True))
        if key not in self.shared:
            self.shared[key] = make()
        return self.shared[key]

    def __call__(self, v, kind='ts'):
        if self.shared is not None and is_ts(v):
            return self.cached('value ' + kind, list(v), lambda: self._make(v, kind))
        return self._make(v, kind)

    def _make(self, v, kind='ts'):
        """kind: 'ts' time series allowed (number, array, TimeSeriesData), 'arr' number/array, 'num' number only"""
        if v is None or isinstance(v, str):
            return v
        if self.mode == 'plain':
            return self.arr(v) if is_ts(v) else v
        r = self.rng.random()
        if is_ts(v):
            a = self.arr(v)
            return self.fx.TimeSeriesData(a) if kind == 'ts' and r < 0.5 else a
        if kind == 'num':
            if float(v) == int(v) and r < 0.4:
                return int(v)
            return np.float64(v) if r < 0.7 else float(v)
        if float(v) == int(v) and r < 0.15:
            return int(v)
        if r < 0.3:
            return np.float64(v)
        if r < 0.5:
            return float(v)
        if r < 0.7 or kind == 'arr':
            return self.arr([v] * self.n)
        return self.fx.TimeSeriesData(self.arr([v] * self.n) if r < 0.9 else v)


class Built:
    """system: FlowSystem; plus name -> object maps"""

    def __init__(self):
        self.system = None
        self.effects, self.buses, self.comps, self.flows = {}, {}, {}, {}
        self.form = None


def times_of(spec, unit=None):
    unit = unit or spec['time'].get('unit', 'us')
    return np.array(spec['time']['t'], dtype='datetime64[us]').astype(f'datetime64[{unit}]')


def build(spec, order_seed=None, mode=None, shared=None):
    """shared: dict, used as cache of parameter objects (also across systems); default: every object is its own"""
    import flixOpt as fx

    b = Built()
    n = len(spec['time']['t'])
    form = b.form = Form(fx, mode or spec.get('form', 'plain'), spec.get('form_seed', 0), n)
    form.shared = shared
    t = spec['time']
    kw = {}
    if t.get('last') is not None:
        kw['last_time_step_hours'] = t['last']
    if t.get('prev_dt') is not None:
        kw['previous_dt_in_hours'] = form.arr(t['prev_dt']) if is_ts(t['prev_dt']) else t['prev_dt']
    b.system = fx.FlowSystem(form.watch_times(times_of(spec)), **kw)

    # effects; shares may only point to effects that already exist
    order = _effect_order(spec)
    for lbl in order:
        e = next(x for x in spec['effects'] if x['label'] == lbl)
        kw = dict(is_standard=bool(e.get('standard')), is_objective=bool(e.get('objective')))
        if e.get('share_op'):
            kw['specific_share_to_other_effects_operation'] = form.watch({b.effects[k]: form(v) for k, v in e['share_op'].items()})
        if e.get('share_inv'):
            kw['specific_share_to_other_effects_invest'] = form.watch({b.effects[k]: form(v, 'num') for k, v in e['share_inv'].items()})
        for a, name in (
            ('min_op', 'minimum_operation'), ('max_op', 'maximum_operation'),
            ('min_inv', 'minimum_invest'), ('max_inv', 'maximum_invest'),
            ('min_total', 'minimum_total'), ('max_total', 'maximum_total'),
        ):
            if e.get(a) is not None:
                kw[name] = form(e[a], 'num')
        for a, name in (('min_ph', 'minimum_operation_per_hour'), ('max_ph', 'maximum_operation_per_hour')):
            if e.get(a) is not None:
                kw[name] = form(e[a])
        b.effects[lbl] = fx.Effect(lbl, e.get('unit', 'u'), e.get('desc', lbl), **kw)
    for lbl, info in spec['buses'].items():
        b.buses[lbl] = fx.Bus(lbl, excess_penalty_per_flow_hour=form(info.get('penalty')))
    comps = [_component(fx, b, form, c) for c in spec['comps']]
    b.comps.update({c['label']: comp for c, comp in zip(spec['comps'], comps, strict=True)})

    absent = {e['label'] for e in spec['effects'] if e.get('absent')}  # defined and used, but not part of the system
    elements = [e for k, e in b.effects.items() if k not in absent] + comps
    if order_seed is not None:
        rng = random.Random(order_seed)
        rng.shuffle(elements)
        k = rng.randrange(len(elements) + 1)
        b.system.add_elements(*elements[:k])
        b.system.add_elements(*elements[k:])
    else:
        b.system.add_elements(*elements)
    return b


def _effect_order(spec):
    left = [e for e in spec['effects']]
    out = []
    while left:
        for e in left:
            deps = set(e.get('share_op') or {}) | set(e.get('share_inv') or {})
            if deps <= set(out):
                out.append(e['label'])
                left.remove(e)
                break
        else:
            raise ValueError('circular shares in spec')
    return out


def _eff(b, form, v, kind='ts'):
    if v is None:
        return None
    if isinstance(v, dict):
        return form.cached('dict ' + kind, v, lambda: form.watch({(None if k == '' else b.effects[k]): form(x, kind) for k, x in v.items()}),
                           ok=not form.other_effects(b))
    return form(v, kind)


def _with_dict(p):
    return any(isinstance(v, dict) for v in p.values()) or p.get('seg') is not None


def _invest(fx, b, form, p):
    return form.cached('invest', p, lambda: _invest_new(fx, b, form, p), ok=not (form.other_effects(b) and _with_dict(p)))


def _invest_new(fx, b, form, p):
    kw = {}
    for a, name in (('fixed', 'fixed_size'), ('min', 'minimum_size'), ('max', 'maximum_size')):
        if p.get(a) is not None:
            kw[name] = form(p[a], 'num')
    if 'optional' in p:
        kw['optional'] = p['optional']
    for a, name in (('fix', 'fix_effects'), ('spec', 'specific_effects'), ('div', 'divest_effects')):
        if p.get(a) is not None:
            kw[name] = _eff(b, form, p[a], 'num')
    if p.get('seg'):
        pts, effs = p['seg']
        kw['effects_in_segments'] = (
            [tuple(x) for x in pts],
            {b.effects[e]: [tuple(y) for y in ys] for e, ys in effs.items()},
        )
    return fx.InvestParameters(**kw)


def _onoff(fx, b, form, p):
    if p is None:
        return None
    return form.cached('onoff', p, lambda: _onoff_new(fx, b, form, p), ok=not (form.other_effects(b) and _with_dict(p)))


def _onoff_new(fx, b, form, p):
    kw = {}
    if p.get('sw_eff') is not None:
        kw['effects_per_switch_on'] = _eff(b, form, p['sw_eff'])
    if p.get('run_eff') is not None:
        kw['effects_per_running_hour'] = _eff(b, form, p['run_eff'])
    for a, name in (
        ('onh_min', 'on_hours_total_min'), ('onh_max', 'on_hours_total_max'), ('sw_max', 'switch_on_total_max'),
    ):
        if p.get(a) is not None:
            kw[name] = form(p[a], 'num')
    for a, name in (
        ('on_min', 'consecutive_on_hours_min'), ('on_max', 'consecutive_on_hours_max'),
        ('off_min', 'consecutive_off_hours_min'), ('off_max', 'consecutive_off_hours_max'),
    ):
        if p.get(a) is not None:
            kw[name] = form(p[a])
    if p.get('force'):
        kw['force_switch_on'] = True
    return fx.OnOffParameters(**kw)


def _flow(fx, b, form, comp, f):
    kw = {}
    size = f.get('size')
    if isinstance(size, dict):
        kw['size'] = _invest(fx, b, form, size['invest'])
    elif size is not None:
        kw['size'] = form(size, 'num')
    for a, name in (('profile', 'fixed_relative_profile'), ('rmin', 'relative_minimum'), ('rmax', 'relative_maximum')):
        if f.get(a) is not None:
            kw[name] = form(f[a])
    if f.get('eff') is not None:
        kw['effects_per_flow_hour'] = _eff(b, form, f['eff'])
    if f.get('onoff') is not None:
        kw['on_off_parameters'] = _onoff(fx, b, form, f['onoff'])
    for a, name in (
        ('fh_max', 'flow_hours_total_max'), ('fh_min', 'flow_hours_total_min'),
        ('lf_max', 'load_factor_max'), ('lf_min', 'load_factor_min'),
    ):
        if f.get(a) is not None:
            kw[name] = form(f[a], 'num')
    if f.get('prev') is not None:
        kw['previous_flow_rate'] = form.arr(f['prev']) if is_ts(f['prev']) else f['prev']
    fl = fx.Flow(f['label'], b.buses[f['bus']], **kw)
    b.flows[(comp['label'], f['label'])] = fl
    return fl


def _prevent(L, name, v):
    """the documented default is left out half of the time"""
    return {} if v and sum(map(ord, L)) % 2 else {name: v}


def _component(fx, b, form, c):
    k, L = c['kind'], c['label']

    def F(name):
        return _flow(fx, b, form, c, c[name]) if c.get(name) else None

    meta = {'meta_data': c['meta']} if c.get('meta') else {}
    if k == 'Source':
        return fx.Source(L, F('flow'), **meta)
    if k == 'Sink':
        return fx.Sink(L, F('flow'), **meta)
    if k == 'SourceAndSink':
        return fx.SourceAndSink(L, source=F('source'), sink=F('sink'), **_prevent(L, 'prevent_simultaneous_flows', c.get('prevent', True)))
    if k == 'Storage':
        kw = {}
        cap = c['capacity']
        kw['capacity_in_flow_hours'] = _invest(fx, b, form, cap['invest']) if isinstance(cap, dict) else form(cap, 'num')
        for a, name in (
            ('rmin', 'relative_minimum_charge_state'), ('rmax', 'relative_maximum_charge_state'),
        ):
            if c.get(a) is not None:
                kw[name] = form.arr(c[a]) if is_ts(c[a]) else c[a]
        for a, name in (('eta_c', 'eta_charge'), ('eta_d', 'eta_discharge'), ('loss', 'relative_loss_per_hour')):
            if c.get(a) is not None:
                kw[name] = form(c[a])
        if 'initial' in c:
            kw['initial_charge_state'] = c['initial']
        for a, name in (('fmin', 'minimal_final_charge_state'), ('fmax', 'maximal_final_charge_state')):
            if c.get(a) is not None:
                kw[name] = form(c[a], 'num')
        return fx.Storage(
            L, charging=F('charging'), discharging=F('discharging'),
            **_prevent(L, 'prevent_simultaneous_charge_and_discharge', c.get('prevent', True)), **kw, **meta,
        )
    oo = _onoff(fx, b, form, c.get('onoff'))
    if k == 'LinearConverter':
        ins = [_flow(fx, b, form, c, f) for f in c.get('inputs', [])]
        outs = [_flow(fx, b, form, c, f) for f in c.get('outputs', [])]
        by = {f['label']: b.flows[(L, f['label'])] for f in c.get('inputs', []) + c.get('outputs', [])}
        kw = {}
        if c.get('factors'):
            kw['conversion_factors'] = form.watch([form.watch({by[x]: form(y) for x, y in fac.items()}) for fac in c['factors']])
        if c.get('segments'):
            kw['segmented_conversion_factors'] = form.watch({
                by[x]: form.watch([(form(p[0], 'arr'), form(p[1], 'arr')) for p in pts]) for x, pts in c['segments'].items()
            })
        return fx.LinearConverter(L, form.watch(ins), form.watch(outs), on_off_parameters=oo, **kw, **meta)
    if k == 'Transmission':
        kw = {}
        for a, name in (('rel', 'relative_losses'), ('abs', 'absolute_losses')):
            if c.get(a) is not None:
                kw[name] = form(c[a])
        return fx.Transmission(
            L, in1=F('in1'), out1=F('out1'), in2=F('in2'), out2=F('out2'), on_off_parameters=oo,
            **_prevent(L, 'prevent_simultaneous_flows_in_both_directions', c.get('prevent', True)), **kw,
        )
    lc = fx.linear_converters
    if k == 'Boiler':
        return lc.Boiler(L, eta=form(c['eta']), Q_fu=F('Q_fu'), Q_th=F('Q_th'), on_off_parameters=oo)
    if k == 'Power2Heat':
        return lc.Power2Heat(L, eta=form(c['eta']), P_el=F('P_el'), Q_th=F('Q_th'), on_off_parameters=oo)
    if k == 'HeatPump':
        return lc.HeatPump(L, COP=form(c['COP']), P_el=F('P_el'), Q_th=F('Q_th'), on_off_parameters=oo)
    if k == 'CoolingTower':
        return lc.CoolingTower(
            L, specific_electricity_demand=form(c['demand'], 'arr'), P_el=F('P_el'), Q_th=F('Q_th'), on_off_parameters=oo
        )
    if k == 'CHP':
        return lc.CHP(
            L, eta_th=form(c['eta_th'], 'arr'), eta_el=form(c['eta_el'], 'arr'),
            Q_fu=F('Q_fu'), P_el=F('P_el'), Q_th=F('Q_th'), on_off_parameters=oo,
        )
    if k == 'HeatPumpWithSource':
        return lc.HeatPumpWithSource(
            L, COP=form(c['COP'], 'arr'), P_el=F('P_el'), Q_ab=F('Q_ab'), Q_th=F('Q_th'), on_off_parameters=oo
        )
    raise ValueError(k)

"""Normalised, read-only view of a JSON system description ("spec").

A spec is the single source of truth of a test case.  It is plain JSON, so a
violating case can be written to disk and replayed.  Nothing in here imports
the code under test.
"""

import numpy as np

EPS = 1e-5     # documented modelling epsilon of the default configuration
BIG = 1e7      # documented default size of the default configuration


def vec(v, n):
    """scalar | list -> float vector of length n"""
    a = np.asarray(v, dtype=float)
    if a.ndim == 0:
        return np.full(n, float(a))
    if len(a) != n:
        raise ValueError(f'length {len(a)} != {n}')
    return a.astype(float)


def is_ts(v):
    return isinstance(v, (list, tuple))


class FlowView:
    def __init__(self, spec, comp, fl, is_input, forced_on):
        self.spec, self.comp, self.fl = spec, comp, fl
        self.label = fl['label']
        self.bus = fl['bus']
        self.is_input = is_input
        self.onoff = fl.get('onoff')
        if self.onoff is None and forced_on:
            self.onoff = {}
        self.key = (comp['label'], self.label)
        size = fl.get('size')
        self.invest = size['invest'] if isinstance(size, dict) else None
        self.size = None if self.invest is not None else (BIG if size is None else float(size))
        n = spec_n(spec)
        self.profile = None if fl.get('profile') is None else vec(fl['profile'], n)
        self.rmin = vec(fl.get('rmin', 0), n) if self.profile is None else self.profile
        self.rmax = vec(fl.get('rmax', 1), n) if self.profile is None else self.profile

    def size_bounds(self):
        """(lowest, highest) size that the definition allows, ignoring the option not to invest"""
        if self.invest is None:
            return self.size, self.size
        return invest_bounds(self.invest)


def invest_bounds(inv):
    if inv.get('fixed') is not None:
        return float(inv['fixed']), float(inv['fixed'])
    return float(inv.get('min', 0)), float(BIG if inv.get('max') is None else inv['max'])


class CompView:
    """inputs, outputs, linear equations, pieces, on/off definition, exclusive flows of a component"""

    def __init__(self, spec, c):
        self.spec, self.c = spec, c
        self.kind, self.label = c['kind'], c['label']
        k = self.kind
        self.onoff = c.get('onoff')
        self.exclusive = []
        self.factors = []
        self.segments = None
        ins, outs = [], []
        if k == 'Source':
            outs = [c['flow']]
        elif k == 'Sink':
            ins = [c['flow']]
        elif k == 'SourceAndSink':
            ins, outs = [c['sink']], [c['source']]
            if c.get('prevent', True):
                self.exclusive = [c['sink']['label'], c['source']['label']]
        elif k == 'Storage':
            ins, outs = [c['charging']], [c['discharging']]
            if c.get('prevent', True):
                self.exclusive = [c['charging']['label'], c['discharging']['label']]
        elif k == 'LinearConverter':
            ins, outs = c.get('inputs', []), c.get('outputs', [])
            self.factors = c.get('factors') or []
            self.segments = c.get('segments')
        elif k == 'Transmission':
            ins = [f for f in (c['in1'], c.get('in2')) if f]
            outs = [f for f in (c['out1'], c.get('out2')) if f]
            if c.get('in2') and c.get('prevent', True):
                self.exclusive = [c['in1']['label'], c['in2']['label']]
        elif k == 'Boiler':
            ins, outs = [c['Q_fu']], [c['Q_th']]
            self.factors = [{c['Q_fu']['label']: c['eta'], c['Q_th']['label']: 1}]
        elif k == 'Power2Heat':
            ins, outs = [c['P_el']], [c['Q_th']]
            self.factors = [{c['P_el']['label']: c['eta'], c['Q_th']['label']: 1}]
        elif k == 'HeatPump':
            ins, outs = [c['P_el']], [c['Q_th']]
            self.factors = [{c['P_el']['label']: c['COP'], c['Q_th']['label']: 1}]
        elif k == 'CoolingTower':
            ins = [c['P_el'], c['Q_th']]
            d = c['demand']
            neg = [-x for x in d] if is_ts(d) else -d
            self.factors = [{c['P_el']['label']: 1, c['Q_th']['label']: neg}]
        elif k == 'CHP':
            ins, outs = [c['Q_fu']], [c['Q_th'], c['P_el']]
            self.factors = [
                {c['Q_fu']['label']: c['eta_th'], c['Q_th']['label']: 1},
                {c['Q_fu']['label']: c['eta_el'], c['P_el']['label']: 1},
            ]
        elif k == 'HeatPumpWithSource':
            ins, outs = [c['P_el'], c['Q_ab']], [c['Q_th']]
            cop = c['COP']
            # heat drawn from the source is the produced heat minus the electricity
            src = [x / (x - 1) for x in cop] if is_ts(cop) else cop / (cop - 1)
            self.factors = [
                {c['P_el']['label']: cop, c['Q_th']['label']: 1},
                {c['Q_ab']['label']: src, c['Q_th']['label']: 1},
            ]
        else:
            raise ValueError(k)
        if c.get('exclusive'):
            self.exclusive = c['exclusive']
        forced = self.onoff is not None
        if k == 'Transmission' and c.get('abs') is not None and np.any(np.asarray(c['abs'], float) != 0):
            forced = True
        self.inputs = [FlowView(spec, c, f, True, forced or f['label'] in self.exclusive) for f in ins]
        self.outputs = [FlowView(spec, c, f, False, forced or f['label'] in self.exclusive) for f in outs]
        if k == 'Transmission' and c.get('in2') and self.inputs[0].invest is not None and self.inputs[1].invest is None:
            f2 = self.inputs[1]  # second direction takes its size from the first one
            f2.invest = {'max': invest_bounds(self.inputs[0].invest)[1], 'min': 0, 'optional': True}
            f2.size = None

    @property
    def flows(self):
        return self.inputs + self.outputs

    def flow(self, label):
        for f in self.flows:
            if f.label == label:
                return f
        raise KeyError(label)


def spec_n(spec):
    return len(spec['time']['t'])


def spec_dt(spec):
    t = spec['time']
    x = np.array(t['t'], dtype='datetime64[us]')
    d = (x[1:] - x[:-1]) / np.timedelta64(1, 'h')
    last = t.get('last')
    last = d[-1] if last is None else float(last)
    return np.append(d, last)


def spec_prev_dt(spec):
    p = spec['time'].get('prev_dt')
    return spec_dt(spec)[0] if p is None else (np.asarray(p, float) if is_ts(p) else float(p))


class SysView:
    def __init__(self, spec):
        self.spec = spec
        self.n = spec_n(spec)
        self.dt = spec_dt(spec)
        self.prev_dt = spec_prev_dt(spec)
        self.comps = [CompView(spec, c) for c in spec['comps']]
        self.buses = spec['buses']
        self.effects = {e['label']: e for e in spec['effects']}
        self.standard = next((e['label'] for e in spec['effects'] if e.get('standard')), None)
        self.objective = next((e['label'] for e in spec['effects'] if e.get('objective')), None)

    @property
    def flows(self):
        return [f for c in self.comps for f in c.flows]

    def eff_values(self, v):
        """effect values -> {effect label: scalar|list}"""
        if v is None:
            return {}
        if isinstance(v, dict):
            return {(self.standard if k == '' else k): x for k, x in v.items()}
        return {self.standard: v}


def prev_on(flows):
    """previous on/off history of a group of flows, oldest first: on if any flow was on.

    A single number is the state just before the horizon; flows without a statement don't count."""
    hist = [np.atleast_1d(np.asarray(f.fl['prev'], float)) for f in flows if f.fl.get('prev') is not None]
    if not hist:
        return [0]
    m = max(len(h) for h in hist)
    out = []
    for i in range(m):
        on = 0
        for h in hist:
            j = len(h) - m + i
            if j >= 0 and abs(h[j]) > EPS:
                on = 1
        out.append(on)
    return out


def prev_duration(states, prev_dt, value=1):
    """hours since which the last previous state has been `value` (0 if it is not)"""
    k = 0
    for s in reversed(states):
        if s != value:
            break
        k += 1
    if k == 0:
        return 0.0
    if np.ndim(prev_dt) == 0:
        return k * float(prev_dt)
    return float(np.sum(prev_dt[-k:]))

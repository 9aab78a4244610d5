"""Random system descriptions.  P maps feature names to probabilities; a property focuses the workload
on its own feature by overriding some of them."""

import random

import numpy as np

from .view import spec_dt

LABELS = ['Heizkessel', 'Wärme', 'gas', 'Strom', 'Kessel 2', 'CHP-unit', 'Speicher', 'x', 'Last (neu)', 'é7', 'a b', 'Q',
          'Netz', 'Turm', 'Anlage 1', 'PV', 'Ofen', 'süd', 'Ost', 'kraft.werk', 'unit#3', 'Z', 'Haus', 'Block-A']
FLOWS = ['Q_th', 'P el', 'F', 'Wärme', 'in', 'out', 'Qfu', 'h', 'zu', 'ab', 'u+', 'V1', 'V2', 'Strom', 'gas', 'k']

DEFAULT = dict(
    n=(3, 7), long=0.06, n_long=(16, 40), uneven=0.5, unit_other=0.25, last=0.2, prev_dt=0.25,
    buses=(1, 3), strict=0.2, zero_penalty=0.0, penalty_ts=0.2,
    effects=(1, 3), share_op=0.4, share_inv=0.3, share_ts=0.3, none_key=0.15,
    supply=0.85, demand=0.8, neg_price=0.12, ts_price=0.5,
    comps=(1, 2), kinds=dict(Boiler=2, LinearConverter=2, Storage=2, CHP=1, Power2Heat=1, HeatPump=1, Source=1, Sink=1),
    multi_io=0.4, conv_ts=0.4, segments=0.0, neg_factor=0.0,
    flow_onoff=0.12, comp_onoff=0.12, invest=0.15, rmin=0.15, rmax_ts=0.25, eff=0.4, prev=0.3, prev_list=0.4,
    size_none=0.15, size_zero=0.0, profile=0.1,
    fh_max=0.0, fh_min=0.0, lf_max=0.0, lf_min=0.0, wide=0.0,
    # on/off details
    sw_eff=0.3, run_eff=0.3, onh_min=0.0, onh_max=0.0, sw_max=0.0, on_min=0.0, on_max=0.0, off_min=0.0, off_max=0.0,
    dur_ts=0.3, force=0.1,
    # investments
    optional=0.6, fixed=0.3, inv_min=0.5, inv_seg=0.1, div=0.3, fix=0.5, inv_max_none=0.0,
    # storage
    st_invest=0.2, st_cyclic=0.2, st_free=0.15, st_final=0.4, st_bounds=0.4, st_bounds_ts=0.0, st_loss=0.5, st_prevent=0.6,
    st_eta=0.7,
    tr_abs=0.4, tr_bidir=0.5, tr_invest=0.3, tr_prevent=0.6, tr_none=0.2,
    form=0.5, scale=0.0,
)


class Gen:
    def __init__(self, rng: random.Random, **over):
        self.r = rng
        self.P = dict(DEFAULT)
        self.P.update(over)
        self.labels = rng.sample(LABELS, len(LABELS))

    # ---------------------------------------------------------------- basics
    def p(self, name):
        return self.r.random() < self.P[name]

    def num(self, a, b, d=3):
        return round(self.r.uniform(a, b), d)

    def ts(self, a, b, d=3):
        """a series with some structure: random, steps, zeros"""
        k = self.r.random()
        if k < 0.6:
            return [self.num(a, b, d) for _ in range(self.n)]
        if k < 0.8:
            lv = [self.num(a, b, d), self.num(a, b, d)]
            return [lv[self.r.random() < 0.5] for _ in range(self.n)]
        return [self.num(a, b, d) if self.r.random() < 0.7 else max(0, a) for _ in range(self.n)]

    def maybe_ts(self, a, b, prob=0.3):
        return self.ts(a, b) if self.r.random() < prob else self.num(a, b)

    def label(self):
        return self.labels.pop() if self.labels else f'K{self.r.randrange(10**6)}'

    def flabels(self, k):
        return self.r.sample(FLOWS, k)

    def bus(self, other=None):
        bs = [b for b in self.spec['buses'] if b != other] or list(self.spec['buses'])
        return self.r.choice(bs)

    # ---------------------------------------------------------------- pieces of a system
    def time(self):
        r, P = self.r, self.P
        n = r.randint(*(P['n_long'] if self.p('long') else P['n']))
        self.n = n
        start = np.datetime64(r.choice(['2020-01-01T00:00', '2019-12-31T18:30', '2020-02-28T22:00', '2021-03-27T23:00', '1999-10-30T05:15']), 'us')
        if self.p('uneven') and n > 1:
            minutes = [r.choice([15, 30, 60, 60, 90, 120, 180, 240]) for _ in range(n - 1)]
        else:
            minutes = [r.choice([60, 60, 60, 15, 30, 120, 1440])] * (n - 1)
        t = [start]
        for m in minutes:
            t.append(t[-1] + np.timedelta64(m, 'm'))
        time = {'t': [str(x)[:19] for x in t], 'last': None, 'prev_dt': None}
        if n == 1 or self.p('last'):
            time['last'] = r.choice([1, 2, 0.5, 1.5, 3, 0.25])
        if self.p('prev_dt'):
            time['prev_dt'] = r.choice([1, 0.5, 2, 3, [1.0, 2.0, 0.5, 1.0], [2.0, 0.5, 0.25, 1.5]])
        if self.p('unit_other'):
            time['unit'] = r.choice(['ns', 'ms', 's', 'm'])
        self.spec['time'] = time
        self.dt = spec_dt(self.spec)

    def effects(self):
        r = self.r
        k = r.randint(*self.P['effects'])
        names = ['costs', 'CO2', 'PE fossil', 'Fläche'][:k]
        r.shuffle(names)
        es = []
        std = r.randrange(k)
        obj = std if r.random() < 0.7 else r.randrange(k)
        for i, lbl in enumerate(names):
            e = {'label': lbl, 'unit': 'u', 'desc': lbl + ' desc'}
            if i == std:
                e['standard'] = True
            if i == obj:
                e['objective'] = True
            es.append(e)
        # shares i -> j only with j created before i (no loops)
        for i in range(k):
            for j in range(i):
                if self.p('share_op'):
                    es[i].setdefault('share_op', {})[names[j]] = self.ts(0, 2) if self.p('share_ts') else self.num(0.05, 2)
                if self.p('share_inv'):
                    es[i].setdefault('share_inv', {})[names[j]] = self.num(0.05, 2)
        r.shuffle(es)
        self.spec['effects'] = es
        self.enames = [e['label'] for e in es]
        self.std = names[std]
        self.obj = names[obj]

    def eff(self, a, b, ts_prob=0.3):
        """an effect specification: number or per-effect values"""
        r = self.r
        if r.random() < 0.4:
            return self.maybe_ts(a, b, ts_prob)
        out = {}
        for e in self.enames:
            if r.random() < 0.6 or (not out and e == self.enames[-1]):
                out['' if e == self.std and self.p('none_key') else e] = self.maybe_ts(a, b, ts_prob)
        return out

    def onoff(self, **force):
        r, P = self.r, self.P
        o = {}
        if self.p('sw_eff'):
            o['sw_eff'] = self.eff(0.5, 30)
        if self.p('run_eff'):
            o['run_eff'] = self.eff(0.1, 5)
        H = float(self.dt.sum())
        if self.p('onh_max'):
            o['onh_max'] = round(H * r.choice([0.3, 0.5, 0.7, 0.9]), 3)
        if self.p('onh_min'):
            o['onh_min'] = round(H * r.choice([0.2, 0.4, 0.6]), 3)
            if 'onh_max' in o and o['onh_max'] < o['onh_min']:
                o['onh_max'] = round(H * 0.9, 3)
        if self.p('sw_max'):
            o['sw_max'] = r.choice([0, 1, 1, 2, 2, 3])
        m = float(np.median(self.dt))
        for k, mult in (('on_min', [1.5, 2, 2.5, 3]), ('on_max', [1, 2, 2.5, 3, 4]), ('off_min', [1.5, 2, 2.5, 3]), ('off_max', [1, 2, 3, 4])):
            if self.p(k):
                c = [round(m * x, 4) for x in mult]
                low = [round(m * x, 4) for x in (0.5, 1)] if k.endswith('min') else []  # also values that do not restrict
                o[k] = [r.choice(c + low) for _ in range(self.n)] if self.p('dur_ts') else r.choice(c)
        for a in ('on', 'off'):
            if a + '_min' in o and a + '_max' in o and np.any(np.asarray(o[a + '_min']) > np.asarray(o[a + '_max'])):
                o[a + '_max'] = round(4 * m, 4)
        if self.p('force'):
            o['force'] = True
        o.update(force)
        return o

    def invest(self, hi, lo=0, binary=False):
        r = self.r
        p = {'optional': self.r.random() < self.P['optional']}
        if self.p('fixed'):
            p['fixed'] = self.num(max(lo, hi * 0.1), hi)
        else:
            if self.p('inv_min'):
                p['min'] = self.num(max(lo, hi * 0.05), hi * 0.5)
            if not (not binary and not p['optional'] and self.p('inv_max_none')):
                p['max'] = self.num(max(p.get('min', 0) + 1, hi * 0.5), hi)
        if self.p('fix'):
            p['fix'] = self._inv_eff(1, 50)
        if self.r.random() < 0.8:
            p['spec'] = self._inv_eff(0.05, 3)
        if self.p('div'):
            p['div'] = self._inv_eff(1, 40)
        if self.p('inv_seg') and 'fixed' not in p and 'max' in p:
            lo_, hi_ = p.get('min', 0.0), p['max']
            k = r.randint(1, 3)
            pts = sorted({round(lo_ + (hi_ - lo_) * q, 3) for q in [0, 1] + [r.random() for _ in range(k - 1)]})
            if r.random() < 0.3 and len(pts) > 2:  # leave out a stretch: sizes in there are not available
                segs = [[a, b] for a, b in zip(pts, pts[1:])]
                segs.pop(r.randrange(len(segs)))
            else:
                segs = [[a, b] for a, b in zip(pts, pts[1:])]
            effs = {}
            for e in self.r.sample(self.enames, self.r.randint(1, len(self.enames))):
                y, ys = self.num(0, 10), []
                for a, b in segs:
                    y2 = round(y + (b - a) * self.num(0.02, 2), 3)
                    ys.append([y, y2])
                    y = y2 if r.random() < 0.6 else self.num(0, y2 + 5)
                effs[e] = ys
            p['seg'] = [segs, effs]
        return p

    def _inv_eff(self, a, b):
        if self.r.random() < 0.5:
            return self.num(a, b)
        ks = self.r.sample(self.enames, self.r.randint(1, len(self.enames)))
        return {k: self.num(a, b) for k in ks}

    def flow(self, label, bus, size=(20, 100), binary=False, plain=False, no_onoff=False, no_invest=False, exact=None):
        """binary: this flow carries (or will get) an on/off state"""
        r = self.r
        f = {'label': label, 'bus': bus}
        if plain:
            if size is not None:
                f['size'] = self.num(*size)
            return f
        if not no_onoff and self.p('flow_onoff'):
            f['onoff'] = self.onoff()
            binary = True
        if not no_invest and self.p('invest'):
            f['size'] = {'invest': self.invest(self.num(*size), binary=binary)}
        elif not binary and self.p('size_none'):
            pass
        elif not binary and self.p('size_zero'):
            f['size'] = 0
        else:
            f['size'] = self.num(*size)
        sized = f.get('size') is not None
        if sized and self.p('rmin') and (binary or isinstance(f['size'], dict) or r.random() < 0.4):
            f['rmin'] = self.maybe_ts(0.05, 0.5)
        if self.p('rmax_ts'):
            f['rmax'] = self.maybe_ts(0.5, 1.0, 0.7)
        if f.get('rmin') is not None and self.P['wide'] and self.p('wide'):  # bounds which vary strongly
            f['rmax'] = self.ts(0.1, 1.0)
            f['rmin'] = [min(x, round(x * y, 3)) for x, y in zip(f['rmax'], self.ts(0.05, 1.0))]
        if self.p('eff'):
            f['eff'] = self.eff(0.02, 2)
        if binary and self.p('prev'):
            f['prev'] = self.prev()
        for k in ('fh_max', 'fh_min', 'lf_max', 'lf_min'):
            if self.p(k):
                f[k] = None  # filled by tighten()
        if sized and not binary and self.p('profile'):
            f['profile'] = self.maybe_ts(0, 0.8, 0.8)
            f.pop('rmin', None)
            f.pop('rmax', None)
        return f

    def prev(self):
        r = self.r
        if self.p('prev_list'):
            k = 4 if isinstance(self.spec['time'].get('prev_dt'), list) else r.randint(1, 4)
            k = r.randint(1, k)
            if isinstance(self.spec['time'].get('prev_dt'), list) and r.random() < 0.4:
                # longer than the known previous steps, which cover the current state's duration
                last = [r.choice([0, 5.0, 7.5, 0.6]) for _ in range(4)]
                if any(last):
                    return [r.choice([0, 5.0]), 0] + last
            return [r.choice([0, 0, 0, 5.0, 7.5, 0.05, 0.6]) for _ in range(k)]
        return r.choice([0, 0, 5.0, 12.5, 0.05, 0.6])

    # ---------------------------------------------------------------- components
    def demand(self, bus, hi=40):
        lf = self.flabels(1)[0]
        size = self.num(5, hi)
        f = {'label': lf, 'bus': bus, 'size': size, 'profile': self.ts(0, 1)}
        if self.r.random() < 0.2:
            f['eff'] = self.eff(-1, 1)
        return {'kind': 'Sink', 'label': self.label(), 'flow': f}

    def supply(self, bus):
        f = {'label': self.flabels(1)[0], 'bus': bus}
        if self.r.random() < 0.7:
            f['size'] = self.num(20, 200)
        a, b = (0.1, 6)
        f['eff'] = {self.obj: self.ts(a, b) if self.p('ts_price') else self.num(a, b)}
        if self.p('neg_price') and f.get('size') is not None:
            f['eff'][self.obj] = self.ts(-2, 5)
        if self.r.random() < 0.4:
            f['eff'][self.r.choice(self.enames)] = self.maybe_ts(0.05, 1)
        return {'kind': 'Source', 'label': self.label(), 'flow': f}

    def component(self, kind):
        return getattr(self, 'c_' + kind)()

    def c_Source(self):
        c = {'kind': 'Source', 'label': self.label(), 'flow': self.flow(self.flabels(1)[0], self.bus())}
        c['flow'].setdefault('eff', {self.obj: self.maybe_ts(0.1, 5)})
        return c

    def c_Sink(self):
        # a dispatchable consumer that pays for what it takes
        f = self.flow(self.flabels(1)[0], self.bus())
        if f.get('size') is None:
            f['size'] = self.num(10, 60)
        f['eff'] = {self.obj: self.maybe_ts(-4, 0.5)}
        return {'kind': 'Sink', 'label': self.label(), 'flow': f}

    def c_SourceAndSink(self):
        a, b = self.flabels(2)
        prev = self.r.random() < 0.7
        bus = self.bus()
        s, k = self.flow(a, bus, binary=prev), self.flow(b, bus if self.r.random() < 0.7 else self.bus(), binary=prev)
        for f in (s, k):
            if f.get('size') is None:
                f['size'] = self.num(10, 60)
        s['eff'] = {self.obj: self.maybe_ts(0.5, 5)}
        k['eff'] = {self.obj: self.maybe_ts(-6, 0.3)}
        return {'kind': 'SourceAndSink', 'label': self.label(), 'source': s, 'sink': k, 'prevent': prev}

    def _onoff_comp(self, c):
        if self.p('comp_onoff'):
            c['onoff'] = self.onoff()
        return c

    def _comp2(self, kind, a, b, extra):
        c = {'kind': kind, 'label': self.label()}
        self._onoff_comp(c)
        bn = 'onoff' in c
        i, o = self.flabels(2)
        bi = self.bus()
        c[a] = self.flow(i, bi, binary=bn)
        c[b] = self.flow(o, self.bus(bi), binary=bn)
        c.update(extra())
        return c

    def c_Boiler(self):
        return self._comp2('Boiler', 'Q_fu', 'Q_th', lambda: {'eta': self.maybe_ts(0.3, 1, self.P['conv_ts'])})

    def c_Power2Heat(self):
        return self._comp2('Power2Heat', 'P_el', 'Q_th', lambda: {'eta': self.maybe_ts(0.3, 1, self.P['conv_ts'])})

    def c_HeatPump(self):
        return self._comp2('HeatPump', 'P_el', 'Q_th', lambda: {'COP': self.maybe_ts(1.5, 5, self.P['conv_ts'])})

    def c_CoolingTower(self):
        return self._comp2('CoolingTower', 'P_el', 'Q_th', lambda: {'demand': self.maybe_ts(0.0, 0.2, self.P['conv_ts'])})

    def c_CHP(self):
        c = {'kind': 'CHP', 'label': self.label()}
        self._onoff_comp(c)
        bn = 'onoff' in c
        a, b, d = self.flabels(3)
        bi = self.bus()
        c['Q_fu'], c['Q_th'], c['P_el'] = self.flow(a, bi, binary=bn), self.flow(b, self.bus(bi), binary=bn), self.flow(d, self.bus(bi), binary=bn)
        c['eta_th'] = self.maybe_ts(0.2, 0.6, self.P['conv_ts'])
        c['eta_el'] = self.maybe_ts(0.1, 0.4, self.P['conv_ts'])
        return c

    def c_HeatPumpWithSource(self):
        c = {'kind': 'HeatPumpWithSource', 'label': self.label()}
        self._onoff_comp(c)
        bn = 'onoff' in c
        a, b, d = self.flabels(3)
        bi = self.bus()
        c['P_el'], c['Q_ab'], c['Q_th'] = self.flow(a, bi, binary=bn), self.flow(b, self.bus(), binary=bn), self.flow(d, self.bus(bi), binary=bn)
        c['COP'] = self.maybe_ts(1.5, 5, self.P['conv_ts'])
        return c

    def c_LinearConverter(self):
        r = self.r
        c = {'kind': 'LinearConverter', 'label': self.label()}
        self._onoff_comp(c)
        bn = 'onoff' in c
        ni = r.randint(1, 2) if self.p('multi_io') else 1
        no = r.randint(1, 3 - ni + 1) if self.p('multi_io') else 1
        ls = self.flabels(ni + no)
        seg = self.p('segments')
        kw = dict(no_invest=seg and r.random() < 0.7)
        c['inputs'] = [self.flow(ls[i], self.bus(), binary=bn, **kw) for i in range(ni)]
        c['outputs'] = [self.flow(ls[ni + i], self.bus(), binary=bn, **kw) for i in range(no)]
        if seg:
            for f in c['inputs'] + c['outputs']:
                f.pop('profile', None)
                f.pop('rmin', None)
                if not isinstance(f.get('size'), dict):
                    f['size'] = 150.0
                    f.pop('rmax', None)
                else:  # pieces need a size that is known beforehand
                    for k in ('min', 'max', 'seg'):
                        f['size']['invest'].pop(k, None)
                    f['size']['invest']['fixed'] = 150.0
            c['segments'] = self._segments(ls, 'onoff' in c)
        else:
            ins, outs = ls[:ni], ls[ni:]
            if ni == 1 or no == 1:
                # tie every flow of the larger side to the single one, or one common balance
                if r.random() < 0.5:
                    c['factors'] = [{l: self.maybe_ts(0.3, 1.5, self.P['conv_ts']) for l in ls}]
                else:
                    hub = ins[0] if ni == 1 else outs[0]
                    others = [l for l in ls if l != hub]
                    c['factors'] = [{hub: self.maybe_ts(0.2, 1.2, self.P['conv_ts']), l: self.maybe_ts(0.5, 1.5, self.P['conv_ts'])} for l in others]
            else:
                c['factors'] = [{l: self.maybe_ts(0.3, 1.5, self.P['conv_ts']) for l in ls}]
                if r.random() < 0.4:
                    c['factors'].append({ins[0]: self.num(0.3, 1), outs[0]: self.num(0.3, 1)})
            if self.p('neg_factor'):
                fac = r.choice(c['factors'])
                l = r.choice(list(fac))
                if len(fac) > 2:
                    fac[l] = -fac[l] if not isinstance(fac[l], list) else [-x for x in fac[l]]
        return c

    def _segments(self, ls, off_possible):
        r = self.r
        k = r.randint(1, 3)
        start = r.choice([0.0, self.num(1, 10)])
        xs = [start]
        for _ in range(k):
            xs.append(round(xs[-1] + self.num(3, 25), 3))
        base = [[xs[i], xs[i + 1]] for i in range(k)]
        if r.random() < 0.35:  # gap
            i = r.randrange(k)
            base[i][0] = round(base[i][0] + (base[i][1] - base[i][0]) * 0.4, 3)
        if r.random() < 0.2:  # a single operating point
            i = r.randrange(k)
            base[i] = [base[i][0], base[i][0]]
        if r.random() < 0.25:  # idling allowed
            base = [[0.0, 0.0]] + base
        out = {ls[0]: base}
        for l in ls[1:]:
            y = 0.0 if base[0][0] == 0 else self.num(0.5, 5)
            segs = []
            for a, b in base:
                y2 = round(y + (b - a) * self.num(0.2, 1.3), 3)
                if r.random() < 0.1:
                    y, y2 = y2, y
                segs.append([y, y2])
                y = y2 if r.random() < 0.7 else round(y2 + self.num(0, 3), 3)
            out[l] = segs
        if r.random() < 0.25:  # breakpoints that change over time
            l = r.choice(ls)
            fac = [self.num(0.7, 1.2) for _ in range(self.n)]
            out[l] = [[[round(a * q, 4) for q in fac], [round(b * q, 4) for q in fac]] for a, b in out[l]]
        return out

    def c_Storage(self):
        r = self.r
        a, b = self.flabels(2)
        prev = self.p('st_prevent')
        bus = self.bus()
        cap = self.num(10, 120)
        c = {'kind': 'Storage', 'label': self.label(), 'prevent': prev,
             'charging': self.flow(a, bus, binary=prev, size=(5, 60)), 'discharging': self.flow(b, bus if r.random() < 0.8 else self.bus(), binary=prev, size=(5, 60))}
        lo, hi = 0.0, 1.0
        if self.p('st_bounds'):
            lo = self.num(0, 0.3)
            hi = self.num(0.6, 1)
            c['rmin'], c['rmax'] = lo, hi
            if self.p('st_bounds_ts'):
                c['rmin'] = [round(lo * self.r.random(), 3) for _ in range(self.n + 1)]
                c['rmax'] = [round(hi + (1 - hi) * self.r.random(), 3) for _ in range(self.n + 1)]
        if self.p('st_invest'):
            inv = self.invest(cap)
            inv.setdefault('optional', True)
            c['capacity'] = {'invest': inv}
        else:
            c['capacity'] = cap
        k = r.random()
        if k < self.P['st_cyclic']:
            c['initial'] = 'lastValueOfSim'
        elif k < self.P['st_cyclic'] + self.P['st_free']:
            c['initial'] = None
        elif isinstance(c['capacity'], dict):
            inv = c['capacity']['invest']
            base = inv.get('fixed', inv.get('min', 0))
            c['initial'] = round(base * r.uniform(max(lo, 0.0), hi), 3) if not inv['optional'] else 0
            if lo > 0 and inv['optional']:
                c['initial'] = None
        else:
            c['initial'] = round(cap * r.uniform(lo, hi), 3)
        if self.p('st_eta'):
            c['eta_c'], c['eta_d'] = self.maybe_ts(0.7, 1), self.maybe_ts(0.7, 1)
        if self.p('st_loss'):
            c['loss'] = self.maybe_ts(0, 0.04)
        if self.p('st_final') and not isinstance(c['capacity'], dict):
            w = sorted([self.num(lo * cap, hi * cap), self.num(lo * cap, hi * cap)])
            if r.random() < 0.7:
                c['fmin'] = w[0]
            if r.random() < 0.6:
                c['fmax'] = w[1]
        if r.random() < 0.4:
            c['charging'].setdefault('eff', {self.obj: self.num(0.01, 0.5)})
        return c

    def c_Transmission(self):
        c = {'kind': 'Transmission', 'label': self.label()}
        bi = self.p('tr_bidir')
        ls = self.flabels(4)
        A = self.bus()
        B = self.bus(A)
        absl = self.p('tr_abs')
        self._onoff_comp(c)
        prevent = self.p('tr_prevent')
        bn = absl or 'onoff' in c or (bi and prevent)
        kw = dict(binary=bn, no_invest=True, no_onoff=self.r.random() < 0.6)
        c['in1'] = self.flow(ls[0], A, **kw)
        c['out1'] = self.flow(ls[1], B, **kw)
        if self.p('tr_invest'):
            c['in1']['size'] = {'invest': self.invest(self.num(20, 80), binary=bn)}
            c['in1'].pop('profile', None)
            if bi and self.r.random() < 0.5:
                c['in1']['size']['invest']['optional'] = False
        if bi:
            c['in2'] = self.flow(ls[2], B, **kw)
            c['out2'] = self.flow(ls[3], A, **kw)
            c['prevent'] = prevent
        for k in ('in1', 'out1', 'in2', 'out2'):
            if k in c:
                c[k].pop('profile', None)
                if absl or not bn:
                    c[k].pop('rmin', None)
        if not self.p('tr_none'):
            c['rel'] = self.maybe_ts(0, 0.3)
        if absl:
            c['abs'] = self.maybe_ts(0.05, 2, 0.5)
            if isinstance(c['abs'], list) and self.r.random() < 0.4:
                c['abs'] = [x if self.r.random() < 0.5 else 0.0 for x in c['abs']]
        elif self.r.random() < 0.15:
            c['abs'] = 0
        return c

    # ---------------------------------------------------------------- whole system
    def system(self, extra=()):
        """extra: callables(gen) -> component, always part of the system"""
        r, P = self.r, self.P
        self.spec = {'time': {}, 'buses': {}, 'effects': [], 'comps': []}
        self.time()
        for _ in range(r.randint(*P['buses'])):
            pen = None
            if not self.p('strict'):
                pen = self.num(20, 200)
                if self.p('penalty_ts'):
                    pen = self.ts(20, 200)
                if self.p('zero_penalty'):
                    pen = 0
            self.spec['buses'][self.label()] = {'penalty': pen}
        self.effects()
        comps = self.spec['comps']
        for b in list(self.spec['buses']):
            if self.p('supply'):
                comps.append(self.supply(b))
            if self.p('demand'):
                comps.append(self.demand(b))
        for e in extra:
            comps.append(e(self))
        kinds, w = list(P['kinds']), list(P['kinds'].values())
        for _ in range(r.randint(*P['comps'])):
            comps.append(self.component(r.choices(kinds, w)[0]))
        for b, info in self.spec['buses'].items():  # a bus with nothing strict attached
            fl = [f for c in comps for f in flows_of(c) if f['bus'] == b]
            if not fl:
                comps.append(self.demand(b))
        r.shuffle(comps)
        if self.p('scale'):
            scale(self.spec, r.choice([0.01, 0.01, 0.05, 20]))
        if self.p('form'):
            self.spec['form'] = 'mixed'
            self.spec['form_seed'] = r.randrange(10**6)
        return self.spec


def scale(spec, s):
    """the same system in another unit of power"""
    def mul(x):
        return [mul(y) for y in x] if isinstance(x, list) else x if x is None or isinstance(x, str) else round(x * s, 6)

    def put(d, *keys):
        for k in keys:
            if d.get(k) is not None:
                d[k] = mul(d[k])

    def size(d, k):
        if not isinstance(d.get(k), dict):
            return put(d, k)
        inv = d[k]['invest']
        put(inv, 'fixed', 'min', 'max')
        if inv.get('seg'):
            inv['seg'][0] = mul(inv['seg'][0])

    for c in spec['comps']:
        for f in flows_of(c):
            size(f, 'size')
            put(f, 'prev')
        size(c, 'capacity')
        put(c, 'initial', 'fmin', 'fmax', 'abs')
        if c.get('segments'):
            c['segments'] = {k: mul(x) for k, x in c['segments'].items()}
    return spec


def flows_of(c):
    out = [c[k] for k in ('flow', 'source', 'sink', 'charging', 'discharging', 'in1', 'out1', 'in2', 'out2', 'Q_fu', 'Q_th', 'P_el', 'Q_ab') if c.get(k)]
    return out + list(c.get('inputs', [])) + list(c.get('outputs', []))


def tighten(spec, rng, loose=0.25, effects=0.0, n_limits=1):
    """fills the limits left open (None) with values derived from an unrestricted optimum, so that they bind;
    with probability `effects` per kind adds limits on effects.  Returns False if the system has no optimum."""
    from .ref import Reference
    from .view import spec_dt

    open_ = []
    for c in spec['comps']:
        for f in flows_of(c):
            for k in ('fh_max', 'fh_min', 'lf_max', 'lf_min'):
                if k in f and f[k] is None:
                    open_.append((c, f, k))
                    del f[k]
    if not open_ and not effects:
        return True
    ref = Reference(spec)
    st, obj, x = ref.solve(time_limit=10)
    if st != 'optimal':
        return False
    dt = spec_dt(spec)
    H = dt.sum()
    val = {}
    for c, f, k in open_:
        cols = ref.m.names[('rate', c['label'], f['label'])]
        q = float((x[cols] * dt).sum())
        size = f.get('size')
        s = float(size) if size is not None and not isinstance(size, dict) else None
        if s is None:
            n = ref.m.names.get(('size', c['label'], f['label']))
            s = float(x[n[0]]) if n else 1e7
        k_ = rng.uniform(0.4, 0.95) if rng.random() > loose else rng.uniform(1.05, 2)
        if k.endswith('min'):
            cap = s * H * 0.9 if s < 1e6 else q + 50
            target = min(q + (cap - q) * rng.uniform(0.05, 0.5), cap) if rng.random() > loose else q * 0.5
        else:
            target = q * k_
        val[(id(f), k)] = (f, k, target, s)
    for f, k, target, s in val.values():
        if k.startswith('fh'):
            f[k] = round(max(0.0, target), 3)
        elif s > 1e-6 and s < 1e6:
            f[k] = round(min(1.0, max(0.0, target / (s * H))), 5)
        elif s <= 1e-6 and isinstance(f.get('size'), dict):  # not invested in: the limit matters only for another size
            f[k] = round(rng.uniform(0.05, 0.4) if k.endswith('min') else rng.uniform(0.3, 0.9), 5)
    for c, f, k in open_:
        for a in ('fh', 'lf'):
            if f.get(a + '_min') is not None and f.get(a + '_max') is not None and f[a + '_min'] > f[a + '_max']:
                f[a + '_min'] = round(f[a + '_max'] * 0.8, 5)
    if effects:
        es = list(spec['effects'])
        rng.shuffle(es)
        left = n_limits
        for e in es:
            op = x[ref.m.names[('op', e['label'])]]
            iv = float(x[ref.m.names[('inv', e['label'])][0]])
            if left <= 0 or rng.random() > effects:
                continue
            left -= 1
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(['op', 'inv', 'total', 'ph', 'op', 'total', 'ph'])
                q = {'op': op.sum(), 'inv': iv, 'total': op.sum() + iv, 'ph': float((op / dt).max())}[k]
                if k == 'inv' and abs(iv) < 1e-6:
                    continue
                if rng.random() < 0.75:
                    lim = round(q - abs(q) * rng.uniform(0.02, 0.3), 3) if rng.random() > loose else round(q + abs(q) * 0.2 + 1, 3)
                    if k == 'ph' and rng.random() < 0.5:
                        e['max_ph'] = [round(lim + abs(lim) * rng.random() * 0.3, 3) for _ in dt]
                    else:
                        e['max_' + k] = lim
                else:
                    q = float((op / dt).min()) if k == 'ph' else q
                    lim = round(q + abs(q) * rng.uniform(0.02, 0.2), 3) if rng.random() > loose else round(q - abs(q) * 0.2 - 1, 3)
                    e['min_' + k] = [round(lim - abs(lim) * rng.random() * 0.3, 3) for _ in dt] if k == 'ph' and rng.random() < 0.5 else lim
            for k in ('op', 'inv', 'total'):
                if e.get('min_' + k) is not None and e.get('max_' + k) is not None and e['min_' + k] > e['max_' + k]:
                    del e['min_' + k]
            if e.get('min_ph') is not None and e.get('max_ph') is not None and np.any(np.asarray(e['min_ph']) > np.asarray(e['max_ph'])):
                del e['min_ph']
    return True


def corners(spec, rng, k=1):
    """puts up to k values onto an exact limit of what is allowed: zero, one, equal to each other, the whole horizon"""
    H = float(spec_dt(spec).sum())
    n = len(spec['time']['t'])
    todo = []

    def put(d, key, *values, drop=()):
        def do():
            d[key] = rng.choice(values)
            for x in drop:
                d.pop(x, None)
        todo.append(do)

    for e in spec['effects']:
        for key in ('max_op', 'max_total', 'max_ph', 'max_inv'):
            if e.get(key) is not None:
                put(e, key, 0, drop=[key.replace('max', 'min')])
        for key in ('min_op', 'min_total', 'min_ph', 'min_inv'):
            if e.get(key) is not None:
                put(e, key, 0)
        for key in ('share_op', 'share_inv'):
            for o in e.get(key) or ():
                put(e[key], o, 0, 1)
    for b in spec['buses'].values():
        if isinstance(b.get('penalty'), list):
            def part(b=b):
                b['penalty'] = [0 if rng.random() < 0.3 else x for x in b['penalty']]
            todo.append(part)
    for c in spec['comps']:
        for f in flows_of(c):
            for key in ('fh_max', 'lf_max'):
                if f.get(key) is not None:
                    put(f, key, 0, drop=[key.replace('max', 'min')])
            for key in ('fh_min', 'lf_min'):
                if f.get(key) is not None:
                    put(f, key, 0)
            if f.get('profile') is not None and c['kind'] != 'Sink':
                put(f, 'profile', 0, 1, [float(i % 2) for i in range(n)])
            if isinstance(f.get('rmax'), list) and f.get('rmin') is None and not f.get('onoff'):
                def some(f=f):
                    f['rmax'] = [0 if rng.random() < 0.4 else x for x in f['rmax']]
                todo.append(some)
            if f.get('rmin') is not None and f.get('rmax') is not None:
                def equal(f=f):
                    f['rmin'] = list(f['rmax']) if isinstance(f['rmax'], list) else f['rmax']
                todo.append(equal)
            if f.get('prev') is not None:
                put(f, 'prev', 0, [0], [0, 0, 0])
            if f.get('eff') is not None:
                put(f, 'eff', 0, {x['label']: 0 for x in spec['effects']})
        for o in [c.get('onoff')] + [f.get('onoff') for f in flows_of(c)]:
            for key in (o or {}):
                if key == 'sw_max':
                    put(o, key, 0)
                elif key == 'onh_max':
                    put(o, key, 0, H, drop=['onh_min'])
                elif key == 'onh_min':
                    put(o, key, 0)
                elif key in ('on_min', 'off_min'):
                    put(o, key, 0, H, [0] * (n - 1) + [1.0])
                elif key in ('on_max', 'off_max'):
                    put(o, key, H)
                elif key in ('sw_eff', 'run_eff'):
                    put(o, key, 0, -1.5 if key == 'run_eff' else 0)
        sizes = [f['size']['invest'] for f in flows_of(c) if isinstance(f.get('size'), dict)]
        if isinstance(c.get('capacity'), dict):
            sizes.append(c['capacity']['invest'])
        for v in sizes:
            if v.get('seg'):
                continue
            if v.get('fixed') is None and v.get('max') is not None and v.get('min') is not None:
                put(v, 'min', v['max'], 0)
            for key in ('fix', 'spec', 'div'):
                if v.get(key) is not None:
                    put(v, key, 0)
        if c['kind'] == 'Storage':
            cap = c['capacity']
            if not isinstance(cap, dict):
                lo, hi = c.get('rmin', 0), c.get('rmax', 1)
                if not isinstance(lo, list) and not isinstance(hi, list):
                    put(c, 'initial', round(cap * lo, 3), round(cap * hi, 3))
                    put(c, 'fmin', round(cap * hi * 0.999, 3), 0, drop=['fmax'])
                    put(c, 'fmax', round(cap * lo, 3), drop=['fmin'])
                    if isinstance(c.get('initial'), float):
                        def same(c=c):
                            c['fmin'] = c['fmax'] = c['initial']
                        todo.append(same)
            for key in ('eta_c', 'eta_d'):
                put(c, key, 1)
            put(c, 'loss', 0, 0.5 / float(np.max(spec_dt(spec))))
        if c['kind'] == 'Transmission':
            put(c, 'rel', 0, [0.0] * (n - 1) + [0.2])
    def sparse(d, key):
        """zero in some steps, in all but one, or in the first or last only"""
        if not isinstance(d[key], list):
            return
        m = len(d[key])
        keep = rng.choice(['some', 'one', 'first', 'last', 'not first', 'not last'])
        j = rng.randrange(m)
        on = {'some': lambda i: rng.random() < 0.5, 'one': lambda i: i == j, 'first': lambda i: i == 0, 'last': lambda i: i == m - 1,
              'not first': lambda i: i > 0, 'not last': lambda i: i < m - 1}[keep]
        d[key] = [x if on(i) else 0.0 for i, x in enumerate(d[key])]

    def lists(d, *keys):
        for key in keys:
            x = d.get(key) if isinstance(d, dict) else None
            if isinstance(x, list) and len(x) >= n and all(isinstance(y, (int, float)) for y in x):
                todo.append(lambda d=d, key=key: sparse(d, key))
            elif isinstance(x, dict):
                lists(x, *x)

    for c in spec['comps']:
        for key in ('abs', 'rel') * 3 + ('loss',):
            if c['kind'] in ('Transmission', 'Storage'):
                lists(c, key)
        for f in flows_of(c):
            lists(f, 'eff')
            if f.get('rmin') is not None and not isinstance(f.get('size'), dict):
                lists(f, 'rmin')
        for o in [c.get('onoff')] + [f.get('onoff') for f in flows_of(c)]:
            lists(o, 'sw_eff', 'run_eff', 'on_min', 'off_min')
    for e in spec['effects']:
        lists(e, 'share_op')
    rng.shuffle(todo)
    for do in todo[:k]:
        do()
    return spec

"""The time axis: lengths of the steps, the last one, resolutions, chosen steps."""

import copy
import datetime

import numpy as np

from ..gen import Gen, flows_of, tighten
from ..oracle import Verdict, outcome
from ..run import run_full
from ..specs import slice_spec
from ..view import spec_dt
from .base import Prop
from .systems import NONE, extra

BASE = dict(NONE, strict=0.0, ts_price=0.8, uneven=0.7, effects=(1, 2), comps=(1, 2), long=0, n=(5, 9))
FOCUS = [
    dict(BASE, kinds=dict(Storage=2, Boiler=1), st_loss=0.9, st_bounds_ts=0.5, st_bounds=0.7, last=0.5),
    dict(BASE, kinds=dict(Boiler=2, LinearConverter=1, Source=1), flow_onoff=0.5, rmin=0.6, run_eff=0.6, onh_max=0.4, onh_min=0.3, on_min=0.25, off_min=0.2,
         on_max=0.15, dur_ts=0.4, prev=0.6, prev_dt=0.4, last=0.4),
    dict(BASE, kinds=dict(Source=1, Sink=1, LinearConverter=1), fh_max=0.4, lf_max=0.4, lf_min=0.2, last=0.4, rmax_ts=0.6, profile=0.3, eff=0.7),
    dict(BASE, kinds=dict(Boiler=2, LinearConverter=1, Source=1), flow_onoff=0.4, comp_onoff=0.4, rmin=0.6, run_eff=0.5, on_min=0.6, off_min=0.3,
         on_max=0.25, off_max=0.15, dur_ts=0.9, prev=0.9, prev_list=0.3, prev_dt=0.4, last=0.2, sw_eff=0.4),
    dict(BASE, kinds=dict(LinearConverter=2, CHP=1, HeatPump=0.6, Power2Heat=0.6, CoolingTower=0.6, HeatPumpWithSource=0.6), _effects=0.8, segments=0.4, conv_ts=0.8, share_ts=0.7, penalty_ts=0.6, buses=(1, 3), last=0.3, eff=0.6, invest=0.15),
    dict(BASE, kinds=dict(Transmission=1, Storage=1), buses=(2, 3), st_invest=0.3, invest=0.2, last=0.4),
]
COARSE = {'h': 60, 'D': 1440, 'W': 7 * 1440}


class Times(Prop):
    id = 'C20'
    quick, thorough = 2400, 28000
    deciding = ('time', 'chosen_steps')
    rule = ('random systems on equidistant and other axes (steps of 15 minutes to months, given in any resolution), calculated as a whole and on chosen steps '
            '(ranges and lists, also with gaps), against the same system defined on these steps; '
            'non-trivial: step lengths were compared with the time stamps, or a result for chosen steps was compared with the reference for these steps')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        over = dict(FOCUS[i % len(FOCUS)])
        if tier == 'thorough' and i % 6 == 5:
            over['n'] = (8, 20)
        g = Gen(rng, **over)
        coarse = rng.random() < 0.18
        if coarse:
            self._coarse(g, rng)
        spec = g.system(extra=extra('Storage') if i % len(FOCUS) == 0 else ())
        n = len(spec['time']['t'])
        pick = None
        if rng.random() < 0.65 and n >= 4:
            kind = rng.choice(['range', 'list', 'list', 'gaps'])
            lo = rng.randint(0, n - 3)
            hi = rng.randint(lo + 2, n)
            idx = list(range(lo, hi))
            if kind == 'gaps':
                idx = sorted(rng.sample(range(n), rng.randint(2, n)))
            if len(idx) == n and kind != 'gaps':
                idx = idx[rng.choice([0, 1]):n - rng.choice([0, 1])]
            pick = {'idx': idx, 'kind': kind}
        # limits that bind are chosen for the horizon that is calculated
        part = slice_spec(spec, pick['idx']) if pick else spec
        if not tighten(part, rng, n_limits=1, loose=0.3, effects=over.get('_effects', 0.1)):
            return None
        if pick:
            self._limits(spec, part, pick['idx'], rng)
        return {'spec': spec, 'pick': pick, 'order': rng.randrange(10**6), 'stamps': self._stamps(rng) if rng.random() < 0.3 else None}

    @staticmethod
    def _stamps(rng):
        """what create_datetime_array is asked for, and the stamps that this means"""
        unit = rng.choice('smhDWMY')
        k = rng.choice([1, 1, 2, 3, 6, 15])
        form = rng.choice(['%Y-%m-%d', '%Y-%m-%d %H:%M', '%Y-%m-%dT%H:%M', '%Y-%m-%d %H:%M:%S'] + ['%Y-%m'] * (unit in 'MY'))
        start = datetime.datetime.strptime(datetime.datetime(
            rng.choice([1999, 2019, 2020]), rng.choice([1, 2, 10, 12]), rng.choice([1, 1, 15, 28]), rng.choice([0, 5, 23]), rng.choice([0, 30])).strftime(form), form)
        n = rng.randint(1, 30)

        def at(i):
            if unit in 'MY':
                m = start.month - 1 + i * k * (12 if unit == 'Y' else 1)
                return start.replace(year=start.year + m // 12, month=m % 12 + 1)
            return start + i * k * datetime.timedelta(seconds={'s': 1, 'm': 60, 'h': 3600, 'D': 86400, 'W': 7 * 86400}[unit])

        out = {'start': start.strftime(form), 'freq': (str(k) if k > 1 or rng.random() < 0.5 else '') + unit, 'want': [at(i).isoformat() for i in range(n)]}
        if rng.random() < 0.4:
            end = at(n) if rng.random() < 0.5 or unit == 's' else at(n - 1) + (at(n) - at(n - 1)) / 2
            out['end'] = end.strftime('%Y-%m-%d %H:%M:%S')
            out['want'] = [x for x in out['want'] if x < datetime.datetime.strptime(out['end'], '%Y-%m-%d %H:%M:%S').isoformat()]
        return out

    @staticmethod
    def _stamped(v, ask):
        import flixOpt as fx

        kw = {'end': ask['end']} if ask.get('end') else {'steps': len(ask['want'])}
        try:
            got = fx.create_datetime_array(ask['start'], freq=ask['freq'], **kw)
        except Exception as e:
            return v.bad('rule:time', f'time stamps for {ask}: {type(e).__name__}: {e}')
        v.count('time', len(ask['want']), nontrivial=1)
        v.tag('stamps ' + ask['freq'][-1])
        want = np.array(ask['want'], dtype='datetime64[us]')
        if np.shape(got) != want.shape or np.any(np.asarray(got).astype('datetime64[us]') != want):
            return v.bad('rule:time', f'time stamps {got} for {ask}')

    @staticmethod
    def _limits(full, part, idx, rng):
        """the limits found for the chosen steps, for the whole system; series have other values in the other steps"""
        n = len(full['time']['t'])

        def put(to, x, k):
            to.pop(k, None)
            if isinstance(x.get(k), list):
                to[k] = [round(rng.choice(x[k]) * rng.uniform(0.2, 2), 3) for _ in range(n)]
                for i, y in zip(idx, x[k]):
                    to[k][i] = y
            elif k in x:
                to[k] = x[k]

        for e, x in zip(full['effects'], part['effects']):
            for k in [a + b for a in ('min_', 'max_') for b in ('op', 'inv', 'total', 'ph')]:
                put(e, x, k)
        for c, d in zip(full['comps'], part['comps']):
            for f, x in zip(flows_of(c), flows_of(d)):
                for k in ('fh_max', 'fh_min', 'lf_max', 'lf_min'):
                    put(f, x, k)

    @staticmethod
    def _coarse(g, rng):
        """an axis of hours, days, weeks or months, given in that resolution"""
        def time():
            n = g.n = rng.randint(3, 6)
            unit = rng.choice(['h', 'D', 'D', 'W', 'M', 'Y'])
            if unit in 'MY':
                start = np.datetime64('2019-11' if unit == 'M' else '2018', unit)
                t = [(start + k).astype('datetime64[us]') for k in range(n)]
            else:
                start = np.datetime64('2020-02-27', 'us').astype(f'datetime64[{unit}]')
                steps = np.cumsum([0] + [rng.choice([1, 1, 2, 3]) if g.p('uneven') else 1 for _ in range(n - 1)])
                t = [(start + int(k)).astype('datetime64[us]') for k in steps]
            g.spec['time'] = {'t': [str(x)[:19] for x in t], 'unit': unit, 'prev_dt': None,
                              'last': rng.choice([1, 24, 36, 0.5]) if g.p('last') else None}
            g.dt = spec_dt(g.spec)

        g.time = time

    def check(self, case):
        v = Verdict()
        full = case['spec']
        pick = case['pick']
        ti = None
        spec = full
        if pick:
            ti = range(pick['idx'][0], pick['idx'][-1] + 1) if pick['kind'] == 'range' else list(pick['idx'])
            spec = slice_spec(full, pick['idx'])

        def execute(_):
            return run_full(full, time_indices=ti, order_seed=case['order'])

        outcome(spec, self.id, ('time',), execute, v)
        o = getattr(v, 'outcome', None)
        if case.get('stamps') and v.status == 'held' and self._stamped(v, case['stamps']):
            return v
        if v.status == 'violation' and case.get('single') and v.key == 'raised:model:AttributeError':
            v.key = 'one step'
            return v
        v.tag('chosen steps: ' + (pick['kind'] if pick else 'all'))
        v.tag('resolution ' + (full['time'].get('unit') or 'us'))
        if o is not None and o.status == 'ok' and pick:
            v.count('chosen_steps')
            if self._axis(v, spec, o):
                return v
        if v.status in ('foreign', 'violation') and v.key != 'rule:time':
            # does it go wrong too without anything special about time?
            key, msg = v.key, v.msg
            plain = self._plain(spec)
            w = outcome(plain, self.id, tuple(RULES), lambda s: run_full(s, order_seed=case['order']))
            if w.status in ('held', 'inconclusive', 'void'):
                v.status = 'held'
                return v.bad(('chosen steps' if pick else 'axis') + f' ({key})', msg)
            v.status = 'held'
            v.say('foreign', key, msg)
        return v

    @staticmethod
    def _axis(v, spec, o):
        res = o.results
        t = np.asarray(res['Time']).astype('datetime64[us]')
        want = np.array(spec['time']['t'], dtype='datetime64[us]')
        dt = spec_dt(spec)
        end = want[-1] + np.timedelta64(int(round(dt[-1] * 3600e6)), 'us')
        if t.shape != (len(want) + 1,) or not np.array_equal(t[:-1], want) or abs(t[-1] - end) > np.timedelta64(10, 'us'):
            v.bad('rule:time', f'time stamps {t} for {want} and the end {end}')
            return True
        return False

    @staticmethod
    def _plain(spec):
        out = copy.deepcopy(spec)
        n = len(spec['time']['t'])
        if n > 1:
            t0 = np.datetime64('2020-01-01T00:00', 'us')
            out['time'] = {'t': [str(t0 + np.timedelta64(k, 'h'))[:19] for k in range(n)], 'last': None, 'prev_dt': None}
        return out


RULES = ['time']


PROPS = [Times()]

"""Properties of the ways to calculate: segmented, aggregated, parts of the time axis."""

import contextlib
import copy
import math

import numpy as np

from .. import monitor, run
from ..gen import Gen, flows_of, tighten
from ..oracle import Verdict, obj_of, outcome, reference, rel
from ..ref import Lin, Reference
from ..specs import map_ts, slice_spec
from ..view import EPS, SysView, spec_dt
from .base import Prop
from .systems import NONE, TXT, extra

ARRAY_RULES = {'balance', 'excess', 'conversion', 'storage_step', 'storage_bounds', 'storage_start', 'storage_net', 'flow_bounds',
               'profile', 'on_state', 'comp_on', 'exclusive', 'piece', 'transmission', 'time', 'switch', 'off_state'}


# ------------------------------------------------------------------------------------------------ segmented
def segmented(spec, seg, overlap, order, time_indices=None, fail_at=None, saved=False, built=None):
    """-> dict describing everything the calculation returned"""
    import flixOpt as fx

    from ..build import build

    out = {'status': 'raised', 'stage': 'define'}
    with run.silent():
        b = built or build(spec, order_seed=order)
        out['built'] = b
        try:
            before = _start_values(b)
            calc = fx.SegmentedCalculation('seg', b.system, seg, overlap, time_indices=time_indices)
            out['calc'] = calc
            out['stage'] = 'calculate'
            solver = run.solver()
            if fail_at is not None:
                solver = failing(solver, fail_at)
            calc.do_modeling_and_solve(solver, save_results=saved)
            out['stage'] = 'results'
            out['individual'] = calc.results(individual_results=True)
            out['joined'] = calc.results(combined_arrays=True)
            out['scalars'] = calc.results(combined_scalars=True)
            out['start'] = calc.start_values_of_segments
            out['status'] = 'ok'
        except Exception as e:
            import traceback

            out['exc'], out['tb'] = e, traceback.format_exc()
        out['restored'] = before == _start_values(b)
    return out


def failing(solver, k):
    """the k-th solve of this solver fails"""
    base = type(solver)

    class Failing(base):
        calls = 0

        def solve(self, *a, **kw):
            Failing.calls += 1
            if Failing.calls > k:
                raise RuntimeError('injected solver failure')
            return super().solve(*a, **kw)

    solver.__class__ = Failing
    return solver


def _start_values(b):
    out = {}
    for k, f in b.flows.items():
        p = f.previous_flow_rate
        out[k] = None if p is None else tuple(np.atleast_1d(np.asarray(p, float)).tolist())
    for k, c in b.comps.items():
        if hasattr(c, 'initial_charge_state'):
            out[k] = repr(c.initial_charge_state)
    return out


def walk(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from walk(v, path + (k,))
        else:
            yield path + (k,), v


def look(d, path):
    for p in path:
        if not isinstance(d, dict) or p not in d:
            return None
        d = d[p]
    return d


class Segmented(Prop):
    id = 'C16'
    quick, thorough = 1000, 12000
    deciding = ('segment_state', 'joined', 'segment_optimum')
    rule = ('random systems with storages and on/off units (no investments), calculated in segments with random length, overlap and selected steps; '
            'each segment is compared with the reference optimum of its sub-horizon that starts from the state handed over; '
            'non-trivial: a state was handed over between segments, or joined series were compared step by step')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        big = tier == 'thorough' and i % 4 == 3
        P = dict(NONE, kinds=dict(Storage=3, Boiler=2, LinearConverter=1, CHP=1), strict=0.0, comps=(1, 2), ts_price=0.9, flow_onoff=0.25,
                 comp_onoff=0.2, rmin=0.4, prev=0.5, st_final=0, st_bounds_ts=0.2, st_free=0.1, st_cyclic=0.1, sw_eff=0.4, on_min=0.2, off_min=0.15,
                 on_max=0.1, n=(7, 13) if not big else (12, 24), long=0, size_none=0.1, effects=(1, 2))
        g = Gen(rng, **P)
        spec = g.system(extra=extra('Storage') if rng.random() < 0.6 else ())
        n = len(spec['time']['t'])
        lo = 0
        sel = None
        if rng.random() < 0.3:
            lo = rng.randint(1, n - 5) if rng.random() < 0.7 else 0
            hi = rng.randint(min(n, lo + 5), n)
            sel = [lo, hi]
        m = n if sel is None else sel[1] - sel[0]
        for _ in range(20):
            seg = rng.randint(3, max(3, min(m, 7)))
            ov = rng.choice([0, 0, 1, 1, 2, 3, 4])
            if seg + ov <= m and m % seg != 1:
                break
        else:
            return None
        fail = rng.randrange(math.ceil(m / seg)) if rng.random() < 0.12 else None
        return {'spec': spec, 'seg': seg, 'overlap': ov, 'sel': sel, 'list': rng.random() < 0.5, 'fail': fail, 'order': rng.randrange(10**6)}

    @staticmethod
    def indices(case):
        sel = case['sel']
        return None if not sel else list(range(*sel)) if case['list'] else range(*sel)

    def check(self, case, out=None):
        v = Verdict()
        full = case['spec']
        sel = case['sel']
        spec = slice_spec(full, range(*sel)) if sel else full
        n = len(spec['time']['t'])
        L, ov = case['seg'], case['overlap']
        out = out or segmented(full, L, ov, case['order'], self.indices(case), case['fail'])
        if not v_ok(v, out['restored'], 'start values', 'the start values of flows or storages differ after the calculation'):
            return v
        v.count('restored')
        k = math.ceil(n / L)
        if case['fail'] is not None:
            if out['status'] == 'ok':
                return v.bad('failure swallowed', f'solver failure in segment {case["fail"] + 1} of {k} not reported')
            v.count('segment_state')
            v.tag('injected failures')
            return v
        # expected segments
        sub = None
        prev_ind = None
        state_specs = []
        feasible = True
        for s in range(k):
            a, b = s * L, min(s * L + L + ov, n)
            part = slice_spec(spec, range(a, b))
            if s:
                if out['status'] != 'ok' and len(state_specs) <= s:
                    pass
                ind = look(out, ('individual', f'Segment_{s}'))
                if ind is None:
                    break
                part = self.hand_over(part, ind, L, v)
                if part is None:
                    return v.say('inconclusive', 'hand-over at the on-threshold')
            st, obj, _ = reference(part)
            if st != 'optimal':
                feasible = False
            state_specs.append((part, st, obj))
            if out['status'] != 'ok':
                break
        if out['status'] != 'ok':
            if case.get('single') and n % L == 1 and feasible and out['stage'] != 'define':
                return v.bad('single-step segment', f'{type(out["exc"]).__name__}: {out["exc"]}')
            if 'feasible solution' in str(out['exc']):
                # later segments can be infeasible because of what earlier ones did; only the first one is known here
                calc = out['calc']
                if len(calc.sub_calculations) <= 1 and feasible:
                    with_noise = outcome(state_specs[0][0], 'C16', (), strict=True)
                    if with_noise.status == 'held':
                        return v.bad('first segment infeasible', str(out['exc'])[:300])
                return v.say('void', 'a segment has no solution')
            return v.bad(f'raised:{type(out["exc"]).__name__}', out['tb'][-1500:])
        if not v_ok(v, len(out['individual']) == k, 'number of segments', f'{len(out["individual"])} segments, expected {k}'):
            return v
        noise = False
        for s, (part, st, obj) in enumerate(state_specs):
            ind = out['individual'][f'Segment_{s + 1}']
            rep = monitor.check(part, ind)
            v.merge(rep)
            for r, msg in rep.violations:
                if r in ('storage_start', 'switch', 'time', 'duration_value', 'duration_max', 'duration_min', 'structure'):
                    return v.bad('segment:' + r, f'segment {s + 1} of {k}: {msg}')
                v.say('foreign', r, msg)
            v.count('segment_state', nontrivial=1 if s else 0)
            got = obj_of_results(ind)
            if st != 'optimal':
                noise = True
                continue
            v.count('segment_optimum')
            if got is None or rel(got, obj) > 1e-5:
                st2, obj2, _ = reference(part, presolve=True)
                if got is not None and (rel(got, obj) < 1e-3 or (st2 == 'optimal' and rel(got, obj2) < 1e-3)):
                    v.say('inconclusive', 'close optimum', f'{got} {obj}')
                    continue
                if got is not None and v.status != 'foreign':
                    again = outcome(part, 'C16', ())
                    if again.status == 'held' and not again.tags.get('solver noise'):
                        return v.bad('segment optimum', f'segment {s + 1} of {k}: objective {got}, its sub-horizon has {obj}')
                    v.say('inconclusive', 'solver', f'{got} {obj}')
        # joined series
        first = out['individual']['Segment_1']
        for path, x in walk(first):
            if not isinstance(x, np.ndarray):
                continue
            parts = [look(out['individual'][f'Segment_{s + 1}'], path) for s in range(k)]
            if any(not isinstance(p, np.ndarray) for p in parts):
                continue
            want = np.concatenate([p[:L] if s < k - 1 else p for s, p in enumerate(parts)])
            got = look(out['joined'], path)
            v.count('joined', nontrivial=1 if k > 1 else 0)
            if got is None or len(got) != len(want) or not np.array_equal(np.asarray(got), want):
                return v.bad('joined', f'{"/".join(map(str, path))}: joined {None if got is None else np.asarray(got).tolist()} is not the sequence of the segments {want.tolist()}')
            extra_ = 1 if len(parts[0]) == min(L + ov, n) + 1 else 0
            if len(got) != n + extra_:
                return v.bad('joined', f'{"/".join(map(str, path))}: {len(got)} values for {n} steps')
        for path, x in walk(first):
            parts = [look(out['individual'][f'Segment_{s + 1}'], path) for s in range(k)]
            if not all(np.isscalar(p) for p in parts):
                continue
            x = look(out['scalars'], path)
            if x is None or list(x) != parts:
                return v.bad('scalars', f'{"/".join(map(str, path))}: {x} but the segments have {parts}')
        # the joined series obey the definition over the whole horizon
        rep = monitor.check(spec, out['joined'])
        for r, msg in rep.violations:
            if r in ARRAY_RULES:
                if r in ('storage_step', 'time', 'switch'):
                    return v.bad('joined:' + r, 'joined series: ' + msg)
                v.say('foreign', r, msg)
        for r in ('storage_step', 'balance', 'switch'):
            v.count('joined_' + r, rep.counts.get(r, 0), rep.nontrivial.get(r, 0))
        v.tag('segments', k)
        if sel:
            v.tag('selected steps')
        if ov and k * L < n + ov:
            v.tag('cut-off overlap')
        return v

    @staticmethod
    def hand_over(part, ind, L, v):
        part = copy.deepcopy(part)
        sv = SysView(part)
        for cv in sv.comps:
            c = cv.c
            for f in cv.flows:
                x = np.asarray(look(ind, ('Components', c['label'], f.label, 'flow_rate')), float)
                f.fl['prev'] = float(x[L - 1])
                if f.onoff is not None or cv.onoff is not None:
                    if 1e-7 < abs(f.fl['prev']) < 5 * EPS:
                        return None
                    if abs(f.fl['prev']) <= 1e-7:
                        f.fl['prev'] = 0.0
            if c['kind'] == 'Storage':
                c['initial'] = float(np.asarray(look(ind, ('Components', c['label'], 'charge_state')), float)[L])
        return part


def obj_of_results(res):
    try:
        return float(res['Objective'])
    except Exception:
        return None


def v_ok(v, cond, key, msg):
    if not cond:
        v.bad(key, msg)
    return cond


# ------------------------------------------------------------------------------------------------ aggregated
@contextlib.contextmanager
def clustered():
    """what tsam is asked to do"""
    import inspect

    import tsam.timeseriesaggregation as tsam

    log = []
    cls = tsam.TimeSeriesAggregation
    names = list(inspect.signature(cls.__init__).parameters)[1:]

    class Tapped(cls):
        def __init__(self, *a, **kw):
            asked = {**dict(zip(names, a)), **kw}
            log.append({**{k: copy.copy(x) for k, x in asked.items() if k != names[0]}, 'columns': [str(c) for c in asked[names[0]].columns]})
            super().__init__(*a, **kw)

    tsam.TimeSeriesAggregation = Tapped
    try:
        yield log
    finally:
        tsam.TimeSeriesAggregation = cls


class Aggregated(Prop):
    id = 'C17'
    quick, thorough = 500, 6000
    deciding = ('periods_equal', 'aggregated_optimum', 'aggregated_data', 'clustering')
    rule = ('random systems on an equidistant axis of several periods, calculated with typical periods (repeating or arbitrary data, all option combinations); '
            'compared with an independent MILP on the aggregated data with equal decisions in equal periods; '
            'non-trivial: two periods of one cluster were compared, or the optimum was')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        per = rng.randint(3, 5)
        m = rng.randint(2, 5) if tier == 'quick' else rng.randint(2, 8)
        n = per * m
        onoff = rng.random() < 0.5
        fix_all = rng.random() < 0.7
        freedom = rng.choice([5, 10, 10, 25, 40, 60]) if onoff and rng.random() < 0.4 else 0
        if freedom:  # different data in equal periods: a reason to deviate
            fix_all = rng.random() < 0.3
            m = max(m, 3)
            n = per * m
        cut = rng.randint(1, per - 1) if rng.random() < 0.25 else 0  # the last period is not complete
        n -= cut
        P = dict(NONE, kinds=dict(Storage=1, Boiler=2, LinearConverter=1, Power2Heat=1), strict=0.0, comps=(1, 2), ts_price=0.95,
                 flow_onoff=0.4 if onoff else 0, comp_onoff=0.25 if onoff else 0, rmin=0.5, prev=0.3, n=(n, n), long=0, uneven=0, last=0, size_none=0.1,
                 st_final=0.2, effects=(1, 2), share_ts=0.2, penalty_ts=0, conv_ts=0.2, run_eff=0.2, form=0.0, prev_dt=0.1, invest=0.1, sw_eff=0.4,
                 on_min=0.2, on_max=0.12, off_min=0.15, onh_max=0.15, sw_max=0.15, segments=0.2 if fix_all and not freedom else 0, fh_max=0.1,
                 st_bounds_ts=0.4)
        pad = (rng.randint(0, 3), rng.randint(0, 3)) if rng.random() < 0.3 else (0, 0)  # steps that are not chosen
        P['n'] = (n + sum(pad),) * 2
        if any(pad) and rng.random() < 0.5:
            P.update(kinds=dict(Storage=1), st_bounds=0.9, st_bounds_ts=0.8)
        g = Gen(rng, **P)
        full = g.system()
        idx = list(range(pad[0], pad[0] + n))
        spec = slice_spec(full, idx) if any(pad) else full
        kind = rng.choice(['repeat', 'repeat', 'any', 'all'] if not freedom else ['any', 'any', 'any', 'repeat'])
        k = m
        if kind == 'repeat':
            k = rng.randint(1, m - bool(cut))
            order = [p if p < k else rng.randrange(k) for p in range(m)]
            rng.shuffle(order)
            map_ts(spec, lambda v: [v[order[t // per] * per + t % per] for t in range(n)])
            map_ts(spec, lambda v: [v[order[t // per] * per + t % per] for t in range(n)] + v[n:], n + 1)
        elif kind == 'any':
            k = rng.randint(1, min(m, 2) if freedom else m)
        opt = {'k': k, 'per': per, 'kind': kind, 'fix_all': fix_all, 'fix_storage': rng.random() < 0.3,
               'freedom': freedom, 'penalty': rng.choice([0, 0, 1.5, 20.0]),
               'clusterize': None, 'peaks': None}
        comps = [c['label'] for c in spec['comps']]
        if rng.random() < 0.25:
            opt['clusterize'] = rng.sample(comps, rng.randint(1, len(comps)))
        if kind == 'any' and k >= 2 and not cut and rng.random() < 0.3:  # (tsam cannot rescale with peaks if a period is incomplete)
            prof = [c['flow'] for c in spec['comps'] if c['kind'] == 'Sink' and isinstance(c['flow'].get('profile'), list)]
            if prof:
                opt['peaks'] = rng.choice(['high', 'low'] + ['both', 'both'] * (k + 2 <= m))
                opt['peak_flow'] = rng.randrange(len(prof))
        if rng.random() < 0.4:
            opt['weights'] = {}
            for j in range(len(self.profiles(spec))):
                if rng.random() < 0.7 and not (opt['peaks'] and j == opt['peak_flow']):
                    opt['weights'][str(j)] = rng.choice([0, 0.25, 0.5, 1, 'solar', 'solar', 'other'])
        if not any(True for _ in self._lists(spec)):
            return None
        case = {'spec': spec, 'opt': opt, 'order': rng.randrange(10**6)}
        if any(pad):
            case['all'], case['pick'] = self.around(spec, full, idx), [pad[0], pad[0] + n, rng.choice(['range', 'list'])]
        return case

    @staticmethod
    def around(part, full, idx):
        """the whole system: the values of the chosen steps from `part`"""
        def join(x, y):
            if isinstance(x, dict):
                return {k: join(x[k], y[k]) for k in x}
            if isinstance(x, list) and len(x) != len(y):
                return y[:idx[0]] + x + y[idx[0] + len(x):]
            return [join(p, q) for p, q in zip(x, y)] if isinstance(x, list) else x

        out = {k: join(x, full[k]) for k, x in part.items() if k != 'time'}
        out['time'] = full['time']
        return out

    @staticmethod
    def profiles(spec):
        return [(c, c['flow']) for c in spec['comps'] if c['kind'] in ('Sink', 'Source') and isinstance(c['flow'].get('profile'), list)]

    @staticmethod
    def _lists(spec):
        import copy as cp

        found = []
        map_ts(cp.deepcopy(spec), lambda v: found.append(v) or v)
        for f in found:
            if any(x != f[0] for x in f):
                yield f

    def run(self, case, built=None):
        import flixOpt as fx

        from ..build import build

        spec, opt = case.get('all') or case['spec'], case['opt']
        o = run.Outcome()
        try:
            with run.silent():
                b = o.built = built or build(spec, order_seed=case['order'])
                kw = {}
                if opt['peaks']:
                    prof = [c for c in spec['comps'] if c['kind'] == 'Sink' and isinstance(c['flow'].get('profile'), list)]
                    c = prof[opt['peak_flow']]
                    fl = b.flows[(c['label'], c['flow']['label'])]
                    ts = fx.TimeSeriesData(np.array(c['flow']['profile'], float))
                    fl.fixed_relative_profile = ts
                    kw.update({f'time_series_for_{k}_peaks': [ts] for k in ('high', 'low') if opt['peaks'] in (k, 'both')})
                o.series = {}
                for j, w in (opt.get('weights') or {}).items():
                    c, fl = self.profiles(spec)[int(j)]
                    how = {'agg_group': w} if isinstance(w, str) else {'agg_weight': w}
                    o.series[j] = fx.TimeSeriesData(np.array(fl['profile'], float), **how)
                    b.flows[(c['label'], fl['label'])].fixed_relative_profile = o.series[j]
                o.stage = 'model'
                dt = spec_dt(spec)[0]
                lo, hi, how = case.get('pick') or (0, 0, None)
                kw2 = {} if how is None else {'time_indices': range(lo, hi) if how == 'range' else list(range(lo, hi))}
                par = fx.AggregationParameters(
                    hours_per_period=opt['per'] * dt, nr_of_periods=opt['k'], fix_storage_flows=opt['fix_storage'],
                    aggregate_data_and_fix_non_binary_vars=opt['fix_all'], percentage_of_period_freedom=opt['freedom'],
                    penalty_of_period_freedom=opt['penalty'], **kw)
                calc = o.calc = fx.AggregatedCalculation(
                    'agg', b.system, par, components_to_clusterize=None if opt['clusterize'] is None else [b.comps[l] for l in opt['clusterize']], **kw2)
                try:
                    with clustered() as o.clustered:
                        calc.do_modeling()
                finally:
                    o.peak = ts.label if opt['peaks'] else None
                o.stage = 'solve'
                calc.solve(run.solver())
                o.stage = 'results'
                o.results = calc.results()
                o.status = 'ok'
        except Exception as e:
            import traceback

            o.exc, o.tb = e, traceback.format_exc()
        return o

    def check(self, case, o=None):
        v = Verdict()
        spec, opt = case['spec'], case['opt']
        n, per = len(spec['time']['t']), opt['per']
        o = o or self.run(case)
        if o.calc is None or getattr(o.calc, 'aggregation', None) is None or o.calc.aggregation.aggregated_data is None:
            if o.exc is not None and o.stage == 'model' and self._within(o.exc, 'tsam'):
                bad = self.asked(case, o, v)
                return v.bad('clustering', bad) if bad else v.say('void', 'the clustering itself failed')
            return v.bad(f'raised:{o.stage}', o.error + o.tb[-1200:])
        agg = o.calc.aggregation
        clusters = {int(c): [list(map(int, p)) for p in ps] for c, ps in agg.get_cluster_indices().items()}
        v.tag('clusters', len(clusters))
        if n % per and any(len(ps) > 1 and n - 1 in ps[-1] for ps in clusters.values()):
            v.tag('incomplete period in a cluster')
        # every step belongs to exactly one period of one cluster
        flat = sorted(t for ps in clusters.values() for p in ps for t in p)
        if not v_ok(v, flat == list(range(n)) and all(p[0] % per == 0 and p == list(range(p[0], min(p[0] + per, n))) for ps in clusters.values() for p in ps), 'clusters',
                    f'periods {clusters} do not partition {n} steps into periods of {per}'):
            return v
        if opt['peaks'] is None:
            if not v_ok(v, len(clusters) <= opt['k'], 'clusters', f'{len(clusters)} clusters, {opt["k"]} asked for'):
                return v
        # aggregated data: the same in all periods of a cluster; unchanged if the data repeats (or nothing is aggregated)
        bad = self.asked(case, o, v)
        if bad:
            return v.bad('clustering', bad)
        org, ag = agg.original_data, agg.aggregated_data
        cols = [(np.asarray(org[c], float), np.asarray(ag[c], float)) for c in org.columns]
        if opt['peaks']:
            a, b = np.asarray(org[o.peak], float), np.asarray(ag[o.peak], float)
            for how, ext in (('high', np.max), ('low', np.min)):
                if opt['peaks'] in (how, 'both'):
                    v.count('clustering', nontrivial=1)
                    v.tag(f'{how} peak')
                    if abs(ext(a) - ext(b)) > 1e-5 * max(1, abs(ext(a))):
                        own = [len(ps) for ps in clusters.values() if any(a[t] == ext(a) for p in ps for t in p)]
                        if own == [1]:  # tsam rescales a period which is the only one of its cluster anyway
                            v.tag('peak in a period of its own')
                            continue
                        return v.bad('peaks', f'{how} peak {ext(a)} of {o.peak} became {ext(b)}')
        missing = []

        def repl(vals):
            a = np.asarray(vals, float)
            if np.all(a == a[0]):
                return vals
            for x, y in cols:
                if len(x) == len(a) and np.allclose(x, a, rtol=0, atol=1e-12):
                    return [float(q) for q in y]
            missing.append(vals)
            return vals

        ref_spec = copy.deepcopy(spec)
        if opt['fix_all']:
            map_ts(ref_spec, repl)
            map_ts(ref_spec, lambda x: x if all(q == x[0] for q in x) else list(repl(x[:n])) + x[n:], n + 1)
            if not v_ok(v, not missing, 'data not aggregated', f'no aggregated series for {missing[:1]}'):
                return v
        for c, (x, y) in zip(org.columns, cols):
            for ps in clusters.values():
                for p in ps[1:]:
                    v.count('aggregated_data', nontrivial=1)
                    if not np.allclose(y[ps[0]][:len(p)], y[p], rtol=1e-6, atol=1e-7):
                        return v.bad('aggregated data', f'{c}: differs within a cluster: {y[ps[0]].tolist()} {y[p].tolist()}')
        exact = opt['kind'] in ('repeat', 'all') and all(np.allclose(x, y, rtol=1e-6, atol=1e-6) for x, y in cols)
        if opt['kind'] == 'all' and len(clusters) == -(-n // per):
            if not v_ok(v, exact, 'aggregated data', 'as many typical periods as periods, but the data changed'):
                return v
        for x, y in cols:
            if np.any(y < -1e-9) and np.all(x >= 0):
                return v.say('void', 'aggregation produced negative values')
        # typical periods can contradict each other (e.g. a minimum above a maximum); the definition is then infeasible
        ref = self.reference(ref_spec, opt, clusters)
        st, obj, _ = ref.solve()
        full_st, full_obj, _ = reference(ref_spec)
        if o.status != 'ok':
            if 'feasible solution' in str(o.exc):
                if st == 'optimal' and not self._odd(ref_spec):
                    st2, _, _ = self.reference(ref_spec, opt, clusters).solve(presolve=True)
                    if st2 == 'optimal' and self._confirm(case):
                        return v.bad('infeasible', f'no solution, but one of value {obj} exists')
                return v.say('void', 'no solution')
            if st != 'optimal':
                return v.say('void', 'raised, no solution')
            return v.bad(f'raised:{o.stage}:{type(o.exc).__name__}', o.error + o.tb[-1200:])
        rep = monitor.check(ref_spec, o.results)
        v.merge(rep)
        for r, msg in rep.violations:
            if r in ('penalty', 'objective') and opt['freedom'] and opt['penalty']:
                continue
            if r == 'profile':
                return v.bad('aggregated data', 'fixed profile does not follow the aggregated data: ' + msg)
            v.say('foreign', r, msg)
        # equal decisions in equal periods
        comps = opt['clusterize']
        sv = SysView(ref_spec)
        dev = 0
        for comp in sv.comps:
            if comps is not None and comp.label not in comps:
                continue
            if comp.kind == 'Storage' and not opt['fix_storage']:
                continue
            d = o.results['Components'][comp.label]
            series = []
            for f in comp.flows:
                if opt['fix_all']:
                    series.append((f'{comp.label}/{f.label} flow rate', np.asarray(d[f.label]['flow_rate'], float), False))
                if f.onoff is not None:
                    series += [(f'{comp.label}/{f.label} {k}', np.asarray(d[f.label]['OnOff'][k], float), True)
                               for k in ('on', 'switchOn', 'switchOff') if k in d[f.label]['OnOff']]
            if comp.onoff is not None:
                series += [(f'{comp.label} {k}', np.asarray(d['OnOff'][k], float), True)
                           for k in ('on', 'switchOn', 'switchOff') if k in d['OnOff']]
            for what, x, binary in series:
                pairs = [(ps[0][j], p[j]) for ps in clusters.values() for p in ps[1:] for j in range(1, len(p))]
                if not pairs:
                    continue
                a, b = x[[q[0] for q in pairs]], x[[q[1] for q in pairs]]
                bad = np.abs(a - b) > 1e-5 * np.maximum(1, np.abs(a))
                v.count('periods_equal', len(pairs), nontrivial=int(np.sum(np.abs(a) > 1e-6)))
                if binary and opt['freedom']:
                    dev += int(bad.sum())
                    lim = round(opt['freedom'] / 100 * len(pairs))
                    v.tag('deviations at the limit' if bad.sum() >= lim else 'deviations', 1)
                    if bad.sum() > lim:
                        return v.bad('freedom', f'{what}: {int(bad.sum())} deviations in {len(pairs)} pairs, allowed {lim}')
                elif bad.any():
                    return v.bad('periods differ', f'{what}: periods of one cluster differ: {x.tolist()} clusters {clusters}')
        got = obj_of(o)
        if got is None:
            return v.bad('objective', 'no objective')
        v.count('aggregated_optimum')
        if opt['freedom']:
            pen = opt['penalty'] * dev
            e = sv.objective
            own = float(np.sum(o.results['Effects'][e]['operation']['operation_sum_TS'])) + float(o.results['Effects'][e]['invest']['invest_sum'])
            pen_rep = float(o.results['Effects']['penalty']['penalty_sum'])
            if rel(got, own + pen_rep) > 1e-4:
                return v.bad('objective', f'objective {got} but effects {own} and penalty {pen_rep}')
            excess = self._excess(ref_spec, o.results)
            if pen_rep < excess + pen - 1e-4 * max(1, abs(pen_rep)):
                return v.bad('freedom penalty', f'penalty {pen_rep} for {dev} deviations at {opt["penalty"]} each and {excess} for excess')
        if v.status == 'foreign' or st not in ('optimal', 'infeasible'):
            return v
        lo = full_obj if full_st == 'optimal' else None
        if lo is not None and got < lo - 1e-3 * max(1, abs(lo)):
            return v.bad('superoptimal', f'{got} although even without typical periods only {lo} is possible')
        if st == 'optimal':
            if got > obj + 1e-3 * max(1, abs(obj)) and self._confirm(case, obj):
                return v.bad('suboptimal', f'{got} although {obj} is possible')
            v.tag('optimum with deviations' if opt['freedom'] else 'optimum')
            if got < obj - 1e-3 * max(1, abs(obj)):
                st, obj, _ = self.reference(ref_spec, opt, clusters, False).solve()
            if st == 'optimal' and got < obj - 1e-3 * max(1, abs(obj)):
                st2, obj2, _ = self.reference(ref_spec, opt, clusters, False).solve(presolve=True)
                if st2 == 'optimal' and got < obj2 - 1e-3 * max(1, abs(obj2)):
                    return v.bad('superoptimal', f'{got} although only {obj} is possible')
        else:
            st2, obj2, _ = self.reference(ref_spec, opt, clusters).solve(presolve=True)
            if st2 == 'infeasible' and not self._odd(ref_spec):
                return v.bad('feasible', f'{got} although there is no solution with equal periods')
        return v

    @staticmethod
    def _within(exc, package):
        import traceback

        return f'/{package}/' in traceback.extract_tb(exc.__traceback__)[-1].filename.replace('\\', '/')

    @staticmethod
    def asked(case, o, v):
        """what the clustering (tsam) was asked for"""
        opt = case['opt']
        if len(o.clustered) != 1:
            return None
        kw = o.clustered[0]
        v.count('clustering', nontrivial=1)
        want = {'noTypicalPeriods': opt['k'], 'hoursPerPeriod': opt['per'] * spec_dt(case['spec'])[0], 'resolution': spec_dt(case['spec'])[0]}
        for k, x in want.items():
            if k in kw and abs(float(kw[k]) - x) > 1e-9:
                return f'{k} is {kw[k]} instead of {x}'
        for k, how in (('addPeakMax', 'high'), ('addPeakMin', 'low')):
            x = [o.peak] if opt['peaks'] in (how, 'both') else []
            if list(kw.get(k) or []) != x:
                return f'{k} is {kw.get(k)} instead of {x}'
        weights = dict(kw.get('weightDict') or {})
        groups = {}
        for j, w in (opt.get('weights') or {}).items():
            prof = Aggregated.profiles(case.get('all') or case['spec'])[int(j)][1]['profile']
            if all(x == prof[0] for x in prof):
                continue
            groups.setdefault(w if isinstance(w, str) else ('single', j), []).append((o.series[j].label, w))
        want = {}
        for k, members in groups.items():
            for label, w in members:
                want[label] = 1 / len(members) if isinstance(w, str) else w
        for label in kw['columns']:
            got = float(weights.get(label, 1))
            if abs(got - want.get(label, 1)) > 1e-5:
                return f'weight of {label} is {got} instead of {want.get(label, 1)}'
        lost = set(want) - set(kw['columns'])
        if lost:
            return f'{lost} not aggregated'
        return None

    @staticmethod
    def _odd(spec):
        return False

    def _confirm(self, case, obj=None):
        from ..oracle import CONFIGS, configured

        for cfg in CONFIGS[1:]:
            with configured(cfg):
                o = self.run(case)
                if o.status == 'ok' and (obj is None or obj_of(o) <= obj + 1e-3 * max(1, abs(obj))):
                    return False
        return True

    @staticmethod
    def _excess(spec, res):
        dt = spec_dt(spec)
        tot = 0.0
        for b, info in spec['buses'].items():
            d = res['Buses'].get(b) or {}
            if info.get('penalty') is not None and 'excess_input' in d:
                tot += float(np.sum(np.asarray(info['penalty']) * dt * (np.asarray(d['excess_input']) + np.asarray(d['excess_output']))))
        return tot

    @staticmethod
    def reference(spec, opt, clusters, strict=True):
        """the optimum with equal decisions in equal periods, except for the permitted deviations of binaries
        (strict: starts and stops are decisions of their own, equal or deviating like the states)"""
        ref = Reference(spec)
        per = opt['per']
        pairs = [(ps[0][j], p[j]) for ps in clusters.values() for p in ps[1:] for j in range(1, len(p))]
        lim = round(opt['freedom'] / 100 * len(pairs))
        for comp in ref.v.comps:
            if opt['clusterize'] is not None and comp.label not in opt['clusterize']:
                continue
            if comp.kind == 'Storage' and not opt['fix_storage']:
                continue
            rates = [ref.rate[f.key] for f in comp.flows] if opt['fix_all'] else []
            if comp.kind == 'Storage' and opt['fix_all'] and strict:
                rates.append(ref.m.names[('cs', comp.label)])
            on, follow = ref.binaries.get(comp.label, []), ref.switches.get(comp.label, [])
            for x, free, pen in [(x, False, 0) for x in rates] + [(x, opt['freedom'], opt['penalty']) for x in on + (follow if strict else [])]:
                if not free:
                    for a, b in pairs:
                        ref.m.eq({x[a]: 1.0, x[b]: -1.0})
                    continue
                if not pairs:
                    continue
                dev = ref.m.var(len(pairs), 0, 1)
                for d, (a, b) in zip(dev, pairs):
                    ref.m.le({x[a]: 1.0, x[b]: -1.0, d: -1.0})
                    ref.m.le({x[a]: -1.0, x[b]: 1.0, d: -1.0})
                    ref.m.obj.add(Lin({d: 1.0}), pen)
                ref.m.le(Lin({d: 1.0 for d in dev}), lim)
        return ref


PROPS = [Segmented(), Aggregated()]

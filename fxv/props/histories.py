"""What was calculated before, or failed, has no influence on what is calculated next."""

import copy
import json
import os
import shutil
import sys
import tempfile
import traceback

import numpy as np

from .. import run
from ..gen import Gen, tighten
from ..oracle import Verdict, outcome
from ..specs import slice_spec
from ..view import SysView, spec_dt
from .base import Prop
from .modes import Aggregated, Segmented, failing, segmented, walk
from .systems import NONE, extra

SEG, AGG = Segmented(), Aggregated()
INPUT_KEYS = {'Time', 'Time intervals in hours'}


def same(a, b, path=''):
    """first difference between two nested results, exact"""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f'{path}: keys {list(a)} and {list(b)}'
        for k in a:
            d = same(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
            return f'{path}: {a.tolist()} and {b.tolist()}'
        return None
    if a is None and b is None or a == b or (a != a and b != b):
        return None
    return f'{path}: {a!r} and {b!r}'


def numbers(res):
    """paths of everything in a result that is a number and not given by the input"""
    if not isinstance(res, dict):
        return [('result', res)]
    out = []
    for path, v in walk(res):
        if any(p in INPUT_KEYS for p in path) or v is None:
            continue
        if isinstance(v, (list, tuple)) and all(x is None for x in v):
            continue
        try:
            a = np.asarray(v, float)
        except (TypeError, ValueError):
            continue
        if a.size and np.isfinite(a).any():
            out.append(('/'.join(map(str, path)), v))
    return out


def share_parameters(spec, rng):
    """several elements get equal parameters (which are handed over as the same object)"""
    sv = SysView(spec)
    onoffs = [f.fl for f in sv.flows if f.fl.get('onoff') is not None] + [c for c in spec['comps'] if c.get('onoff') is not None]
    if onoffs:
        src = rng.choice(onoffs)['onoff']
        for x in onoffs:
            if rng.random() < 0.6:
                x['onoff'] = copy.deepcopy(src)
    inv = [f.fl for f in sv.flows if isinstance(f.fl.get('size'), dict)]
    if len(inv) > 1:
        src = rng.choice(inv)['size']
        for x in inv:
            if rng.random() < 0.6:
                x['size'] = copy.deepcopy(src)
    eff = [f.fl for f in sv.flows if f.fl.get('eff') is not None]
    if len(eff) > 1:
        src = rng.choice(eff)['eff']
        for x in eff:
            if rng.random() < 0.5:
                x['eff'] = copy.deepcopy(src)


class Player:
    """executes the events of a case on one energy system and records what every one of them returned"""

    def __init__(self, case):
        self.case = case
        self.spec = case['spec']
        self.out = {}          # event number -> outcome
        self.problems = []     # (key, message)
        self.counts = {}
        self.saved = {}        # event number -> (results as in the file, data as in the file)
        self.dir = tempfile.mkdtemp(prefix='hist', dir=os.getcwd())

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def outcome_at(self, k):
        """what the calculation of event k came to, if that event itself shows nothing: at its next event, or at the end"""
        i = self.case['events'][k][1]
        for j in range(k, len(self.case['events'])):
            if j in self.out and self.case['events'][j][1] == i:
                return self.out[j]
        o = getattr(self, 'state', {}).get(i)
        if o is not None and o.stage == 'solved' and o.status != 'ok':
            with run.silent():
                o.results = o.calc.results()
            o.status = 'ok'
        return o if o is not None and o.status == 'ok' else None

    def indices(self, i):
        c = self.case['calcs'][i]
        if c['idx'] is None:
            return None
        return list(range(*c['idx'])) if c.get('list') else range(*c['idx'])

    def play(self):
        import flixOpt as fx

        from ..build import build

        shared = {} if self.case.get('share') else None
        try:
            if self.case.get('twin'):
                # another energy system that uses the same parameter objects, calculated first
                with run.silent():
                    other = build(self.spec, order_seed=1, shared=shared)
                self.twin = run.run_full(self.spec, time_indices=range(0, self.case['twin']), built=other)
            with run.silent():
                self.built = b = build(self.spec, order_seed=self.case['order'], shared=shared)
        except Exception as e:
            o = run.Outcome()
            o.exc, o.tb = e, traceback.format_exc()
            self.out['define'] = o
            return self
        state = self.state = {}
        snaps = {}
        for k, ev in enumerate(self.case['events']):
            kind = ev[0]
            if kind == 'seg':
                c = ev[1]
                self.out[k] = segmented(self.spec, c['seg'], c['overlap'], 0, SEG.indices(c), c['fail'], built=b)
                continue
            if kind == 'agg':
                self.out[k] = AGG.run(ev[1], built=b)
                continue
            if kind == 'look':
                try:
                    with run.silent():
                        str(b.system), b.system.infos(), b.system.network_infos()
                        b.system.to_json(os.path.join(self.dir, 'system.json'))
                except Exception as e:
                    self.problems.append(('description', f'{type(e).__name__}: {e}'))
                continue
            i = ev[1]
            o = state.get(i)
            try:
                with run.silent():
                    if kind == 'model':
                        o = state[i] = run.Outcome()
                        o.stage = 'model'
                        o.built = b
                        o.calc = fx.FullCalculation(f'c{i}', b.system, time_indices=self.indices(i))
                        o.calc.do_modeling()
                        o.stage = 'modeled'
                    elif o is None or o.stage == 'model':
                        continue
                    elif kind == 'fail':
                        try:
                            o.calc.solve(failing(run.solver(), 0))
                            self.problems.append(('failure swallowed', 'an error of the solver was not reported'))
                        except RuntimeError:
                            pass
                    elif kind in ('solve', 'save'):
                        o.stage = 'solve'
                        d = os.path.join(self.dir, f's{k}')
                        o.calc.solve(run.solver(), save_results=d if kind == 'save' else False)
                        o.stage = 'solved'
                        if kind == 'save':
                            with open(os.path.join(d, f'c{i}_results.json'), encoding='utf-8') as f:
                                r = json.load(f)
                            with open(os.path.join(d, f'c{i}_data.json'), encoding='utf-8') as f:
                                self.saved[k] = (i, r, json.load(f))
                    elif kind == 'read':
                        if o.stage != 'solved':
                            continue
                        o.results = o.calc.results()
                        o.status = 'ok'
                        if i not in snaps:
                            snaps[i] = copy.deepcopy(o.results)
                        self.out[k] = o
                    elif kind == 'reset':   # solved again: what was read before belongs to the earlier solve
                        snaps.pop(i, None)
            except Exception as e:
                o.exc, o.tb = e, traceback.format_exc()
                o.status = 'raised'
                self.out[k] = o
                state.pop(i)
        for i, snap in snaps.items():
            o = state.get(i)
            if o is None:
                continue
            self.count('stable_results')
            d = same(snap, o.results)
            if d:
                self.problems.append(('results changed', f'results object of calculation {i}: {d}'))
            try:
                d = same(snap, o.calc.results())
                if d:
                    self.problems.append(('results changed', f'calculation {i} read again: {d}'))
            except Exception:
                self.problems.append(('results changed', traceback.format_exc()[-800:]))
        self.count('untouched_input', len(b.form.handed))
        m = b.form.mutated()
        if m:
            self.problems.append(('input modified', m))
        return self

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Independent(Prop):
    id = 'C18'
    quick, thorough = 600, 7000
    deciding = ('after_history', 'stable_results', 'saved_data')
    rule = ('histories of modeling, solving, failing, reading, saving, describing several calculations (full, chosen steps, segmented, aggregated) interleaved on '
            'one energy system, whose parameter objects may be shared by elements and by another energy system; every result is judged as if it were the only one; '
            'non-trivial: a result read after at least one other calculation was modeled or solved was compared with the reference, or results read before were compared again later')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        agg = rng.random() < 0.35
        over = dict(NONE, kinds=dict(Storage=2, Boiler=2, LinearConverter=1, CHP=1, Source=1), strict=0.0, comps=(1, 2), ts_price=0.9, flow_onoff=0.3,
                    comp_onoff=0.2, rmin=0.4, prev=0.4, sw_eff=0.5, run_eff=0.5, on_min=0.15, off_min=0.1, rmax_ts=0.4, profile=0.2, long=0,
                    n=(5, 9), effects=(1, 2), share_ts=0.4, penalty_ts=0.4, st_free=0.1, st_cyclic=0.1, invest=rng.choice([0, 0, 0.4]),
                    st_invest=0.2, segments=rng.choice([0, 0, 0.3]), st_bounds_ts=0 if agg else 0.2, onh_max=0.15)
        if agg:
            per, m = rng.choice([(3, 2), (3, 3), (4, 2), (3, 4), (5, 2)])
            over.update(n=(per * m, per * m), uneven=0, last=0, form=0.0)
        g = Gen(rng, **over)
        spec = g.system()
        share = rng.random() < 0.5
        if share:
            share_parameters(spec, rng)
        if rng.random() < 0.5:
            tighten(spec, rng, n_limits=1, loose=0.5)
        n = len(spec['time']['t'])
        calcs = []
        for _ in range(rng.randint(2, 3 if tier == 'quick' else 5)):
            if rng.random() < 0.45:
                calcs.append({'idx': None})
            else:
                lo = rng.randint(0, n - 2)
                calcs.append({'idx': [lo, rng.randint(lo + 2, n)], 'list': rng.random() < 0.5})
        # interleave
        lanes = []
        for c in range(len(calcs)):
            lane = [['model', c]]
            if rng.random() < 0.15:
                lane.append(['fail', c])
            lane.append([rng.choice(['solve', 'solve', 'solve', 'save']), c])
            lane.append(['read', c])
            if rng.random() < 0.2:
                lane += [['solve', c], ['reset', c], ['read', c]]
            if rng.random() < 0.1:
                lane += [['reset', c], ['model', c], ['solve', c], ['read', c]]
            lanes.append(lane)
        extra_ = []
        has_invest = any(isinstance(f.fl.get('size'), dict) for f in SysView(spec).flows) or any(isinstance(c.get('capacity'), dict) for c in spec['comps'])
        for _ in range(rng.choice([0, 1, 1, 2])):
            if not has_invest and rng.random() < 0.6:
                seg = rng.randint(3, max(3, n // 2))
                ov = rng.choice([0, 0, 1, 2])
                if seg + ov <= n and n % seg != 1:
                    fail = rng.randrange((n - 1) // seg + 1) if rng.random() < 0.3 else None
                    extra_.append(['seg', {'spec': spec, 'seg': seg, 'overlap': ov, 'sel': None, 'list': False, 'fail': fail, 'order': 0}])
            elif agg and any(True for _ in AGG._lists(spec)):
                extra_.append(['agg', {'spec': spec, 'order': 0, 'opt': {
                    'k': rng.randint(1, m), 'per': per, 'kind': 'any', 'fix_all': rng.random() < 0.8, 'fix_storage': False, 'freedom': 0, 'penalty': 0,
                    'clusterize': None, 'peaks': None}}])
        if rng.random() < 0.3:
            extra_.append(['look'])
        lanes += [[e] for e in extra_]
        events = []
        if rng.random() < 0.25:  # one after the other
            rng.shuffle(lanes)
            events = [e for lane in lanes for e in lane]
        else:
            while any(lanes):
                lane = rng.choice([x for x in lanes if x])
                events.append(lane.pop(0))
        twin = rng.randint(2, n) if share and rng.random() < 0.5 else None
        return {'spec': spec, 'order': rng.randrange(10**6), 'share': share, 'calcs': calcs, 'events': events, 'twin': twin}

    def check(self, case):
        v = Verdict()
        spec = case['spec']
        first = Player(case).play()
        try:
            return self._check(case, v, spec, first)
        finally:
            first.close()

    def _check(self, case, v, spec, first):
        if 'define' in first.out:
            o = first.out['define']
            return v.say('void', 'not accepted', o.error)
        for k, n in first.counts.items():
            v.count(k, n)
        for key, msg in first.problems:
            return v.bad(key, msg)
        for e in case['events']:
            v.tag('event ' + e[0])
        if case.get('share'):
            v.tag('shared parameter objects')
        if case.get('twin'):
            v.tag('two systems share parameters')
        seen = 0
        for k, ev in enumerate(case['events']):
            if ev[0] in ('model', 'seg', 'agg'):
                seen += 1
            if k not in first.out:
                continue
            if ev[0] in ('seg', 'agg'):
                prop = SEG if ev[0] == 'seg' else AGG
                c = dict(ev[1])
                w = prop.check(c, first.out[k])
                v.count('after_history', nontrivial=1 if seen > 1 else 0)
                if w.status in ('violation', 'foreign'):
                    fresh = prop.check(dict(c, order=case['order']))
                    if fresh.status == 'held':
                        return v.bad(f'{ev[0]}:{w.key}', f'event {k}: {w.msg}')
                    v.say('foreign', w.key, w.msg)
                elif w.status == 'inconclusive':
                    v.say('inconclusive', w.key, w.msg)
                continue
            i = ev[1]
            idx = case['calcs'][i]['idx']
            part = spec if idx is None else slice_spec(spec, range(*idx))
            state = {'first': True}

            def execute(_, k=k):
                if state.pop('first', False):
                    return first.out[k]
                p = Player(case).play()
                p.close()
                return p.outcome_at(k) or first.out[k]

            o = first.out[k]
            if o.status != 'ok' and o.stage == 'solve':
                o = first.out[k]
            w = outcome(part, self.id, (), execute)
            v.count('after_history', nontrivial=1 if seen > 1 else 0)
            if w.status in ('violation', 'foreign'):
                fresh = outcome(part, self.id, (), lambda s: run.run_full(spec, time_indices=first.indices(i), order_seed=case['order']))
                if fresh.status == 'held' and not (fresh.tags.get('solver noise') and 'optimal' in str(w.key)):
                    return v.bad(w.key, f'event {k} {ev} of {self._short(case)}: {w.msg}')
                v.say('foreign', w.key, w.msg)
            elif w.status == 'inconclusive':
                v.say('inconclusive', w.key, w.msg)
        for k, (i, r, data) in first.saved.items():
            n = len(spec['time']['t']) if case['calcs'][i]['idx'] is None else case['calcs'][i]['idx'][1] - case['calcs'][i]['idx'][0]
            v.count('saved_data')
            d = self._fresh_data(case, first, i)
            if d is None:
                continue
            diff = same(d, data)
            if diff:
                return v.bad('saved data', f'data saved in event {k} of {self._short(case)} is not that of the calculation alone: {diff}')
        return v

    @staticmethod
    def _short(case):
        return [e if e[0] not in ('seg', 'agg') else [e[0]] for e in case['events']]

    @staticmethod
    def _fresh_data(case, first, i):
        p = Player(dict(case, events=[['model', i], ['save', i]])).play()
        p.close()
        return p.saved[1][2] if 1 in p.saved else None


# ------------------------------------------------------------------------------------------------ failures
ERRORS = {'OSError': OSError, 'RuntimeError': RuntimeError, 'ValueError': ValueError, 'TimeoutError': TimeoutError, 'AttributeError': AttributeError}


class Faulty:
    """a solver that fails at its k-th use, in the given way; the other uses are served normally"""

    @staticmethod
    def make(how, k=0, time_limit=40, kind=None):
        """kind: name of the exception which the interface to the solver raises"""
        solver = run.solver(time_limit)
        base = type(solver)

        class FaultySolver(base):
            calls = 0

            def solve(self, *a, **kw):
                me = FaultySolver.calls
                FaultySolver.calls += 1
                if me != k:
                    return super().solve(*a, **kw)
                if how == 'before':
                    raise RuntimeError('injected: solver not available')
                if how == 'after':
                    super().solve(*a, **kw)
                    raise RuntimeError('injected: connection to the solver lost')
                if how == 'interrupt':
                    raise KeyboardInterrupt('injected')
                if how == 'nothing':
                    self.objective = self.best_bound = self.termination_message = None
                    return None
                if how == 'interface':
                    from pyomo.contrib import appsi

                    orig = appsi.solvers.Highs.solve

                    def broken(*a, **kw):
                        raise ERRORS.get(kind, OSError)('injected: no solution')

                    appsi.solvers.Highs.solve = broken
                    try:
                        return super().solve(*a, **kw)
                    finally:
                        appsi.solvers.Highs.solve = orig
                raise ValueError(how)

        solver.__class__ = FaultySolver
        return solver


class Interrupt:
    """raises KeyboardInterrupt at the k-th function call inside the code under test, while building the model"""

    def __init__(self, k):
        self.k, self.calls, self.done = k, 0, False
        import flixOpt

        self.where = os.path.dirname(os.path.abspath(flixOpt.__file__)) + os.sep

    def __enter__(self):
        import flixOpt as fx

        self.cls = fx.FullCalculation
        self.orig = self.cls.__dict__['do_modeling']
        me = self

        def trace(frame, event, arg):
            if me.done or event != 'call' or not frame.f_code.co_filename.startswith(me.where):
                return None
            me.calls += 1
            if me.calls >= me.k:
                me.done = True
                sys.settrace(None)
                raise KeyboardInterrupt('injected')
            return None

        def do_modeling(calc, *a, **kw):
            sys.settrace(trace)
            try:
                return me.orig(calc, *a, **kw)
            finally:
                sys.settrace(None)

        self.cls.do_modeling = do_modeling
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        self.cls.do_modeling = self.orig


class Failures(Prop):
    id = 'C14'
    quick, thorough = 600, 7000
    deciding = ('no_results', 'recovery', 'limited')
    rule = ('sequences of calculations on one energy system in which some have no solution (contradicting limits and demands), the solver fails before, after or within '
            'its work, returns nothing or is stopped by its time limit, or building the model is interrupted at an arbitrary call; after every failure results and files '
            'are looked for, and every calculation that can succeed is compared with the reference; '
            'non-trivial: a failure was observed, or a success after at least one failure')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        limited = i % 6 == 5
        over = dict(NONE, kinds=dict(Storage=2, Boiler=2, LinearConverter=1, CHP=1), strict=0.5, comps=(1, 2), ts_price=0.8, flow_onoff=0.25, comp_onoff=0.2,
                    rmin=0.4, prev=0.3, sw_eff=0.4, on_min=0.15, onh_max=0.1, n=(6, 10), long=0, effects=(1, 2), supply=0.8, st_final=0.2,
                    invest=rng.choice([0, 0, 0.4]), penalty_ts=0.2, share_ts=0.3)
        if limited:
            over.update(n=(24, 60) if tier == 'quick' else (24, 120), comps=(3, 5), strict=0.1, flow_onoff=0.6, comp_onoff=0.3, rmin=0.7, sw_eff=0.8, on_min=0.5,
                        off_min=0.4, rmax_ts=0.2, st_free=0, st_final=0, invest=0)
        g = Gen(rng, **over)
        spec = g.system()
        n = len(spec['time']['t'])
        if limited:
            return {'spec': spec, 'order': rng.randrange(10**6), 'limits': [rng.choice([0, 0.01, 0.05, 0.2, 0.5, 1.0]) for _ in range(2)], 'again': rng.choice(['same solver', 'new solver', None])}
        if rng.random() < 0.45:
            self._contradict(spec, rng)
        elif rng.random() < 0.4:
            tighten(spec, rng, n_limits=1, loose=0.5)
        inv = any(isinstance(f.fl.get('size'), dict) for f in SysView(spec).flows) or any(isinstance(c.get('capacity'), dict) for c in spec['comps'])
        steps = []
        for _ in range(rng.randint(2, 4)):
            kind = 'full' if inv or rng.random() < 0.72 else 'seg'
            s = {'kind': kind, 'save': rng.random() < 0.5, 'fault': None, 'name': rng.choice(['calc', 'calc', 'other'])}
            if kind == 'full':
                s['idx'] = None
                if rng.random() < 0.45:
                    lo = rng.randint(0, n - 2)
                    s['idx'] = [lo, rng.randint(lo + 2, n)]
                    if rng.random() < 0.08:
                        s['idx'] = [lo, lo + 1]
                s['fault'] = rng.choice([None, None, 'before', 'after', 'interrupt', 'interface', 'nothing', 'modeling'])
                s['again'] = rng.random() < 0.6          # the same calculation object is solved again with a solver that works
                s['solved_before'] = s['fault'] in ('before', 'after', 'interrupt', 'interface') and rng.random() < 0.4
                s['same_solver'] = rng.random() < 0.5    # ... by the same solver object
                s['error'] = rng.choice(sorted(ERRORS))
            else:
                s['seg'] = rng.randint(3, max(3, n // 2))
                s['overlap'] = rng.choice([0, 0, 1, 2])
                if s['seg'] + s['overlap'] > n or n % s['seg'] == 1:
                    s['seg'], s['overlap'] = 3, 0
                    if n % 3 == 1:
                        s['seg'] = 4 if n % 4 != 1 and n >= 4 else n
                s['fault'] = rng.choice([None, 'before', 'after', 'interrupt', 'interface', 'modeling'])
                s['at'] = rng.randrange((n - 1) // s['seg'] + 1)
            if s['fault'] == 'modeling':
                s['call'] = int(10 ** rng.uniform(0, 3.3))
            steps.append(s)
        steps.append({'kind': 'full', 'idx': None, 'save': rng.random() < 0.3, 'fault': None, 'again': False, 'solved_before': False, 'name': 'last'})
        if rng.random() < 0.5:
            for s in steps:
                s['shared'] = True                       # one solver object for all that can succeed
        return {'spec': spec, 'order': rng.randrange(10**6), 'steps': steps}

    @staticmethod
    def _contradict(spec, rng):
        """something that cannot be met in some step or in total; horizons without that step may be fine"""
        n = len(spec['time']['t'])
        sv = SysView(spec)
        kind = rng.choice(['peak', 'peak', 'effect', 'final', 'must'])
        sinks = [c for c in spec['comps'] if c['kind'] == 'Sink' and c['flow'].get('profile') is not None]
        if kind == 'peak' and sinks:
            c = rng.choice(sinks)
            p = c['flow']['profile']
            p = list(p) if isinstance(p, list) else [p] * n
            p[rng.randrange(n)] = 1000.0
            c['flow']['profile'] = p
            spec['buses'][c['flow']['bus']]['penalty'] = None
        elif kind == 'effect':
            e = rng.choice(spec['effects'])
            e['max_op'] = -1000.0
        elif kind == 'final':
            for c in spec['comps']:
                if c['kind'] == 'Storage' and not isinstance(c['capacity'], dict):
                    c['initial'] = 0
                    c['fmin'] = c['capacity']
        elif kind == 'must':
            f = rng.choice(sv.flows)
            f.fl['fh_min'] = 3000.0

    # ---------------------------------------------------------------- execution
    def play(self, case):
        import flixOpt as fx

        from ..build import build

        spec = case['spec']
        b = shared = None
        out = []
        base = tempfile.mkdtemp(prefix='fail', dir=os.getcwd())
        try:
            with run.silent():
                b = build(spec, order_seed=case['order'])
            before = json.dumps(sorted(map(str, _state(b).items())))
            for k, s in enumerate(case['steps']):
                r = {'outs': [], 'problems': []}
                out.append(r)
                d = os.path.join(base, f'd{k}')
                idx = range(*s['idx']) if s.get('idx') else None
                calc = None
                ctx = Interrupt(s['call']) if s['fault'] == 'modeling' else None
                if s['kind'] == 'full':
                    o = run.Outcome()
                    o.built = b
                    try:
                        with run.silent():
                            o.stage = 'model'
                            calc = fx.FullCalculation(s['name'], b.system, time_indices=idx)
                            o.calc = calc
                            if ctx:
                                with ctx:
                                    calc.do_modeling()
                            else:
                                calc.do_modeling()
                            faulty = s['fault'] not in (None, 'modeling')
                            twice = s['solved_before'] and s.get('same_solver')
                            if s.get('shared') and not faulty:
                                if shared is None:
                                    shared = run.solver()
                                solver = shared
                            else:
                                solver = Faulty.make(s['fault'], 1 if twice else 0, kind=s.get('error')) if faulty else run.solver()
                            if s['solved_before']:
                                o.stage = 'first solve'
                                calc.solve(solver if twice else run.solver())
                                calc.results()
                            o.stage = 'solve'
                            calc.solve(solver, save_results=d if s['save'] else False)
                            o.stage = 'results'
                            o.results = copy.deepcopy(calc.results())
                            o.status = 'ok'
                    except (Exception, KeyboardInterrupt) as e:
                        o.exc, o.tb = e, traceback.format_exc()
                    r['outs'].append((s['fault'] if not ctx or ctx.done else None, o))
                    if o.status != 'ok':
                        self._leftovers(r, calc, d, 'full')
                    if s['again'] and calc is not None and calc.system_model is not None and (o.status != 'ok') and o.stage in ('solve', 'results'):
                        o2 = run.Outcome()
                        o2.built, o2.calc, o2.stage = b, calc, 'solve'
                        try:
                            with run.silent():
                                calc.solve(run.solver(), save_results=d if s['save'] else False)
                                o2.stage = 'results'
                                o2.results = copy.deepcopy(calc.results())
                                o2.status = 'ok'
                        except (Exception, KeyboardInterrupt) as e:
                            o2.exc, o2.tb = e, traceback.format_exc()
                            self._leftovers(r, calc, d, 'full')
                        r['outs'].append((None, o2))
                else:
                    o = {'status': 'raised'}
                    try:
                        with run.silent():
                            calc = fx.SegmentedCalculation(s['name'], b.system, s['seg'], s['overlap'])
                            faulty = s['fault'] not in (None, 'modeling')
                            solver = Faulty.make(s['fault'], s['at']) if faulty else run.solver()
                            if ctx:
                                with ctx:
                                    calc.do_modeling_and_solve(solver, save_results=d if s['save'] else False)
                            else:
                                calc.do_modeling_and_solve(solver, save_results=d if s['save'] else False)
                            calc.results(combined_arrays=True)
                            o['status'] = 'ok'
                    except (Exception, KeyboardInterrupt) as e:
                        o['exc'], o['tb'] = e, traceback.format_exc()
                        self._leftovers(r, calc, d, 'seg')
                    r['outs'].append((s['fault'] if not ctx or ctx.done else None, o))
                after = json.dumps(sorted(map(str, _state(b).items())))
                if after != before:
                    r['problems'].append(('state', f'start values changed from {before} to {after}'))
            m = b.form.mutated()
            if m:
                out[-1]['problems'].append(('input', m))
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return b, out

    @staticmethod
    def _leftovers(r, calc, d, kind):
        files = [f for f in (os.listdir(d) if os.path.isdir(d) else []) if f.endswith(('.json', '.yaml'))]
        if files:
            r['problems'].append(('files', f'files {files} written without a solution'))
        if calc is None:
            return
        r['looked'] = r.get('looked', 0) + 1
        try:
            with run.silent():
                if kind == 'full':
                    res = calc.results()
                else:
                    res = calc.results(combined_arrays=True)
        except Exception:
            return
        found = numbers(res)
        if found:
            r['problems'].append(('results', f'{len(found)} values in the results although there is no solution, e.g. {found[0]}'))

    # ---------------------------------------------------------------- judgement
    def check(self, case):
        v = Verdict()
        if 'limits' in case:
            return self._limited(case, v)
        spec = case['spec']
        try:
            b, out = self.play(case)
        except Exception as e:
            from ..oracle import reference

            return v.say('void', 'not accepted', f'{type(e).__name__}: {e}')
        failures = 0
        for k, (s, r) in enumerate(zip(case['steps'], out)):
            for key, msg in r['problems']:
                return v.bad(key, f'step {k} {self._short(s)}: {msg}')
            v.count('no_results', r.get('looked', 0))
            for j, (fault, o) in enumerate(r['outs']):
                v.tag(f'{s["kind"]} with fault {fault}')
                if s['kind'] == 'seg':
                    if fault is None:
                        failures += o['status'] != 'ok'
                        continue
                    if o['status'] == 'ok' and not (fault == 'modeling'):
                        return v.bad('failure swallowed', f'step {k} {self._short(s)}: no error')
                    if o['status'] == 'ok':
                        return v.bad('failure swallowed', f'step {k} {self._short(s)}: interrupted, but no error')
                    failures += 1
                    continue
                if fault is not None:
                    failures += 1
                    if o.status == 'ok':
                        return v.bad('failure swallowed', f'step {k} {self._short(s)}: no error')
                    continue
                if s.get('idx') and s['idx'][1] - s['idx'][0] == 1:
                    failures += o.status != 'ok'
                    continue
                part = spec if not s.get('idx') else slice_spec(spec, range(*s['idx']))
                first = [True]

                def execute(_, o=o, k=k, j=j, first=first):
                    if first:
                        first.clear()
                        return o
                    again = self.play(case)[1][k]['outs']  # under another configuration of the solver
                    return again[min(j, len(again) - 1)][1]

                w = outcome(part, self.id, (), execute)
                v.count('recovery', nontrivial=1 if failures else 0)
                if o.status != 'ok':
                    v.tag('no solution')
                    failures += 1
                if w.status == 'violation' and w.key == 'feasible':
                    # confirmed by a calculation of its own, with other solver settings
                    f = outcome(part, self.id, (), lambda _: run.run_full(spec, time_indices=range(*s['idx']) if s.get('idx') else None, order_seed=case['order']))
                    if f.status == 'violation' and f.key == 'feasible':
                        return v.bad('result without solution', f'step {k} {self._short(s)}: {w.msg}')
                if w.status in ('violation', 'foreign'):
                    f = outcome(part, self.id, (), lambda _: run.run_full(spec, time_indices=range(*s['idx']) if s.get('idx') else None, order_seed=case['order']))
                    if f.status == 'held' and failures and not (f.tags.get('solver noise') and 'optimal' in str(w.key)):
                        return v.bad('after failure:' + w.key, f'step {k} {self._short(s)} after {[self._short(x) for x in case["steps"][:k]]}: {w.msg}')
                    v.say('foreign', w.key, w.msg)
                elif w.status == 'inconclusive':
                    v.say('inconclusive', w.key, w.msg)
        if failures:
            v.tag('histories with failures')
        return v

    @staticmethod
    def _short(s):
        return {k: x for k, x in s.items() if x not in (None, False)}

    def _limited(self, case, v):
        from .. import monitor

        spec = case['spec']
        for lim in case['limits']:
            d = tempfile.mkdtemp(prefix='lim', dir=os.getcwd())
            o = run.run_full(spec, order_seed=case['order'], time_limit=lim, save=d)
            files = [f for f in os.listdir(d) if f.endswith(('.json', '.yaml'))]
            shutil.rmtree(d)
            if o.status != 'ok':
                if o.stage in ('define', 'model'):
                    return v.say('void', 'not accepted', o.error)
                v.tag('time limit: nothing found')
                r = {'problems': []}
                v.count('no_results')
                if files:
                    return v.bad('files', f'time limit {lim}: files {files} written without a solution')
                self._leftovers(r, o.calc, '/nonexistent', 'full')
                if r['problems']:
                    return v.bad('results', f'time limit {lim}: {r["problems"][0][1]}')
                continue
            v.tag('time limit: solution')
            rep = monitor.check(spec, o.results)
            v.count('limited')
            v.merge(rep)
            for rule, msg in rep.violations:
                f = run.run_full(spec, order_seed=case['order'], time_limit=60)
                if f.status == 'ok' and not monitor.check(spec, f.results).violations:
                    return v.bad('limited:' + rule, f'time limit {lim}: {msg}')
                return v.say('foreign', rule, msg)
        if case.get('again') and v.status == 'held':
            self._again(case, v)
        return v

    def _again(self, case, v):
        """solved, then solved again without any time to do so"""
        import flixOpt as fx

        from ..build import build

        if any(run.run_full(case['spec'], order_seed=case['order'], time_limit=0).status == 'ok' for _ in range(2)):
            return
        d = tempfile.mkdtemp(prefix='again', dir=os.getcwd())
        try:
            with run.silent():
                calc = fx.FullCalculation('again', build(case['spec'], order_seed=case['order']).system)
                calc.do_modeling()
                solver = run.solver(5, 0.5)
                try:
                    calc.solve(solver)
                    calc.results()
                except Exception:
                    return
                if case['again'] == 'same solver':
                    solver.time_limit_seconds = 0
                else:
                    solver = run.solver(0)
                try:
                    calc.solve(solver, save_results=d)
                    calc.results()
                    done = True
                except Exception:
                    done = False
            v.tag('solved again without time')
            v.count('no_results')
            if done:
                return v.bad('failure swallowed', f'solved, and solved again with a time limit of 0 ({case["again"]}): no error, although a new calculation ends in one')
            r = {'problems': []}
            self._leftovers(r, calc, d, 'full')
            if r['problems']:
                return v.bad(r['problems'][0][0], f'solved, and solved again with a time limit of 0 ({case["again"]}): {r["problems"][0][1]}')
        finally:
            shutil.rmtree(d, ignore_errors=True)


def _state(b):
    out = {}
    for k, f in b.flows.items():
        p = f.previous_flow_rate
        out[k] = None if p is None else tuple(np.atleast_1d(np.asarray(p, float)).tolist())
    for k, c in b.comps.items():
        if hasattr(c, 'initial_charge_state'):
            out[k] = repr(c.initial_charge_state)
    return out


PROPS = [Independent(), Failures()]

"""Saved results, and what is loaded from them."""

import copy
import datetime
import json
import math
import os
import pathlib
import shutil
import tempfile
import traceback

import numpy as np

from .. import monitor, run
from ..gen import Gen
from ..oracle import Verdict
from ..specs import slice_spec
from ..view import SysView, is_ts, spec_dt
from .base import Prop
from .systems import CONV, NONE

NAMES = ['calc', 'Rechnung 1', 'größe', 'a.b', 'x-1_2', 'Full (test)', '2020', 'Q#1']
ODD = ['true', '1', 'null', 'a: b', "x'y", '"q"', '日本', '- k', '1e5', 'No', '{c}', 'tab\tbed', 'A_b', '2020-01-01', '%', '#h']


def as_file(x):
    """what json makes of a value"""
    if isinstance(x, dict):
        return {k: as_file(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [as_file(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'M':
            return [('time', v) for v in x.astype('datetime64[us]').tolist()]
        return [as_file(v) for v in x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    return x


def differ(want, got, path=''):
    """first difference; numbers must be equal exactly"""
    if isinstance(got, np.ndarray):
        got = got.tolist()
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f'{path}: {str(got)[:80]} is no dict'
        if set(want) != set(got):
            return f'{path}: missing {sorted(map(str, set(want) - set(got)))}, additional {sorted(map(str, set(got) - set(want)))}'
        for k in want:
            d = differ(want[k], got[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return f'{path}: {str(want)[:150]} became {str(got)[:150]}'
        for i, (a, b) in enumerate(zip(want, got)):
            d = differ(a, b, f'{path}[{i}]')
            if d:
                return d
        return None
    if isinstance(want, tuple) and want and want[0] == 'time':
        try:
            ok = datetime.datetime.fromisoformat(got) == want[1] if isinstance(got, str) else got == want[1]
        except (TypeError, ValueError):
            ok = False
        return None if ok else f'{path}: time {want[1]} became {got!r}'
    if isinstance(want, bool) or want is None or isinstance(want, str):
        return None if want == got else f'{path}: {want!r} became {got!r}'
    if isinstance(got, (int, float)) and not isinstance(got, bool) and (want == got or (want != want and got != got)):
        return None
    return f'{path}: {want!r} became {got!r}'


class Files(Prop):
    id = 'C19'
    quick, thorough = 800, 8000
    deciding = ('saved_values', 'loaded_values', 'tables', 'saved_data', 'saved_infos')
    rule = ('random systems with every feature, label and time axis, calculated as a whole, on chosen steps, in segments or with typical periods, saved to disk and loaded '
            'again (also after the folder was moved or a result of the same name was overwritten); files, loaded objects and tables are compared value by value with '
            'what the calculation returned; non-trivial: the compared results hold non-zero numbers')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        kind = rng.choice(['full', 'full', 'full', 'seg', 'agg'])
        over = dict(kinds=dict(CONV, Storage=3, Transmission=1, SourceAndSink=1), strict=0.12, comps=(1, 3), flow_onoff=0.25, comp_onoff=0.2, invest=0.25, rmin=0.3,
                    uneven=0.4, unit_other=0.35, last=0.3, effects=(1, 3), zero_penalty=0.1, st_bounds_ts=0.2, sw_eff=0.4, n=(4, 8),
                    segments=rng.choice([0, 0.3]), long=0.04, n_long=(30, 60))
        if kind != 'full':
            over.update(invest=0, st_invest=0, tr_invest=0, n=(6, 11), strict=rng.choice([0, 0.3, 1]), st_final=0, long=0)
        per = m = None
        if kind == 'agg':
            per, m = rng.choice([(3, 2), (3, 3), (4, 2)])
            over.update(n=(per * m, per * m), uneven=0, last=0, form=0.0, st_bounds_ts=0, strict=0.2)
        g = Gen(rng, **over)
        spec = g.system()
        n = len(spec['time']['t'])
        odd = rng.sample(ODD, len(ODD))
        for c in spec['comps']:
            if rng.random() < 0.15 and odd:
                c['label'] = odd.pop()
            if c['kind'] in ('LinearConverter', 'Storage', 'Source', 'Sink') and rng.random() < 0.3:
                c['meta'] = {'owner': 'Müller', 'n': 3, 'list': [1, 2.5], 'sub': {'a': True, 'b': None}}
        case = {'spec': spec, 'kind': kind, 'order': rng.randrange(10**6), 'name': rng.choice(NAMES), 'idx': None, 'path': rng.choice(['str', 'path', 'relative', 'default', 'nested']),
                'overwrite': rng.random() < 0.15, 'move': rng.random() < 0.2, 'seed': rng.randrange(10**6)}
        if kind == 'full' and rng.random() < 0.3 and n > 3:
            lo = rng.randint(0, n - 2)
            case['idx'] = [lo, rng.randint(lo + 2, n)]
        if kind == 'seg':
            seg = rng.randint(3, max(3, n // 2))
            ov = rng.choice([0, 0, 1, 2])
            if seg + ov > n or n % seg == 1:
                seg, ov = next((k for k in (3, 4, 5, n) if n % k != 1)), 0
            case.update(seg=seg, overlap=ov)
        if kind == 'agg':
            case['opt'] = {'k': rng.randint(1, m), 'per': per, 'kind': 'any', 'fix_all': rng.random() < 0.8, 'fix_storage': False, 'freedom': 0, 'penalty': 0,
                           'clusterize': None, 'peaks': None}
        return case

    # -------------------------------------------------------------- execution
    def check(self, case):
        v = Verdict()
        base = tempfile.mkdtemp(prefix='files', dir=os.getcwd())
        cwd = os.getcwd()
        os.chdir(base)
        try:
            return self._check(case, v, base)
        finally:
            os.chdir(cwd)
            shutil.rmtree(base, ignore_errors=True)

    def _calculate(self, case, target, name):
        """-> (calculation, results as returned, exception)"""
        import flixOpt as fx

        from ..build import build

        spec = case['spec']
        with run.silent():
            b = build(spec, order_seed=case['order'])
            idx = range(*case['idx']) if case['idx'] else None
            if case['kind'] == 'full':
                calc = fx.FullCalculation(name, b.system, time_indices=idx)
                calc.do_modeling()
                calc.solve(run.solver(), save_results=target)
                return calc, calc.results()
            if case['kind'] == 'seg':
                calc = fx.SegmentedCalculation(name, b.system, case['seg'], case['overlap'])
                calc.do_modeling_and_solve(run.solver(), save_results=target)
                return calc, calc.results(combined_arrays=True)
            opt = case['opt']
            dt = spec_dt(spec)[0]
            par = fx.AggregationParameters(
                hours_per_period=opt['per'] * dt, nr_of_periods=opt['k'], fix_storage_flows=opt['fix_storage'],
                aggregate_data_and_fix_non_binary_vars=opt['fix_all'], percentage_of_period_freedom=opt['freedom'],
                penalty_of_period_freedom=opt['penalty'])
            calc = fx.AggregatedCalculation(name, b.system, par)
            calc.do_modeling()
            calc.solve(run.solver(), save_results=target)
            return calc, calc.results()

    def _check(self, case, v, base):
        from flixOpt.results import CalculationResults

        spec, name = case['spec'], case['name']
        folder = {'str': os.path.join(base, 'out'), 'path': os.path.join(base, 'out'), 'relative': os.path.join(base, 'out dir'),
                  'default': os.path.join(base, 'results'), 'nested': os.path.join(base, 'a', 'b', 'ü')}[case['path']]
        target = {'str': folder, 'path': pathlib.Path(folder), 'relative': 'out dir', 'default': True, 'nested': pathlib.Path('a') / 'b' / 'ü'}[case['path']]
        try:
            if case['overwrite']:
                self._calculate(dict(case, kind='full', idx=None), target, name)
            calc, res = self._calculate(case, target, name)
        except Exception as e:
            if 'feasible solution' in str(e):
                return v.say('void', 'no solution')
            # is it the saving?
            try:
                self._calculate(case, False, name)
            except Exception:
                return v.say('void', f'raised {type(e).__name__}', str(e))
            return v.bad(f'saving raised {type(e).__name__}', traceback.format_exc()[-1500:])
        part = slice_spec(spec, range(*case['idx'])) if case['idx'] else spec
        v.tag('kind ' + case['kind'])
        v.tag('resolution ' + (spec['time'].get('unit') or 'us'))
        if case['move']:
            other = os.path.join(base, 'moved')
            shutil.move(folder, other)
            folder = other
            v.tag('moved')
        leaves = _leaves(res)
        busy = sum(1 for x in leaves if np.any(np.asarray(x, float) != 0))
        # ---- the files
        want = as_file(res)
        try:
            with open(os.path.join(folder, f'{name}_results.json'), encoding='utf-8') as f:
                got = json.load(f)
        except Exception as e:
            return v.bad('results file', f'{type(e).__name__}: {e}; files: {os.listdir(folder) if os.path.isdir(folder) else None}')
        d = differ(want, got)
        v.count('saved_values', len(leaves), busy)
        if d:
            return v.bad('saved values', d)
        if case['kind'] == 'seg':
            with open(os.path.join(folder, f'{name}_results_extra.json'), encoding='utf-8') as f:
                got = json.load(f)
            d = differ(as_file({'Individual Results': calc.results(individual_results=True), 'Skalar Results': calc.results(combined_scalars=True)}), got)
            v.count('saved_values', nontrivial=1 if busy else 0)
            if d:
                return v.bad('saved values', d)
        # ---- loading
        try:
            with run.silent():
                loaded = CalculationResults(name, folder if case['seed'] % 2 else pathlib.Path(folder))
        except Exception as e:
            return v.bad(f'loading raised {type(e).__name__}', traceback.format_exc()[-1500:])
        for f in (self._values, self._tables, self._data, self._infos):
            try:
                f(case, v, part, res, calc, loaded, busy)
            except Exception:
                return v.bad(f'{f.__name__[1:]} unreadable', traceback.format_exc()[-1800:])
            if v.status == 'violation':
                return v
        return v

    # -------------------------------------------------------------- monitors
    def _values(self, case, v, spec, res, calc, L, busy):
        want = as_file(res)
        d = differ({k: x for k, x in want.items() if k != 'Time'}, {k: x for k, x in L.all_results.items() if k != 'Time'})
        v.count('loaded_values', len(_leaves(res)), busy)
        if d:
            return v.bad('loaded values', d)
        t = np.asarray(res['Time']).astype('datetime64[us]')
        for what, x, y in (('time_with_end', L.time_with_end, t), ('time', L.time, t[:-1])):
            if np.asarray(x).astype('datetime64[us]').tolist() != y.tolist():
                return v.bad('loaded time', f'{what}: {x} instead of {y}')
        if list(map(float, L.time_intervals_in_hours)) != list(map(float, np.atleast_1d(res['Time intervals in hours']))):
            return v.bad('loaded time', f'time_intervals_in_hours {L.time_intervals_in_hours} instead of {res["Time intervals in hours"]}')
        sv = SysView(spec)
        labels = {c.label for c in sv.comps}
        if set(L.component_results) != labels or set(L.bus_results) != set(spec['buses']):
            return v.bad('loaded elements', f'components {sorted(L.component_results)}, buses {sorted(L.bus_results)}')
        if set(L.effect_results) - {'Penalty', 'penalty'} != {e['label'] for e in spec['effects']}:
            return v.bad('loaded elements', f'effects {sorted(L.effect_results)}')
        for c in sv.comps:
            r = L.component_results[c.label]
            ins = {f.label for f in r.inputs}
            outs = {f.label for f in r.outputs}
            wi = {f.label for f in c.flows if f.is_input}
            wo = {f.label for f in c.flows if not f.is_input}
            if ins != wi or outs != wo or len(r.inputs) + len(r.outputs) != len(c.flows):
                return v.bad('loaded elements', f'{c.label}: inputs {ins} outputs {outs}, defined {wi} and {wo}')
            d = differ(as_file(res['Components'][c.label]), r.all_results, c.label)
            if d:
                return v.bad('loaded values', d)
            for f in r.inputs + r.outputs:
                d = differ(as_file(res['Components'][c.label][f.label]), f.all_results, f.label) or differ(as_file(res['Components'][c.label][f.label]), f.variables)
                if d:
                    return v.bad('loaded values', f'{c.label}: {d}')
                sf = next(x for x in c.flows if x.label == f.label)
                if f.bus_label != sf.bus or f.component_label != c.label or bool(f.is_input_in_component) != sf.is_input:
                    return v.bad('loaded elements', f'{c.label}/{f.label}: bus {f.bus_label}, component {f.component_label}, input {f.is_input_in_component}')
            for path, x in _paths(res['Components'][c.label]):
                y = r.variables_flat.get('__'.join(path), 'missing')
                if differ(as_file(x), y if not isinstance(y, np.ndarray) else y.tolist()):
                    return v.bad('loaded values', f'{c.label}: flat variable {path} is {y}, not {x}')
        for b in spec['buses']:
            r = L.bus_results[b]
            for got, into in ((r.inputs, False), (r.outputs, True)):   # what a component feeds in is an input of the bus
                have = sorted((f.component_label, f.label) for f in got)
                want_ = sorted((c.label, f.label) for c in sv.comps for f in c.flows if f.bus == b and f.is_input == into)
                if have != want_:
                    return v.bad('loaded elements', f'bus {b}: {have} instead of {want_}')
            d = differ(as_file((res.get('Buses') or {}).get(b, {})), r.all_results, b)
            if d:
                return v.bad('loaded values', d)
        for e in spec['effects']:
            d = differ(as_file(res['Effects'].get(e['label'], {})), L.effect_results[e['label']].all_results, e['label'])
            if d:
                return v.bad('loaded values', d)

    def _tables(self, case, v, spec, res, calc, L, busy):
        import random

        rng = random.Random(case['seed'])
        sv = SysView(spec)
        t = np.asarray(res['Time']).astype('datetime64[us]')
        n = len(t) - 1
        todo = [('component', c.label) for c in sv.comps] + [('bus', b) for b in spec['buses']] + [('flow', (c.label, f.label)) for c in sv.comps for f in c.flows]
        for kind, label in todo:
            kw = {}
            if rng.random() < 0.6:
                kw['input_factor'] = rng.choice([1, -1, -1, None])
            if rng.random() < 0.6:
                kw['output_factor'] = rng.choice([1, -1, None])
            if rng.random() < 0.6:
                kw['threshold'] = rng.choice([None, 1e-5, 5.0, 20.0])
            if rng.random() < 0.6:
                kw['with_last_time_step'] = rng.random() < 0.5
            fi, fo = kw.get('input_factor', -1), kw.get('output_factor', 1)
            want = {}

            def rate(c, f):
                return np.asarray(res['Components'][c][f]['flow_rate'], float)

            if kind == 'component':
                c = next(x for x in sv.comps if x.label == label)
                for f in c.flows:
                    k = fi if f.is_input else fo
                    if k is not None:
                        want[f'{label}__{f.label}'] = rate(label, f.label) * k
            elif kind == 'bus':
                for c in sv.comps:
                    for f in c.flows:
                        k = fo if f.is_input else fi
                        if f.bus == label and k is not None:
                            want[f'{c.label}__{f.label}'] = rate(c.label, f.label) * k
                d = (res.get('Buses') or {}).get(label, {})
                if 'excess_input' in d and fi is not None:
                    want['Excess Input'] = np.asarray(d['excess_input'], float) * fi
                if 'excess_output' in d and fo is not None:
                    want['Excess Output'] = np.asarray(d['excess_output'], float) * fo
            else:
                want['flow_rate'] = rate(*label)
            key = '__'.join(label) if kind == 'flow' else label
            with run.silent():
                df = L.to_dataframe(key, **kw)
            thr = kw.get('threshold', 1e-5)
            full = want
            if thr is not None:
                want = {k: x for k, x in want.items() if np.any(np.abs(x) > thr)}
            v.count('tables', nontrivial=1 if any(np.any(x != 0) for x in want.values()) else 0)
            if sorted(df.columns) != sorted(want):
                return v.bad('table', f'{kind} {key} {kw}: columns {sorted(df.columns)} instead of {sorted(want)}')
            last = kw.get('with_last_time_step', True)
            index = t if last else t[:-1]
            if want and (len(df) != len(index) or df.index.values.astype('datetime64[us]').tolist() != index.tolist()):
                return v.bad('table', f'{kind} {key} {kw}: index {df.index.tolist()}')
            for col, x in want.items():
                y = np.asarray(df[col], float)
                x = np.append(x, x[-1]) if last else x
                if not np.array_equal(x, y):
                    return v.bad('table', f'{kind} {key} {kw}: {col} is {y.tolist()} instead of {x.tolist()}')
            # the same from the element itself: every step, every flow
            r = {'component': L.component_results, 'bus': L.bus_results}.get(kind)
            if r is None:
                c = L.component_results[label[0]]
                r = next(f for f in c.inputs + c.outputs if f.label == label[1])
                df = r.to_dataframe()
            else:
                df = r[label].to_dataframe(**{k: x for k, x in kw.items() if k.endswith('factor')})
            if sorted(df.columns) != sorted(full):
                return v.bad('table', f'{kind} {key} itself, {kw}: columns {sorted(df.columns)} instead of {sorted(full)}')
            for col, x in full.items():
                if not np.array_equal(x, np.asarray(df[col], float)):
                    return v.bad('table', f'{kind} {key} itself, {kw}: {col} is {df[col].tolist()} instead of {x.tolist()}')
        # a table that was asked for does not change what was loaded
        d = differ({k: x for k, x in as_file(res).items() if k != 'Time'}, {k: x for k, x in L.all_results.items() if k != 'Time'})
        if d:
            return v.bad('table', 'loaded results changed by asking for a table: ' + d)

    def _data(self, case, v, spec, res, calc, L, busy):
        """the saved definition is the one that was calculated"""
        data = L.all_data
        sv = SysView(spec)
        agg = case['kind'] == 'agg' and case['opt']['fix_all']
        n = len(spec['time']['t'])

        def check(what, want, got, default=None):
            if want is None:
                return
            if agg and is_ts(want):
                return
            if got is None:
                got = default
            if isinstance(want, dict):
                if not isinstance(got, dict):
                    v.bad('saved data', f'{what}: {got} instead of {want}')
                    return
                for k, x in want.items():
                    check(f'{what}[{k}]', x, got.get(k), 'missing')
                return
            if isinstance(got, dict) and not isinstance(want, dict):
                std = sv.standard
                got = got.get(std, got.get('null', 'missing'))
            a = np.asarray(want, float)
            try:
                b = np.asarray(got, float)
            except (TypeError, ValueError):
                v.bad('saved data', f'{what}: {got!r} instead of {want!r}')
                return
            v.count('saved_data')
            try:
                ok = bool(np.all(a == b)) and (a.ndim == b.ndim or b.size == 1 or a.size == 1)
            except ValueError:
                ok = False
            if not ok or (b.ndim and b.size not in (1, n, n + 1)):
                v.bad('saved data', f'{what}: {got!r} instead of {want!r}')

        for c in sv.comps:
            d = data['Components'].get(c.label)
            if d is None:
                return v.bad('saved data', f'component {c.label} missing')
            if c.c.get('meta') and differ(c.c['meta'], d.get('meta_data')):
                return v.bad('saved data', f'{c.label}: meta data {d.get("meta_data")} instead of {c.c["meta"]}')
            flows = {f['label']: f for f in list(d['inputs']) + list(d['outputs'])}
            for f in c.flows:
                g = flows.get(f.label)
                if g is None:
                    return v.bad('saved data', f'{c.label}/{f.label} missing')
                w = f'{c.label}/{f.label} '
                if f.invest is None:
                    check(w + 'size', f.fl.get('size'), g.get('size'))
                check(w + 'profile', f.fl.get('profile'), g.get('fixed_relative_profile'))
                check(w + 'relative_minimum', f.fl.get('rmin'), g.get('relative_minimum'), 0)
                check(w + 'relative_maximum', f.fl.get('rmax'), g.get('relative_maximum'), 1)
                e = f.fl.get('eff')
                if isinstance(e, dict):
                    e = {k or 'null': x for k, x in e.items()}
                check(w + 'effects_per_flow_hour', e, g.get('effects_per_flow_hour'))
                check(w + 'previous_flow_rate', f.fl.get('prev') if not is_ts(f.fl.get('prev')) else None, g.get('previous_flow_rate'), 0)
                if v.status == 'violation':
                    return
        for b, info in spec['buses'].items():
            d = data['Buses'].get(b)
            if d is None:
                return v.bad('saved data', f'bus {b} missing')
            check(f'bus {b} penalty', info.get('penalty'), d.get('excess_penalty_per_flow_hour'), 1e5)
        if not set(e['label'] for e in spec['effects']) <= set(data['Effects']):
            return v.bad('saved data', f'effects {list(data["Effects"])}')

    def _infos(self, case, v, spec, res, calc, L, busy):
        infos = L.calculation_infos
        if infos['Calculation']['Name'] != case['name'] or infos['Calculation']['Calculation Type'] != type(calc).__name__:
            return v.bad('saved infos', f'{infos["Calculation"]}')
        sv = SysView(spec)
        nodes, edges = infos['Network']['Nodes'], infos['Network']['Edges']
        want = {c.label: 'Component' for c in sv.comps}
        want.update({b: 'Bus' for b in spec['buses']})
        v.count('saved_infos', nontrivial=1 if busy else 0)
        if {k: x['class'] for k, x in nodes.items()} != want:
            return v.bad('network', f'nodes { {k: x["class"] for k, x in nodes.items()} }')
        have = sorted((x['start'], x['end'], x['label']) for x in edges.values())
        links = sorted((f.bus, c.label, f.label) if f.is_input else (c.label, f.bus, f.label) for c in sv.comps for f in c.flows)
        if have != links:
            return v.bad('network', f'edges {have} instead of {links}')
        if case['kind'] == 'seg':
            return
        main = infos['Model']['Main Results']
        if main['Objective'] != res['Objective']:
            return v.bad('main results', f'objective {main["Objective"]} instead of {res["Objective"]}')
        if abs(main['penalty'] - res['Effects']['penalty']['penalty_sum']) > 1e-9:
            return v.bad('main results', f'penalty {main["penalty"]} instead of {res["Effects"]["penalty"]["penalty_sum"]}')
        for e in spec['effects']:
            d = main['Effects'][f'{e["label"]} [{e.get("unit", "u")}]']
            r = res['Effects'][e['label']]
            for k, x in (('operation', r['operation']['operation_sum']), ('invest', r['invest']['invest_sum']), ('sum', r['all']['all_sum'])):
                if d[k] != float(x):
                    return v.bad('main results', f'{e["label"]} {k}: {d[k]} instead of {x}')
        sizes = {}
        for c in sv.comps:
            for f in c.flows:
                if f.invest is not None:
                    sizes[f'{c.label}__{f.label}'] = float(np.asarray(res['Components'][c.label][f.label]['Investment']['size']))
            if isinstance(c.c.get('capacity'), dict):
                sizes[c.label] = float(np.asarray(res['Components'][c.label]['Investment']['size']))
        got = {**main['Invest-Decisions']['invested'], **main['Invest-Decisions']['not invested']}
        if got != sizes:
            return v.bad('main results', f'sizes {got} instead of {sizes}')
        wrong = [k for k, x in main['Invest-Decisions']['invested'].items() if x <= 1e-3] + [k for k, x in main['Invest-Decisions']['not invested'].items() if x > 1e-3]
        if wrong:
            return v.bad('main results', f'{wrong} listed on the wrong side')
        for b in spec['buses']:
            d = res['Buses'].get(b, {})
            ex = max([float(np.sum(d[k])) for k in ('excess_input', 'excess_output') if k in d] or [0])
            if (ex > 2e-3 and b not in main['buses with excess']) or (ex < 5e-4 and b in main['buses with excess']):
                return v.bad('main results', f'buses with excess {main["buses with excess"]}, but {b} has {ex}')


def _paths(d, path=()):
    for k, x in d.items():
        if isinstance(x, dict):
            yield from _paths(x, path + (k,))
        else:
            yield path + (k,), x


def _leaves(res):
    out = []
    for p, x in _paths(res):
        if x is None or p[0] == 'Time':
            continue
        try:
            np.asarray(x, float)
        except (TypeError, ValueError):
            continue
        out.append(x)
    return out


PROPS = [Files()]

"""What a calculation and a system say about themselves."""

import ast
import contextlib
import json
import logging
import math
import os
import re
import statistics
import traceback

import numpy as np

from .. import run
from ..gen import Gen
from ..oracle import Verdict
from ..specs import slice_spec
from ..view import SysView, is_ts, spec_dt
from .base import Prop
from .systems import CONV

NUM = r'(-?(?:\d[\d_]*\.?\d*(?:e[-+]?\d+)?|nan|inf))'


@contextlib.contextmanager
def recorded():
    """every message of flixOpt from level INFO on: [(level, text)]"""
    out = []

    class Keep(logging.Handler):
        def emit(self, r):
            out.append((r.levelno, r.getMessage()))

    lg = logging.getLogger('flixOpt')
    saved = lg.handlers[:], lg.level, lg.propagate, logging.root.manager.disable
    lg.handlers[:], lg.propagate = [Keep()], False
    lg.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        yield out
    finally:
        lg.handlers[:], lg.propagate = saved[0], saved[2]
        lg.setLevel(saved[1])
        logging.disable(saved[3])


def leaves(x):
    if isinstance(x, str):
        return [x]
    return [z for y in (x.values() if isinstance(x, dict) else x) for z in leaves(y)]


def blocks(records):
    """the messages of every summary"""
    out, cur = [], None
    for lv, text in records:
        if 'End of Main Results' in text:
            if cur is not None:
                out.append(cur)
            cur = None
        elif 'Main Results' in text:
            cur = []
        elif cur is not None:
            cur.append((lv, text))
    return out


def says(text, x):
    """text is x with two decimals"""
    try:
        y = float(text)
    except (TypeError, ValueError):
        return False
    return abs(y - x) <= 0.0051 + 1e-12 * abs(x)


def compact_ok(want, got):
    """got is the short form of want: exact numbers, arrays of up to 50 values with two decimals, longer ones described"""
    if isinstance(want, dict):
        return isinstance(got, dict) and set(want) == set(got) and all(compact_ok(want[k], got[k]) for k in want)
    if not is_ts(want):
        if isinstance(want, bool) or want is None or isinstance(want, str):
            return got == want
        if isinstance(got, list):     # a constant array, or one that became one
            return all(isinstance(y, (int, float)) and abs(y - want) <= 0.00501 for y in got)
        if isinstance(got, str):
            return compact_ok([want] * 51, re.sub(r'len=\d+', 'len=51', got))
        return isinstance(got, (int, float)) and got == want
    x = [float(y) for y in want]
    if len(set(x)) == 1 and isinstance(got, (int, float)):
        return got == x[0]
    if len(x) <= 50:
        return isinstance(got, list) and len(got) == len(x) and all(abs(a - b) <= 0.00501 and abs(b * 100 - round(b * 100)) < 1e-6 for a, b in zip(x, got))
    if not isinstance(got, str):
        return False
    nums = {k: re.search(rf'\b{k}\s*=\s*{NUM}', got) for k in ('min', 'max', 'mean', 'median', 'std', 'len', 'center')}
    if not all(nums.values()):
        return False
    nums = {k: float(m.group(1)) for k, m in nums.items()}
    s = math.fsum(x)
    want = {'min': min(x), 'max': max(x), 'mean': s / len(x), 'median': statistics.median(x), 'std': statistics.pstdev(x)}
    if any(abs(nums[k] - y) > 0.00501 for k, y in want.items()) or nums['len'] != len(x):
        return False
    if abs(s) < 1e-6:
        return True
    centre = math.fsum(y * i / (len(x) - 1) for i, y in enumerate(x)) / s
    return abs(nums['center'] - centre) <= 0.00501 + 1e-9 * abs(centre)


class Reports(Prop):
    id = 'C25'
    technique = ('runtime monitoring: every log message recorded, every described variable and equation and every short description parsed and evaluated against the returned results and the '
                 'definition (offline checkers over recorded output), on generated calculations and histories of calculations')
    level_note = 'Only generated systems and histories; a text that cannot be parsed is counted as a violation in summaries and as not understood inside equations.'
    quick, thorough = 700, 7000
    deciding = ('summary', 'main_results', 'described_variables', 'described_constraints', 'calculation_infos', 'compact', 'text')
    rule = ('random systems calculated as a whole, on chosen steps, in segments, with typical periods, twice or beside another calculation of the same system, while '
            'every message is recorded: the printed summary, the main results and the described variables and equations are evaluated with the returned results; '
            'the short descriptions of long and short systems are compared with what was defined; non-trivial: the compared number is not 0')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        kind = rng.choice(['full', 'full', 'full', 'seg', 'agg', 'describe', 'describe'])
        over = dict(kinds=dict(CONV, Storage=3, Transmission=1, SourceAndSink=1), strict=0.12, comps=(1, 3), flow_onoff=0.25, comp_onoff=0.25, invest=0.35, st_invest=0.3,
                    uneven=0.4, unit_other=0.2, last=0.3, effects=(1, 3), zero_penalty=0.1, st_bounds_ts=0.2, sw_eff=0.4, n=(3, 8), segments=rng.choice([0, 0.3]),
                    inv_div=0.4, scale=rng.choice([0, 0, 1]))
        if kind in ('seg', 'agg'):
            over.update(invest=0, st_invest=0, tr_invest=0, n=(6, 11), strict=rng.choice([0, 0.3, 1]), st_final=0, long=0, scale=0)
        if kind == 'describe':
            over.update(n=rng.choice([(48, 53), (3, 60), (90, 130)]), rmin=0.6, form=rng.choice([0, 1.0]), constant_ts=0.2)
        per = m = None
        if kind == 'agg':
            per, m = rng.choice([(3, 2), (3, 3), (4, 2)])
            over.update(n=(per * m, per * m), uneven=0, last=0, form=0.0, st_bounds_ts=0, strict=0.2)
        spec = Gen(rng, **over).system()
        n = len(spec['time']['t'])
        case = {'spec': spec, 'kind': kind, 'order': rng.randrange(10**6), 'name': rng.choice(['calc', 'Rechnung 1', 'größe', 'a.b']), 'idx': None,
                'again': rng.random() < 0.2, 'beside': rng.choice(['', '', '', 'model', 'solve', 'before'])}
        if kind in ('full', 'describe') and rng.random() < 0.3 and n > 3:
            lo = rng.randint(0, n - 2)
            case['idx'] = [lo, rng.randint(lo + 2, n)]
        if kind == 'seg':
            seg = rng.randint(3, max(3, n // 2))
            ov = rng.choice([0, 0, 1, 2])
            if seg + ov > n or n % seg == 1:
                seg, ov = next((k for k in (3, 4, 5, n) if n % k != 1)), 0
            case.update(seg=seg, overlap=ov)
        if kind == 'agg':
            case['opt'] = {'k': rng.randint(1, m), 'per': per}
        return case

    def check(self, case):
        v = Verdict()
        if case['kind'] == 'describe':
            return self._describe(case, v)
        return self._calculate(case, v)

    # -------------------------------------------------------------- calculations
    def _calculate(self, case, v):
        import flixOpt as fx

        from ..build import build

        spec = case['spec']
        try:
            with run.silent(), recorded() as rec:
                b = build(spec, order_seed=case['order'])
                if case['beside'] == 'before':
                    self._other(case, b, True)
                    del rec[:]
                if case['kind'] == 'seg':
                    calc = fx.SegmentedCalculation(case['name'], b.system, case['seg'], case['overlap'])
                    calc.do_modeling_and_solve(run.solver(), save_results=False)
                    parts = list(calc.sub_calculations)
                else:
                    if case['kind'] == 'full':
                        calc = fx.FullCalculation(case['name'], b.system, time_indices=range(*case['idx']) if case['idx'] else None)
                    else:
                        par = fx.AggregationParameters(
                            hours_per_period=case['opt']['per'] * spec_dt(spec)[0], nr_of_periods=case['opt']['k'], fix_storage_flows=False,
                            aggregate_data_and_fix_non_binary_vars=True, percentage_of_period_freedom=0, penalty_of_period_freedom=0)
                        calc = fx.AggregatedCalculation(case['name'], b.system, par)
                    calc.do_modeling()
                    calc.solve(run.solver())
                    if case['again']:
                        del rec[:]
                        calc.solve(run.solver())
                    parts = [calc]
                found = blocks(rec)
                results = [p.results() for p in parts]
                if case['beside'] in ('model', 'solve'):
                    self._other(case, b, case['beside'] == 'solve')
        except Exception as e:
            if 'feasible solution' in str(e):
                return v.say('void', 'no solution')
            return v.say('void', f'raised {type(e).__name__}', traceback.format_exc()[-600:])
        v.tag('kind ' + case['kind'])
        if case['beside']:
            v.tag('beside ' + case['beside'])
        part = slice_spec(spec, range(*case['idx'])) if case['idx'] else spec
        if len(found) != len(parts):
            return v.bad('summary', f'{len(found)} summaries of {len(parts)} calculations')
        for k, (p, res, block) in enumerate(zip(parts, results, found)):
            for f in (self._summary, self._main, self._variables, self._constraints):
                try:
                    with run.silent():
                        f(case, v, part, res, p, block)
                except Exception:
                    return v.bad(f'{f.__name__[1:]} raised', traceback.format_exc()[-1800:])
                if v.status == 'violation':
                    return v
        self._infos(case, v, calc, len(part['time']['t']))
        return v

    def _other(self, case, b, solve):
        """another calculation of the same system"""
        import flixOpt as fx

        n = len(case['spec']['time']['t'])
        other = fx.FullCalculation('other', b.system, time_indices=range(0, max(2, n - 1)))
        other.do_modeling()
        if solve:
            try:
                other.solve(run.solver())
            except Exception:
                pass

    def _facts(self, spec, res):
        sv = SysView(spec)
        eff = {}
        for e in spec['effects']:
            r = res['Effects'][e['label']]
            eff[f'{e["label"]} [{e.get("unit", "u")}]'] = [float(r['operation']['operation_sum']), float(r['invest']['invest_sum']), float(r['all']['all_sum'])]
        sizes = {}
        for c in sv.comps:
            for f in c.flows:
                if f.invest is not None:
                    sizes[f'{c.label}__{f.label}'] = float(np.asarray(res['Components'][c.label][f.label]['Investment']['size']))
            if isinstance(c.c.get('capacity'), dict):
                sizes[c.label] = float(np.asarray(res['Components'][c.label]['Investment']['size']))
        over = {}
        for b in spec['buses']:
            d = res['Buses'].get(b, {})
            over[b] = max([float(np.sum(d[k])) for k in ('excess_input', 'excess_output') if k in d] or [0])
        return eff, sizes, over, float(res['Effects']['penalty']['penalty_sum']), float(res['Objective'])

    # -------------------------------------------------------------- monitors
    def _summary(self, case, v, spec, res, p, block):
        eff, sizes, over, penalty, objective = self._facts(spec, res)
        texts = [t for _, t in block]
        v.count('summary', len(eff) * 3 + 2 + len(sizes), sum(1 for x in eff.values() for y in x if y) + sum(1 for y in sizes.values() if y) + bool(penalty) + bool(objective))
        for label, xs in eff.items():
            t = [x for x in texts if x.lstrip().startswith(label + ':')]
            if len(t) != 1:
                return v.bad('summary', f'{len(t)} entries of {label}: {texts}')
            for name, x in zip(('operation', 'invest', 'sum'), xs):
                m = re.search(rf'^\s*{name}\s*:\s*{NUM}\s*$', t[0], re.M)
                if m is None or not says(m.group(1), x):
                    return v.bad('summary', f'{label} {name} is {x}: {t[0]!r}')
        text = '\n'.join(texts)
        for name, x in (('Penalty', penalty), ('Objective', objective)):
            m = re.findall(rf'^\s*{name}\s*:\s*{NUM}\s*$', text, re.M)
            if len(m) != 1 or not says(m[0], x):
                return v.bad('summary', f'{name} is {x}: {m}')
        k = next((i for i, x in enumerate(texts) if x.startswith('Investment Decisions')), None)
        if k is None:
            return v.bad('summary', f'no sizes: {texts}')
        got = {}
        for line in texts[k + 1].split('\n') if len(texts) > k + 1 else []:
            if ':' in line:
                name, x = line.rsplit(':', 1)
                got[name.strip()] = x.strip()
        if set(got) != set(sizes) or any(not says(got[s], x) for s, x in sizes.items()):
            return v.bad('summary', f'sizes {sizes}: {got}')
        warned = [t for lv, t in block if lv >= logging.WARNING]
        named = [m.group(1) for t in warned for m in [re.search(r'Bus "(.*)"', t)] if m]
        for b, x in over.items():
            v.count('summary', nontrivial=1 if x > 2e-3 else 0)
            if (x > 2e-3 and named.count(b) != 1) or (x < 5e-4 and b in named):
                return v.bad('summary', f'excess of {b} is {x}, warnings {warned}')
        total = any('total penalty' in t for t in warned)
        if (penalty > 10 + 1e-6) != total and abs(penalty - 10) > 1e-6:
            return v.bad('summary', f'penalty {penalty}, warnings {warned}')

    def _main(self, case, v, spec, res, p, block):
        eff, sizes, over, penalty, objective = self._facts(spec, res)
        main = p.system_model.main_results
        v.count('main_results', len(eff) * 3 + 2 + len(sizes), sum(1 for x in eff.values() for y in x if y) + sum(1 for y in sizes.values() if y) + bool(penalty) + bool(objective))
        got = {k: [d['operation'], d['invest'], d['sum']] for k, d in main['Effects'].items()}
        if got != eff:
            return v.bad('main results', f'effects {got} instead of {eff}')
        if main['penalty'] != penalty or main['Objective'] != objective:
            return v.bad('main results', f'penalty {main["penalty"]}, objective {main["Objective"]} instead of {penalty}, {objective}')
        low = main['lower bound']
        if low is not None and math.isfinite(low) and not case['again']:
            tol = 1e-6 * max(1.0, abs(objective))
            if low > objective + tol or low < objective - 1e-3 * max(1.0, abs(objective)):
                return v.bad('main results', f'lower bound {low} of {objective}')
        done, not_done = main['Invest-Decisions']['invested'], main['Invest-Decisions']['not invested']
        if {**done, **not_done} != sizes or set(done) & set(not_done):
            return v.bad('main results', f'sizes {done} and {not_done} instead of {sizes}')
        wrong = [k for k, x in done.items() if x <= 1e-3] + [k for k, x in not_done.items() if x > 1e-3]
        if wrong:
            return v.bad('main results', f'{wrong} listed on the wrong side')
        for b, x in over.items():
            if (x > 2e-3 and b not in main['buses with excess']) or (x < 5e-4 and b in main['buses with excess']):
                return v.bad('main results', f'buses with excess {main["buses with excess"]}, but {b} has {x}')

    def _variables(self, case, v, spec, res, p, block):
        sm = p.system_model
        lines, flat = leaves(sm.description_of_variables()), leaves(sm.description_of_variables(False))
        if sorted(lines) != sorted(flat):
            return v.bad('described variables', f'only in one description: {sorted(set(lines) ^ set(flat))[:4]}')
        known = {x.label: x for x in sm.variables}
        seen = set()
        for line in lines:
            m = re.match(r'Var\s+(bin)?\s*x\s*(\d+)\s+"(.*?)"\s*: (.*)$', line, re.S)
            if m is None or m.group(3) not in known:
                return v.bad('described variables', f'{line!r}')
            x = known[m.group(3)]
            seen.add(x.label)
            val = np.atleast_1d(np.asarray(x.result, float))
            v.count('described_variables', nontrivial=1 if np.any(val != 0) else 0)
            if int(m.group(2)) != val.size:
                return v.bad('described variables', f'{line!r}, the result has {val.size} values')
            val = val[np.isfinite(val)]     # what occurs nowhere has no value
            if m.group(1) and np.any((np.abs(val) > 1e-5) & (np.abs(val - 1) > 1e-5)):
                return v.bad('described variables', f'{line!r}: {val}')
            for name, sign in (('min', 1), ('max', -1), ('fixed', 0)):
                k = re.search(rf'\b{name}={NUM}\s*(?:,|$)', m.group(4))
                if k is None:
                    continue
                b = float(k.group(1))
                d = val - b
                tol = 1e-5 * max(1.0, abs(b) if math.isfinite(b) else 1.0)
                if np.any(d * sign < -tol) or (sign == 0 and np.any(np.abs(d) > tol)):
                    return v.bad('described variables', f'{line!r}: {val}')
        if len(lines) != len(known) or seen != set(known):
            return v.bad('described variables', f'{len(lines)} of {len(known)}: {sorted(set(known) - seen)[:4]}')
        comps = sm.description_of_variables()['Components']
        if set(comps) != {c['label'] for c in spec['comps']}:
            return v.bad('described variables', f'components {sorted(comps)}')

    def _constraints(self, case, v, spec, res, p, block):
        sm = p.system_model
        lines, flat = leaves(sm.description_of_constraints()), leaves(sm.description_of_constraints(False))
        if sorted(lines) != sorted(flat):
            return v.bad('described constraints', f'only in one description: {sorted(set(lines) ^ set(flat))[:4]}')
        if len(lines) != len(sm.equations) + len(sm.inequations) + 1:
            return v.bad('described constraints', f'{len(lines)} of {len(sm.equations) + len(sm.inequations)} and the objective')
        vals = {x.label: np.atleast_1d(np.asarray(x.result, float)) for x in sm.variables}
        more = []
        for c in list(sm.equations) + list(sm.inequations):     # every other step
            if c.length > 1:
                more += [c.description(i) for i in range(1, c.length)]
        for line in lines + more:
            if '∑' in line or 'Dummy' in line:
                continue
            m = re.match(r'(?:EQ|INEQ|OBJ)\s.*?: +(\S+) (=|>=|<=) (.*)$', line, re.S)
            if m is None:
                return v.bad('described constraints', f'{line!r}')
            try:
                const = float(m.group(1))
            except ValueError:
                return v.bad('described constraints', f'{line!r}')
            terms = []
            for t in m.group(3).split(' + '):
                k = re.match(r'\s*(\S+) \* (.+)\[(\d+)\]$', t, re.S)
                if k is None or k.group(2) not in vals or int(k.group(3)) >= len(vals[k.group(2)]):
                    terms = None
                    break
                terms.append(float(k.group(1)) * vals[k.group(2)][int(k.group(3))])
            if not terms:
                if m.group(3).strip():
                    v.tag('line not understood')
                continue
            if not all(map(math.isfinite, terms)):
                continue
            lhs = math.fsum(terms)
            tol = 2e-5 * math.fsum(map(abs, terms)) + 2e-5 * max(1.0, abs(const))
            v.count('described_constraints', nontrivial=1 if any(terms) else 0)
            d = const - lhs
            if line.startswith('OBJ'):
                if abs(lhs - float(res['Objective'])) > tol:
                    return v.bad('described constraints', f'{line!r}: the results give {lhs}, not {res["Objective"]}')
                continue
            if (m.group(2) == '=' and abs(d) > tol) or (m.group(2) == '>=' and d < -tol) or (m.group(2) == '<=' and d > tol):
                return v.bad('described constraints', f'{line!r}: the results give {lhs}')

    def _infos(self, case, v, calc, n):
        infos = calc.infos
        v.count('calculation_infos', 3)
        want = {'Name': case['name'], 'Number of indices': n if case['idx'] else 'all', 'Calculation Type': type(calc).__name__}
        got = {k: infos.get(k) for k in want}
        if got != want and not (got == {**want, 'Number of indices': n}):
            return v.bad('calculation infos', f'{got} instead of {want}')
        if any(x < 0 or not math.isfinite(x) for x in infos['Durations'].values()):
            return v.bad('calculation infos', f'{infos["Durations"]}')

    # -------------------------------------------------------------- short descriptions
    def _describe(self, case, v):
        import flixOpt as fx

        from ..build import build

        spec = case['spec']
        part = spec
        path = os.path.join(os.getcwd(), 'short.json')

        def short(x):
            x.to_json(path)
            with open(path, encoding='utf-8') as f:
                a = json.load(f)
            text = str(x).replace('│', ' ')
            try:
                b = ast.literal_eval(text.strip())
            except (ValueError, SyntaxError):
                b = None
            if b is not None and json.loads(json.dumps(b)) != a:
                v.bad('text', f'{text[:300]!r} is not {str(a)[:300]}')
            v.count('text' if b is not None else 'text_unreadable', nontrivial=1)
            return a

        try:
            with run.silent():
                b = build(spec, order_seed=case['order'])
                b.system.transform_data()
                if case['idx']:
                    calc = fx.FullCalculation('part', b.system, time_indices=range(*case['idx']))
                    calc.do_modeling()
                    part = slice_spec(spec, range(*case['idx']))
        except Exception as e:
            return v.say('void', f'raised {type(e).__name__}', traceback.format_exc()[-600:])
        n = len(part['time']['t'])
        v.tag('long' if n > 50 else 'short')
        try:
            with run.silent():
                whole = short(b.system)
                flows = {k: short(f) for k, f in b.flows.items()}
                comps = {k: short(c) for k, c in b.comps.items()}
                buses = {k: short(x) for k, x in b.buses.items()}
                effects = {k: short(x) for k, x in b.effects.items()}
        except Exception:
            return v.bad('description raised', traceback.format_exc()[-1500:])
        if v.status == 'violation':
            return v
        if whole['Components'] != comps or set(whole['Buses']) != set(spec['buses']) or whole['Effects'] != effects or whole['Buses'] != buses:
            return v.bad('compact', 'the description of the system is not that of its parts')
        sv = SysView(part)
        std = sv.standard

        def look(what, d, name, want, default=None):
            if want is None:
                if name in d and d[name] is not None:
                    return v.bad('compact', f'{what}: {name} was not given, {d[name]!r}')
                return None
            v.count('compact', nontrivial=1 if is_ts(want) else 0)
            got = d.get(name, default)
            if isinstance(got, dict) and not isinstance(want, dict):
                got = got.get(std, got.get('null', 'missing'))
            elif isinstance(want, dict) and isinstance(got, dict):
                got = {('' if k == 'null' else k): x for k, x in got.items()}
            if not compact_ok(want, got):
                return v.bad('compact', f'{what} {name}: {want!r} is described as {got!r}')

        for c in sv.comps:
            d = comps[c.label]
            for f in c.flows:
                w = f'{c.label}/{f.label}'
                g = flows[(c.label, f.label)]
                if g.get('label') != f.label or g.get('bus') != f.bus:
                    return v.bad('compact', f'{w}: {g.get("label")} at {g.get("bus")}')
                fl = f.fl
                for name, key, default in (('fixed_relative_profile', 'profile', None), ('relative_minimum', 'rmin', 0), ('relative_maximum', 'rmax', 1), ('effects_per_flow_hour', 'eff', None),
                                           ('flow_hours_total_max', 'fh_max', None), ('flow_hours_total_min', 'fh_min', None), ('load_factor_max', 'lf_max', None),
                                           ('load_factor_min', 'lf_min', None)):
                    want = fl.get(key)
                    if default is not None and want is None:
                        continue
                    if key == 'eff' and isinstance(want, dict):
                        want = {k: x for k, x in want.items()}
                        if '' in want or None in want:
                            continue     # given for the standard effect under another name
                    look(w, g, name, want, default)
                if f.invest is None and fl.get('size') is not None:
                    look(w, g, 'size', fl['size'], 1e9)
                for key, name, k2 in (('onoff', 'on_off_parameters', None), ('size', 'size', 'invest')):
                    q = fl.get(key)
                    q = q.get(k2) if k2 and isinstance(q, dict) else q if not k2 else None
                    if q and isinstance(g.get(name), dict):
                        self._params(v, look, f'{w} {name}', g[name], q, key)
                if v.status == 'violation':
                    return v
            names = {x if isinstance(x, str) else x.get('label') for k in ('inputs', 'outputs') for x in d.get(k) or []}
            if c.c['kind'] == 'LinearConverter' and names != {f.label for f in c.flows}:
                return v.bad('compact', f'{c.label}: flows {names}')
            if c.c['kind'] == 'Storage':
                for name, key in (('relative_minimum_charge_state', 'rmin'), ('relative_maximum_charge_state', 'rmax'), ('eta_charge', 'eta_c'), ('eta_discharge', 'eta_d'), ('relative_loss_per_hour', 'loss')):
                    if c.c.get(key) is not None and not (case['idx'] and key in ('rmin', 'rmax')):
                        look(c.label, d, name, c.c[key], {'rmin': 0, 'loss': 0}.get(key, 1))
            if c.c['kind'] == 'Transmission':
                for name, key in (('relative_losses', 'rel'), ('absolute_losses', 'abs')):
                    if c.c.get(key) is not None and d.get(name) is not None:
                        look(c.label, d, name, c.c[key], 0)
            if c.c.get('onoff') and isinstance(d.get('on_off_parameters'), dict):
                self._params(v, look, c.label, d['on_off_parameters'], c.c['onoff'], 'onoff')
            if v.status == 'violation':
                return v
        for e in part['effects']:
            d = effects[e['label']]
            if d.get('label') != e['label'] or d.get('unit') != e.get('unit', 'u'):
                return v.bad('compact', f'effect {d}')
            for name, key in (('minimum_operation', 'min_op'), ('maximum_operation', 'max_op'), ('minimum_invest', 'min_inv'), ('maximum_invest', 'max_inv'), ('minimum_total', 'min_total'),
                              ('maximum_total', 'max_total'), ('minimum_operation_per_hour', 'min_ph'), ('maximum_operation_per_hour', 'max_ph'),
                              ('specific_share_to_other_effects_operation', 'share_op'), ('specific_share_to_other_effects_invest', 'share_inv')):
                look(e['label'], d, name, e.get(key) or (None if key.startswith('share') else e.get(key)))
            if v.status == 'violation':
                return v
        for k, info in part['buses'].items():
            if info.get('penalty') is not None:
                look(k, buses[k], 'excess_penalty_per_flow_hour', info['penalty'], 1e5)
            if v.status == 'violation':
                return v
        return v

    def _params(self, v, look, w, d, q, key):
        names = {'onoff': (('on_hours_total_min', 'onh_min'), ('on_hours_total_max', 'onh_max'), ('consecutive_on_hours_min', 'on_min'), ('consecutive_on_hours_max', 'on_max'),
                           ('consecutive_off_hours_min', 'off_min'), ('consecutive_off_hours_max', 'off_max'), ('switch_on_total_max', 'sw_max')),
                 'size': (('fixed_size', 'fixed'), ('minimum_size', 'min'), ('maximum_size', 'max'))}[key]
        for name, k in names:
            if q.get(k) is not None and (d.get(name) is not None or key == 'onoff'):
                look(w, d, name, q[k])


PROPS = [Reports()]

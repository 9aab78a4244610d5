"""The modelling layer: models stated directly, and the sizes it reports."""

import math
import os
import traceback

import numpy as np

from .. import run
from ..gen import Gen
from ..oracle import CONFIGS, REL_BAD, REL_OK, Verdict, configured, rel
from ..ref import Milp, Lin
from .base import Prop
from .systems import CONV

INF = math.inf


def spread(x, n):
    """what a scalar, None or sequence means for n places"""
    if x is None or not isinstance(x, list):
        return [x] * n
    return list(x)


def terms(model, s, i):
    """one summand in the i-th equation -> [(variable, index, factor)], from the meaning of the statement"""
    n = model['vars'][s['var']]['n']
    idx = s['idx'] if s['idx'] is not None else list(range(n))
    f = s['factor']
    if s['sum']:
        return [(s['var'], j, f[k] if isinstance(f, list) else f) for k, j in enumerate(idx)]
    j = idx[0] if len(idx) == 1 else idx[i]
    k = (f[0] if len(f) == 1 else f[i]) if isinstance(f, list) else f
    return [(s['var'], j, k)]


def constant(c, i):
    return sum((p[0] if len(p) == 1 else p[i]) if isinstance(p, list) else p for p in c['const'])


class Model(Prop):
    id = 'C21'
    quick, thorough = 5000, 60000
    deciding = ('stated_optimum', 'stated_constraints', 'read_back', 'sizes', 'received')
    rule = ('random models stated through the modelling layer (scalar and vector variables, binaries, bounds, fixed values, sums over all or some indices, factors and constants as numbers or '
            'vectors, equations and inequalities, feasible or not, bounded or not), and the sizes reported for random energy systems; compared with an own statement of the same model, '
            'and with what arrives at the solver; non-trivial: the model has an optimum or is rejected although it has variables and constraints')
    assumptions = ['HiGHS solves the models to optimality; disagreements are re-solved under three other solver configurations before they count']

    # ------------------------------------------------------------ generation
    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        if i % 8 == 7:
            g = Gen(rng, kinds=dict(CONV, Storage=3, Transmission=1, SourceAndSink=1), strict=0.1, comps=(1, 3), invest=0.3, comp_onoff=0.3, flow_onoff=0.3, effects=(1, 3), segments=0.2,
                    n=(3, 7), long=0)
            return {'kind': 'system', 'spec': g.system(), 'order': rng.randrange(10**6)}
        if i % 16 == 3:
            return {'kind': 'misfit', 'what': rng.choice(['summand', 'summand first', 'factor', 'constant', 'constant first', 'index', 'fixed low', 'fixed high', 'fixed vector', 'objective',
                                                          'no variable', 'bounds', 'part']),
                    'seed': rng.randrange(10**6), 'order': 0}
        if i % 16 == 11:
            return {'kind': 'options', 'gap': rng.choice([0, 1e-4, 0.01, 0.2]), 'limit': rng.choice([5, 17, 60, 300]), 'threads': rng.choice([None, 1, 2, 3])}
        L = rng.choice([2, 3, 4, 5])
        vs = []
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([1, 1, L, L, L, rng.randint(2, 6)])
            binary = rng.random() < 0.3
            v = {'n': n, 'binary': binary, 'lb': None, 'ub': None, 'fix': None, 'x0': None, 'ts': n > 1 and rng.random() < 0.5, 'short': rng.random() < 0.2}

            def per(f, p=0.35):
                return [f() for _ in range(n)] if rng.random() < p and n > 1 else f()

            if binary:
                v['x0'] = [rng.choice([0, 1]) for _ in range(n)]
                if rng.random() < 0.15:
                    v['fix'] = list(v['x0']) if n > 1 else v['x0'][0]
                elif rng.random() < 0.1:
                    v['ub'] = per(lambda: 1)
                    v['lb'] = per(lambda: 0)
            else:
                lo = per(lambda: rng.choice([0, 0, -5, -2.5, 1, 3]))
                width = per(lambda: rng.choice([0, 1, 4, 7.5, 20]))
                lo_, w_ = spread(lo, n), spread(width, n)
                v['x0'] = [a + rng.choice([0, b, b / 2]) for a, b in zip(lo_, w_)]
                up = [a + b for a, b in zip(lo_, w_)]
                v['lb'], v['ub'] = lo, up if isinstance(lo, list) or isinstance(width, list) else up[0]
                r = rng.random()
                if r < 0.06:
                    v['ub'] = None
                elif r < 0.10:
                    v['lb'] = None
                elif r < 0.13:
                    v['ub'] = 'inf'
                elif r < 0.15:
                    v['lb'] = '-inf'
                elif r < 0.28:
                    v['fix'] = list(v['x0'])
                    if n == 1 or rng.random() < 0.3:
                        v['fix'] = v['x0'] = [v['x0'][0]] * n
                        v['fix'] = v['x0'][0]
                        if isinstance(v['lb'], list) or isinstance(v['ub'], list):
                            v['lb'] = v['ub'] = None
                    if rng.random() < 0.3:
                        v['lb'] = v['ub'] = None
            vs.append(v)
        model = {'vars': vs, 'cons': [], 'obj': []}
        num = lambda: rng.choice([1, 1, -1, 2, 0.5, -3, 7, 0.25, rng.uniform(-5, 5), 0 if rng.random() < 0.3 else 1])
        exact = rng.random() < 0.8
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            n = rng.choice([1, 1, L])
            c = {'eq': rng.random() < 0.45, 'sums': [], 'const': [], 'late': rng.random() < 0.2}
            for _ in range(rng.randint(1, 4)):
                c['sums'].append(self._summand(rng, vs, n, num))
            cn = max([1] + [self._len(model, s) for s in c['sums']])
            parts = rng.randint(0, 2)
            target = []
            for i_ in range(cn):
                lhs = sum(f * vs[v]['x0'][j] for s in c['sums'] for v, j, f in terms(model, s, i_))
                target.append(lhs if c['eq'] else lhs + rng.choice([0, 0, 1, 5]))
            if cn == 1 and rng.random() < 0.1:     # several equations of one scalar sum
                target = target * L if c['eq'] else [target[0] + rng.choice([0, 2]) for _ in range(L)]
                cn = L
            if not exact and rng.random() < 0.4:
                target = [t + rng.choice([-4, -1, 0, 3]) for t in target]
            for _ in range(parts):
                p = [rng.choice([1, -2, 0.5]) for _ in range(cn)] if rng.random() < 0.3 and cn > 1 else rng.choice([0, 1, -3.5])
                c['const'].append(p)
                target = [t - (p[i_] if isinstance(p, list) else p) for i_, t in enumerate(target)]
            if len(set(target)) == 1 and (cn == 1 or rng.random() < 0.7 and any(self._len(model, s) > 1 for s in c['sums'])):
                c['const'].insert(rng.randint(0, parts), target[0])
            else:
                c['const'].insert(rng.randint(0, parts), target if cn > 1 else target[0])
            model['cons'].append(c)
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            s = self._summand(rng, vs, 1, num)
            model['obj'].append(s)
        return {'kind': 'direct', 'model': model, 'order': rng.randrange(10**6), 'again': rng.random() < 0.1}

    def _len(self, model, s):
        if s['sum']:
            return 1
        n = model['vars'][s['var']]['n'] if s['idx'] is None else len(s['idx'])
        return max(n, len(s['factor']) if isinstance(s['factor'], list) else 1)

    def _summand(self, rng, vs, n, num):
        """a summand that fits an equation of length n (or of length 1)"""
        for _ in range(60):
            k = rng.randrange(len(vs))
            m = vs[k]['n']
            s = {'var': k, 'idx': None, 'factor': num(), 'sum': False, 'form': rng.choice(['list', 'array', 'range', 'int'])}
            mode = rng.choice(['full', 'part', 'sum', 'sum part'])
            if mode == 'full':
                if m not in (1, n):
                    continue
            elif mode == 'part':
                cnt = rng.choice([1, n])
                s['idx'] = self._subset(rng, m, cnt)
            elif mode == 'sum':
                s['sum'] = True
                if rng.random() < 0.4:
                    s['factor'] = [num() for _ in range(m)]
                return s
            else:
                s['sum'] = True
                s['idx'] = self._subset(rng, m, rng.randint(1, m + 1))
                if rng.random() < 0.4:
                    s['factor'] = [num() for _ in s['idx']]
                return s
            length = m if s['idx'] is None else len(s['idx'])
            if length == 1 and n > 1 and rng.random() < 0.4:
                s['factor'] = [num() for _ in range(n)]
            elif length > 1 and rng.random() < 0.4:
                s['factor'] = [num() for _ in range(length)]
            return s
        return {'var': 0, 'idx': [0], 'factor': 1.0, 'sum': False, 'form': 'list'}

    def _subset(self, rng, m, cnt):
        r = rng.random()
        if r < 0.4 and cnt <= m:
            a = rng.randint(0, m - cnt)
            return list(range(a, a + cnt))
        if r < 0.6 and cnt <= m:
            return sorted(rng.sample(range(m), cnt))
        return [rng.randrange(m) for _ in range(cnt)]

    # ------------------------------------------------------------ both statements
    def reference(self, model, presolve=False):
        p = Milp()
        cols = []
        for v in model['vars']:
            lo, up, fx = spread(v['lb'], v['n']), spread(v['ub'], v['n']), spread(v['fix'], v['n'])
            for j in range(v['n']):
                if fx[j] is not None:
                    lo[j] = up[j] = fx[j]
                lo[j] = (0 if v['binary'] else -INF) if lo[j] is None or lo[j] == '-inf' else lo[j]
                up[j] = (1 if v['binary'] else INF) if up[j] is None or up[j] == 'inf' else up[j]
            cols.append(p.var(v['n'], lo, up, integer=v['binary']))
        for c, n in zip(model['cons'], self.lengths(model)):
            for i in range(n):
                lin = Lin()
                for s in c['sums']:
                    for v, j, f in terms(model, s, i):
                        lin.add({cols[v][j]: float(f)})
                (p.eq if c['eq'] else p.le)(lin, float(constant(c, i)))
        for s in model['obj']:
            for v, j, f in terms(model, s, 0):
                p.obj.add({cols[v][j]: float(f)})
        return p.solve(presolve=presolve)

    def lengths(self, model):
        out = []
        for c in model['cons']:
            out.append(max([1] + [self._len(model, s) for s in c['sums']] + [len(p) for p in c['const'] if isinstance(p, list)]))
        return out

    def state(self, case):
        """the model through the code under test -> MathModel, variables"""
        import random

        from flixOpt import math_modeling as mm

        rng = random.Random(case['order'])
        model = case['model']

        def arr(x):
            if isinstance(x, list):
                return np.array(x, dtype=float) if rng.random() < 0.7 else list(x)
            if x in ('inf', '-inf'):
                return float(x) if rng.random() < 0.5 else np.inf if x == 'inf' else -np.inf
            if x is None:
                return None
            return x if rng.random() < 0.7 else np.float64(x)

        vs = []
        for k, v in enumerate(model['vars']):
            kw = {key: arr(v[src]) for key, src in (('lower_bound', 'lb'), ('upper_bound', 'ub'), ('fixed_value', 'fix')) if v[src] is not None}
            if v['short']:
                kw['label_short'] = 'v'
            vs.append((mm.VariableTS if v['ts'] else mm.Variable)(f'v{k}', v['n'], is_binary=v['binary'], **kw))
        late = []

        def add(eq, s):
            kw = {}
            if s['idx'] is not None:
                idx = s['idx']
                steady = all(b - a == 1 for a, b in zip(idx, idx[1:]))
                kw['indices_of_variable'] = (idx[0] if s['form'] == 'int' and len(idx) == 1 else range(idx[0], idx[-1] + 1) if s['form'] == 'range' and steady
                                             else np.array(idx) if s['form'] == 'array' else list(idx))
            if s['sum'] or rng.random() < 0.2:
                kw['as_sum'] = s['sum']
            eq.add_summand(vs[s['var']], arr(s['factor']), **kw)

        cons = []
        for k, c in enumerate(model['cons']):
            eq = (mm.Equation if c['eq'] else mm.Inequation)(f'c{k}')
            todo = [('s', s) for s in c['sums']] + [('c', p) for p in c['const']]
            if rng.random() < 0.5:
                rng.shuffle(todo)

            def fill(eq=eq, todo=todo):
                for what, x in todo:
                    if what == 's':
                        add(eq, x)
                    else:
                        eq.add_constant(arr(x))

            if c['late']:
                late.append(fill)
            else:
                fill()
            cons.append(eq)
        obj = mm.Equation('obj', is_objective=True)
        for s in model['obj']:
            add(obj, s)
        m = mm.MathModel('m')
        parts = vs + cons + [obj]
        if rng.random() < 0.5:
            rng.shuffle(parts)
        if rng.random() < 0.5:
            m.add(*parts)
        else:
            for p in parts:
                m.add(p)
        for f in late:
            f()
        return m, vs

    def check(self, case):
        v = Verdict()
        if case['kind'] != 'direct':
            return getattr(self, '_' + case['kind'])(case, v)
        model = case['model']
        best, why = None, None
        if not model['obj'] and not model['cons']:
            return v.say('void', 'nothing stated')
        st, obj, _ = self.reference(model)
        v.tag('reference ' + st)
        for q, cfg in enumerate(CONFIGS):
            with configured(cfg):
                if q:
                    st, obj2, _ = self.reference(model, presolve=cfg[0] == 'on')
                    obj = obj2 if st == 'optimal' else obj
                o = self._execute(case)
            if q == 0 and o['m'] is not None:
                self._sizes(case, v, o)
                if v.status == 'violation':
                    return v
            if o['status'] == 'ok':
                self._solution(case, v, o)
                if v.status == 'violation':
                    return v
                best = o['obj'] if best is None else min(best, o['obj'])
            elif o['stage'] == 'state':
                return v.bad(f'raised {type(o["exc"]).__name__}', o['tb'])
            if st == 'optimal' and best is not None and rel(best, obj) <= REL_OK or st in ('infeasible', 'unbounded', 'infeasible?') and best is None:
                busy = bool(model['cons']) and bool(model['vars'])
                v.count('stated_optimum', nontrivial=1 if busy else 0)
                return v
            why = o
        if st not in ('optimal', 'infeasible', 'unbounded', 'infeasible?'):
            return v.say('inconclusive', st)
        if best is None:
            return v.bad('no solution', f'the stated model has the optimum {obj}, but: {why["tb"][-900:]}')
        if st != 'optimal':
            return v.bad('solution', f'the stated model is {st}, but a solution of value {best} was returned')
        if rel(best, obj) < REL_BAD:
            return v.say('inconclusive', 'close', f'{best} {obj}')
        return v.bad('optimum', f'{best} instead of {obj}')

    def _execute(self, case):
        o = {'status': 'error', 'stage': 'state', 'm': None, 'exc': None, 'tb': ''}
        try:
            with run.silent():
                m, vs = self.state(case)
                o['m'] = m
                o['stage'] = 'translate'
                m.translate_to_modeling_language()
                o['stage'] = 'solve'
                with run.received() as rec:
                    m.solve(run.solver())
                    if case['again']:
                        m.solve(run.solver())
                o['received'] = rec
                o['vs'] = vs
                o['results'] = m.results()
                o['obj'] = float(m.result_of_objective)
                o['status'] = 'ok'
        except Exception as e:
            o['exc'], o['tb'] = e, traceback.format_exc()
        return o

    def _sizes(self, case, v, o):
        model, m = case['model'], o['m']
        ns = self.lengths(model)
        eqs = [n for c, n in zip(model['cons'], ns) if c['eq']]
        ineqs = [n for c, n in zip(model['cons'], ns) if not c['eq']]
        want = {'nr_of_variables': len(model['vars']), 'nr_of_single_variables': sum(x['n'] for x in model['vars']), 'nr_of_equations': len(eqs), 'nr_of_single_equations': sum(eqs),
                'nr_of_inequations': len(ineqs), 'nr_of_single_inequations': sum(ineqs), 'nr_of_constraints': len(ns)}
        got = {k: getattr(m, k) for k in want}
        v.count('sizes', len(want), len(want) if ns else 0)
        if got != want:
            return v.bad('sizes', f'{ {k: (got[k], want[k]) for k in want if got[k] != want[k]} } (reported, stated)')
        text = m.describe_size()
        if not all(str(x) in text for x in want.values() if x != len(ns)):
            return v.bad('sizes', text)
        if o['status'] == 'ok':
            s = m.infos['Model Size']
            if sorted(s.values()) != sorted([want[k] for k in want if k != 'nr_of_constraints'] + [sum(1 for x in model['vars'] if x['ts'])]):
                return v.bad('sizes', f'{s} instead of {want}')
            rows, cols = o['received'][-1]
            v.count('received', 1, 1 if ns else 0)
            if cols != want['nr_of_single_variables'] or rows > sum(ns):
                return v.bad('received', f'the solver received {cols} variables and {rows} constraints, stated are {want["nr_of_single_variables"]} and {sum(ns)}')
        return None

    def _solution(self, case, v, o):
        model = case['model']
        used = {(a, j) for c, n in zip(model['cons'], self.lengths(model)) for i in range(n) for s in c['sums'] for a, j, f in terms(model, s, i) if f}
        used |= {(a, j) for s in model['obj'] for a, j, f in terms(model, s, 0) if f}
        xs = []
        for k, (d, var) in enumerate(zip(model['vars'], o['vs'])):
            got = o['results'].get(f'v{k}', 'missing')
            shape_ok = np.ndim(got) == (0 if d['n'] == 1 else 1) and np.size(got) == d['n'] and not isinstance(got, str) and got is not None
            if not shape_ok or not np.array_equal(np.asarray(got, float), np.asarray(var.result, float), equal_nan=True):
                return v.bad('read back', f'v{k} of length {d["n"]}: {got!r} ({var.result!r})')
            x = np.atleast_1d(np.asarray(got, float))
            v.count('read_back', d['n'], int((x != 0).sum()))
            # the solver says nothing about what occurs nowhere
            x = np.array([y if np.isfinite(y) or (k, j) in used else d['x0'][j] for j, y in enumerate(x)])
            if not np.isfinite(x).all():
                return v.bad('read back', f'v{k}: {x}')
            lo, up, fx = spread(d['lb'], d['n']), spread(d['ub'], d['n']), spread(d['fix'], d['n'])
            for j in range(d['n']):
                if fx[j] is not None and abs(x[j] - fx[j]) > 1e-6:
                    return v.bad('fixed', f'v{k}[{j}] is {x[j]}, fixed to {fx[j]}')
                a = -INF if lo[j] in (None, '-inf') else lo[j]
                b = INF if up[j] in (None, 'inf') else up[j]
                if fx[j] is None and not (a - 1e-5 <= x[j] <= b + 1e-5):
                    return v.bad('bounds', f'v{k}[{j}] is {x[j]}, bounds {a} to {b}')
                if d['binary'] and x[j] not in (0, 1):
                    return v.bad('binary', f'v{k}[{j}] is {x[j]}')
            xs.append(x)
        for k, (c, n) in enumerate(zip(model['cons'], self.lengths(model))):
            for i in range(n):
                ts = [f * xs[a][j] for s in c['sums'] for a, j, f in terms(model, s, i)]
                lhs, rhs = math.fsum(ts), constant(c, i)
                tol = 1e-5 * max(1.0, max(map(abs, ts), default=0), abs(rhs))
                v.count('stated_constraints', nontrivial=1 if any(ts) else 0)
                if lhs - rhs > tol or c['eq'] and rhs - lhs > tol:
                    return v.bad('constraint', f'c{k}[{i}]: {lhs} {"=" if c["eq"] else "<="} {rhs} is violated by the values read back')
        val = math.fsum(f * xs[a][j] for s in model['obj'] for a, j, f in terms(model, s, 0))
        if abs(val - o['obj']) > 1e-5 * max(1.0, abs(val)):
            return v.bad('objective', f'reported {o["obj"]}, the values read back give {val}')
        return None

    # ------------------------------------------------------------ what does not fit is not solved
    def _misfit(self, case, v):
        import random

        from flixOpt import math_modeling as mm

        rng = random.Random(case['seed'])
        n = rng.randint(2, 5)
        k = rng.choice([x for x in (2, 3, 4, 5, 6) if x != n])
        what = case['what']
        v.tag('misfit ' + what)
        try:
            with run.silent():
                x, y, z = mm.Variable('x', n, lower_bound=0, upper_bound=9), mm.Variable('y', k, lower_bound=0, upper_bound=9), mm.Variable('z', 1, lower_bound=0, upper_bound=9)
                eq = (mm.Equation if rng.random() < 0.5 else mm.Inequation)('c')
                obj = mm.Equation('obj', is_objective=True)
                obj.add_summand(x, 1, as_sum=True)
                extra = []
                one = lambda: eq.add_summand(x, rng.choice([1, np.ones(n)]))
                if what == 'summand':
                    one()
                    eq.add_summand(y, 1)
                elif what == 'summand first':
                    eq.add_summand(z, 2)
                    eq.add_summand(y, 1)
                    eq.add_summand(z, 2)
                    one()
                elif what == 'factor':
                    eq.add_summand(x, np.ones(k))
                elif what == 'part':
                    one()
                    eq.add_summand(y, 1, indices_of_variable=[0] * (n + 1))
                elif what == 'constant':
                    one()
                    eq.add_constant(np.ones(k))
                elif what == 'constant first':
                    eq.add_constant(np.ones(k))
                    eq.add_constant(1)
                    one()
                elif what == 'index':
                    eq.add_summand(x, 1, indices_of_variable=[n - 1, n])
                elif what == 'fixed low':
                    extra.append(mm.Variable('f', 1, lower_bound=2, upper_bound=5, fixed_value=1.5))
                elif what == 'fixed high':
                    extra.append(mm.Variable('f', 1, lower_bound=2, upper_bound=np.array([5.0]), fixed_value=6))
                elif what == 'fixed vector':
                    f = np.full(n, 3.0)
                    f[rng.randrange(n)] = rng.choice([-1.0, 10.0])
                    extra.append(mm.Variable('f', n, lower_bound=0 if rng.random() < 0.5 else np.zeros(n), upper_bound=9, fixed_value=f))
                elif what == 'objective':
                    obj.add_summand(x, 1)
                elif what == 'no variable':
                    eq.add_summand(rng.choice([None, 'x', 3]), 1)
                else:
                    extra.append(mm.Variable('f', n, lower_bound=np.zeros(k), upper_bound=9))
                    obj.add_summand(extra[0], 1, as_sum=True)
                if not eq.summands:
                    eq.add_summand(z, 1)
                m = mm.MathModel('m')
                m.add(x, y, z, *extra, eq, obj)
                m.translate_to_modeling_language()
                m.solve(run.solver())
                got = m.results()
        except Exception as e:
            v.count('stated_optimum', nontrivial=1)
            v.tag('rejected ' + type(e).__name__)
            return v
        return v.bad('misfit', f'{what} (lengths {n} and {k}): solved, {got}')

    def _options(self, case, v):
        from flixOpt import math_modeling as mm
        from flixOpt.solvers import HighsSolver

        kw = {} if case['threads'] is None else {'threads': case['threads']}
        try:
            run.FORCED['threads'] = 1     # HiGHS refuses another number of threads within one process
            with run.silent():
                x = mm.Variable('x', 2, lower_bound=1, upper_bound=4)
                obj = mm.Equation('obj', is_objective=True)
                obj.add_summand(x, 1, as_sum=True)
                m = mm.MathModel('m')
                m.add(x, obj)
                m.translate_to_modeling_language()
                run.ASKED.clear()
                m.solve(HighsSolver(mip_gap=case['gap'], time_limit_seconds=case['limit'], logfile_name='h.log', **kw))
                got = dict(run.ASKED)
        except Exception as e:
            return v.bad(f'options raised {type(e).__name__}', traceback.format_exc()[-900:])
        finally:
            del run.FORCED['threads']
        v.count('received', 3, 3)
        want = {'mip_rel_gap': case['gap'], 'time_limit': case['limit'], **({'threads': case['threads']} if kw else {})}
        if {k: got.get(k) for k in want} != want:
            return v.bad('options', f'the solver received {got}, asked for are {want}')
        return v

    # ------------------------------------------------------------ sizes of energy systems
    def _system(self, case, v):
        import flixOpt as fx

        from ..build import build

        try:
            with run.silent():
                b = build(case['spec'], order_seed=case['order'])
                calc = fx.FullCalculation('size', b.system)
                calc.do_modeling()
                with run.received() as rec:
                    calc.solve(run.solver(), save_results=os.path.join(os.getcwd(), 'c21'))
                sm = calc.system_model
                infos = {'Model': sm.infos}
        except Exception as e:
            return v.say('void', f'not solved: {type(e).__name__}', traceback.format_exc()[-600:])
        v.tag('system')
        try:
            with run.silent():
                size = infos['Model']['Model Size']
                nr = [size[k] for k in ('No. of Vars.', 'No. of Vars. (single)', 'No. of Eqs.', 'No. of Eqs. (single)', 'No. of Ineqs.', 'No. of Ineqs. (single)')]
                have = [sm.nr_of_variables, sm.nr_of_single_variables, sm.nr_of_equations, sm.nr_of_single_equations, sm.nr_of_inequations, sm.nr_of_single_inequations]
                v.count('sizes', 6, 6)
                if nr != have:
                    return v.bad('sizes', f'{size}, but {have}')
                rows, cols = rec[-1]
                v.count('received', 2, 2)
                if cols != nr[1] or rows != nr[3] + nr[5]:
                    return v.bad('received', f'the solver received {cols} variables and {rows} constraints, reported are {size}')
                # what is described, is what is counted
                leaves = lambda x: [x] if isinstance(x, str) else [z for y in (x.values() if isinstance(x, dict) else x) for z in leaves(y)]
                d = infos['Model']
                if len(leaves(d['Variables'])) != nr[0] or len(leaves(d['Constraints'])) != nr[2] + nr[4] + 1:
                    return v.bad('described', f'{len(leaves(d["Variables"]))} variables and {len(leaves(d["Constraints"]))} constraints with the objective are described, there are {size}')
                # per element: all parts together are the whole
                total = [0] * 6
                for part in [sm.effect_collection_model] + list(sm.component_models) + list(sm.bus_models) + list(sm.other_models):
                    o = part.overview_of_model_size
                    o = [o[k] for k in ('no of Variables', 'no of Variables single', 'no of Euations', 'no of Equations single', 'no of Inequations', 'no of Inequations single')]
                    total = [a + b for a, b in zip(total, o)]
                v.count('sizes', 6, 6)
                if total != have:
                    return v.bad('sizes of elements', f'together {total}, the whole model has {have}')
                for structured in (False,):
                    lines = leaves(sm.description_of_variables(structured))
                    if len(lines) != nr[0]:
                        return v.bad('described', f'{len(lines)} variables in the flat description, there are {nr[0]}')
        except Exception as e:
            return v.bad(f'sizes raised {type(e).__name__}', traceback.format_exc()[-1200:])
        return v


PROPS = [Model()]

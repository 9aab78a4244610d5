"""The optimisation problem that the solver is given, taken from the pyomo model it receives."""

import contextlib
import math
import re
from collections import Counter

from .ref import Lin, Milp

CAP = 1e4


@contextlib.contextmanager
def models():
    """the pyomo models that arrive at HiGHS"""
    from pyomo.contrib.appsi import solvers

    log = []
    cls = solvers.Highs
    solve = cls.solve

    def tapped(self, model, *a, **k):
        log.append(model)
        return solve(self, model, *a, **k)

    cls.solve = tapped
    try:
        yield log
    finally:
        cls.solve = solve


class Problem:
    """vars: name -> (lb, ub, integer); rows: [({name: coef}, lo, hi)]; obj: {name: coef}"""

    def __init__(self, model):
        import pyomo.environ as pyo
        from pyomo.repn import generate_standard_repn

        self.vars, self.rows, ids = {}, [], {}
        seen = Counter()
        for comp in model.component_objects(pyo.Var, active=True):
            base = re.sub(r'__\d+$', '', comp.name)
            seen[base] += 1
            if seen[base] > 1:
                base += f' ({seen[base]})'
            for i in comp:
                v = comp[i]
                name = (base, i)
                ids[id(v)] = name
                if v.fixed:
                    self.vars[name] = (float(v.value), float(v.value), bool(v.is_binary() or v.is_integer()))
                else:
                    lb, ub = v.bounds
                    self.vars[name] = (-math.inf if lb is None else float(lb), math.inf if ub is None else float(ub), bool(v.is_binary() or v.is_integer()))
        self.ambiguous = any(k > 1 for k in seen.values())
        for con in model.component_data_objects(pyo.Constraint, active=True):
            rep = generate_standard_repn(con.body, compute_values=True)
            k = float(rep.constant or 0)
            lo = -math.inf if con.lower is None else float(pyo.value(con.lower)) - k
            hi = math.inf if con.upper is None else float(pyo.value(con.upper)) - k
            row = {}
            for c, v in zip(rep.linear_coefs, rep.linear_vars, strict=True):
                row[ids[id(v)]] = row.get(ids[id(v)], 0.0) + float(c)
            self.rows.append((row, lo, hi))
        self.obj, self.const = {}, 0.0
        for o in model.component_data_objects(pyo.Objective, active=True):
            rep = generate_standard_repn(o.expr, compute_values=True)
            self.const += float(rep.constant or 0)
            for c, v in zip(rep.linear_coefs, rep.linear_vars, strict=True):
                self.obj[ids[id(v)]] = self.obj.get(ids[id(v)], 0.0) + float(c)

    def canonical(self):
        def r(x):
            return x if not math.isfinite(x) else float(f'{x:.9g}') + 0.0

        rows = Counter()
        for row, lo, hi in self.rows:
            terms = tuple(sorted((k, r(c)) for k, c in row.items() if abs(c) > 1e-12))
            if not terms and lo <= 1e-12 and hi >= -1e-12:
                continue
            # sign: equations with a positive first coefficient, inequations as <=
            if lo == hi and terms and terms[0][1] < 0:
                terms, lo, hi = tuple((k, -c) for k, c in terms), -hi, -lo
            elif lo > -math.inf and hi == math.inf:
                terms, lo, hi = tuple((k, -c) for k, c in terms), -math.inf, -lo
            rows[(terms, r(lo) + 0.0, r(hi) + 0.0)] += 1
        obj = tuple(sorted((k, r(c)) for k, c in self.obj.items() if abs(c) > 1e-12))
        vs = tuple(sorted((k, r(a), r(b), i) for k, (a, b, i) in self.vars.items()))
        return vs, rows, obj

    def same(self, other):
        a, b = self.canonical(), other.canonical()
        return a[0] == b[0] and a[1] == b[1] and a[2] == b[2]

    def difference(self, other):
        a, b = self.canonical(), other.canonical()
        if a[0] != b[0]:
            return f'variables {list(set(a[0]) ^ set(b[0]))[:4]}'
        if a[1] != b[1]:
            return f'rows {list((a[1] - b[1]).elements())[:2]} | {list((b[1] - a[1]).elements())[:2]}'
        return f'objective {list(set(a[2]) ^ set(b[2]))[:4]}'

    def milp(self, direction=None, cap=CAP):
        m = Milp()
        col = {}
        for name, (lb, ub, integer) in self.vars.items():
            if cap is not None and direction is not None and name in direction:
                lb, ub = max(lb, -cap) if lb < cap else lb, min(ub, cap) if ub > -cap else ub
            col[name] = m.var(1, lb, ub, integer)[0]
        for row, lo, hi in self.rows:
            m.con(Lin({col[k]: c for k, c in row.items()}), lo, hi)
        m.obj = Lin({col[k]: c for k, c in (self.obj if direction is None else direction).items() if k in col})
        return m


def probe(p, q, rng, k=3, time_limit=8):
    """optimises random directions over the variables that both problems have.
    -> list of (status p, status q, value p, value q)"""
    common = sorted(set(p.vars) & set(q.vars))
    if len(common) < 0.9 * max(len(p.vars), len(q.vars)):
        return []
    out = []
    for _ in range(k):
        d = {name: rng.choice([0, 0, 1, -1]) * round(rng.uniform(0.2, 2), 3) for name in common}
        st1, v1, _ = p.milp(d).solve(time_limit)
        st2, v2, _ = q.milp(d).solve(time_limit)
        out.append((st1, st2, v1, v2, d))
    return out

"""Outcome oracle: one execution of the code under test against the monitors and the reference optimiser."""

from . import monitor, run
from .ref import TIGHT, Reference

REL_OK, REL_BAD = 1e-5, 1e-3   # in between: inconclusive

# (presolve, tolerance) in the order they are tried when the two sides disagree
CONFIGS = (('off', 1e-9), ('on', 1e-9), ('on', 1e-7), ('off', 1e-7))


class configured:
    """another configuration of the solver, for both sides"""

    def __init__(self, cfg):
        self.cfg = cfg

    def __enter__(self):
        self.saved = dict(run.FORCED), dict(TIGHT)
        run.FORCED['presolve'] = self.cfg[0]
        for d in (run.FORCED, TIGHT):
            for k in d:
                if k.endswith('tolerance'):
                    d[k] = self.cfg[1]

    def __exit__(self, *a):
        run.FORCED.update(self.saved[0])
        TIGHT.update(self.saved[1])


class Verdict:
    """status: held | violation | foreign | inconclusive | void (the case says nothing)"""

    def __init__(self):
        self.status, self.key, self.msg = 'held', None, ''
        self.counts, self.nontrivial = {}, {}
        self.tags = {}
        self.more = []

    def bad(self, key, msg):
        if self.status != 'violation':
            self.status, self.key, self.msg = 'violation', key, str(msg)[:1500]
        return self

    def say(self, status, key, msg=''):
        if self.status != 'violation':
            self.status, self.key, self.msg = status, key, str(msg)[:600]
        return self

    def tag(self, name, k=1):
        self.tags[name] = self.tags.get(name, 0) + k

    def count(self, rule, n=1, nontrivial=None):
        self.counts[rule] = self.counts.get(rule, 0) + n
        k = n if nontrivial is None else nontrivial
        if k:
            self.nontrivial[rule] = self.nontrivial.get(rule, 0) + k

    def merge(self, rep):
        for k, n in rep.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        for k, n in rep.nontrivial.items():
            self.nontrivial[k] = self.nontrivial.get(k, 0) + n


def rel(a, b):
    return abs(a - b) / max(1.0, abs(a), abs(b))


def reference(spec, **kw):
    return Reference(spec).solve(**kw)


def outcome(spec, pid, rules, execute=None, verdict=None, strict=True, ref_spec=None):
    """execute(spec) -> run.Outcome.  strict: feasibility and optimality count for this property too."""
    v = verdict or Verdict()
    execute = execute or run.run_full
    o = execute(spec)
    v.outcome = o
    st, obj, _ = reference(ref_spec or spec)
    v.tag('reference:' + st)
    if st not in ('optimal', 'infeasible', 'infeasible?', 'unbounded'):
        return v.say('inconclusive', 'reference ' + st)
    foreign = False
    if o.status == 'ok':
        rep = monitor.check(spec, o.results)
        v.merge(rep)
        v.report = rep
        for rule, msg in rep.violations:
            if rule in rules:
                return v.bad('rule:' + rule, msg)
        if rep.violations:
            foreign = any(rule != 'structure' for rule, _ in rep.violations)  # missing results alone do not explain another optimum
            v.say('foreign', 'rule:' + rep.violations[0][0], rep.violations[0][1])
        flix = obj_of(o)
    else:
        flix = None
        if st == 'optimal' and o.stage in ('define', 'model', 'results') or (o.stage == 'solve' and not solver_says_no(o)):
            if st == 'optimal':
                return v.bad(f'raised:{o.stage}:{type(o.exc).__name__}', f'a valid system was not accepted: {o.error}\n{o.tb[-1200:]}')
            return v.say('void', 'raised, reference ' + st)
    if not strict:
        return v
    v.count('optimum')
    if agrees(flix, st, obj):
        return v
    # disagreement: could be the solver.  Try other solver configurations on both sides.
    best_flix, best_ref = flix, obj if st == 'optimal' else None
    own, others = [flix], [best_ref]
    for cfg in CONFIGS[1:]:
        with configured(cfg):
            o2 = execute(spec)
            if o2.status == 'ok':
                f2 = obj_of(o2)
                best_flix = f2 if best_flix is None else min(best_flix, f2)
            st2, obj2, _ = reference(ref_spec or spec, presolve=cfg[0] == 'on')
            if st2 == 'optimal':
                best_ref = obj2 if best_ref is None else min(best_ref, obj2)
            own.append(obj_of(o2) if o2.status == 'ok' else None)
            others.append(obj2 if st2 == 'optimal' else None)
        if agrees(obj_of(o2) if o2.status == 'ok' else None, st2, obj2):  # a real difference does not depend on the solver
            v.tag('solver noise')
            return v
        if best_flix is not None and best_ref is not None and rel(best_flix, best_ref) <= REL_OK:
            v.tag('solver noise')
            return v
    if best_ref is None and best_flix is None:
        return v
    if unstable(own) or unstable(others):
        return v.say('inconclusive', 'the optimum depends on the settings of the solver', f'{own} vs {others}')
    if best_flix is None:
        return v.bad('infeasible', f'no solution found although one of value {best_ref} exists ({o.error})')
    if foreign:
        return v
    if best_ref is None:
        return v.bad('feasible', f'a solution of value {best_flix} was returned although the definition admits none')
    d = rel(best_flix, best_ref)
    if d <= REL_BAD:
        return v.say('inconclusive', 'close optimum', f'{best_flix} vs {best_ref}')
    if best_flix > best_ref:
        return v.bad('suboptimal', f'objective {best_flix}, but {best_ref} is possible')
    return v.bad('superoptimal', f'objective {best_flix}, but the definition admits no better value than {best_ref}')


def unstable(values):
    """the same problem has got different answers under different settings of the solver (None: no solution)"""
    some = [x for x in values if x is not None]
    return len(some) not in (0, len(values)) or bool(some) and rel(min(some), max(some)) > 1e-4


def agrees(flix, st, obj):
    if st == 'optimal':
        return flix is not None and rel(flix, obj) <= REL_OK
    return flix is None


def obj_of(o):
    try:
        return float(o.results['Objective'])
    except Exception:
        return None


def solver_says_no(o):
    """the solver was reached and reported that there is no solution"""
    s = f'{type(o.exc).__name__}: {o.exc}'.lower()
    return 'feasible solution' in s or 'infeasible' in s or 'no solution' in s or 'termination' in s

"""Definitions: equivalent ones (C22) and contradictory ones (C23)."""

import copy
import math

import numpy as np

from .. import matrix, monitor, run
from ..gen import Gen, flows_of, tighten
from ..oracle import CONFIGS, REL_BAD, REL_OK, Verdict, configured, obj_of, reference, rel, unstable
from ..view import BIG, CompView, is_ts, spec_dt
from .base import Prop
from .systems import NONE, extra

MIX = [
    dict(kinds=dict(Boiler=2, LinearConverter=3, CHP=2, Power2Heat=1, HeatPump=1, CoolingTower=1, HeatPumpWithSource=1), multi_io=0.7, eff=0.7,
         flow_onoff=0.3, comp_onoff=0.2, invest=0.2, run_eff=0.6, sw_eff=0.6, on_min=0.2, off_min=0.2, onh_max=0.2, strict=0.05),
    dict(kinds=dict(Storage=2, Transmission=1, Source=1), invest=0.3, st_invest=0.4, inv_seg=0.3, strict=0.05, buses=(2, 3)),
    dict(kinds=dict(LinearConverter=2, Sink=1, Source=1), segments=0.6, comp_onoff=0.4, invest=0.0, strict=0.0, fh_max=0.2, lf_max=0.2),
    dict(kinds=dict(Boiler=1, Storage=1, Source=1), effects=(2, 3), share_op=0.7, share_inv=0.6, share_ts=0.6, eff=0.9, invest=0.4, none_key=0.4,
         run_eff=0.7, sw_eff=0.7, flow_onoff=0.4, div=0.6, fix=0.7, strict=0.0),
]


# ------------------------------------------------------------------------------------------ the same, put differently
def shuffled(d, rng):
    keys = list(d)
    rng.shuffle(keys)
    return {k: d[k] for k in keys}


EFF_KEYS = {'eff', 'fix', 'spec', 'div', 'sw_eff', 'run_eff', 'share_op', 'share_inv'}


def reorder(spec, rng):
    """another order of effects, components, flows, factors, keys and pieces; returns whether pieces moved"""
    pieces = False

    def keys(d):
        for k, v in list(d.items()):
            if k in EFF_KEYS and isinstance(v, dict):
                d[k] = shuffled(v, rng)
            elif isinstance(v, dict):
                keys(v)

    rng.shuffle(spec['effects'])
    for e in spec['effects']:
        keys(e)
    rng.shuffle(spec['comps'])
    spec['buses'] = shuffled(spec['buses'], rng)

    def perm(n):
        p = list(range(n))
        rng.shuffle(p)
        return p

    for c in spec['comps']:
        keys(c)
        for k in ('inputs', 'outputs'):
            if k in c:
                rng.shuffle(c[k])
                for f in c[k]:
                    keys(f)
        if c.get('factors'):
            c['factors'] = [shuffled(f, rng) for f in c['factors']]
            rng.shuffle(c['factors'])
        if c.get('segments'):
            p = perm(len(next(iter(c['segments'].values()))))
            pieces |= p != sorted(p)
            c['segments'] = shuffled({f: [v[i] for i in p] for f, v in c['segments'].items()}, rng)
    for inv in investments(spec):
        if inv.get('seg'):
            pts, effs = inv['seg']
            p = perm(len(pts))
            pieces |= p != sorted(p)
            inv['seg'] = [[pts[i] for i in p], shuffled({e: [v[i] for i in p] for e, v in effs.items()}, rng)]
    return pieces


def investments(spec):
    for c in spec['comps']:
        if isinstance(c.get('capacity'), dict):
            yield c['capacity']['invest']
        for f in flows_of(c):
            if isinstance(f.get('size'), dict):
                yield f['size']['invest']


def effect_places(spec):
    """(dict, key) of everything that takes effects"""
    for c in spec['comps']:
        for o in [c.get('onoff')] + [f.get('onoff') for f in flows_of(c)]:
            for k in ('sw_eff', 'run_eff'):
                if o and o.get(k) is not None:
                    yield o, k
        for f in flows_of(c):
            if f.get('eff') is not None:
                yield f, 'eff'
    for inv in investments(spec):
        for k in ('fix', 'spec', 'div'):
            if inv.get(k) is not None and (k != 'div' or inv.get('optional', True)):  # nothing to divest unless optional
                yield inv, k


def other_effects(spec, rng):
    """a number, {None: number} and {standard effect: number} mean the same"""
    std = next(e['label'] for e in spec['effects'] if e.get('standard'))
    k = 0
    for d, key in effect_places(spec):
        v = d[key]
        if not isinstance(v, dict):
            if rng.random() < 0.6:
                d[key] = {rng.choice(['', std]): v}
                k += 1
        elif set(v) <= {'', std} and len(v) == 1 and rng.random() < 0.6:
            d[key] = next(iter(v.values()))
            k += 1
        elif ('' in v) != (std in v) and rng.random() < 0.6:
            d[key] = {(x if x not in ('', std) else std if x == '' else ''): y for x, y in v.items()}
            k += 1
    return k


def explicit(spec, rng):
    """documented defaults written down"""
    k = 0

    def put(d, key, v):
        nonlocal k
        if d.get(key) is None and rng.random() < 0.4:
            d[key] = v
            k += 1

    n = len(spec['time']['t'])
    one = lambda v: [v] * n if rng.random() < 0.4 else v  # noqa: E731
    for c in spec['comps']:
        for f in flows_of(c):
            if f.get('profile') is None:
                put(f, 'rmin', one(0))
                put(f, 'rmax', one(1))
            if f.get('size', 0) is None or 'size' not in f:
                put(f, 'size', BIG)
        if c['kind'] == 'Storage':
            put(c, 'rmin', 0)
            put(c, 'rmax', 1)
            put(c, 'eta_c', one(1))
            put(c, 'eta_d', one(1))
            put(c, 'loss', one(0))
            if 'initial' not in c and rng.random() < 0.5:
                c['initial'] = 0
                k += 1
            if 'prevent' not in c and rng.random() < 0.5:
                c['prevent'] = True
    for inv in investments(spec):
        if inv.get('fixed') is None:
            put(inv, 'min', 0)
            put(inv, 'max', BIG)
        if 'optional' not in inv and rng.random() < 0.5:
            inv['optional'] = True
            k += 1
    t = spec['time']
    dt = spec_dt(spec)
    if n > 1:
        put(t, 'last', float(dt[-1]))
        put(t, 'prev_dt', float(dt[0]))
    return k


GENERIC = {'Boiler', 'Power2Heat', 'HeatPump', 'CoolingTower', 'CHP', 'HeatPumpWithSource'}


def generic(spec, rng):
    """the ready-made converters are LinearConverters"""
    k = 0
    for i, c in enumerate(spec['comps']):
        if c['kind'] in GENERIC and rng.random() < 0.8:
            v = CompView(spec, c)
            new = {'kind': 'LinearConverter', 'label': c['label'], 'inputs': [f.fl for f in v.inputs], 'outputs': [f.fl for f in v.outputs],
                   'factors': copy.deepcopy(v.factors)}
            if c.get('onoff') is not None:
                new['onoff'] = c['onoff']
            if c['kind'] == 'CoolingTower':   # both flows enter: P_el = demand * Q_th
                new['factors'] = [{c['P_el']['label']: 1, c['Q_th']['label']: [-x for x in c['demand']] if is_ts(c['demand']) else -c['demand']}]
            spec['comps'][i] = new
            k += 1
    return k


def shapes(d, path=()):
    out = {}
    for key, v in d.items():
        if isinstance(v, dict):
            out[path + (key,)] = '{}'
            out.update(shapes(v, path + (key,)))
        else:
            out[path + (key,)] = np.shape(v)
    return out


class Equivalent(Prop):
    id = 'C22'
    quick, thorough = 1500, 12000
    deciding = ('equal_optimum', 'equal_problem')
    rule = ('random systems defined twice: numbers, numpy numbers, constant or strided or read-only arrays and time series objects exchanged, effects as number or per '
            'effect, another order of elements, flows, factors, keys and pieces, defaults written down, ready-made converters as LinearConverter; optimum, structure of '
            'the results and the optimisation problem handed to the solver are compared; non-trivial: both were solved with one optimum, or both problems were compared')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        over = dict(MIX[i % len(MIX)], form=0.0, n=(3, 6), long=0)
        if tier == 'thorough' and i % 5 == 4:
            over['n'] = (6, 14)
        g = Gen(rng, **over)
        spec = g.system(extra=extra(rng.choice(['Storage', 'LinearConverter', 'Boiler', 'Transmission', 'CHP'])) if rng.random() < 0.4 else ())
        spec['form'] = 'plain'
        if not tighten(spec, rng, effects=0.4, n_limits=1):
            return None
        ways = [w for w in ('form', 'order', 'effects', 'default', 'generic') if rng.random() < 0.5] or ['form']
        return {'spec': spec, 'ways': ways, 'seed': rng.randrange(10**6)}

    def check(self, case):
        import random

        v = Verdict()
        spec = case['spec']
        other = copy.deepcopy(spec)
        rng = random.Random(case['seed'])
        ways = set(case['ways'])
        pieces = False
        k = {}
        if 'effects' in ways:
            k['effects'] = other_effects(other, rng)
        if 'default' in ways:
            k['default'] = explicit(other, rng)
        if 'generic' in ways:
            k['generic'] = generic(other, rng)
        order = None
        if 'order' in ways:
            pieces = reorder(other, rng)
            order = rng.randrange(10**6)
        if 'form' in ways:
            other['form'], other['form_seed'] = 'mixed', rng.randrange(10**6)
            other['time']['unit'] = rng.choice(['ns', 'us', 'ms', 's', 'm'])
        for w in ways:
            if k.get(w, 1):
                v.tag('way ' + w)

        def one(s, o):
            with matrix.models() as log:
                r = run.run_full(s, order_seed=o)
            r.given = log[-1] if log else None
            return r

        a, b = one(spec, None), one(other, order)
        sa, sb = self._status(a), self._status(b)
        if sa == 'error' and sb == 'error':
            return v.say('void', 'not accepted', a.error)
        if sa == 'error' or sb == 'error':
            bad = a if sa == 'error' else b
            return v.bad(f'raised:{bad.stage}:{type(bad.exc).__name__}', f'one of two equivalent definitions is not accepted ({ways}): {bad.error}\n{bad.tb[-1200:]}')
        fa, fb = obj_of(a) if sa == 'ok' else None, obj_of(b) if sb == 'ok' else None
        v.count('equal_optimum', 1, 1 if fa is not None else 0)
        if (fa is None) != (fb is None) or fa is not None and rel(fa, fb) > REL_OK:
            fas, fbs = [fa], [fb]
            for cfg in CONFIGS[1:]:
                with configured(cfg):
                    a2, b2 = one(spec, None), one(other, order)
                fas.append(obj_of(a2) if a2.status == 'ok' else None)
                fbs.append(obj_of(b2) if b2.status == 'ok' else None)
                if fas[-1] is None and fbs[-1] is None or None not in (fas[-1], fbs[-1]) and rel(fas[-1], fbs[-1]) <= REL_OK:
                    v.tag('solver noise')
                    break
                if a2.status == 'ok':
                    fa = obj_of(a2) if fa is None else min(fa, obj_of(a2))
                if b2.status == 'ok':
                    fb = obj_of(b2) if fb is None else min(fb, obj_of(b2))
                if fa is not None and fb is not None and rel(fa, fb) <= REL_OK:
                    v.tag('solver noise')
                    break
            else:
                if unstable(fas) or unstable(fbs):
                    return v.say('inconclusive', 'the optimum depends on the settings of the solver', f'{fas} vs {fbs}')
                if fa is None or fb is None or rel(fa, fb) > REL_BAD:
                    return v.bad('optimum', f'equivalent definitions ({sorted(ways)}) have the optima {fa} and {fb}')
                return v.say('inconclusive', 'close optimum', f'{fa} vs {fb}')
        if a.status == 'ok' and b.status == 'ok':
            if not ways & {'default', 'generic'}:
                A, B = shapes(a.results), shapes(b.results)
                v.count('equal_structure')
                if A != B:
                    d = sorted((str(x) for x in set(A.items()) ^ set(B.items())))
                    return v.bad('structure', f'equivalent definitions ({sorted(ways)}) have different results: {d[:6]}')
            for s, o in ((spec, a), (other, b)):
                rep = monitor.check(s, o.results)
                if rep.violations:
                    return v.say('foreign', 'rule:' + rep.violations[0][0], rep.violations[0][1])
        m = b.built.form.mutated()
        if m:
            return v.say('foreign', 'mutated', m)
        return self._problems(case, v, a, b, ways, pieces, rng)

    @staticmethod
    def _status(o):
        if o.status == 'ok':
            return 'ok'
        return 'no solution' if o.stage == 'solve' and run_says_no(o) else 'error'

    @staticmethod
    def _problems(case, v, a, b, ways, pieces, rng):
        if a.given is None or b.given is None:
            return v
        p, q = matrix.Problem(a.given), matrix.Problem(b.given)
        if p.same(q):
            v.count('equal_problem')
            v.tag('identical problem')
            return v
        if pieces or p.ambiguous or q.ambiguous or 'generic' in ways:
            v.tag('problem not compared')
            return v
        # formulated in another way: do both admit the same?
        v.tag('problem formulated differently')
        found = matrix.probe(p, q, rng)
        for st1, st2, v1, v2, d in found:
            ok = {'optimal', 'infeasible', 'unbounded', 'infeasible?'}
            if st1 not in ok or st2 not in ok:
                continue
            if st1 == st2 and (st1 != 'optimal' or rel(v1, v2) <= REL_BAD):
                v.count('equal_problem')
                continue
            best = {}
            for cfg in CONFIGS:
                with configured(cfg):
                    for name, prob in (('p', p), ('q', q)):
                        st, val, _ = prob.milp(d).solve(15, presolve=cfg[0] == 'on')
                        if st == 'optimal':
                            best[name] = min(best.get(name, math.inf), val)
                        elif st not in ok:
                            best[name + '?'] = True
            if 'p?' in best or 'q?' in best:
                continue
            if ('p' in best) != ('q' in best) or 'p' in best and rel(best['p'], best['q']) > 0.01:
                return v.bad('problem', f'equivalent definitions ({sorted(ways)}) admit different solutions: {best} in one direction; {p.difference(q)}')
        return v


def run_says_no(o):
    from ..oracle import solver_says_no

    return solver_says_no(o)



# ------------------------------------------------------------------------------------------ contradictions
class Ctx:
    def __init__(self, spec, rng):
        self.spec, self.rng = spec, rng
        self.n = len(spec['time']['t'])
        self.after = []       # called with what was built
        self.calculate = None  # called with what was built, instead of a full calculation
        self.what = ''


def differing(v, n, rng):
    """n values around v, not all equal"""
    base = list(v) if is_ts(v) else [v]
    out = [float(base[k % len(base)]) for k in range(n)]
    if len(set(out)) == 1:
        out[rng.randrange(n)] += 0.037
    return out


ONOFF_TS = ('sw_eff', 'run_eff', 'on_min', 'on_max', 'off_min', 'off_max')


def series_places(spec):
    """(name, dict, key, default, extra) of everything that may vary over time; extra values are expected for storage limits"""
    def effs(what, d, key):
        v = d.get(key)
        if isinstance(v, dict):
            for k in v:
                yield what, v, k, v[k], 0
        elif v is not None:
            yield what, d, key, v, 0

    for info in spec['buses'].values():
        if info.get('penalty') is not None:
            yield 'excess penalty', info, 'penalty', info['penalty'], 0
    for e in spec['effects']:
        if e.get('share_op'):
            yield from effs('share of operation', e, 'share_op')
        for k in ('min_ph', 'max_ph'):
            if e.get(k) is not None:
                yield 'limit per hour', e, k, e[k], 0
    for c in spec['comps']:
        ons = [c.get('onoff')]
        for f in flows_of(c):
            ons.append(f.get('onoff'))
            if f.get('profile') is not None:
                yield 'fixed profile', f, 'profile', f['profile'], 0
            else:
                yield 'relative minimum', f, 'rmin', f.get('rmin', 0.0), 0
                yield 'relative maximum', f, 'rmax', f.get('rmax', 1.0), 0
            yield from effs('effects per flow hour', f, 'eff')
        for o in ons:
            if o:
                for k in ('sw_eff', 'run_eff'):
                    yield from effs('effects of on/off', o, k)
                for k in ('on_min', 'on_max', 'off_min', 'off_max'):
                    if o.get(k) is not None:
                        yield 'duration', o, k, o[k], 0
        if c['kind'] == 'Storage':
            for k, d in (('eta_c', 0.9), ('eta_d', 0.9), ('loss', 0.01)):
                yield 'storage ' + k, c, k, c.get(k, d), 0
            yield 'charge state minimum', c, 'rmin', c.get('rmin', 0.0), 1
            yield 'charge state maximum', c, 'rmax', c.get('rmax', 1.0), 1
        for fac in c.get('factors') or []:
            for k in fac:
                yield 'conversion factor', fac, k, fac[k], 0
        for pts in (c.get('segments') or {}).values():
            for p in pts:
                for k in (0, 1):
                    yield 'piece', p, k, p[k], 0
        for k, what in (('eta', 'efficiency'), ('COP', 'COP'), ('demand', 'demand'), ('eta_th', 'efficiency'), ('eta_el', 'efficiency'), ('rel', 'losses'), ('abs', 'losses')):
            if c.get(k) is not None:
                yield what, c, k, c[k], 0


def wrong_length(x):
    places = list(series_places(x.spec))
    kinds = sorted({p[0] for p in places})
    kind = x.rng.choice(kinds)
    what, d, k, v, more = x.rng.choice([p for p in places if p[0] == kind])
    n = x.n + more
    wrong = [m for m in (n - 1, n - 2, n + 1, n + 2, 2 * n) if m >= 2 and m != n]
    m = x.rng.choice(wrong)
    d[k] = differing(v, m, x.rng)
    x.what = f'{what} too {"long" if m > n else "short"}'
    if x.rng.random() < 0.4:  # even if the values were enough for the chosen steps
        x.what += ', steps chosen'
        if x.rng.random() < 0.4 and x.n >= 4:
            x.calculate = lambda b: segmented(b, 3, 0)
        else:
            idx = range(0, x.rng.randint(2, x.n - 1)) if x.n > 2 else [0]
            x.calculate = lambda b: full(b, idx)
    return True


def unordered_times(x):
    t = x.spec['time']['t']
    if len(t) < 3:
        return False
    i = x.rng.randrange(len(t) - 1)
    t[i], t[i + 1] = t[i + 1], t[i]
    x.spec['time'].pop('last', None)
    x.spec['time']['last'] = 1


def last_step_backwards(x):
    x.spec['time']['last'] = -x.rng.choice([1, 2.5])


def unordered_indices(x):
    if x.n < 3:
        return False
    idx = list(range(x.n))
    k = x.rng.choice(['swap', 'reverse', 'random', 'range'])
    if k == 'swap':
        i = x.rng.randrange(x.n - 1)
        idx[i], idx[i + 1] = idx[i + 1], idx[i]
    elif k == 'reverse':
        idx.reverse()
    elif k == 'range':
        idx = range(x.n - 1, -1, -1)
    else:
        while idx == sorted(idx):
            x.rng.shuffle(idx)
    x.calculate = lambda b: full(b, idx)


def indices_out_of_range(x):
    idx = x.rng.choice([range(0, x.n + 1), range(1, x.n + 2), [0, x.n], list(range(x.n)) + [x.n + 3]])
    x.calculate = lambda b: full(b, idx)


def full(b, idx=None, language='pyomo'):
    import flixOpt as fx

    c = fx.FullCalculation('c', b.system, time_indices=idx, modeling_language=language)
    c.do_modeling()
    c.solve(run.solver())


def segmented(b, seg, over):
    import flixOpt as fx

    c = fx.SegmentedCalculation('s', b.system, seg, over)
    c.do_modeling_and_solve(run.solver(), save_results=False)


def other_language(x):
    lang = x.rng.choice(['cvxpy', 'gams', ''])
    x.calculate = lambda b: full(b, language=lang)


def segments_wrong(x):
    n = x.n
    seg, over = x.rng.choice([(2, 0), (1, 1), (0, 0), (-3, 0), (n + 1, 0), (3, n - 2), (n, 1), (3, -1), (4, -2)])

    x.calculate = lambda b: segmented(b, seg, over)
    x.what = 'negative overlap' if over < 0 else 'length'


def aggregation_wrong(x):
    import flixOpt as fx

    dt = spec_dt(x.spec)
    if np.ptp(dt) == 0:
        hours = float(dt[0]) * x.rng.choice([1.5, 0.5, 2.25])
        x.what = 'period not a multiple of the step'
    else:
        hours = float(np.sum(dt)) / 2
        x.what = 'steps of different length'

    def calc(b):
        c = fx.AggregatedCalculation('a', b.system, fx.AggregationParameters(
            hours_per_period=hours, nr_of_periods=1, fix_storage_flows=False, aggregate_data_and_fix_non_binary_vars=False))
        c.do_modeling()
        c.solve(run.solver())

    x.calculate = calc


# labels
def same_component_label(x):
    if len(x.spec['comps']) < 2:
        return False
    a, b = x.rng.sample(x.spec['comps'], 2)
    b['label'] = a['label']


def same_effect_label(x):
    b = copy.deepcopy(x.rng.choice(x.spec['effects']))

    def after(built):
        import flixOpt as fx

        built.system.add_elements(fx.Effect(b['label'], 'x', 'again'))

    x.after.append(after)


def effect_called_penalty(x):
    """the results of such an effect would be replaced by the ones of the penalty"""
    def after(built):
        import flixOpt as fx

        built.system.add_elements(fx.Effect('penalty', 'x', 'a penalty of my own'))

    x.after.append(after)


def component_again(x):
    x.after.append(lambda b: b.system.add_elements(x.rng.choice(list(b.comps.values()))))


def effect_again(x):
    x.after.append(lambda b: b.system.add_elements(x.rng.choice(list(b.effects.values()))))


def same_flow_label(x):
    cs = [c for c in x.spec['comps'] if c['kind'] not in ('Source', 'Sink') and len(flows_of(c)) > 1]
    if not cs:
        return False
    c = x.rng.choice(cs)
    if c.get('factors') or c.get('segments') or c.get('exclusive'):
        return False   # they refer to the labels
    a, b = x.rng.sample(flows_of(c), 2)
    b['label'] = a['label']


def same_bus_label(x):
    """another bus with the label of an existing one"""
    f = x.rng.choice(x.spec['comps'])
    bus = flows_of(f)[0]['bus']

    def after(b):
        import flixOpt as fx

        b.system.add_elements(fx.Sink('other sink', fx.Flow('Q', fx.Bus(bus), size=1)))

    x.after.append(after)


def label_of_other_kind(x):
    """one label for elements of different kinds"""
    kinds = x.rng.choice(['component-bus', 'component-effect', 'bus-effect', 'effect-component'])
    c = x.rng.choice(x.spec['comps'])
    bus = flows_of(c)[0]['bus']
    e = x.rng.choice(x.spec['effects'])['label']

    def after(b):
        import flixOpt as fx

        some = next(iter(b.buses.values()))
        if kinds == 'component-bus':
            b.system.add_elements(fx.Sink(bus, fx.Flow('Q', b.buses[bus], size=1)))
        elif kinds == 'component-effect':
            b.system.add_elements(fx.Sink(e, fx.Flow('Q', some, size=1)))
        elif kinds == 'bus-effect':
            b.system.add_elements(fx.Sink('another', fx.Flow('Q', fx.Bus(e), size=1)))
        else:
            b.system.add_elements(fx.Effect(c['label'], 'x', 'x'))

    x.after.append(after)
    x.what = kinds


def not_an_element(x):
    k = x.rng.choice(['flow', 'bus', 'text', 'class', 'none', 'dict'])

    def after(b):
        import flixOpt as fx

        b.system.add_elements({'flow': next(iter(b.flows.values())), 'bus': next(iter(b.buses.values())), 'text': 'Boiler', 'class': fx.Sink, 'none': None,
                               'dict': {}}[k])

    x.after.append(after)
    x.what = k


# effects
def two_standards(x):
    rest = [e for e in x.spec['effects'] if not e.get('standard')]
    if not rest:
        return False
    x.rng.choice(rest)['standard'] = True


def two_objectives(x):
    rest = [e for e in x.spec['effects'] if not e.get('objective')]
    if not rest:
        return False
    x.rng.choice(rest)['objective'] = True


def no_objective(x):
    for e in x.spec['effects']:
        e.pop('objective', None)


def no_standard(x):
    """numbers are given for the standard effect, but there is none"""
    places = [(d, k) for d, k in effect_places(x.spec) if not (isinstance(d[k], dict) and '' not in d[k])]
    if not places:
        ps = list(effect_places(x.spec))
        if ps:
            d, k = x.rng.choice(ps)
            d[k] = 3.5 if x.rng.random() < 0.5 else {'': 3.5}
        else:
            x.rng.choice(flows_of(x.rng.choice(x.spec['comps'])))['eff'] = 3.5
    for e in x.spec['effects']:
        e.pop('standard', None)


def effect_not_added(x):
    """an effect is used somewhere but is not part of the system"""
    lbl = 'lost effect'
    x.spec['effects'].append({'label': lbl, 'unit': 'u', 'desc': lbl, 'absent': True})
    places = list(effect_places(x.spec))
    pick = x.rng.random()
    if pick < 0.3:
        e = x.rng.choice(x.spec['effects'][:-1])
        k = x.rng.choice(['share_op', 'share_inv'])
        e.setdefault(k, {})[lbl] = 0.5
        x.what = k
    elif pick < 0.5:
        c = x.rng.choice(x.spec['comps'])
        f = x.rng.choice(flows_of(c))
        old = f.get('eff')
        f['eff'] = {**({} if old is None else old if isinstance(old, dict) else {'': old}), lbl: 0.7}
        x.what = 'eff'
    elif pick < 0.6:
        segs = [i for i in investments(x.spec) if i.get('seg')]
        if not segs:
            return False
        i = x.rng.choice(segs)
        i['seg'][1][lbl] = copy.deepcopy(next(iter(i['seg'][1].values())))
        x.what = 'seg'
    elif places:
        d, k = x.rng.choice(places)
        if k == 'div' and not d.get('optional', True):
            return False   # never used
        v = d[k]
        d[k] = {**(v if isinstance(v, dict) else {'': v}), lbl: 2.0}
        x.what = k
    else:
        return False


# flows and components
def min_above_max(x):
    fs = [f for c in x.spec['comps'] for f in flows_of(c) if f.get('profile') is None and f.get('size') is not None]
    if not fs:
        return False
    f = x.rng.choice(fs)
    hi = x.rng.uniform(0.2, 0.8)
    k = x.rng.randrange(3)
    if k == 0:
        f['rmin'], f['rmax'] = round(hi + 0.1, 3), round(hi, 3)
    else:
        t = x.rng.randrange(x.n)
        f['rmax'] = [round(hi, 3)] * x.n if k == 1 else round(hi, 3)
        f['rmin'] = [round(hi + 0.15, 3) if q == t else round(hi / 2, 3) for q in range(x.n)]
        if x.n == 1:
            return False
    f.pop('onoff', None)
    x.what = ['numbers', 'one step', 'one step, number'][k]


def converter(x, b, **kw):
    import flixOpt as fx

    bus = next(iter(b.buses.values()))
    other = list(b.buses.values())[-1]
    i, o = fx.Flow('i', bus, size=kw.pop('size', 5)), fx.Flow('o', other, size=5)
    more = fx.Flow('m', bus, size=5)
    return fx, i, o, more


def converter_wrong(x):
    k = x.what = x.rng.choice(['no factors', 'both', 'too many', 'foreign flow', 'pieces and variable size', 'piece missing', 'numbers of pieces', 'foreign flow in pieces'])

    def after(b):
        fx, i, o, m = converter(x, b)
        LC = fx.LinearConverter
        pieces = [(0, 1), (2, 5)]
        foreign = x.rng.choice([m, x.rng.choice(list(b.flows.values()))])
        if k == 'no factors':
            new = LC('new', [i], [o], **x.rng.choice([{}, {'conversion_factors': []}, {'segmented_conversion_factors': {}}]))
        elif k == 'both':
            new = LC('new', [i], [o], conversion_factors=[{i: 1, o: 1}], segmented_conversion_factors={i: pieces, o: pieces})
        elif k == 'too many':
            new = LC('new', [i], [o], conversion_factors=[{i: 1, o: 1}] * x.rng.choice([2, 3]))
        elif k == 'foreign flow':
            new = LC('new', [i], [o], conversion_factors=[{i: 1, foreign: 1}])
        elif k == 'pieces and variable size':
            f = x.rng.choice([i, o])
            f.size = fx.InvestParameters(maximum_size=10)
            new = LC('new', [i], [o], segmented_conversion_factors={i: pieces, o: pieces})
        elif k == 'piece missing':
            new = LC('new', [i], [o], segmented_conversion_factors={x.rng.choice([i, o]): pieces})
        elif k == 'numbers of pieces':
            new = LC('new', [i], [o], segmented_conversion_factors={i: pieces, o: pieces + [(6, 7)]})
        else:
            new = LC('new', [i], [o], segmented_conversion_factors={i: pieces, o: pieces, foreign: pieces})
        b.system.add_elements(new)

    x.after.append(after)


def investment_pieces(x):
    def after(b):
        import flixOpt as fx

        e = x.rng.choice(list(b.effects.values()))
        size, share = [(0, 5), (5, 20)], [(0, 10), (10, 30)]
        x.rng.choice([size, share]).append((30, 40))
        inv = fx.InvestParameters(maximum_size=20, effects_in_segments=(size, {e: share}))
        b.system.add_elements(fx.Sink('new', fx.Flow('Q', next(iter(b.buses.values())), size=inv)))

    x.after.append(after)


def transmission_wrong(x):
    k = x.what = x.rng.choice(['only in2', 'only out2', 'bus of in2', 'bus of out2', 'investment in out1', 'investment in in2', 'investment in out2'])

    def after(b):
        import flixOpt as fx

        A, B = fx.Bus('side A'), fx.Bus('side B')
        i1, o1, i2, o2 = fx.Flow('i1', A, size=5), fx.Flow('o1', B, size=5), fx.Flow('i2', B, size=5), fx.Flow('o2', A, size=5)
        inv = fx.InvestParameters(maximum_size=10)
        if k == 'only in2':
            o2 = None
        elif k == 'only out2':
            i2 = None
        elif k == 'bus of in2':
            i2 = fx.Flow('i2', A, size=5)
        elif k == 'bus of out2':
            o2 = fx.Flow('o2', B, size=5)
        else:
            {'investment in out1': o1, 'investment in in2': i2, 'investment in out2': o2}[k].size = inv
        b.system.add_elements(fx.Transmission('new', i1, o1, i2, o2, relative_losses=0.1))

    x.after.append(after)


def storage_wrong(x):
    k = x.what = 'initial charge state'

    def after(b):
        import flixOpt as fx

        A, B = fx.Bus('side A'), fx.Bus('side B')
        i, o = fx.Flow('i', A, size=5), fx.Flow('o', B, size=5)
        kw = dict(capacity_in_flow_hours=20, relative_minimum_charge_state=0.2, relative_maximum_charge_state=0.9)
        kw['initial_charge_state'] = x.rng.choice(['lastValueOfsim', 'full', 'none'])
        if x.rng.random() < 0.5:
            kw['capacity_in_flow_hours'] = fx.InvestParameters(maximum_size=20)
        b.system.add_elements(fx.Storage('new', i, o, **kw))

    x.after.append(after)


def weights_wrong(x):
    def after(b):
        import flixOpt as fx

        ts = fx.TimeSeriesData(np.arange(x.n, dtype=float) / x.n, agg_group='g', agg_weight=0.3)
        b.system.add_elements(fx.Sink('new', fx.Flow('Q', next(iter(b.buses.values())), size=1, fixed_relative_profile=ts)))

    x.after.append(after)


def flow_of_two(x):
    def after(b):
        import flixOpt as fx

        f = x.rng.choice(list(b.flows.values()))
        b.system.add_elements(x.rng.choice([fx.Sink, fx.Source])('new', f))

    x.after.append(after)


def bus_is_no_bus(x):
    def after(b):
        import flixOpt as fx

        bus = x.rng.choice([next(iter(b.buses)), None, next(iter(b.comps.values())), next(iter(b.effects.values()))])
        b.system.add_elements(fx.Sink('new', fx.Flow('Q', bus, size=1)))

    x.after.append(after)


KINDS = [wrong_length, wrong_length, wrong_length, unordered_times, last_step_backwards, unordered_indices, indices_out_of_range, other_language, segments_wrong,
         aggregation_wrong, same_component_label, same_effect_label, effect_called_penalty, component_again, effect_again, same_flow_label, same_bus_label, label_of_other_kind,
         not_an_element, two_standards, two_objectives, no_objective, no_standard, effect_not_added, effect_not_added, min_above_max, converter_wrong,
         converter_wrong, investment_pieces, transmission_wrong, storage_wrong, weights_wrong, flow_of_two, bus_is_no_bus]


class Contradictory(Prop):
    id = 'C23'
    quick, thorough = 3000, 24000
    deciding = ('rejected', 'accepted', 'config')
    rule = ('valid random systems (which must be calculated) into which one contradiction of a random kind is put at a random place (which must raise before the '
            'solver is reached); configuration files, valid and invalid in one place; non-trivial: a contradiction was presented, or a valid definition was calculated')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        if i % 6 == 5:
            return {'config': rng.randrange(10**9)}
        over = dict(MIX[i % len(MIX)], n=(4, 7), long=0)
        g = Gen(rng, **over)
        if rng.random() < 0.3:
            over['uneven'] = 0
        spec = g.system(extra=extra(rng.choice(['Storage', 'LinearConverter', 'Boiler', 'Transmission', 'CHP'])) if rng.random() < 0.5 else ())
        if not tighten(spec, rng, effects=0.3, n_limits=1):
            return None
        return {'spec': spec, 'kind': KINDS[i % len(KINDS)].__name__, 'seed': rng.randrange(10**9), 'order': rng.randrange(10**6)}

    def check(self, case):
        import random

        from ..build import build

        v = Verdict()
        if 'config' in case:
            return self._config(case, v)
        rng = random.Random(case['seed'])
        spec = copy.deepcopy(case['spec'])
        x = Ctx(spec, rng)
        fn = next(k for k in KINDS if k.__name__ == case['kind'])
        if fn(x) is False:
            return v.say('void', 'not applicable: ' + case['kind'])
        name = case['kind'] + (': ' + x.what if x.what else '')
        if not case.get('no_control'):
            o = run.run_full(case['spec'], order_seed=case['order'])
            v.count('accepted')
            if o.status != 'ok' and not (o.stage == 'solve' and run_says_no(o)):
                return v.bad(f'raised:{o.stage}:{type(o.exc).__name__}', f'a valid system was not accepted: {o.error}\n{o.tb[-1200:]}')
        stage, exc = 'define', None
        with run.received() as log:
            try:
                with run.silent():
                    b = build(spec, order_seed=case['order'])
                    for a in x.after:
                        a(b)
                    stage = 'calculate'
                    (x.calculate or full)(b)
                    stage = 'done'
            except Exception as e:
                exc = e
        v.count('rejected')
        v.tag(name)
        if stage == 'done':
            return v.bad('accepted:' + name, f'calculated without complaint although it contradicts itself: {name}')
        if log:
            return v.bad('late:' + name, f'only noticed after the solver was called ({type(exc).__name__}: {exc}): {name}')
        v.tag(f'raised while {"defined" if stage == "define" else "modelled"}')
        return v

    @staticmethod
    def _config(case, v):
        return configuration(case, v)


# ------------------------------------------------------------------------------------------ configuration
SECTIONS = {'logging': {'level': ('INFO', 3, None, 'LOUD', 'info ', ['INFO']), 'file': ('x.log', 3, None, True, ['x.log']), 'rich': (False, 'yes', None, 2, 0.5)},
            'modeling': {'BIG': (10**7, 1.5, '10000', None, [1]), 'EPSILON': (1e-5, '1e-5', None, 1, [1e-5]), 'BIG_BINARY_BOUND': (10**5, 2.5, None, '7')}}


def valid_config(rng, tmp):
    return {
        'config_name': rng.choice(['flixOpt', 'my config', 'ä']),
        'logging': {'level': rng.choice(['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']), 'file': f'{tmp}/{rng.choice("abc")}.log', 'rich': rng.random() < 0.5},
        'modeling': {'BIG': rng.choice([10**6, 5 * 10**6, 123456]), 'EPSILON': rng.choice([1e-4, 2e-5, 1e-6]), 'BIG_BINARY_BOUND': rng.choice([10**4, 10**5])},
    }


def spoil(c, rng, tmp):
    """-> (text of the file, what is wrong)"""
    import yaml

    k = rng.choice(['value', 'value', 'value', 'key', 'key', 'section', 'section', 'form', 'top', 'file', 'name', 'log'])
    if k in ('value', 'key'):
        s = rng.choice(list(SECTIONS))
        key = rng.choice(list(SECTIONS[s]))
        if k == 'key':
            del c[s][key]
        else:
            c[s][key] = rng.choice(SECTIONS[s][key][1:])
        return yaml.safe_dump(c), f'{k} {key}'
    if k == 'section':
        s = rng.choice(list(SECTIONS))
        del c[s]
        return yaml.safe_dump(c), 'no section ' + s
    if k == 'form':
        s = rng.choice(list(SECTIONS))
        c[s] = rng.choice([None, 3, 'x', [1, 2], [c[s]], {}])
        return yaml.safe_dump(c), 'section is ' + type(c[s]).__name__
    if k == 'top':
        return rng.choice(['', '[]', '- 1', '3', 'text', '# nothing', 'null']), 'file without sections'
    if k == 'file':
        return rng.choice(['a: [', '{', 'a: b: c', None, None]), 'file cannot be read'
    if k == 'name':
        c['config_name'] = rng.choice([3, None, ['x'], {}])
        return yaml.safe_dump(c), 'name'
    c['logging']['file'] = f'{tmp}/nowhere/x.log'
    return yaml.safe_dump(c), 'log file cannot be written'


def configuration(case, v):
    import logging
    import os
    import random
    import shutil
    import tempfile

    import flixOpt as fx
    import yaml

    CONFIG = fx.CONFIG
    rng = random.Random(case['config'])
    log = logging.getLogger('flixOpt')
    saved = CONFIG.config_name, CONFIG.logging, CONFIG.modeling, list(log.handlers), log.level
    tmp = tempfile.mkdtemp(prefix='fxv_cfg_')

    def state():
        return copy.deepcopy(CONFIG.to_dict()), [id(h) for h in log.handlers], log.level

    def written(text):
        path = os.path.join(tmp, f'c{rng.randrange(10**6)}.yaml')
        if text is not None:
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text)
        return path

    try:
        for _ in range(rng.randint(2, 5)):
            good = valid_config(rng, tmp)
            if rng.random() < 0.4:
                v.count('config')
                v.tag('valid configuration')
                try:
                    CONFIG.load_config(written(yaml.safe_dump(good)))
                except Exception as e:
                    return v.bad('valid configuration', f'{good} was not accepted: {type(e).__name__}: {e}')
                d = CONFIG.to_dict()
                if any(d.get(k) != x for k, x in good.items()):
                    return v.bad('configuration not in effect', f'{d} after {good} was loaded')
                files = [h.baseFilename for h in log.handlers if isinstance(h, logging.FileHandler)]
                if files != [os.path.abspath(good['logging']['file'])] or log.level != getattr(logging, good['logging']['level']):
                    return v.bad('logging not in effect', f'{files}, level {log.level} after {good["logging"]} was loaded')
                if fx.InvestParameters().maximum_size != good['modeling']['BIG'] or fx.Flow('Q', fx.Bus('b')).size != good['modeling']['BIG']:
                    return v.bad('configuration not used', f'default size {fx.InvestParameters().maximum_size} with {good["modeling"]}')
                continue
            if rng.random() < 0.25:
                s = rng.choice(list(SECTIONS))
                key = rng.choice(list(SECTIONS[s]))
                value = rng.choice(SECTIONS[s][key][1:])
                v.tag('attribute set')
                before = state()
                try:
                    setattr(getattr(CONFIG, s), key, value)
                except Exception:
                    pass
                else:
                    return v.bad('accepted:attribute ' + key, f'{value!r} was accepted for {key}')
                what = 'attribute ' + key
            else:
                text, what = spoil(copy.deepcopy(good), rng, tmp)
                v.tag('configuration: ' + what)
                before = state()
                try:
                    CONFIG.load_config(written(text))
                except Exception:
                    pass
                else:
                    return v.bad('accepted:configuration ' + what, f'{text!r} was accepted')
            v.count('config')
            if state() != before:
                return v.bad('configuration changed: ' + what, f'{before} became {state()} although the new one was rejected')
    finally:
        CONFIG.config_name, CONFIG.logging, CONFIG.modeling = saved[:3]
        for h in log.handlers:
            if h not in saved[3]:
                h.close()
        log.handlers[:] = saved[3]
        log.setLevel(saved[4])
        shutil.rmtree(tmp, ignore_errors=True)
    return v


PROPS = [Equivalent(), Contradictory()]

import random

from .. import monitor
from ..gen import DEFAULT, Gen, corners, tighten
from ..oracle import Verdict, outcome


class Prop:
    level = 'exploration'
    assumptions = [
        'HiGHS solves the models to optimality; disagreements are re-solved under three other solver configurations before they count',
        'binary, unit-size systems of a few components over 3-40 steps stand for larger ones',
    ]
    deciding = ()
    rule = ''

    def case(self, seed, i, tier):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def pinned(self):
        import json
        import os

        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pinned', f'{self.id}.json')
        if not os.path.exists(path):
            return []
        with open(path) as f:
            return json.load(f)

    def rng(self, seed, i):
        return random.Random(f'{self.id}/{seed}/{i}')


MIX = ('share_op share_inv share_ts multi_io conv_ts flow_onoff comp_onoff invest rmin rmax_ts eff prev size_none profile fh_max fh_min lf_max lf_min '
       'sw_eff run_eff onh_min onh_max sw_max on_min on_max off_min off_max dur_ts optional fixed inv_min inv_seg div fix st_invest st_cyclic st_free '
       'st_final st_bounds st_bounds_ts st_loss st_prevent st_eta tr_abs tr_bidir tr_invest tr_prevent uneven last prev_dt neg_price penalty_ts scale').split()


def mix(rng, over):
    """combines the features a workload is about with some of all others"""
    for k in rng.sample(MIX, rng.randint(3, 16)):
        over[k] = max(over.get(k, DEFAULT[k]), rng.choice([0.1, 0.3, 0.6]))
    if rng.random() < 0.4:
        over['kinds'] = dict(over.get('kinds', DEFAULT['kinds']))
        for k in rng.sample(['Boiler', 'LinearConverter', 'Storage', 'CHP', 'Source', 'Transmission', 'SourceAndSink', 'HeatPump'], 2):
            over['kinds'].setdefault(k, 1)
    if rng.random() < 0.2:
        over['segments'] = 0.5


class SystemProp(Prop):
    """generated systems, each executed once: own monitor rules plus reference optimum"""

    def __init__(self, pid, quick, thorough, workloads, rule, rules=None, deciding=None, post=None):
        self.id, self.quick, self.thorough = pid, quick, thorough
        self.workloads = workloads
        self.rules = tuple(rules or [r for r, p in monitor.OWNER.items() if p == pid])
        self.deciding = tuple(deciding or self.rules)
        self.rule = rule
        self.post = post

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        for attempt in range(4):
            w = self.workloads[(i + attempt) % len(self.workloads)]
            over = {k: v for k, v in w.items() if not k.startswith('_')}
            if tier == 'thorough' and i % 5 == 4:
                over['n'], over['long'] = (6, 14), 0.1
            if i % 4 == 3:
                mix(rng, over)
            g = Gen(rng, **over)
            spec = g.system(extra=w.get('_extra', ()))
            if w.get('_shape'):
                w['_shape'](g, spec, rng)
            if not tighten(spec, rng, effects=w.get('_effects', 0), n_limits=w.get('_limits', 1), loose=w.get('_loose', 0.25)):
                continue
            if rng.random() < 0.25:
                corners(spec, rng, rng.choice([1, 1, 2, 3]))
            return {'spec': spec, 'order': rng.randrange(10**6) if rng.random() < 0.7 else None}
        return None

    def check(self, case):
        from ..run import run_full

        def execute(spec):
            return run_full(spec, order_seed=case.get('order'))

        v = outcome(case['spec'], self.id, self.rules, execute)
        spec = case['spec']
        v.tag('steps', len(spec['time']['t']))
        for c in spec['comps']:
            v.tag('component ' + c['kind'])
        if self.post:
            self.post(case, v)
        return v

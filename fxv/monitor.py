"""Invariant monitors over what the real code returned.

Each rule recomputes, from the definition (spec) and the returned numbers alone, what must be true of
those numbers.  None of the formulas comes from the equations the code under test builds.

check(spec, results) -> Report with violations [(rule, message)] and how often every rule was evaluated.
"""

import numpy as np

from .view import BIG, EPS, SysView, invest_bounds, prev_duration, prev_on, vec

# rule -> property that owns it
OWNER = {
    'balance': 'C01', 'excess': 'C01', 'penalty': 'C01',
    'conversion': 'C02',
    'piece': 'C03',
    'storage_step': 'C04', 'storage_bounds': 'C04', 'storage_start': 'C04', 'storage_end': 'C04',
    'storage_cycle': 'C04', 'storage_net': 'C04',
    'flow_bounds': 'C05', 'profile': 'C05', 'flow_hours': 'C05', 'load_factor': 'C05',
    'on_state': 'C06', 'on_hours': 'C06', 'off_state': 'C06', 'comp_on': 'C06', 'exclusive': 'C06',
    'switch': 'C07', 'switch_count': 'C07',
    'duration_value': 'C08', 'duration_max': 'C08', 'duration_min': 'C08',
    'size': 'C09', 'invested': 'C09',
    'invest_effects': 'C10',
    'operation_effects': 'C11', 'effect_sums': 'C11',
    'effect_limits': 'C12',
    'objective': 'C13',
    'transmission': 'C15', 'transmission_size': 'C15',
    'time': 'C20',
    'structure': 'C13',
}


class Report:
    def __init__(self):
        self.violations, self.counts, self.nontrivial = [], {}, {}

    def ok(self, rule, cond, msg, n=1, nontrivial=True):
        self.counts[rule] = self.counts.get(rule, 0) + n
        if nontrivial:
            self.nontrivial[rule] = self.nontrivial.get(rule, 0) + n
        if not cond:
            self.violations.append((rule, msg))
        return cond

    def close(self, rule, a, b, what, scale=None, nontrivial=None):
        """|a-b| small relative to the magnitude of what was added up"""
        a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
        if a.shape != b.shape:
            return self.ok(rule, False, f'{what}: shapes {a.shape} vs {b.shape}')
        s = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
        if scale is not None:
            s = np.maximum(s, np.abs(scale))
        bad = ~(np.abs(a - b) <= TOL * s)
        nt = bool(np.any(np.abs(a) + np.abs(b) > 1e-6)) if nontrivial is None else nontrivial
        t = int(np.argmax(bad)) if bad.any() else 0
        return self.ok(rule, not bad.any(), f'{what}: index {t}: {a[t]!r} != {b[t]!r}', n=len(a), nontrivial=nt)

    def leq(self, rule, a, b, what, scale=None):
        a, b = np.broadcast_arrays(np.atleast_1d(np.asarray(a, float)), np.asarray(b, float))
        s = np.maximum(1.0, np.minimum(np.maximum(np.abs(a), np.abs(b)), BIG))
        if scale is not None:
            s = np.maximum(s, np.abs(scale))
        bad = ~(a <= b + TOL * s)
        t = int(np.argmax(bad)) if bad.any() else 0
        near = bool(np.any(np.abs(a - b) <= TOL * s))
        return self.ok(rule, not bad.any(), f'{what}: index {t}: {a[t]!r} > {b[t]!r}', n=len(a), nontrivial=near)


TOL = 1e-5


def arr(x, n=None):
    a = np.atleast_1d(np.asarray(x, dtype=float))
    return a


def check(spec, res, n=None, skip=(), prev=None, partial=False):
    """skip: rules to leave out;  partial: no 'Objective'/sums expected (joined segments)"""
    v = SysView(spec)
    r = Report()
    n = v.n
    dt = v.dt

    def get(d, *path):
        for p in path:
            if not isinstance(d, dict) or p not in d:
                r.ok('structure', False, f'no result {"/".join(map(str, path))}')
                return None
            d = d[p]
        return d

    def series(d, length, *path):
        x = get(d, *path)
        if x is None:
            return None
        a = np.atleast_1d(np.asarray(x, dtype=float))
        if not r.ok('structure', a.shape == (length,) and np.all(np.isfinite(a)),
                    f'{"/".join(map(str, path))}: not {length} finite numbers but {a.tolist()[:8]} (shape {a.shape})'):
            return None
        return a

    def number(d, *path):
        x = get(d, *path)
        if x is None:
            return None
        a = np.asarray(x, dtype=float)
        if not r.ok('structure', a.size == 1 and np.isfinite(a).all(), f'{"/".join(map(str, path))}: not a number: {x!r}'):
            return None
        return float(a.reshape(-1)[0])

    # -------------------------------------------------------------- time
    t = get(res, 'Time')
    if t is not None:
        want = np.array(spec['time']['t'], dtype='datetime64[us]')
        tt = np.asarray(t).astype('datetime64[us]')
        end = want[-1] + np.timedelta64(int(round(dt[-1] * 3600e6)), 'us')
        want = np.append(want, end)
        r.ok('time', tt.shape == want.shape and bool(np.all(np.abs((tt - want).astype(int)) <= 1)),
             f'time axis {tt.tolist()[-2:]} of length {tt.size}, expected {want.tolist()[-2:]} of length {want.size}')
        d = np.atleast_1d(np.asarray(get(res, 'Time intervals in hours'), float))
        r.close('time', d, dt, 'hours per step')

    rate, on, size, invested = {}, {}, {}, {}
    op = {e: np.zeros(n) for e in v.effects}          # direct shares
    op_scale = {e: np.zeros(n) for e in v.effects}
    inv = {e: 0.0 for e in v.effects}
    inv_scale = {e: 0.0 for e in v.effects}
    inv_ok = op_ok = True

    def add_op(values, x, f):
        for e, val in v.eff_values(values).items():
            y = vec(val, n) * x * f
            op[e] += y
            op_scale[e] += np.abs(y)

    def add_inv(values, x, k=1.0):
        for e, val in v.eff_values(values).items():
            inv[e] += k * float(val) * x
            inv_scale[e] += abs(float(val) * x)

    def invest(params, d, key, where):
        """size and decision of an investment"""
        nonlocal inv_ok
        s = number(d, 'Investment', 'size')
        if s is None:
            inv_ok = False
            return None
        lo, hi = invest_bounds(params)
        optional = params.get('optional', True)
        b = 1.0
        if optional:
            b = number(d, 'Investment', 'isInvested')
            if b is None:
                inv_ok = False
                return s
            if not r.ok('invested', abs(b - round(b)) < 1e-9 and round(b) in (0, 1), f'{where}: isInvested={b!r}'):
                inv_ok = False
                return s
        invested[key] = b
        if b:
            r.ok('size', lo - TOL * max(1, lo) <= s <= hi + TOL * max(1, hi), f'{where}: size {s!r} outside [{lo}, {hi}]')
        else:
            r.ok('invested', abs(s) <= TOL, f'{where}: not invested but size {s!r}')
        if b and lo > 0:
            r.ok('invested', s > 0, f'{where}: invested but size {s!r}')
        add_inv(params.get('fix'), b)
        if optional:
            add_inv(params.get('div'), 1 - b)
        add_inv(params.get('spec'), s)
        if params.get('seg'):
            pts, effs = params['seg']
            if b:
                inside = [i for i, (p, q) in enumerate(pts) if min(p, q) - TOL * max(1, abs(p), abs(q)) <= s <= max(p, q) + TOL * max(1, abs(p), abs(q))]
                r.ok('size', bool(inside), f'{where}: size {s!r} on no segment of {pts}')
                if inside:
                    seg_choices.append([{e: ys[i][0] + (0 if pts[i][0] == pts[i][1] else (s - pts[i][0]) / (pts[i][1] - pts[i][0]) * (ys[i][1] - ys[i][0])) for e, ys in effs.items()} for i in inside])
        return s

    seg_choices = []

    def onoff(oo, d, key, where, prev_states):
        nonlocal op_ok
        o = series(d, n, 'OnOff', 'on')
        if o is None:
            op_ok = False
            return None
        if not r.ok('on_state', bool(np.all((o == 0) | (o == 1))), f'{where}: on-state {o.tolist()} is not 0/1'):
            op_ok = False
            return None
        on[key] = o
        tot = number(d, 'OnOff', 'totalOnHours')
        if tot is not None:
            r.close('on_hours', tot, (o * dt).sum(), f'{where}: reported on-hours')
        if oo.get('onh_min') is not None:
            r.leq('on_hours', oo['onh_min'], (o * dt).sum(), f'{where}: minimum on-hours')
        if oo.get('onh_max') is not None:
            r.leq('on_hours', (o * dt).sum(), oo['onh_max'], f'{where}: maximum on-hours')
        x = d['OnOff']
        if 'off' in x:
            off = series(d, n, 'OnOff', 'off')
            if off is not None:
                r.close('off_state', off, 1 - o, f'{where}: off-state', nontrivial=True)
        elif oo.get('off_min') is not None or oo.get('off_max') is not None:
            r.ok('structure', False, f'{where}: no off-state although off-times are limited')
        # starts
        prev = np.concatenate([[prev_states[-1]], o[:-1]])
        starts = (o == 1) & (prev == 0)
        stops = (o == 0) & (prev == 1)
        needs = oo.get('sw_max') is not None or oo.get('sw_eff') is not None or oo.get('force')
        if needs or 'switchOn' in x:
            up, dn = series(d, n, 'OnOff', 'switchOn'), series(d, n, 'OnOff', 'switchOff')
            nr = number(d, 'OnOff', 'nrSwitchOn')
            if up is not None and dn is not None:
                r.close('switch', up, starts, f'{where}: switch-on steps (on={o.astype(int).tolist()}, before {prev_states[-1]})')
                r.close('switch', dn, stops, f'{where}: switch-off steps (on={o.astype(int).tolist()}, before {prev_states[-1]})')
            if nr is not None:
                r.close('switch_count', nr, starts.sum(), f'{where}: number of starts')
        if oo.get('sw_max') is not None:
            r.leq('switch_count', float(starts.sum()), oo['sw_max'], f'{where}: more starts than allowed')
        # effects
        add_op(oo.get('sw_eff'), starts.astype(float), 1.0)
        add_op(oo.get('run_eff'), o, dt)
        # durations
        for val, mn, mx, lbl in ((1, oo.get('on_min'), oo.get('on_max'), 'consecutiveOnHours'),
                                 (0, oo.get('off_min'), oo.get('off_max'), 'consecutiveOffHours')):
            if mn is None and mx is None:
                continue
            pd = prev_duration(prev_states, v.prev_dt, val)
            true = np.zeros(n)
            acc = pd
            for i in range(n):
                acc = acc + dt[i] if o[i] == val else 0.0
                true[i] = acc
            rep = series(d, n, 'OnOff', lbl)
            if rep is not None:
                r.close('duration_value', rep, true, f'{where}: {lbl} (state {o.astype(int).tolist()}, before: {pd} h)')
            if mx is not None:
                mxv = vec(mx, n)
                r.leq('duration_max', np.where(o == val, true, 0), np.where(o == val, mxv, np.inf), f'{where}: {lbl} above maximum (state {o.astype(int).tolist()}, before {pd} h)')
            if mn is not None:
                mnv = vec(mn, n)
                for i in range(n - 1):
                    if o[i] == val and o[i + 1] != val:
                        r.leq('duration_min', mnv[i], true[i], f'{where}: {lbl} ended at step {i} before its minimum (state {o.astype(int).tolist()}, before {pd} h)')
                if 0 < pd < mnv[0] - 1e-9:
                    r.ok('duration_min', o[0] == val, f'{where}: {lbl}: previous {pd} h < {mnv[0]} h ended before its minimum')
        return o

    # -------------------------------------------------------------- components and flows
    for comp in v.comps:
        cres = get(res, 'Components', comp.label)
        if cres is None:
            op_ok = inv_ok = False
            continue
        bad = False
        for f in comp.flows:
            where = f'{comp.label}/{f.label}'
            d = get(cres, f.label)
            x = series(d, n, 'flow_rate') if d is not None else None
            if x is None:
                bad = True
                op_ok = inv_ok = False
                continue
            rate[f.key] = x
            lo, hi = f.size_bounds()
            s = f.size
            if f.invest is not None:
                s = invest(f.invest, d, f.key, where)
                if s is None:
                    bad = True
                    continue
            size[f.key] = s
            inv_f = f.invest is not None
            if f.onoff is not None:
                o = onoff(f.onoff, d, f.key, where, prev_on([f]))
                if o is None:
                    bad = True
                    continue
                # off: nothing flows;  on: something flows
                r.ok('on_state', bool(np.all(np.abs(x[o == 0]) <= TOL)), f'{where}: flows {x.tolist()} while off {o.tolist()}',
                     nontrivial=bool(np.any(o == 0)))
                r.ok('on_state', bool(np.all(x[o == 1] >= EPS * 0.5)), f'{where}: nothing flows {x.tolist()} while on {o.tolist()}',
                     nontrivial=bool(np.any(o == 1)))
            else:
                o = np.ones(n)
                r.ok('structure', 'OnOff' not in d, f'{where}: on/off results without definition')
            if f.profile is not None:
                if f.onoff is None:
                    r.close('profile', x, f.profile * s, f'{where}: fixed profile')
                else:
                    r.close('profile', x, f.profile * s * o, f'{where}: fixed profile')
            else:
                sc = hi if inv_f and hi < 1e5 else None
                r.leq('flow_bounds', x, f.rmax * s * o, f'{where}: above relative maximum', scale=sc)
                r.leq('flow_bounds', np.maximum(0.0, f.rmin * s) * o if f.onoff is not None else f.rmin * s, x, f'{where}: below relative minimum', scale=sc)
            fh = number(d, 'sumFlowHours')
            if fh is not None:
                r.close('flow_hours', fh, (x * dt).sum(), f'{where}: flow hours', scale=(np.abs(x) * dt).sum())
            fh = (x * dt).sum()
            if f.fl.get('fh_max') is not None:
                r.leq('flow_hours', fh, f.fl['fh_max'], f'{where}: flow hours above maximum')
            if f.fl.get('fh_min') is not None:
                r.leq('flow_hours', f.fl['fh_min'], fh, f'{where}: flow hours below minimum')
            H = dt.sum()
            if f.fl.get('lf_max') is not None:
                r.leq('load_factor', fh, f.fl['lf_max'] * H * s, f'{where}: load factor above maximum')
            if f.fl.get('lf_min') is not None:
                r.leq('load_factor', f.fl['lf_min'] * H * s, fh, f'{where}: load factor below minimum')
            add_op(f.fl.get('eff'), x, dt)
        if bad:
            op_ok = inv_ok = False
            continue
        # component
        xs = {f.label: rate[f.key] for f in comp.flows}
        if comp.onoff is not None:
            o = onoff(comp.onoff, cres, (comp.label,), comp.label, prev_on(comp.flows))
            if o is not None:
                tot = sum(np.abs(x) for x in xs.values())
                any_on = np.max([on[f.key] for f in comp.flows], axis=0)
                r.ok('comp_on', bool(np.all((o == 1) == (any_on == 1))), f'{comp.label}: on={o.tolist()} but flows on={any_on.tolist()}')
                r.ok('comp_on', bool(np.all(tot[o == 0] <= TOL * len(xs))), f'{comp.label}: flows {tot.tolist()} while off')
        if comp.exclusive and all((comp.label, l) in on for l in comp.exclusive):
            both = sum((np.abs(xs[l]) > 2 * TOL).astype(int) for l in comp.exclusive)
            used = np.array([np.any(np.abs(xs[l]) > 1e-6) for l in comp.exclusive])
            r.ok('exclusive', bool(np.all(both <= 1)), f'{comp.label}: {comp.exclusive} used at the same time: {[xs[l].tolist() for l in comp.exclusive]}',
                 nontrivial=bool(used.all()))
        for fac in comp.factors:
            left, right, sc = np.zeros(n), np.zeros(n), np.zeros(n)
            for f in comp.flows:
                if f.label in fac:
                    y = xs[f.label] * vec(fac[f.label], n)
                    sc += np.abs(y)
                    if f.is_input:
                        left += y
                    else:
                        right += y
            r.close('conversion', left, right, f'{comp.label}: conversion {fac}', scale=sc, nontrivial=bool(np.any(sc > 1e-6)))
        if comp.segments:
            _pieces(r, comp, xs, on.get((comp.label,)), n)
        if comp.kind == 'Storage':
            c = comp.c
            cs = series(cres, n + 1, 'charge_state')
            net = series(cres, n, 'netto_discharge')
            cap = c['capacity']
            s = float(cap) if not isinstance(cap, dict) else invest(cap['invest'], cres, (comp.label,), comp.label)
            ch, di = xs[comp.inputs[0].label], xs[comp.outputs[0].label]
            if net is not None:
                r.close('storage_net', net, di - ch, f'{comp.label}: net discharge')
            if cs is not None and s is not None:
                ec, ed, loss = vec(c.get('eta_c', 1), n), vec(c.get('eta_d', 1), n), vec(c.get('loss', 0), n)
                want = cs[:-1] * (1 - loss * dt) + ch * ec * dt - di / ed * dt
                r.close('storage_step', cs[1:], want, f'{comp.label}: charge state after step', scale=np.abs(cs[:-1]) + ch * ec * dt + di / ed * dt,
                        nontrivial=bool(np.any(ch + di > 1e-6)))
                r.leq('storage_bounds', cs, vec(c.get('rmax', 1), n + 1) * s, f'{comp.label}: charge state above maximum')
                r.leq('storage_bounds', vec(c.get('rmin', 0), n + 1) * s, cs, f'{comp.label}: charge state below minimum')
                ini = c.get('initial', 0)
                if ini == 'lastValueOfSim':
                    r.close('storage_cycle', cs[0], cs[-1], f'{comp.label}: first and last charge state')
                elif ini is not None:
                    r.close('storage_start', cs[0], ini, f'{comp.label}: initial charge state')
                if c.get('fmin') is not None:
                    r.leq('storage_end', c['fmin'], cs[-1], f'{comp.label}: final charge state below minimum')
                if c.get('fmax') is not None:
                    r.leq('storage_end', cs[-1], c['fmax'], f'{comp.label}: final charge state above maximum')
        if comp.kind == 'Transmission':
            c = comp.c
            rel, ab = vec(c.get('rel') if c.get('rel') is not None else 0, n), vec(c.get('abs') if c.get('abs') is not None else 0, n)
            for i in range(len(comp.inputs)):
                a, b = comp.inputs[i], comp.outputs[i]
                act = on[a.key] if a.key in on else (np.abs(xs[a.label]) > TOL).astype(float)
                r.close('transmission', xs[b.label], xs[a.label] * (1 - rel) - ab * act, f'{comp.label}: direction {i + 1}',
                        nontrivial=bool(np.any(xs[a.label] > 1e-6)))
            if len(comp.inputs) > 1 and comp.inputs[0].invest is not None:
                r.close('transmission_size', size[comp.inputs[0].key], size[comp.inputs[1].key], f'{comp.label}: sizes of both directions')

    # -------------------------------------------------------------- buses
    used = {f.bus for f in v.flows}
    pen_total, pen_ok = 0.0, True
    for b, info in v.buses.items():
        if b not in used:
            continue
        d = get(res, 'Buses', b)
        if d is None or any(f.key not in rate for f in v.flows if f.bus == b):
            pen_ok = False
            continue
        inflow, outflow = np.zeros(n), np.zeros(n)
        for f in v.flows:
            if f.bus == b:
                if f.is_input:
                    outflow += rate[f.key]
                else:
                    inflow += rate[f.key]
        ei = eo = np.zeros(n)
        if info.get('penalty') is not None:
            ei, eo = series(d, n, 'excess_input'), series(d, n, 'excess_output')
            if ei is None or eo is None:
                pen_ok = False
                continue
            r.leq('excess', 0, ei, f'{b}: negative excess')
            r.leq('excess', 0, eo, f'{b}: negative excess')
            pen_total += (vec(info['penalty'], n) * dt * (ei + eo)).sum()
        else:
            r.ok('excess', not any(k in d and np.any(np.abs(np.asarray(d[k], float)) > TOL) for k in ('excess_input', 'excess_output')), f'{b}: excess on a strict bus')
        r.close('balance', inflow + ei, outflow + eo, f'{b}: in != out', scale=inflow + outflow + ei + eo)

    # -------------------------------------------------------------- effects
    E = get(res, 'Effects')
    if E is None:
        return r
    opts, invs = {}, {}
    for e in v.effects:
        x = series(E, n, e, 'operation', 'operation_sum_TS')
        y = number(E, e, 'invest', 'invest_sum')
        if x is None or y is None:
            op_ok = inv_ok = False
            continue
        opts[e], invs[e] = x, y
    pen = number(E, 'penalty', 'penalty_sum') if 'penalty' in E else None
    if pen_ok:
        r.close('penalty', 0.0 if pen is None else pen, pen_total, 'penalty')
    if len(opts) == len(v.effects):
        # total = own shares + shares of the *totals* of the other effects
        for e in v.effects:
            want_op, sc_op, want_inv, sc_inv = op[e].copy(), op_scale[e].copy(), inv[e], inv_scale[e]
            cross = False
            for o_, info in v.effects.items():
                sh = (info.get('share_op') or {}).get(e)
                if sh is not None:
                    cross = True
                    want_op = want_op + vec(sh, n) * opts[o_]
                    sc_op = sc_op + np.abs(vec(sh, n) * opts[o_])
                sh = (info.get('share_inv') or {}).get(e)
                if sh is not None:
                    want_inv = want_inv + float(sh) * invs[o_]
                    sc_inv += abs(float(sh) * invs[o_])
            if op_ok:
                r.close('operation_effects', opts[e], want_op, f'{e}: effects of operation per step', scale=sc_op)
            if inv_ok:
                _invest_effects(r, e, invs[e], want_inv, sc_inv, seg_choices)
            s = number(E, e, 'operation', 'operation_sum')
            a = number(E, e, 'all', 'all_sum')
            sc = np.abs(opts[e]).sum() + abs(invs[e])
            if s is not None:
                r.close('effect_sums', s, opts[e].sum(), f'{e}: sum over operation', scale=sc)
            if a is not None:
                r.close('effect_sums', a, opts[e].sum() + invs[e], f'{e}: operation + investment', scale=sc)
            # listed shares add up
            for part, want in (('operation', opts[e]), ('invest', invs[e])):
                sh = E[e][part].get('Shares', {})
                tot = 0.0
                for val in sh.values():
                    tot = tot + np.asarray(val, float)
                r.close('effect_sums', np.broadcast_to(tot, np.shape(np.atleast_1d(want))), np.atleast_1d(want), f'{e}: listed {part} shares', scale=sc)
            info = v.effects[e]
            for k, val in (('op', opts[e].sum()), ('inv', invs[e]), ('total', opts[e].sum() + invs[e])):
                if info.get('min_' + k) is not None:
                    r.leq('effect_limits', info['min_' + k], val, f'{e}: min_{k}', scale=sc)
                if info.get('max_' + k) is not None:
                    r.leq('effect_limits', val, info['max_' + k], f'{e}: max_{k}', scale=sc)
            if info.get('min_ph') is not None:
                r.leq('effect_limits', vec(info['min_ph'], n), opts[e] / dt, f'{e}: minimum per hour')
            if info.get('max_ph') is not None:
                r.leq('effect_limits', opts[e] / dt, vec(info['max_ph'], n), f'{e}: maximum per hour')
        obj = number(res, 'Objective')
        if obj is not None and v.objective:
            e = v.objective
            r.close('objective', obj, opts[e].sum() + invs[e] + pen_total, 'objective', scale=np.abs(opts[e]).sum() + abs(invs[e]) + pen_total)
    r.rate, r.on, r.size = rate, on, size
    return r


def _invest_effects(r, e, got, want, scale, seg_choices):
    """pieces may overlap at their ends: any admissible choice of pieces is fine"""
    options = [want]
    for ch in seg_choices:
        vals = {round(c.get(e, 0.0), 9) for c in ch}
        options = [o + x for o in options for x in vals]
        scale += max(abs(x) for x in vals)
        if len(options) > 64:
            break
    best = min(options, key=lambda o: abs(o - got))
    r.close('invest_effects', got, best, f'{e}: effects of investments', scale=scale)


def _pieces(r, comp, xs, on, n):
    k = len(next(iter(comp.segments.values())))
    labels = [f.label for f in comp.flows]
    sc = max(1.0, max(float(np.max(np.abs(np.asarray(p, float)))) for l in labels for ab in comp.segments[l] for p in ab))
    for t in range(n):
        x = np.array([xs[l][t] for l in labels])
        if on is not None and on[t] == 0:
            r.ok('piece', bool(np.all(np.abs(x) <= 2 * TOL)), f'{comp.label}: off at {t} but flows {x.tolist()}', nontrivial=False)
            continue
        best = np.inf
        for i in range(k):
            a = np.array([vec(comp.segments[l][i][0], n)[t] for l in labels])
            b = np.array([vec(comp.segments[l][i][1], n)[t] for l in labels])
            d = b - a
            q = float(d @ d)
            lam = 0.0 if q == 0 else float(np.clip((x - a) @ d / q, 0, 1))
            best = min(best, float(np.max(np.abs(a + lam * d - x))))
        r.ok('piece', best <= 3 * TOL * sc, f'{comp.label}: step {t}: flows {dict(zip(labels, x.tolist()))} on no piece (distance {best:.3g})')

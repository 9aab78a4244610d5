"""Independent reference optimiser: builds its own MILP from a spec (never from the code under test)
and solves it with HiGHS directly.  Its optimal value is the yardstick of the outcome oracle."""

import numpy as np
from scipy import sparse

from .view import BIG, EPS, SysView, invest_bounds, prev_duration, prev_on, vec


# tight tolerances keep solver leakage out of the verdicts
TIGHT = {'mip_feasibility_tolerance': 1e-9, 'primal_feasibility_tolerance': 1e-9, 'dual_feasibility_tolerance': 1e-9}


class Lin(dict):
    """linear expression  {column: coefficient}, constant under key None"""

    def add(self, other, k=1.0):
        for c, v in other.items():
            self[c] = self.get(c, 0.0) + k * v
        return self


def V(col, k=1.0):
    return Lin({col: float(k)})


def C(k):
    return Lin({None: float(k)})


class Milp:
    def __init__(self):
        self.lb, self.ub, self.integer = [], [], []
        self.rows = []  # (Lin, lo, hi)
        self.obj = Lin()
        self.names = {}

    def var(self, n, lb=0.0, ub=np.inf, integer=False, name=None):
        i0 = len(self.lb)
        self.lb.extend(np.broadcast_to(np.asarray(lb, float), (n,)))
        self.ub.extend(np.broadcast_to(np.asarray(ub, float), (n,)))
        self.integer.extend([1 if integer else 0] * n)
        cols = list(range(i0, i0 + n))
        if name is not None:
            self.names[name] = cols
        return cols

    def con(self, lin, lo, hi):
        k = lin.get(None, 0.0)
        self.rows.append(({c: v for c, v in lin.items() if c is not None}, lo - k, hi - k))

    def eq(self, lin, rhs=0.0):
        self.con(lin, rhs, rhs)

    def le(self, lin, rhs=0.0):
        self.con(lin, -np.inf, rhs)

    def solve(self, time_limit=30.0, presolve=False):
        """-> status ('optimal' | 'infeasible' | 'unbounded' | 'limit' | 'other'), objective, values"""
        import highspy

        nv = len(self.lb)
        c = np.zeros(nv)
        for col, v in self.obj.items():
            if col is not None:
                c[col] = v
        r, cc, d, lo, hi = [], [], [], [], []
        for i, (terms, a, b) in enumerate(self.rows):
            for col, v in terms.items():
                r.append(i)
                cc.append(col)
                d.append(v)
            lo.append(a)
            hi.append(b)
        A = sparse.csc_matrix((d, (r, cc)), shape=(len(self.rows), nv))
        h = highspy.Highs()
        for k, v in (('output_flag', False), ('log_to_console', False), ('time_limit', float(time_limit)), ('mip_rel_gap', 1e-9), ('threads', 1),
                     ('presolve', 'on' if presolve else 'off'), *TIGHT.items()):
            h.setOptionValue(k, v)
        lp = highspy.HighsLp()
        lp.num_col_, lp.num_row_ = nv, len(self.rows)
        lp.col_cost_, lp.col_lower_, lp.col_upper_ = c, np.array(self.lb, float), np.array(self.ub, float)
        lp.row_lower_, lp.row_upper_ = np.array(lo, float), np.array(hi, float)
        lp.offset_ = float(self.obj.get(None, 0.0))
        lp.a_matrix_.format_ = highspy.MatrixFormat.kColwise
        lp.a_matrix_.start_, lp.a_matrix_.index_, lp.a_matrix_.value_ = A.indptr, A.indices, A.data
        if any(self.integer):
            lp.integrality_ = [highspy.HighsVarType.kInteger if q else highspy.HighsVarType.kContinuous for q in self.integer]
        h.passModel(lp)
        h.run()
        S = highspy.HighsModelStatus
        st = {S.kOptimal: 'optimal', S.kInfeasible: 'infeasible', S.kUnbounded: 'unbounded', S.kTimeLimit: 'limit',
              S.kUnboundedOrInfeasible: 'infeasible?'}.get(h.getModelStatus(), 'other')
        if st != 'optimal':
            return st, None, None
        return st, float(h.getInfo().objective_function_value), np.array(h.getSolution().col_value)


class Reference:
    """opts: {'equal': [(list of groups of time indices) ...]} used by the aggregation check"""

    def __init__(self, spec):
        self.spec = spec
        self.v = SysView(spec)
        self.m = Milp()
        self.rate, self.on, self.sizes = {}, {}, {}
        self.binaries, self.switches, self.ts_cols = {}, {}, {}  # per component: on, what follows from it, flow rates
        self._build()

    # -------------------------------------------------------------------------------------------
    def _build(self):
        v, m = self.v, self.m
        n = v.n
        self.op = {e: [Lin() for _ in range(n)] for e in v.effects}
        self.inv = {e: Lin() for e in v.effects}
        self.penalty = Lin()
        for comp in v.comps:
            for f in comp.flows:
                self._flow(comp, f)
            self._component(comp)
        self._buses()
        self._effects()

    def _add_op(self, values, cols, factor):
        """sum_t  value(t) * factor(t) * col(t)"""
        n = self.v.n
        fac = vec(factor, n)
        for e, val in self.v.eff_values(values).items():
            val = vec(val, n)
            for t in range(n):
                self.op[e][t].add(V(cols[t], val[t] * fac[t]))

    def _add_inv(self, values, lin, k=1.0):
        for e, val in self.v.eff_values(values).items():
            self.inv[e].add(lin, k * float(val))

    # -------------------------------------------------------------------------------------------
    def _invest(self, key, inv):
        """-> Lin of the size"""
        m = self.m
        lo, hi = invest_bounds(inv)
        optional = inv.get('optional', True)
        if optional:
            s = V(m.var(1, 0, hi, name=('size',) + key)[0])
            b = m.var(1, 0, 1, integer=True, name=('invested',) + key)[0]
            m.le(Lin(s).add(V(b, -hi)))
            m.le(V(b, lo if inv.get('fixed') is not None else max(EPS, lo)).add(s, -1))
            is_inv = V(b)
        else:
            s = V(m.var(1, lo, hi, name=('size',) + key)[0])
            is_inv = C(1)
        self._add_inv(inv.get('fix'), is_inv)
        if optional:
            self._add_inv(inv.get('div'), C(1).add(is_inv, -1))
        self._add_inv(inv.get('spec'), s)
        if inv.get('seg'):
            pts, effs = inv['seg']
            k = len(pts)
            ins = m.var(k, 0, 1, integer=True)
            l0, l1 = m.var(k, 0, 1), m.var(k, 0, 1)
            tot = Lin()
            size = Lin()
            for i in range(k):
                m.eq(V(l0[i]).add(V(l1[i])).add(V(ins[i], -1)))
                tot.add(V(ins[i]))
                size.add(V(l0[i], pts[i][0])).add(V(l1[i], pts[i][1]))
            m.eq(tot.add(is_inv, -1))
            m.eq(size.add(s, -1))
            for e, ys in effs.items():
                for i in range(k):
                    self.inv[e].add(V(l0[i], ys[i][0])).add(V(l1[i], ys[i][1]))
        return s

    def _onoff(self, key, oo, on, prev_states):
        """everything the on/off definition demands, given the binary on(t)"""
        v, m = self.v, self.m
        n, dt = v.n, v.dt
        tot = Lin()
        for t in range(n):
            tot.add(V(on[t], dt[t]))
        lo, hi = oo.get('onh_min'), oo.get('onh_max')
        m.con(tot, 0 if lo is None else lo, np.inf if hi is None else hi)
        # starts
        up = m.var(n, 0, 1, integer=True, name=('up',) + key)
        dn = m.var(n, 0, 1, integer=True)
        self.binaries.setdefault(key[0], []).append(on)
        self.switches.setdefault(key[0], []).extend([up, dn])
        p = prev_states[-1]
        cnt = Lin()
        for t in range(n):
            e = V(up[t]).add(V(dn[t], -1)).add(V(on[t], -1))
            e.add(C(p) if t == 0 else V(on[t - 1]))
            m.eq(e)
            m.le(V(up[t]).add(V(dn[t])), 1)
            cnt.add(V(up[t]))
        if oo.get('sw_max') is not None:
            m.le(cnt, oo['sw_max'])
        self._add_op(oo.get('sw_eff'), up, 1)
        self._add_op(oo.get('run_eff'), on, dt)
        # durations, formulated on patterns
        for val, mn, mx in ((1, oo.get('on_min'), oo.get('on_max')), (0, oo.get('off_min'), oo.get('off_max'))):
            if mn is None and mx is None:
                continue
            pd = prev_duration(prev_states, v.prev_dt, val)

            def differs(t):  # 1 if the state at t is not `val`
                return C(1).add(V(on[t]), -1) if val else V(on[t])

            if val == 0:
                off = m.var(n, 0, 1, integer=True)
                for t in range(n):
                    m.eq(V(off[t]).add(V(on[t])), 1)
                self.switches.setdefault(key[0], []).append(off)
            if mx is not None:
                mxv = vec(mx, n)
                for t in range(n):
                    for s in range(t, n):
                        if dt[t : s + 1].sum() + (pd if t == 0 else 0) > mxv[s] + 1e-6:
                            e = Lin()
                            for i in range(t, s + 1):
                                e.add(differs(i))
                            m.con(e, 1, np.inf)
            if mn is not None:
                mnv = vec(mn, n)
                if 0 < pd < mnv[0] - 1e-9:
                    m.eq(differs(0), 0)
                for t in range(n):
                    for s in range(t, n - 1):
                        if dt[t : s + 1].sum() + (pd if t == 0 else 0) < mnv[s] - 1e-6:
                            e = C(1).add(differs(s + 1), -1)  # 1 if state at s+1 is val
                            if t > 0:
                                e.add(C(1)).add(differs(t - 1), -1)
                            for i in range(t, s + 1):
                                e.add(differs(i))
                            m.con(e, 1, np.inf)

    def _flow(self, comp, f):
        v, m = self.v, self.m
        n, dt = v.n, v.dt
        fl = f.fl
        lo, hi = f.size_bounds()
        prof = f.profile
        if f.invest is None:
            size = C(f.size)
            if f.onoff is None:
                x = m.var(n, f.rmin * f.size, f.rmax * f.size, name=('rate',) + f.key)
            else:
                x = m.var(n, np.minimum(0, f.rmin * f.size), np.maximum(0, f.rmax * f.size), name=('rate',) + f.key)
        else:
            size = self._invest(f.key, f.invest)
            x = m.var(n, 0, np.inf, name=('rate',) + f.key)
            for t in range(n):
                if prof is not None:
                    m.eq(V(x[t]).add(size, -prof[t]))
                else:
                    m.le(V(x[t]).add(size, -f.rmax[t]))
                    if f.onoff is None:
                        m.le(V(x[t], -1).add(size, f.rmin[t]))
        self.rate[f.key] = x
        self.sizes[f.key] = size
        self.ts_cols.setdefault(comp.label, []).append(x)
        if f.onoff is not None:
            on = m.var(n, 0, 1, integer=True, name=('on',) + f.key)
            self.on[f.key] = on
            for t in range(n):
                # on: between max(eps, minimum) and maximum; off: zero
                low = f.rmin[t] * (lo if f.invest is not None else f.size)
                m.le(V(on[t], max(EPS, low)).add(V(x[t], -1)))
                m.le(V(x[t]).add(V(on[t], -f.rmax[t] * hi)))
                if f.invest is not None and prof is None and f.rmin[t] > 0:
                    # rate >= rmin * size whenever on
                    M = f.rmin[t] * hi
                    m.le(V(x[t], -1).add(size, f.rmin[t]).add(V(on[t], M)), M)
            self._onoff(f.key, f.onoff, on, prev_on([f]))
        # sums
        tot = Lin()
        for t in range(n):
            tot.add(V(x[t], dt[t]))
        a, b = fl.get('fh_min'), fl.get('fh_max')
        if a is not None or b is not None:
            m.con(tot, -np.inf if a is None else a, np.inf if b is None else b)
        H = dt.sum()
        if fl.get('lf_max') is not None:
            m.le(Lin(tot).add(size, -H * fl['lf_max']))
        if fl.get('lf_min') is not None:
            m.con(Lin(tot).add(size, -H * fl['lf_min']), 0, np.inf)
        self._add_op(fl.get('eff'), x, dt)

    def _component(self, comp):
        v, m = self.v, self.m
        n, dt = v.n, v.dt
        c = comp.c
        flows = comp.flows
        if comp.onoff is not None:
            on = m.var(n, 0, 1, integer=True, name=('on', comp.label))
            self.on[(comp.label,)] = on
            if len(flows) == 1:
                f = flows[0]
                for t in range(n):  # identical definition as for the flow itself
                    low = f.rmin[t] * (f.size if f.invest is None else f.size_bounds()[0])
                    m.le(V(on[t], max(EPS, low)).add(V(self.rate[f.key][t], -1)))
                    m.le(V(self.rate[f.key][t]).add(V(on[t], -f.rmax[t] * f.size_bounds()[1])))
            else:
                for t in range(n):
                    s, M = Lin(), 0.0
                    for f in flows:
                        s.add(V(self.rate[f.key][t]))
                        M += f.rmax[t] * f.size_bounds()[1]
                    m.le(V(on[t], EPS).add(s, -1))
                    m.le(Lin(s).add(V(on[t], -M)))
            self._onoff((comp.label,), comp.onoff, on, prev_on(flows))
        for t in range(n):
            if comp.exclusive:
                e = Lin()
                for lbl in comp.exclusive:
                    e.add(V(self.on[(comp.label, lbl)][t]))
                m.le(e, 1)
        for fac in comp.factors:
            for t in range(n):
                e = Lin()
                for f in flows:
                    if f.label in fac:
                        e.add(V(self.rate[f.key][t], vec(fac[f.label], n)[t] * (1 if f.is_input else -1)))
                m.eq(e)
        if comp.segments:
            k = len(next(iter(comp.segments.values())))
            for t in range(n):
                ins = m.var(k, 0, 1, integer=True)
                l0, l1 = m.var(k, 0, 1), m.var(k, 0, 1)
                tot = Lin()
                for i in range(k):
                    m.eq(V(l0[i]).add(V(l1[i])).add(V(ins[i], -1)))
                    tot.add(V(ins[i]))
                if comp.onoff is not None:
                    m.eq(tot.add(V(self.on[(comp.label,)][t], -1)))
                else:
                    m.eq(tot, 1)
                for f in flows:
                    e = V(self.rate[f.key][t], -1)
                    for i, (a, b) in enumerate(comp.segments[f.label]):
                        e.add(V(l0[i], vec(a, n)[t])).add(V(l1[i], vec(b, n)[t]))
                    m.eq(e)
        if comp.kind == 'Storage':
            self._storage(comp)
        if comp.kind == 'Transmission':
            rel = vec(c.get('rel') or 0 if not isinstance(c.get('rel'), list) else c['rel'], n)
            ab = vec(c.get('abs') or 0 if not isinstance(c.get('abs'), list) else c['abs'], n)
            for i in range(len(comp.inputs)):
                fi, fo = comp.inputs[i], comp.outputs[i]
                for t in range(n):
                    e = V(self.rate[fi.key][t], 1 - rel[t]).add(V(self.rate[fo.key][t], -1))
                    if np.any(ab != 0):
                        e.add(V(self.on[fi.key][t], -ab[t]))
                    m.eq(e)
            if len(comp.inputs) > 1 and comp.inputs[0].invest is not None:
                m.eq(Lin(self.sizes[comp.inputs[0].key]).add(self.sizes[comp.inputs[1].key], -1))

    def _storage(self, comp):
        v, m = self.v, self.m
        n, dt = v.n, v.dt
        c = comp.c
        rmin = vec(c.get('rmin', 0), n + 1)
        rmax = vec(c.get('rmax', 1), n + 1)
        cap = c['capacity']
        if isinstance(cap, dict):
            s = self._invest((comp.label,), cap['invest'])
            cs = m.var(n + 1, 0, np.inf, name=('cs', comp.label))
            for t in range(n + 1):
                m.le(V(cs[t]).add(s, -rmax[t]))
                m.le(V(cs[t], -1).add(s, rmin[t]))
        else:
            cs = m.var(n + 1, rmin * cap, rmax * cap, name=('cs', comp.label))
        ec, ed, loss = vec(c.get('eta_c', 1), n), vec(c.get('eta_d', 1), n), vec(c.get('loss', 0), n)
        ch, di = self.rate[comp.inputs[0].key], self.rate[comp.outputs[0].key]
        for t in range(n):
            e = V(cs[t + 1]).add(V(cs[t], -(1 - loss[t] * dt[t])))
            e.add(V(ch[t], -ec[t] * dt[t])).add(V(di[t], dt[t] / ed[t]))
            m.eq(e)
        ini = c.get('initial', 0)
        if ini == 'lastValueOfSim':
            m.eq(V(cs[0]).add(V(cs[n], -1)))
        elif ini is not None:
            m.eq(V(cs[0]), ini)
        if c.get('fmin') is not None:
            m.con(V(cs[n]), c['fmin'], np.inf)
        if c.get('fmax') is not None:
            m.le(V(cs[n]), c['fmax'])

    def _buses(self):
        v, m = self.v, self.m
        n, dt = v.n, v.dt
        bal = {b: [Lin() for _ in range(n)] for b in v.buses}
        for f in v.flows:
            for t in range(n):
                bal[f.bus][t].add(V(self.rate[f.key][t], -1 if f.is_input else 1))
        used = {f.bus for f in v.flows}
        for b, info in v.buses.items():
            if b not in used:
                continue
            pen = info.get('penalty')
            if pen is not None:
                pen = vec(pen, n)
                ei, eo = m.var(n, name=('ein', b)), m.var(n, name=('eout', b))
            for t in range(n):
                e = bal[b][t]
                if pen is not None:
                    e.add(V(ei[t])).add(V(eo[t], -1))
                    self.penalty.add(V(ei[t], pen[t] * dt[t])).add(V(eo[t], pen[t] * dt[t]))
                m.eq(e)

    def _effects(self):
        v, m = self.v, self.m
        n, dt = v.n, v.dt
        ts = {e: m.var(n, -np.inf, np.inf, name=('op', e)) for e in v.effects}
        iv = {e: m.var(1, -np.inf, np.inf, name=('inv', e))[0] for e in v.effects}
        for e, info in v.effects.items():
            for o, oinfo in v.effects.items():
                sh = (oinfo.get('share_op') or {}).get(e)
                if sh is not None:
                    sh = vec(sh, n)
                    for t in range(n):
                        self.op[e][t].add(V(ts[o][t], sh[t]))
                sh = (oinfo.get('share_inv') or {}).get(e)
                if sh is not None:
                    self.inv[e].add(V(iv[o], float(sh)))
        for e, info in v.effects.items():
            tot = Lin()
            for t in range(n):
                m.eq(self.op[e][t].add(V(ts[e][t], -1)))
                tot.add(V(ts[e][t]))
            m.eq(self.inv[e].add(V(iv[e], -1)))
            for key, lin in (('op', tot), ('inv', V(iv[e])), ('total', Lin(tot).add(V(iv[e])))):
                a, b = info.get('min_' + key), info.get('max_' + key)
                if a is not None or b is not None:
                    m.con(lin, -np.inf if a is None else a, np.inf if b is None else b)
            for key in ('min_ph', 'max_ph'):
                if info.get(key) is not None:
                    lim = vec(info[key], n) * dt
                    for t in range(n):
                        m.con(V(ts[e][t]), *((lim[t], np.inf) if key == 'min_ph' else (-np.inf, lim[t])))
            if e == v.objective:
                m.obj.add(tot).add(V(iv[e]))
        m.obj.add(self.penalty)

    def solve(self, **kw):
        return self.m.solve(**kw)

"""Transformations of specs."""

import copy

import numpy as np

from .view import is_ts, spec_dt

SKIP = {'prev', 'prev_dt', 't', 'seg', 'time', 'deps', 'exclusive'}


def _is_num_list(v):
    return isinstance(v, list) and v and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v)


def map_ts(spec, fn, n=None):
    """applies fn(list) to every time series of length n in the spec (in place); returns how many"""
    n = n or len(spec['time']['t'])
    k = 0

    def walk(d, key=None):
        nonlocal k
        if isinstance(d, dict):
            for q in list(d):
                if q in SKIP:
                    continue
                if _is_num_list(d[q]) and len(d[q]) == n:
                    d[q] = fn(d[q])
                    k += 1
                else:
                    walk(d[q], q)
        elif isinstance(d, list):
            for i, x in enumerate(d):
                if _is_num_list(x) and len(x) == n:
                    d[i] = fn(x)
                    k += 1
                elif isinstance(x, (dict, list)):
                    walk(x, key)

    walk({'buses': spec['buses'], 'effects': spec['effects'], 'comps': spec['comps']})
    return k


def slice_spec(spec, idx):
    """the same system defined on the selected (contiguous) steps only"""
    idx = list(idx)
    out = copy.deepcopy(spec)
    dt = spec_dt(spec)
    n = len(dt)
    t = spec['time']
    map_ts(out, lambda v: [v[i] for i in idx], n)
    for c in out['comps']:
        if c['kind'] == 'Storage':
            for k in ('rmin', 'rmax'):  # one more value, for the end
                if is_ts(c.get(k)):
                    c[k] = [c[k][i] for i in idx] + [c[k][idx[-1] + 1]]
    out['time'] = dict(t)
    out['time']['t'] = [t['t'][i] for i in idx]
    out['time']['last'] = float(dt[idx[-1]])
    if t.get('prev_dt') is None:
        out['time']['prev_dt'] = float(dt[0])
    return out

"""Registry of the checks."""

import importlib


def registry():
    out = {}
    for name in ('systems', 'histories', 'modes', 'times', 'files', 'model', 'inputs', 'plots', 'reports'):
        try:
            m = importlib.import_module(f'{__name__}.{name}')
        except ModuleNotFoundError as e:
            if e.name != f'{__name__}.{name}':
                raise
            continue
        for p in m.PROPS:
            out[p.id] = p
    return out


def get(pid):
    return registry()[pid]

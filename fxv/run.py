"""Runs the code under test on a spec, records what it returned or which exception ended it."""

import contextlib
import logging
import os
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('FXV_REPO', '/repo')


def setup_process(base=None):
    """import the code under test from /repo, in a scratch directory, silently"""
    sys.dont_write_bytecode = True
    for k in ('DISPLAY',):
        os.environ.pop(k, None)
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['BROWSER'] = 'true'
    d = base or tempfile.mkdtemp(prefix='fxv_')
    os.chdir(d)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import flixOpt  # noqa: F401

    tighten_solver()

    if not os.path.abspath(flixOpt.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f'flixOpt imported from {flixOpt.__file__}, not from {REPO}')
    return d


# options forced upon every HiGHS run of the code under test (an environment setting, not a change of the code)
FORCED = {'presolve': 'off', 'mip_feasibility_tolerance': 1e-9, 'primal_feasibility_tolerance': 1e-9,
          'dual_feasibility_tolerance': 1e-9}


ASKED = {}     # the options that the code under test passed to HiGHS (first after it was emptied)


def tighten_solver():
    """the interface to HiGHS (pyomo, not flixOpt) solves with tight tolerances and without presolve: presolve of
    this HiGHS version returns wrong answers for models with tiny coefficients (see DESIGN.md)"""
    from pyomo.contrib.appsi import solvers

    if getattr(solvers.Highs, '_fxv', False):
        return
    base = solvers.Highs

    class Highs(base):
        _fxv = True

        @property
        def highs_options(self):
            return base.highs_options.fget(self)

        @highs_options.setter
        def highs_options(self, val):
            val = dict(val)
            if not ASKED:
                ASKED.update(val)
            val.update(FORCED)
            base.highs_options.fset(self, val)

    solvers.Highs = Highs


@contextlib.contextmanager
def silent():
    """the solver writes to file descriptor 1"""
    sys.stdout.flush()
    saved = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    try:
        with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f):
            yield
    finally:
        os.dup2(saved, 1)
        os.close(saved)


def solver(time_limit=40, gap=1e-9):
    from flixOpt.solvers import HighsSolver

    return HighsSolver(mip_gap=gap, time_limit_seconds=time_limit, solver_output_to_console=False, threads=1)


class Outcome:
    """status: 'ok' | 'raised'; stage: 'define' | 'model' | 'solve' | 'results'"""

    def __init__(self):
        self.status, self.stage, self.exc, self.tb = 'raised', 'define', None, ''
        self.built = self.calc = self.results = None
        self.seconds = 0.0

    @property
    def error(self):
        return f'{self.stage}: {type(self.exc).__name__}: {self.exc}'[:400]


def run_full(spec, time_indices=None, order_seed=None, mode=None, save=False, time_limit=40, name='calc', built=None,
             hook=None):
    import flixOpt as fx

    from .build import build

    o = Outcome()
    t0 = time.time()
    try:
        with silent():
            o.built = built or build(spec, order_seed=order_seed, mode=mode)
            o.stage = 'model'
            o.calc = fx.FullCalculation(name, o.built.system, time_indices=time_indices)
            o.calc.do_modeling()
            if hook:
                hook(o)
            o.stage = 'solve'
            o.calc.solve(solver(time_limit), save_results=save)
            o.stage = 'results'
            o.results = o.calc.results()
        o.status = 'ok'
    except BaseException as e:  # includes pyomo's own exceptions; the verdict is made by the caller
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        o.exc, o.tb = e, traceback.format_exc()
    o.seconds = time.time() - t0
    return o


@contextlib.contextmanager
def received():
    """what arrives at the solver: [(constraints, variables)] of every model that HiGHS is given"""
    import pyomo.environ as pyo
    from pyomo.contrib.appsi import solvers

    log = []
    cls = solvers.Highs
    solve = cls.solve

    def tapped(self, model, *a, **k):
        log.append((sum(1 for _ in model.component_data_objects(pyo.Constraint, active=True)), sum(1 for _ in model.component_data_objects(pyo.Var))))
        return solve(self, model, *a, **k)

    cls.solve = tapped
    try:
        yield log
    finally:
        cls.solve = solve

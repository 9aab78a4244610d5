"""Figures: what is drawn is what was given."""

import datetime as dtm
import math
import os
import pathlib
import re
import shutil
import tempfile
import traceback

import numpy as np

from .. import run
from ..gen import Gen
from ..oracle import Verdict
from ..view import SysView
from .base import Prop
from .systems import CONV

PAIRS = [('YS', 'W'), ('YS', 'D'), ('YS', 'h'), ('MS', 'D'), ('MS', 'h'), ('W', 'D'), ('W', 'h'), ('D', 'h'), ('D', '15min'), ('h', '15min'), ('h', 'min')]
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
STEP = {'min': 60, '15min': 900, 'h': 3600, 'D': 86400, 'W': 7 * 86400}


def _nan_equal(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))


def stamps(x):
    """datetimes of an axis, whatever the library made of it"""
    import pandas as pd

    return [pd.Timestamp(v).to_pydatetime() for v in np.asarray(x).tolist()] if np.asarray(x).dtype.kind != 'M' else np.asarray(x).astype('datetime64[us]').tolist()


def same_axis(got, want):
    """want: a pandas Index"""
    if len(got) != len(want):
        return False
    if want.dtype.kind == 'M':
        return stamps(got) == np.asarray(want).astype('datetime64[us]').tolist()
    return [float(v) for v in got] == [float(v) for v in want]


# ------------------------------------------------------------------ heat maps, arranged independently
def bucket(t, step):
    if step == 'W':     # weeks end with Sunday
        d = t.date() - dtm.timedelta(days=t.weekday())
        return dtm.datetime(d.year, d.month, d.day)
    s = STEP[step]
    day = dtm.datetime(t.year, t.month, t.day)
    return day if s == 86400 else day + dtm.timedelta(seconds=int((t - day).total_seconds() // s) * s)


def week_of_year(t):
    """weeks start on Monday; days before the first Monday are week 0"""
    jan1 = dtm.datetime(t.year, 1, 1)
    return ((t - jan1).days + jan1.weekday()) // 7 + (0 if jan1.weekday() else 1)


def place(b, periods, step):
    """bucket -> (sortable period, numbers its label shows), (sortable step, numbers, weekday)"""
    y, mo, d, h, mi = b.year, b.month, b.day, b.hour, b.minute
    doy = (b - dtm.datetime(y, 1, 1)).days + 1
    per = {'YS': (y,), 'MS': (y, mo), 'W': (y, week_of_year(b)), 'D': (y, mo, d), 'h': (y, mo, d, h)}[periods]
    if periods == 'YS':
        if step == 'W':     # a week belongs to the year of its Sunday
            per = ((b + dtm.timedelta(days=6)).year,)
        st = {'W': (week_of_year(b + dtm.timedelta(days=6)),), 'D': (doy,), 'h': (doy, h)}[step]
    elif periods == 'MS':
        st = {'D': (d,), 'h': (d, h)}[step]
    elif periods == 'W':
        st = {'D': (b.isoweekday(),), 'h': (b.isoweekday(), h)}[step]
    elif periods == 'D':
        st = {'h': (h,), '15min': (h, mi)}[step]
    else:
        st = (mi,)
    return per, st


def arranged(times, values, periods, step, fill):
    """-> periods in order, steps in order, {(period, step): value}"""
    groups = {}
    for t, x in zip(times, values):
        groups.setdefault(bucket(t, step), []).append(x)
    lo, hi = min(groups), max(groups)
    order, b = [], lo
    while b <= hi:
        order.append(b)
        b += dtm.timedelta(seconds=STEP[step])
    mean = []
    for b in order:
        xs = [x for x in groups.get(b, []) if not math.isnan(x)]
        mean.append(math.fsum(xs) / len(xs) if xs else math.nan)
    if fill == 'ffill':
        for i in range(1, len(mean)):
            if math.isnan(mean[i]):
                mean[i] = mean[i - 1]
    elif fill == 'bfill':
        for i in range(len(mean) - 2, -1, -1):
            if math.isnan(mean[i]):
                mean[i] = mean[i + 1]
    cells = {}
    for b, x in zip(order, mean):
        key = place(b, periods, step)
        if key in cells:
            return None     # two buckets share a cell: not decided here
        cells[key] = x
    return sorted({k[0] for k in cells}), sorted({k[1] for k in cells}), cells


def numbers(label):
    return [int(x) for x in re.findall(r'\d+', str(label))]


def contains(have, want):
    i = 0
    for x in have:
        if i < len(want) and x == want[i]:
            i += 1
    return i == len(want)


class Plots(Prop):
    id = 'C24'
    quick, thorough = 2000, 24000
    deciding = ('plotly', 'matplotlib', 'arranged', 'heat_map', 'reshaped', 'operation', 'network', 'unchanged', 'files')
    rule = ('random data frames (hours, dates, irregular axes, every sign, gaps, tiny values, one row or column) and every mode and option of the plotting functions, and the plots of '
            'loaded results; every trace, bar, line and cell of the figure is read back and compared with the data; non-trivial: the compared data has non-zero numbers')

    def case(self, seed, i, tier):
        rng = self.rng(seed, i)
        what = ['plotly', 'mpl', 'heat', 'heat', 'plotly', 'mpl', 'heat', 'plotly', 'reshape', 'operation'][i % 10]
        c = {'what': what, 'seed': rng.randrange(10**9)}
        if what in ('plotly', 'mpl'):
            n = rng.choice([1, 2, 3, 5, 8, rng.randint(9, 60)])
            m = rng.choice([1, 2, 3, 4, rng.randint(5, 9)])
            axis = rng.choice(['int', 'float', 'date', 'date', 'uneven', 'offset'])
            c.update(n=n, m=m, axis=axis, kinds=[rng.choice(['pos', 'pos', 'neg', 'neg', 'mixed', 'zero', 'tiny', 'int', 'const', 'late']) for _ in range(m)],
                     gaps=rng.random() < 0.15, labels=rng.choice(['plain', 'odd', 'num']),
                     mode=rng.choice(['bar', 'line', 'area', 'area'] if what == 'plotly' else ['bar', 'bar', 'line']),
                     colors=rng.choice(['viridis', 'plasma', 'list']), existing=rng.random() < 0.25,
                     out=rng.choice([None] * 12 + ['save', 'show', 'save_path']))
        elif what == 'heat':
            p, s = rng.choice(PAIRS)
            c.update(periods=p, step=s, fill=rng.choice([None, None, 'ffill', 'bfill']), draw=rng.choice([None, None, 'plotly', 'mpl']), gaps=rng.random() < 0.3,
                     res=rng.choice(['step', 'step', 'finer', 'coarser', 'random']), shuffle=rng.random() < 0.1, cols=rng.choice([1, 1, 2]), categorical=rng.random() < 0.8,
                     out=rng.choice([None] * 12 + ['save', 'show', 'save_path']))
        elif what == 'reshape':
            c.update(n=rng.choice([1, 2, rng.randint(3, 60)]), k=rng.choice([1, 2, 3, 7, 24]), dtype=rng.choice(['float', 'int', 'float32', 'bool']))
        else:
            g = Gen(rng, kinds=dict(CONV, Storage=4, Transmission=1, SourceAndSink=1), comps=(1, 3), strict=0.1, n=(4, 8), uneven=0.3, long=0, zero_penalty=0.05, ts=0.8)
            c.update(spec=g.system(), flags=[rng.random() for _ in range(12)])
        return c

    def check(self, case):
        v = Verdict()
        base = tempfile.mkdtemp(prefix='plots', dir=os.getcwd())
        cwd = os.getcwd()
        os.chdir(base)
        import matplotlib.pyplot as plt
        import plotly.offline

        opened = self.opened = []
        import webbrowser

        saved = webbrowser.open, webbrowser.get
        webbrowser.open = lambda url, *a, **k: opened.append(url) or True

        class Browser:
            def open(self, url, *a, **k):
                opened.append(url)
                return True

            open_new = open_new_tab = open

        webbrowser.get = lambda *a, **k: Browser()
        try:
            v.tag('what ' + case['what'] + ' ' + str(case.get('mode', case.get('periods', ''))))
            try:
                with run.silent():
                    getattr(self, '_' + case['what'])(case, v, base)
            except Exception as e:
                v.bad(f'{case["what"]} raised {type(e).__name__}', traceback.format_exc()[-1600:])
            return v
        finally:
            webbrowser.open, webbrowser.get = saved
            plt.close('all')
            os.chdir(cwd)
            shutil.rmtree(base, ignore_errors=True)

    # ------------------------------------------------------------ data
    def frame(self, case):
        import random

        import pandas as pd

        rng = random.Random(case['seed'])
        n, m = case['n'], case['m']
        ax = case['axis']
        if ax == 'int':
            idx = pd.Index(range(n))
        elif ax == 'float':
            x, xs = rng.uniform(-3, 3), []
            for _ in range(n):
                xs.append(x)
                x += rng.choice([0.25, 0.5, 1, 1.75])
            idx = pd.Index(xs)
        elif ax == 'offset':
            idx = pd.Index([10 + 3 * k for k in range(n)])
        else:
            t, ts = pd.Timestamp('2020-03-28 20:00') + pd.Timedelta(minutes=rng.choice([0, 7, 30])), []
            for _ in range(n):
                ts.append(t)
                t += pd.Timedelta(minutes=60 if ax == 'date' else rng.choice([15, 60, 90, 1440]))
            idx = pd.DatetimeIndex(ts)
        odd = ['Wärme (th)', 'a__b', '', 'Excess Input', '<b>x</b>', '%s', 'Σ', 'x' * 60, '1', '-']
        cols = {}
        for j, kind in enumerate(case['kinds']):
            lab = {'plain': f'flow{j}', 'odd': odd[j % len(odd)] + (str(j) if j >= len(odd) else ''), 'num': f'{j}'}[case['labels']]
            if case['labels'] == 'odd' and lab == '' and rng.random() < 1:
                lab = ' x'
            pos = [rng.choice([0, 0.5, rng.uniform(0.1, 40), 3e4]) for _ in range(n)]
            if kind == 'pos':
                x = pos
            elif kind == 'neg':
                x = [-p for p in pos]
            elif kind == 'mixed':
                x = [p * rng.choice([1, -1]) for p in pos]
            elif kind == 'zero':
                x = [0.0] * n
            elif kind == 'tiny':
                x = [rng.choice([1e-7, -1e-7, 0.0, 9e-6, -4e-6, rng.choice([p, -p, p])]) for p in pos]
            elif kind == 'int':
                x = [rng.randint(-4, 9) if rng.random() < 0.3 else rng.randint(0, 9) for _ in range(n)]
            elif kind == 'const':
                x = [rng.choice([1.0, 7.25])] * n
            else:
                x = [0.0] * (n - 1) + [rng.choice([5.0, -5.0])]
            if case['gaps'] and kind != 'int' and n > 2:
                x = [math.nan if rng.random() < 0.2 else v for v in x]
            cols[lab] = np.array(x, dtype=int if kind == 'int' else float)
        df = pd.DataFrame(cols, index=idx)
        if rng.random() < 0.3:
            df = df.astype(float)
        return df

    def colors(self, case, m):
        if case['colors'] != 'list':
            return case['colors']
        return [f'#{(37 * (k + 1) * 65537 + 4099 * k) % 0xFFFFFF:06x}' for k in range(m)]

    def unchanged(self, v, before, df):
        import pandas as pd

        v.count('unchanged', nontrivial=1)
        try:
            pd.testing.assert_frame_equal(before, df)
        except AssertionError as e:
            v.bad('data changed by plotting', e)
            return False
        return True

    def busy(self, df):
        return 1 if bool((df.fillna(0) != 0).to_numpy().any()) else 0

    def out(self, case, base, suffix, kw, engine):
        """-> path to be written, or None"""
        o = case['out']
        if o is None:
            return None
        p = os.path.join(base, f'bild ü.{suffix}')
        kw['path'] = pathlib.Path(p) if o == 'save_path' else p
        if engine == 'plotly':
            kw['show' if o == 'show' else 'save'] = True
        elif o == 'show':
            kw['show'] = True
        return p

    def written(self, v, base, path, show=False):
        v.count('files')
        if bool(self.opened) != bool(show):
            v.bad('files', f'show={show}, opened in the browser: {self.opened}')
            return False
        have = sorted(os.path.join(r, f) for r, _, fs in os.walk(base) for f in fs if f != 'flixOpt.log')
        v.count('files', nontrivial=1 if path else 0)
        if path is None:
            return True if not have else bool(v.bad('files', f'nothing was to be saved, but there is {have}')) and False
        if have != [path] or os.path.getsize(path) < 500:
            v.bad('files', f'{path} was to be saved, there is {have}')
            return False
        with open(path, 'rb') as f:
            head = f.read(8)
        if path.endswith('.png') and not head.startswith(b'\x89PNG'):
            v.bad('files', 'no png')
            return False
        return True

    # ------------------------------------------------------------ plotly
    def _plotly(self, case, v, base):
        import plotly.graph_objects as go

        from flixOpt import plotting

        df = self.frame(case)
        before = df.copy(deep=True)
        kw = {'mode': case['mode'], 'colors': self.colors(case, case['m'])}
        old = None
        if case['existing']:
            old = go.Figure(go.Scatter(x=[1, 2], y=[3, 4], name='earlier'))
            kw['fig'] = old
        path = self.out(case, base, 'html', kw, 'plotly')
        kw0 = list(kw['colors']) if isinstance(kw['colors'], list) else None
        fig = plotting.with_plotly(df, title='T', ylabel='Y', **kw)
        if not self.unchanged(v, before, df):
            return
        if kw0 is not None and kw['colors'] != kw0:
            v.bad('data changed by plotting', 'the list of colours')
            return
        if old is not None and len(fig.data) and fig.data[0].name != 'earlier':
            v.bad('earlier traces', 'what the given figure showed is gone')
            return
        self.traces(v, fig, before, case['mode'], 1 if case['existing'] else 0, kw0)
        if v.status == 'held' and old is not None:
            if fig is not old or list(fig.data[0].y) != [3, 4] or list(fig.data[0].x) != [1, 2]:
                v.bad('earlier traces', 'the given figure was not extended')
        if v.status == 'held':
            self.written(v, base, path, case['out'] == 'show')
            if v.status == 'held' and case['existing'] and case['seed'] % 5 == 0:
                again = plotting.with_plotly(before.iloc[:, :0], fig=fig, mode=case['mode'])
                if again is not fig or len(again.data) != len(before.columns) + 1:
                    v.bad('earlier traces', 'nothing was to be added, and what the given figure showed is gone')

    def traces(self, v, fig, df, mode, skip=0, colors=None, deciding='plotly'):
        tr = list(fig.data)[skip:]
        v.count(deciding, df.size, df.size if self.busy(df) else 0)
        names = sorted(str(t.name) for t in tr)
        if names != sorted(map(str, df.columns)):
            return v.bad('traces', f'{mode}: drawn {names}, given {sorted(map(str, df.columns))}')
        by = {str(t.name): t for t in tr}
        for k, c in enumerate(df.columns):
            t = by[str(c)]
            y = df[c].to_numpy(float)
            tol = 1.0001e-5 if mode == 'area' else 0.0
            if not same_axis(list(t.x), df.index):
                return v.bad('trace position', f'{mode} {c}: x = {list(t.x)[:6]} instead of {list(df.index)[:6]}')
            got = np.asarray([math.nan if a is None else a for a in t.y], float)
            if not _nan_equal(got, y, tol) or not np.all((np.abs(got - y) == 0) | np.isnan(y) | (np.abs(y) < 1.0001e-5)):
                return v.bad('trace values', f'{mode} {c}: {list(got)[:12]} instead of {list(y)[:12]}')
            if t.visible not in (None, True):
                return v.bad('traces', f'{c} is hidden')
            if mode == 'bar':
                if t.type != 'bar' or t.base is not None or t.orientation not in (None, 'v'):
                    return v.bad('traces', f'{c}: no bars')
            else:
                if t.type not in ('scatter', 'scattergl') or 'lines' not in (t.mode or ''):
                    return v.bad('traces', f'{c}: no line')
                if t.line.shape != 'hv':
                    return v.bad('steps', f'{mode} {c}: the value of a step is not drawn from its time stamp to the next one (shape {t.line.shape})')
            if colors:
                have = t.marker.color if mode == 'bar' else t.line.color
                if have != colors[k]:
                    return v.bad('colours', f'{c}: {have} instead of {colors[k]}')
        signs = {}
        for c in df.columns:
            y = df[c].to_numpy(float).copy()
            y[np.abs(y) < 1e-5] = 0
            gap = bool(np.isnan(y).any())
            signs[str(c)] = '?' if gap else 0 if not y.any() else 1 if (y >= 0).all() else -1 if (y <= 0).all() else 'mixed'
        if mode == 'bar' and len(signs):
            if fig.layout.barmode != 'relative' and not (fig.layout.barmode == 'stack' and set(signs.values()) <= {0, 1}):
                return v.bad('stacking', f'bars are not stacked by sign: {fig.layout.barmode}')
        elif mode == 'line':
            if any(t.stackgroup for t in tr):
                return v.bad('stacking', 'lines are stacked')
        else:
            groups = {}
            for c, s in signs.items():
                g = by[c].stackgroup
                if s == 'mixed' and g:
                    return v.bad('stacking', f'{c} has both signs and is stacked')
                if s in (1, -1) and not g:
                    return v.bad('stacking', f'{c} is not stacked')
                if s in (1, -1):
                    groups.setdefault(g, set()).add(s)
            if any(len(s) > 1 for s in groups.values()):
                return v.bad('stacking', f'positive and negative series in one stack: {groups}')
            if len(groups) > len({s for s in signs.values() if s in (1, -1)}):
                return v.bad('stacking', f'series of one sign in several stacks: {groups}')
        return None

    # ------------------------------------------------------------ matplotlib
    def _mpl(self, case, v, base):
        import matplotlib.pyplot as plt

        from flixOpt import plotting

        df = self.frame(case)
        before = df.copy(deep=True)
        kw = {'mode': case['mode'], 'colors': self.colors(case, case['m'])}
        if case['existing']:
            kw['fig'], kw['ax'] = plt.subplots()
        path = self.out(case, base, 'png', kw, 'mpl')
        saved = plt.show
        plt.show = lambda *a, **k: None
        try:
            fig, ax = plotting.with_matplotlib(df, **kw)
        finally:
            plt.show = saved
        if not self.unchanged(v, before, df):
            return
        if case['existing'] and (fig is not kw['fig'] or ax is not kw['ax']):
            v.bad('figure', 'the given figure was not used')
            return
        self.drawn(v, ax, before, case['mode'])
        if v.status == 'held':
            self.written(v, base, path)

    def drawn(self, v, ax, df, mode, deciding='matplotlib'):
        import matplotlib.dates as md

        v.count(deciding, df.size, df.size if self.busy(df) else 0)
        x = md.date2num(df.index.to_pydatetime()) if df.index.dtype.kind == 'M' else np.asarray(df.index, float)
        handles, labels = ax.get_legend_handles_labels()
        if sorted(labels) != sorted(str(c) for c in df.columns):
            return v.bad('legend', f'{labels} instead of {list(df.columns)}')
        if mode == 'line':
            by = {}
            for ln in ax.get_lines():
                if str(ln.get_label()) in labels:
                    by.setdefault(str(ln.get_label()), []).append(ln)
            for c in df.columns:
                ls = by.get(str(c), [])
                if len(ls) != 1:
                    return v.bad('lines', f'{c} is drawn {len(ls)} times')
                ln = ls[0]
                gx = ax.convert_xunits(ln.get_xdata(orig=True))
                if not np.allclose(np.asarray(gx, float), x, rtol=0, atol=1e-9) or not _nan_equal(ln.get_ydata(orig=True), df[c].to_numpy(float)):
                    return v.bad('line values', f'{c}: {list(ln.get_ydata())[:10]} instead of {list(df[c])[:10]}')
                if ln.get_drawstyle() != 'steps-post':
                    return v.bad('steps', f'{c}: {ln.get_drawstyle()}')
            return None
        # bars: the pieces of every series at every place; stacked away from zero
        color = {}
        for h, lab in zip(handles, labels):
            color[lab] = tuple(np.round((h.patches[0] if hasattr(h, 'patches') else h).get_facecolor(), 6))
        step = np.diff(x)
        width = float(step.min()) if len(step) else None
        pieces = {k: [] for k in range(len(x))}
        for cont in ax.containers:
            for r in cont.patches:
                h = r.get_height()
                if not np.isfinite([h, r.get_y()]).all() or h == 0:
                    continue     # not visible
                mid = r.get_x() + r.get_width() / 2
                k = int(np.argmin(np.abs(x - mid)))
                if abs(x[k] - mid) > 1e-6 * max(1.0, abs(mid)) * 0.01 + 1e-7:
                    return v.bad('bar position', f'a bar is at {mid}, next to the step at {x[k]}')
                if width is not None and r.get_width() > width * (1 + 1e-6) + 1e-9:
                    return v.bad('bar width', f'bars of width {r.get_width()} overlap, steps are {width}')
                a, b = r.get_y(), r.get_y() + h
                pieces[k].append((min(a, b), max(a, b), np.sign(h), tuple(np.round(r.get_facecolor(), 6)), h))
        for k in range(len(x)):
            row = df.iloc[k].to_numpy(float)
            have = sorted(((p[3], round(p[4], 6)) for p in pieces[k]), key=repr)
            want = sorted(((color[str(c)], round(float(y), 6)) for c, y in zip(df.columns, row) if np.isfinite(y) and y != 0 and round(float(y), 6)), key=repr)
            have = [p for p in have if p[1]]
            if [(a, b) for a, b in have] != want:
                return v.bad('bar values', f'step {k}: bars {[p[1] for p in have]} for {dict(zip(df.columns, row))}')
            for sign in (1, -1):
                level = 0.0
                for a, b, s, _, h in sorted((p for p in pieces[k] if p[2] == sign), key=lambda p: sign * (p[0] + p[1])):
                    near, far = (a, b) if sign > 0 else (b, a)
                    if abs(near - level) > 1e-6 * max(1, abs(level)):
                        return v.bad('stacking', f'step {k}: a bar starts at {near}, not on top of the one before ({level})')
                    level = far
        return None

    # ------------------------------------------------------------ heat maps
    def series(self, case):
        import random

        import pandas as pd

        rng = random.Random(case['seed'])
        p, s = case['periods'], case['step']
        dt = STEP[s]
        per = {'YS': 365 * 86400, 'MS': 30 * 86400, 'W': 7 * 86400, 'D': 86400, 'h': 3600}[p]
        span = min(per * rng.choice([0.3, 1, 1.5, 2.6]), dt * 900)
        if case['res'] == 'finer':
            dt, span = dt // rng.choice([2, 3, 4]) if s != 'min' else 20, min(span, dt * 200)
        elif case['res'] == 'coarser':
            dt *= rng.choice([2, 3])
        n = max(2, int(span // dt))
        t = dtm.datetime(rng.choice([2019, 2020, 2021]), rng.randint(1, 9 if p != 'YS' else 3), rng.randint(1, 28), rng.randint(0, 23), rng.choice([0, 0, 15, 30, 7]))
        if p == 'YS' and s in ('D', 'h') and rng.random() < 0.5:
            t = dtm.datetime(t.year, rng.choice([11, 12]), rng.randint(1, 28), t.hour)     # across the turn of the year
        ts = []
        for _ in range(n):
            ts.append(t)
            t += dtm.timedelta(seconds=dt if case['res'] != 'random' else rng.choice([dt, dt, dt * 2, max(1, dt // 2), dt * 5]))
        vals = [rng.choice([0.0, 1.0, rng.uniform(-30, 30), rng.uniform(0, 5)]) for _ in ts]
        if case['gaps']:
            vals = [math.nan if rng.random() < 0.25 else x for x in vals]
        data = {'value': vals}
        if case['cols'] == 2:
            data['other'] = [rng.uniform(100, 200) for _ in ts]
        df = pd.DataFrame(data, index=pd.DatetimeIndex(ts))
        if case['shuffle']:
            order = list(range(len(df)))
            rng.shuffle(order)
            df = df.iloc[order]
        return df

    def _heat(self, case, v, base):
        from flixOpt import plotting

        df = self.series(case)
        before = df.copy(deep=True)
        p, s, fill = case['periods'], case['step'], case['fill']
        pairs = sorted(zip(before.index.to_pydatetime(), before['value']))
        want = arranged([t for t, _ in pairs], [float(x) for _, x in pairs], p, s, fill)
        if want is None:
            v.say('void', 'two steps in one cell')
            return
        out = plotting.heat_map_data_from_df(df, p, s, fill) if fill or case['seed'] % 2 else plotting.heat_map_data_from_df(df=df, periods=p, steps_per_period=s)
        if not self.unchanged(v, before, df):
            return
        self.arranged(v, out, want, p, s)
        if v.status != 'held' or not case['draw']:
            return
        kw = {}
        path = self.out(case, base, 'html' if case['draw'] == 'plotly' else 'png', kw, case['draw'])
        if out.shape[1] * out.shape[0] > 1500 and case['draw'] == 'mpl':
            out = out.iloc[:40, :30]
        before = out.copy(deep=True)
        self.heat_figure(v, out, case['draw'], case['categorical'], kw)
        if v.status == 'held' and self.unchanged(v, before, out):
            self.written(v, base, path, case['out'] == 'show' and case['draw'] == 'plotly')

    def arranged(self, v, out, want, p, s, deciding='arranged'):
        periods, steps, cells = want
        v.count(deciding, len(cells), sum(1 for x in cells.values() if x == x and x))
        if out.shape != (len(steps), len(periods)):
            return v.bad('arranged', f'{p}/{s}: {out.shape[0]} steps of {out.shape[1]} periods instead of {len(steps)} of {len(periods)}: {list(out.index)[:4]}, {list(out.columns)[:4]}')
        for lab, key in zip(out.columns, periods):
            if not contains(numbers(lab), key):
                return v.bad('arranged', f'{p}/{s}: period {key} is labelled {lab!r} or not in order')
        for lab, key in zip(out.index, steps):
            if s in ('D', 'h') and p == 'W':
                if DAYS[key[0] - 1][:3] not in str(lab) or not contains(numbers(lab), key[1:]):
                    return v.bad('arranged', f'{p}/{s}: step {key} is labelled {lab!r} or not in order')
            elif not contains(numbers(lab), key):
                return v.bad('arranged', f'{p}/{s}: step {key} is labelled {lab!r} or not in order')
            if re.search(r'\d\d:\d\d[A-Za-z]', str(lab)):
                return v.bad('label', f'{p}/{s}: step {key} is labelled {lab!r}')
        got = out.to_numpy(float)
        for a, st in enumerate(steps):
            for b, pe in enumerate(periods):
                x, y = cells.get((pe, st), math.nan), got[a, b]
                if not ((math.isnan(x) and math.isnan(y)) or abs(x - y) <= 1e-9 * max(1, abs(x))):
                    return v.bad('arranged', f'{p}/{s}: {y} instead of {x} in step {out.index[a]} of period {out.columns[b]}')
        return None

    def heat_figure(self, v, data, engine, categorical, kw):
        import matplotlib.pyplot as plt

        from flixOpt import plotting

        z = data.to_numpy(float)
        fin = z[np.isfinite(z)]
        v.count('heat_map', z.size, int((fin != 0).sum()))
        if engine == 'plotly':
            fig = plotting.heat_map_plotly(data, title='T', categorical_labels=categorical, **kw)
            if len(fig.data) != 1:
                return v.bad('heat map', f'{len(fig.data)} traces')
            return self.heat_plotly(v, fig, data, categorical)
        saved = plt.show
        plt.show = lambda *a, **k: None
        try:
            fig, ax = plotting.heat_map_matplotlib(data, **kw)
        finally:
            plt.show = saved
        return self.heat_mpl(v, fig, ax, data)

    def heat_plotly(self, v, fig, data, categorical=True):
        t = fig.data[0]
        z = data.to_numpy(float)
        fin = z[np.isfinite(z)]
        got = np.array([[math.nan if x is None else x for x in row] for row in t.z], float)
        if t.type != 'heatmap' or not _nan_equal(got, z):
            return v.bad('heat map', 'other values than given')
        if [str(x) for x in t.x] != [str(c) for c in data.columns] or [str(y) for y in t.y] != [str(c) for c in data.index] or t.transpose:
            return v.bad('heat map', f'labels {list(t.x)[:3]}, {list(t.y)[:3]}')
        if fig.layout.yaxis.autorange != 'reversed':
            return v.bad('heat map', 'the first step is not at the top')
        if categorical and (fig.layout.xaxis.type, fig.layout.yaxis.type) != ('category', 'category'):
            return v.bad('heat map', 'labels are not kept as they are')
        if len(fin) and ((t.zmin is not None and t.zmin > fin.min()) or (t.zmax is not None and t.zmax < fin.max())):
            return v.bad('heat map', f'values {fin.min()} to {fin.max()} are cut to {t.zmin} to {t.zmax}')
        return None

    def heat_mpl(self, v, fig, ax, data):
        z = data.to_numpy(float)
        fin = z[np.isfinite(z)]
        if len(ax.collections) != 1:
            return v.bad('heat map', f'{len(ax.collections)} meshes')
        q = ax.collections[0]
        got = np.ma.filled(np.ma.asarray(q.get_array(), float), math.nan).reshape(z.shape) if np.ma.asarray(q.get_array()).size == z.size else np.zeros(0)
        if not _nan_equal(got, z):
            return v.bad('heat map', 'other values than given')
        if [t.get_text() for t in ax.get_xticklabels()] != [str(c) for c in data.columns] or [t.get_text() for t in ax.get_yticklabels()] != [str(c) for c in data.index]:
            return v.bad('heat map', 'labels')
        if not np.allclose(ax.get_xticks(), np.arange(z.shape[1]) + 0.5) or not np.allclose(ax.get_yticks(), np.arange(z.shape[0]) + 0.5):
            return v.bad('heat map', 'labels are not at their cells')
        if not ax.yaxis_inverted():
            return v.bad('heat map', 'the first step is not at the top')
        if len(fin) and fin.min() < fin.max():
            bars = [a for a in fig.axes if a is not ax]
            lim = sorted(bars[0].get_xlim()) if bars else None
            if (lim is None or not np.allclose(lim, [fin.min(), fin.max()], rtol=1e-6, atol=1e-9)
                    or not np.allclose([q.norm.vmin, q.norm.vmax], [fin.min(), fin.max()], rtol=1e-6, atol=1e-9)):
                return v.bad('heat map', f'colour scale {lim} for values from {fin.min()} to {fin.max()}')
        return None

    def _reshape(self, case, v, base):
        import random

        from flixOpt import plotting

        rng = random.Random(case['seed'])
        x = np.array([rng.randint(-9, 9) for _ in range(case['n'])]).astype(case['dtype'])
        before = x.copy()
        out = plotting.reshape_to_2d(x, case['k'])
        cols = -(-case['n'] // case['k'])
        v.count('reshaped', x.size, int((before != 0).sum()))
        if not np.array_equal(before, x):
            v.bad('data changed by plotting', 'reshape_to_2d')
        elif out.shape != (case['k'], cols):
            v.bad('reshaped', f'shape {out.shape} instead of {(case["k"], cols)}')
        else:
            for j in range(cols):
                for i in range(case['k']):
                    q = j * case['k'] + i
                    if not (out[i, j] == before[q] if q < case['n'] else math.isnan(out[i, j])):
                        v.bad('reshaped', f'{out[i, j]} in row {i}, column {j} of {before}')
                        return

    # ------------------------------------------------------------ plots of results
    def _operation(self, case, v, base):
        import flixOpt as fx
        import matplotlib.pyplot as plt
        from flixOpt.results import CalculationResults

        from ..build import build

        spec, flags = case['spec'], case['flags']
        try:
            b = build(spec, order_seed=case['seed'])
            calc = fx.FullCalculation('plot', b.system)
            calc.do_modeling()
            calc.solve(run.solver(), save_results=os.path.join(base, 'r'))
            res = calc.results()
            L = CalculationResults('plot', os.path.join(base, 'r'))
        except Exception as e:
            v.say('void', f'no results: {type(e).__name__}')
            return
        rng = self.rng(case['seed'], 0)
        sv = SysView(spec)
        t = np.asarray(res['Time']).astype('datetime64[us]')
        import pandas as pd

        def frame(kind, label, invert):
            fi, fo = (1, -1) if invert else (-1, 1)
            rate = lambda c, f: np.asarray(res['Components'][c][f]['flow_rate'], float)
            want = {}
            if kind == 'component':
                for f in next(x for x in sv.comps if x.label == label).flows:
                    want[f'{label}__{f.label}'] = rate(label, f.label) * (fi if f.is_input else fo)
            elif kind == 'bus':
                for c in sv.comps:
                    for f in c.flows:
                        if f.bus == label:
                            want[f'{c.label}__{f.label}'] = rate(c.label, f.label) * (fo if f.is_input else fi)
                d = (res.get('Buses') or {}).get(label, {})
                for key, name, k in (('excess_input', 'Excess Input', fi), ('excess_output', 'Excess Output', fo)):
                    if key in d:
                        want[name] = np.asarray(d[key], float) * k
            else:
                want['flow_rate'] = rate(*label)
            want = {k: np.append(x, x[-1]) for k, x in want.items() if np.any(np.abs(x) > 1e-5)}
            return pd.DataFrame(want, index=pd.DatetimeIndex(t))

        todo = [('component', c.label) for c in sv.comps] + [('bus', x) for x in spec['buses']] + [('flow', (c.label, f.label)) for c in sv.comps for f in c.flows]
        rng.shuffle(todo)
        files = set(os.listdir(os.path.join(base, 'r')))
        for j, (kind, label) in enumerate(todo[:4]):
            key = '__'.join(label) if kind == 'flow' else label
            invert = rng.random() < 0.5
            want = frame(kind, label, invert)
            if want.empty:
                continue
            engine = rng.choice(['plotly', 'plotly', 'matplotlib'])
            mode = rng.choice(['bar', 'line', 'area'] if engine == 'plotly' else ['bar', 'line'])
            save = j == 0 and flags[0] < 0.4
            out = L.plot_operation(key, mode=mode, engine=engine, invert=invert, show=False, save=save)
            if engine == 'plotly':
                self.traces(v, out, want, mode, deciding='operation')
            else:
                self.drawn(v, out[1], want, mode, deciding='operation')
                plt.close('all')
            if v.status != 'held':
                v.msg = f'{kind} {key}, invert={invert}: {v.msg}'
                return
            now = set(os.listdir(os.path.join(base, 'r')))
            new = now - files
            v.count('files', nontrivial=1 if save else 0)
            if (len(new) != 1 or not next(iter(new)).endswith('.html' if engine == 'plotly' else '.png') or key not in next(iter(new))) if save else new:
                v.bad('files', f'save={save}: new files {new}')
                return
            files = now
            # a heat map of one flow
            if kind == 'flow':
                step = max(1, int(np.diff(t).min() / np.timedelta64(1, 's')))
                p, s = ('D', 'h') if step >= 3600 else ('h', 'min')
                if (t[-1] - t[0]) / np.timedelta64(1, 's') > STEP[s] * 3000:
                    continue
                ar = arranged(t.tolist(), want['flow_rate'].tolist(), p, s, 'ffill')
                kw = {'heatmap_periods': p, 'heatmap_steps_per_period': s} if (p, s) != ('D', 'h') or rng.random() < 0.5 else {}
                fig = L.plot_operation(key, mode='heatmap', show=False, **kw)
                data = pd.DataFrame(np.array([[math.nan if x is None else x for x in r] for r in fig.data[0].z], float), index=list(fig.data[0].y), columns=list(fig.data[0].x))
                self.arranged(v, data, ar, p, s, deciding='operation')
                if v.status == 'held':
                    self.heat_plotly(v, fig, data)
                if v.status != 'held':
                    v.msg = f'heat map of {key}: {v.msg}'
                    return
        for c in sv.comps:
            if c.kind != 'Storage':
                continue
            invert, mode = rng.random() < 0.5, rng.choice(['bar', 'line', 'area'])
            fig = L.plot_storage(c.label, mode=mode, invert=invert, show=False)
            want = frame('component', c.label, invert)
            level = np.asarray(res['Components'][c.label]['charge_state'], float)
            tr = [x for x in fig.data if 'charge' in str(x.name).lower() and 'state' in str(x.name).lower()]
            v.count('operation', len(level), len(level) if level.any() else 0)
            if len(tr) != 1 or not _nan_equal([float(a) for a in tr[0].y], level) or stamps(tr[0].x) != t.tolist() or tr[0].type != 'scatter' or tr[0].stackgroup or tr[0].line.shape not in (None, 'linear'):
                v.bad('charge state', f'{c.label}: {[list(x.y) for x in tr]} instead of {list(level)}')
                return
            import plotly.graph_objects as go

            if want.empty and len(fig.data) == 1:
                continue
            rest = go.Figure([x for x in fig.data if x is not tr[0]], layout={'barmode': fig.layout.barmode})
            self.traces(v, rest, want, mode, deciding='operation')
            if v.status != 'held':
                v.msg = f'plot_storage({c.label}, {mode}, invert={invert}): {v.msg}'
                return
        # ---- the network
        nodes = {c.label for c in sv.comps} | set(spec['buses'])
        edges = sorted((f.bus, c.label) if f.is_input else (c.label, f.bus) for c in sv.comps for f in c.flows)
        for who, f in (('results', L.visualize_network), ('system', b.system.visualize_network)):
            show = flags[5] < 0.3
            self.opened.clear()
            path = os.path.join(base, *(['sub'] if flags[3] < 0.3 else []), f'{who}.html') if flags[1] < 0.4 else False
            if path and flags[4] < 0.5:
                path = pathlib.Path(path) if flags[4] < 0.25 else os.path.relpath(path)
            net = f(path=path, show=show, controls=flags[2] < 0.5)
            if show and not path:
                path = 'network.html'
            v.count('network', len(nodes) + len(edges), len(edges))
            if net is None:
                v.bad('network', f'{who}: visualize_network(path={path}) returned None')
                return
            if {x['id'] for x in net.nodes} != nodes or len(net.nodes) != len(nodes) or any(x['label'] != x['id'] for x in net.nodes):
                v.bad('network', f'{who}: nodes {[x["id"] for x in net.nodes]} instead of {sorted(nodes)}')
                return
            if sorted((e['from'], e['to']) for e in net.edges) != edges:
                v.bad('network', f'{who}: edges {[(e["from"], e["to"]) for e in net.edges]} instead of {edges}')
                return
            if sorted(e['label'] for e in net.edges) != sorted(f.label for c in sv.comps for f in c.flows):
                v.bad('network', f'{who}: labels of the edges {[e["label"] for e in net.edges]}')
                return
            shapes = {x['id']: x['shape'] for x in net.nodes}
            if len({shapes[c.label] for c in sv.comps} & {shapes[x] for x in spec['buses']}):
                v.bad('network', 'components and buses look the same')
                return
            if bool(self.opened) != show or (show and not any(str(u).endswith(os.path.basename(str(path))) for u in self.opened)):
                v.bad('files', f'network: show={show}, opened {self.opened}')
                return
            if (path and not os.path.exists(path)) or (not path and os.path.exists(os.path.join(base, f'{who}.html'))):
                v.bad('files', f'network: {path}')
                return


PROPS = [Plots()]

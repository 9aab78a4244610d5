"""Runs the cases of one property in worker processes and turns their verdicts into an exit code, a
VIOLATION line, replay files and the evidence file."""

import hashlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 150          # watchdog per case; firing is inconclusive, never a violation


def load_findings():
    """known-findings.jsonl: {"property","key","what"} (known) or {"entry": "fixed: ..."} (documentation only)"""
    out = []
    path = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if 'key' in d:
                        out.append(d)
    return out


def _worker(prop, conn, base):
    from . import run

    d = tempfile.mkdtemp(prefix='w', dir=base)
    os.chdir(d)
    os.environ['HOME'] = d
    while True:
        msg = conn.recv()
        if msg is None:
            break
        try:
            with run.silent():
                out = _one(prop, *msg)
        except MemoryError:
            out = {'status': 'inconclusive', 'key': 'memory', 'msg': ''}
        except BaseException:
            out = {'status': 'error', 'key': 'harness', 'msg': traceback.format_exc()[-3000:]}
        conn.send(out)
        for x in os.listdir(d):
            p = os.path.join(d, x)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    os._exit(0)


def _one(prop, seed, i, tier, case):
    t0 = time.time()
    if case is None:
        case = prop.case(seed, i, tier)
    if case is None:
        return {'status': 'void', 'key': 'not generated', 'msg': '', 'case': None, 'seconds': time.time() - t0}
    try:
        v = prop.check(case)
    except MemoryError:
        raise
    except Exception as e:  # what the code under test returned could not even be read
        return {'status': 'violation', 'key': f'unreadable:{type(e).__name__}', 'msg': traceback.format_exc()[-2500:], 'counts': {}, 'nontrivial': {},
                'tags': {}, 'case': case, 'seconds': time.time() - t0, 'i': i}
    return {'status': v.status, 'key': v.key, 'msg': v.msg, 'counts': v.counts, 'nontrivial': v.nontrivial, 'tags': v.tags,
            'case': case, 'seconds': time.time() - t0, 'i': i}


class Pool:
    def __init__(self, prop, n, base):
        self.prop, self.base = prop, base
        self.ctx = mp.get_context('fork')
        self.slots = [self._start() for _ in range(n)]

    def _start(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(self.prop, b, self.base), daemon=True)
        p.start()
        b.close()
        return {'p': p, 'c': a, 'job': None, 't': 0}

    def map(self, jobs, deadline, on_result):
        """jobs: iterator of message tuples"""
        jobs = iter(jobs)
        more = True
        while True:
            busy = False
            for k, s in enumerate(self.slots):
                if s['job'] is None and more and time.time() < deadline:
                    job = next(jobs, None)
                    if job is None:
                        more = False
                    else:
                        s['c'].send(job)
                        s['job'], s['t'] = job, time.time()
                if s['job'] is not None:
                    busy = True
            if not busy:
                return not more or next(jobs, None) is None
            ready = mp.connection.wait([s['c'] for s in self.slots if s['job'] is not None], timeout=1.0)
            for k, s in enumerate(self.slots):
                if s['job'] is None:
                    continue
                if s['c'] in ready:
                    try:
                        out = s['c'].recv()
                    except (EOFError, OSError):
                        s['p'].join(5)
                        out = {'status': 'inconclusive', 'key': 'worker died', 'msg': f'exit code {s["p"].exitcode}'}
                        job = s['job']
                        self.slots[k] = self._start()
                        on_result(job, out)
                        continue
                    job, s['job'] = s['job'], None
                    on_result(job, out)
                elif time.time() - s['t'] > CASE_SECONDS:
                    s['p'].kill()
                    s['p'].join(5)
                    job = s['job']
                    self.slots[k] = self._start()
                    on_result(job, {'status': 'inconclusive', 'key': 'case took too long', 'msg': ''})

    def close(self):
        for s in self.slots:
            try:
                s['c'].send(None)
            except OSError:
                pass
        for s in self.slots:
            s['p'].join(3)
            if s['p'].is_alive():
                s['p'].kill()
                s['p'].join(3)


def main(argv):
    from . import props

    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    only = int(argv[argv.index('--case') + 1]) if '--case' in argv else None
    verbose = '--verbose' in argv
    tier = 'thorough' if tier == 'thorough' else 'quick'
    prop = props.get(pid)
    t0 = time.time()
    base = tempfile.mkdtemp(prefix='fxv_')
    cwd = os.getcwd()
    try:
        return _main(prop, pid, tier, seed, replay, only, verbose, t0, base)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def _main(prop, pid, tier, seed, replay, only, verbose, t0, base):
    from . import run

    run.setup_process(base)
    total = prop.quick if tier == 'quick' else prop.thorough
    budget = 420 if tier == 'quick' else 780
    if replay:
        replay = replay if os.path.isabs(replay) else os.path.join(HERE, replay)
        with open(replay) as f:
            jobs = [(seed, 0, tier, json.load(f)['case'])]
    elif only is not None:
        jobs = [(seed, only, tier, prop.pinned()[-1 - only] if only < 0 else None)]
    else:
        # pinned cases (known findings, once broken or hard-to-hit inputs) run on every seed and come first
        jobs = [(seed, -1 - k, tier, c) for k, c in enumerate(prop.pinned())] + [(seed, i, tier, None) for i in range(total)]
    nproc = max(1, min(int(os.environ.get('FXV_PROCS', '8')), len(jobs)))
    stats, tags, counts, nontriv, keys = {}, {}, {}, {}, {}
    distinct, samples, problems, errors, slow = set(), [], [], [], []
    findings = [f for f in load_findings() if f['property'] == pid]
    known = {}

    def on_result(job, out):
        st = out['status']
        if st == 'violation':
            f = next((f for f in findings if f['key'] == out['key']), None)
            if f is not None:
                known.setdefault(f['key'], (f, out))
                st = 'known'
        stats[st] = stats.get(st, 0) + 1
        if st not in ('held', 'violation', 'known'):
            keys[f'{st}: {out["key"]}'] = keys.get(f'{st}: {out["key"]}', 0) + 1
        for k, n in out.get('tags', {}).items():
            tags[k] = tags.get(k, 0) + n
        for k, n in out.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + n
        for k, n in out.get('nontrivial', {}).items():
            nontriv[k] = nontriv.get(k, 0) + n
        if out.get('seconds', 0) > 20:
            slow.append((job[1], round(out['seconds'], 1)))
        if out.get('case') is not None and st in ('held', 'foreign', 'known', 'violation'):
            own = sum(out['nontrivial'].get(r, 0) for r in prop.deciding)
            if own:
                h = hashlib.sha1(json.dumps(out['case'], sort_keys=True).encode()).hexdigest()
                if h not in distinct:
                    distinct.add(h)
                    if len(samples) < 2 and len(json.dumps(out['case'])) < 4000:
                        samples.append({'case': out['case'], 'observed': {k: out['counts'][k] for k in prop.deciding if k in out['counts']}})
        if st == 'violation':
            problems.append((job, out))
        if st == 'error':
            errors.append((job, out))
        if verbose and st not in ('held',):
            print(job[1], st, out['key'], out['msg'][:1500], flush=True)

    pool = Pool(prop, nproc, base)
    try:
        done = pool.map(jobs, t0 + budget, on_result)
    finally:
        pool.close()
    if replay or only is not None:
        for (job, out) in problems:
            print(out['key'], out['msg'])
    problems.sort(key=lambda x: x[0][1])

    own = sum(nontriv.get(r, 0) for r in prop.deciding)
    ran = sum(stats.values())
    wall = time.time() - t0
    if not replay and only is None:
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level,
            'coverage': {
                'evaluations': ran, 'distinct_nontrivial': len(distinct), 'rule': prop.rule,
                'monitor_evaluations': counts, 'monitor_evaluations_nontrivial': nontriv,
                'verdicts': stats, 'reasons': keys, 'observed': tags, 'samples': samples,
                'planned': total, 'completed': bool(done),
            },
            'assumptions': prop.assumptions, 'wall_s': round(wall, 2), 'violations': len(problems),
        }
        if slow:
            ev['coverage']['slow_cases'] = slow[:10]
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    for key, (f, out) in sorted(known.items()):
        print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    print(f'{pid} {tier} seed={seed}: {ran} cases, {len(distinct)} distinct non-trivial, verdicts {stats}, {own} deciding monitor evaluations, {wall:.1f} s')
    if keys:
        print(f'  {keys}')
    if problems:
        shown = set()
        for job, out in problems:
            if out['key'] in shown:
                continue
            shown.add(out['key'])
            print(f'  case {job[1]}: {out["key"]}: {out["msg"][:700]}')
        job, out = problems[0]
        path = replay
        if not replay:
            d = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{pid}-{seed}-{job[1]}.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'key': out['key'], 'msg': out['msg'], 'case': out['case']}, f, indent=1, ensure_ascii=False)
        print(f'VIOLATION property={pid} replay={os.path.relpath(path, HERE)}')
        return 1
    if errors:
        for job, out in errors[:3]:
            print(f'  harness error in case {job[1]}:\n{out["msg"]}')
        return 2
    if not replay and only is None:
        if own == 0 or len(distinct) == 0:
            print('  inconclusive: the deciding monitors observed nothing')
            return 2
        if stats.get('held', 0) + stats.get('known', 0) < 0.4 * ran:
            print('  inconclusive: too few cases reached a verdict')
            return 2
    return 0

"""Seeded search: generates scenarios, runs each in a process of its own, minimises and reports.

Run number i of property P under VERIF_SEED s is a pure function of (P, s, i) and the code under
test: the PRNG that generates the scenario is initialised from that triple and nothing in the
execution draws random numbers.  The number of workers only decides which process runs what.
"""

import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import loader, schema, world as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 60.0
HANG_TIMEOUT = 300.0    # a run that takes longer when it is run again is a hang, not an overloaded machine


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(f'{cls}: {detail}')
        self.cls, self.detail = cls, detail


class Stats:
    """What one run did."""

    def __init__(self):
        self.c = collections.Counter()
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.sim_time = 0.0
        self.sig = hashlib.sha256()
        self.events = 0
        self.nontrivial = False
        self.classes = set()
        self.kinds = set()

    def absorb(self, w):
        self.fired.update(w.fired)
        self.probes.update(w.probes)
        self.events += w.nevents
        self.sim_time += abs(w.now - w.start)
        self.sig.update(w.log.digest())
        self.c['restarts'] += max(0, w.restarts - 1)
        self.c['crashes'] += w.crashes

    def doc(self, t):
        self.c['documents'] += 1
        self.classes |= schema.classes_of(t)
        self.kinds.add(t['$'])

    def out(self):
        return {'c': dict(self.c), 'fired': dict(self.fired), 'probes': dict(self.probes), 'sim': self.sim_time,
                'sig': self.sig.hexdigest()[:16], 'events': self.events, 'nontrivial': self.nontrivial,
                'classes': sorted(self.classes), 'kinds': sorted(self.kinds)}


def load_prop(pid):
    return importlib.import_module(f'props.{pid.lower()}')


def execute(prop, sc):
    """Runs one scenario in this process. Returns a JSON-able result."""
    st = Stats()
    res = {'violation': None}
    try:
        prop.run(sc, st)
    except Violation as v:
        res['violation'] = {'class': v.cls, 'detail': v.detail[:2000]}
    except Exception as e:
        # an exception out of the library where the simulation uses it in the documented way (building a
        # document, setting a field, reading one) is a verdict about the library, not a harness error
        frames = traceback.extract_tb(e.__traceback__)
        if not any(loader.is_library(f.filename) for f in frames) or frames[-1].filename.startswith(VERIF + os.sep):
            raise
        res['violation'] = {'class': f'library-raised:{type(e).__name__}',
                            'detail': f'{type(e).__name__}: {e} in {os.path.basename(frames[-1].filename)}:{frames[-1].name}'}
    res.update(st.out())
    return res


def child_run(prop, sc, timeout=RUN_TIMEOUT):
    """Runs one scenario in a forked process, so that no run can influence another."""
    r, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                res = execute(prop, sc)
            except BaseException:
                res = {'error': traceback.format_exc()}
            data = json.dumps(res).encode()
            with os.fdopen(wfd, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    buf = bytearray()
    end = time.monotonic() + timeout
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    cleanup(pid)
    if hung:
        return {'hang': True}
    try:
        return json.loads(bytes(buf))
    except ValueError:
        return {'error': f'child died without a result ({len(buf)} bytes)'}


def cleanup(pid):
    """Scratch disks are removed by the run itself; this catches runs that were killed."""
    import glob
    import shutil
    import tempfile
    for d in glob.glob(os.path.join(tempfile.gettempdir(), f'kisim-{pid}-*')):
        shutil.rmtree(d, ignore_errors=True)


def scenario_for(prop, pid, seed, i, tier):
    rng = random.Random(f'{pid}:{seed}:{i}')
    sc = prop.gen(rng, i, tier)
    # everything the run depends on is in the file: go through JSON, as a replay would
    text = json.dumps(sc)
    sc = json.loads(text)
    if len(text) > 100000 and 'env' in sc:
        # a large document byte by byte would take as long as a hundred runs
        for k in ('max_read', 'max_write', 'bufsize'):
            if k in sc['env']:
                sc['env'][k] = max(sc['env'][k], 509)
    return sc


def judge(prop, sc, timeout=RUN_TIMEOUT):
    """-> (violation or None, result, error or None)"""
    res = child_run(prop, sc, timeout)
    if res.get('hang'):
        return {'class': 'hang', 'detail': f'no result within {timeout:.0f} s: an operation does not terminate'}, res, None
    if res.get('error'):
        return None, res, res['error']
    return res['violation'], res, None


# -- search ------------------------------------------------------------------------------------------
def worker(prop, pid, seed, tier, k, n_workers, n_runs, deadline, wfd, stop_path):
    out = os.fdopen(wfd, 'w', buffering=1)
    gc.freeze()
    for i in range(k, n_runs, n_workers):
        if time.monotonic() > deadline:
            break
        try:
            with open(stop_path) as f:
                lim = f.read().split()
            if lim and i > min(int(x) for x in lim):
                break
        except (OSError, ValueError):
            pass
        try:
            sc = scenario_for(prop, pid, seed, i, tier)
        except BaseException:
            out.write(json.dumps({'i': i, 'error': 'scenario generation\n' + traceback.format_exc()}) + '\n')
            continue
        t = time.monotonic()
        v, res, err = judge(prop, sc)
        line = {'i': i, 't': time.monotonic() - t}
        if err:
            line['error'] = err
        elif v:
            line['violation'] = v
            with open(stop_path, 'a') as f:
                f.write(f'{i}\n')
        else:
            line['res'] = res
            line['sc'] = hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16]
        out.write(json.dumps(line) + '\n')
    out.close()


def search(prop, pid, seed, tier, n_runs, max_wall, n_workers, agg):
    import tempfile
    stop_fd, stop_path = tempfile.mkstemp(prefix='kisim-stop-')
    os.close(stop_fd)
    deadline = time.monotonic() + max_wall
    fds = {}
    pids = []
    for k in range(n_workers):
        r, wfd = os.pipe()
        p = os.fork()
        if p == 0:
            try:
                for fd in fds:
                    os.close(fd)
                os.close(r)
                worker(prop, pid, seed, tier, k, n_workers, n_runs, deadline, wfd, stop_path)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        fds[r] = b''
        pids.append(p)
    found = []
    while fds:
        ready, _, _ = select.select(list(fds), [], [])
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del fds[fd]
                continue
            data = fds[fd] + b
            *lines, rest = data.split(b'\n')
            fds[fd] = rest
            for ln in lines:
                m = json.loads(ln)
                if 'error' in m:
                    agg['errors'].append((m['i'], m['error']))
                elif 'violation' in m:
                    found.append((m['i'], m['violation']))
                else:
                    add(agg, m)
    for p in pids:
        os.waitpid(p, 0)
    os.unlink(stop_path)
    return sorted(found, key=lambda x: x[0])


def new_agg():
    return {'runs': 0, 'c': collections.Counter(), 'fired': collections.Counter(), 'probes': collections.Counter(),
            'sim': 0.0, 'events': 0, 'sigs': set(), 'scs': set(), 'nontrivial': set(), 'classes': set(),
            'kinds': set(), 'errors': [], 'runs_with_faults': 0, 'slowest': (0.0, None)}


def add(agg, m):
    r = m['res']
    agg['runs'] += 1
    agg['slowest'] = max(agg['slowest'], (m['t'], m['i']))
    agg['c'].update(r['c'])
    agg['fired'].update(r['fired'])
    agg['probes'].update(r['probes'])
    agg['sim'] += r['sim']
    agg['events'] += r['events']
    agg['sigs'].add(r['sig'])
    agg['scs'].add(m['sc'])
    if r['nontrivial']:
        agg['nontrivial'].add(m['sc'])
    if r['fired']:
        agg['runs_with_faults'] += 1
    agg['classes'] |= set(r['classes'])
    agg['kinds'] |= set(r['kinds'])


# -- minimising -----------------------------------------------------------------------------------------
SHRINK_LISTS = {'ops', 'faults', 'preempt', 'acts', 'cuts', 'edits', 'interrupts', 'threads', 'others', 'steps'}


def _paths(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _set(x, path, v):
    if not path:
        return v
    y = _get(x, path[:-1])
    y[path[-1]] = v
    return x


def _in_tree(sc, path):
    """Is this place inside a document tree (where text and numbers may be simplified)?"""
    x = sc
    for p in path:
        if isinstance(x, dict) and '$' in x:
            return True
        x = x[p]
    return isinstance(x, dict) and '$' in x


def candidates(sc):
    """Simpler scenarios, most promising first."""
    lists = []
    leaves = []
    for path, v in _paths(sc):
        if isinstance(v, list) and v:
            if (path and path[-1] in SHRINK_LISTS) or _in_tree(sc, path):
                lists.append((len(json.dumps(v)), path, len(v)))
        elif isinstance(v, str) and v not in ('', 'x') and path and path[-1] not in ('$', 0) and _in_tree(sc, path):
            leaves.append((len(v), path))
    lists.sort(key=lambda t: -t[0])
    for _, path, n in lists:
        size = n
        while size >= 1:
            for s in range(0, n, size):
                c = copy.deepcopy(sc)
                v = _get(c, path)
                del v[s:s + size]
                yield c
            size //= 2
    if 'env' in sc:
        for k in sorted(sc['env']):
            c = copy.deepcopy(sc)
            del c['env'][k]
            yield c
    leaves.sort(key=lambda t: -t[0])
    for _, path in leaves:
        for new in ('', 'x'):
            c = copy.deepcopy(sc)
            _set(c, path, new)
            yield c
    for path, v in list(_paths(sc)):
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v not in (0, 1) and _in_tree(sc, path):
            c = copy.deepcopy(sc)
            _set(c, path, 1)
            yield c
        elif isinstance(v, dict) and '$' in v and path and isinstance(path[-1], str) and _in_tree(sc, path[:-1]):
            c = copy.deepcopy(sc)
            _set(c, path, None)
            yield c


def minimise(prop, sc, cls, budget=45.0, timeout=RUN_TIMEOUT):
    """Greedy: keep the first simpler scenario that shows a violation of the same class."""
    end = time.monotonic() + budget
    tried = 0
    best = sc
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for c in candidates(best):
            if time.monotonic() > end:
                break
            tried += 1
            v, _, err = judge(prop, c, timeout)
            if v and v['class'] == cls and not err:
                best = c
                improved = True
                break
    return best, tried


# -- known findings ----------------------------------------------------------------------------------------
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: '):
                f = line.split(' ', 3)
                p, rp = f[1].split('=', 1)[1], f[2].split('=', 1)[1]
                if p == pid:
                    out.append((rp, f[3]))
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--only', type=int, help='run only this run number, verbosely')
    ap.add_argument('--digest', type=int, help='print the event-log digest of this many runs and exit')
    ap.add_argument('--no-shrink', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    pid = a.prop.upper()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    sys.path.insert(0, VERIF)
    t0 = time.monotonic()
    loader.install()
    prop = load_prop(pid)
    W.prepare()
    if a.replay:
        doc = json.load(open(a.replay, encoding='utf-8'))
        v, res, err = judge(prop, doc['scenario'])
        if err:
            print(err)
            return 2
        if v:
            print(f'{v["class"]}: {v["detail"]}')
            print(f'VIOLATION property={pid} replay={os.path.abspath(a.replay)}')
            return 1
        print('replay: the property holds on this scenario')
        return 0
    if a.only is not None:
        sc = scenario_for(prop, pid, a.seed, a.only, tier)
        print(json.dumps(sc)[:6000])
        v, res, err = judge(prop, sc)
        print(err or v or res)
        return 1 if v else 2 if err else 0
    if a.digest:
        for i in range(a.digest):
            sc = scenario_for(prop, pid, a.seed, i, tier)
            v, res, err = judge(prop, sc)
            print(i, hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16], res.get('sig'), res.get('events'),
                  (v or {}).get('class'), bool(err))
        return 0
    n_runs = a.runs or prop.RUNS[tier]
    max_wall = a.wall or (420.0 if tier == 'quick' else 3300.0)
    if not hasattr(prop, 'prepare'):
        prop.prepare = lambda: None
    prop.prepare()
    # listed findings: replayed first, on their own inputs
    known_lines = []
    for rp, text in known_findings(pid):
        doc = json.load(open(os.path.join(VERIF, rp), encoding='utf-8'))
        v, res, err = judge(prop, doc['scenario'])
        if v:       # the input identifies the finding; the exact exception may differ
            print(f'KNOWN-FINDING: property={pid} {text}')
            known_lines.append(text)
    agg = new_agg()
    found = search(prop, pid, a.seed, tier, n_runs, max_wall, a.workers, agg)
    for i, v in found:
        sc = scenario_for(prop, pid, a.seed, i, tier)
        v2, _, err = judge(prop, sc, HANG_TIMEOUT if v['class'] == 'hang' else RUN_TIMEOUT)
        if v2 is None and v['class'] == 'hang':
            agg['c']['runs that timed out once, but not again (overloaded machine)'] += 1
            continue
        return report(prop, pid, a, tier, sc, v2 or v, agg, t0, i, known_lines)
    if agg['errors']:
        print(f'{len(agg["errors"])} harness errors; first (run {agg["errors"][0][0]}):\n{agg["errors"][0][1]}')
        evidence(prop, pid, a, tier, agg, t0, 0, known_lines)
        return 2
    evidence(prop, pid, a, tier, agg, t0, 0, known_lines)
    print(f'{pid} {tier} seed={a.seed}: held on {agg["runs"]} simulated runs '
          f'({agg["events"]} disk events, {sum(agg["fired"].values())} faults fired, {time.monotonic() - t0:.1f} s; slowest run {agg["slowest"][1]}: {agg["slowest"][0]:.1f} s)')
    return 0


def report(prop, pid, a, tier, sc, v, agg, t0, i, known_lines):
    best, tried = sc, 0
    if not a.no_shrink and v['class'] != 'hang':
        best, tried = minimise(prop, sc, v['class'])
        v3, _, err = judge(prop, best)
        if v3:
            v = v3
        else:
            best = sc
    elif v['class'] == 'hang':
        best, tried = minimise(prop, sc, v['class'], budget=60.0, timeout=10.0)
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'seed': a.seed, 'run': i, 'class': v['class'], 'detail': v['detail'],
            'minimise_attempts': tried, 'scenario': best, 'original_scenario': sc if best is not sc else None}
    name = hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f'{pid}-{name}.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(body, f, indent=1)
    print(f'{pid} seed={a.seed} run={i}: {v["class"]}: {v["detail"]}')
    # a replay in a fresh process must show the same violation
    if not a.no_shrink:
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = '0'
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), pid, '--replay', path],
                           capture_output=True, text=True, env=env)
        same = r.returncode == 1 and v['class'] in r.stdout
        print('replayed in a fresh process: ' + ('same violation' if same else f'NOT reproduced (exit {r.returncode})'))
    evidence(prop, pid, a, tier, agg, t0, 1, known_lines)
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def evidence(prop, pid, a, tier, agg, t0, violations, known_lines):
    if a.no_evidence:
        return
    wall = time.monotonic() - t0
    runs = agg['runs']
    sample = scenario_for(prop, pid, a.seed, 0, tier)
    txt = json.dumps(sample)
    samples = [{'run': 0, 'scenario': sample if len(txt) < 4000 else txt[:4000] + '...'}]
    for i in (1, 2):
        s = json.dumps(scenario_for(prop, pid, a.seed, i, tier))
        samples.append({'run': i, 'scenario': s[:1500] + ('...' if len(s) > 1500 else '')})
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': prop.RULE,
        'samples': samples,
        'simulated_runs': runs,
        'runs_per_hour': round(runs / wall * 3600) if wall else 0,
        'seeds_per_hour': round(runs / wall * 3600) if wall else 0,
        'simulated_seconds': round(agg['sim'], 3),
        'slowest_run_s': round(agg['slowest'][0], 2),
        'disk_events': agg['events'],
        'faults_fired': dict(sorted(agg['fired'].items())),
        'runs_with_faults': agg['runs_with_faults'],
        'probes': dict(sorted(agg['probes'].items())),
        'counts': dict(sorted(agg['c'].items())),
        'distinct_executions': len(agg['sigs']),
        'distinct_executions_measure': 'distinct hashes of the full event log of a run (disk events in order, faults that '
                                       'fired, thread switches, injected interrupts)',
        'distinct_scenarios': len(agg['scs']),
        'document_kinds_reached': sorted(agg['kinds']),
        'item_classes_reached': len(agg['classes']),
        'item_classes_total': len(schema.SPEC),
        'real_components': ['all of kiutils from the working tree', 'CPython text, buffering and codec layers',
                            'CPython threads (released one at a time)'],
        'stubbed_components': prop.STUBS if hasattr(prop, 'STUBS') else
                              ['raw file layer (fault injecting, backed by a scratch directory)', 'clock', 'random sources',
                               'platform default encoding and line ending', 'process restart (fresh import of the library)'],
        'workers': a.workers,
        'known_findings_replayed': known_lines,
    }
    if hasattr(prop, 'extra_coverage'):
        cov.update(prop.extra_coverage(agg))
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': getattr(prop, 'LEVEL', 'exploration'), 'coverage': cov,
          'assumptions': prop.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': violations}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)

#!/usr/bin/env python3
"""Run the deterministic-simulation check of one property.

  check.py C01                 explore (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py C01 --replay FILE   re-execute one replay file exactly
Exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: error of the check.
"""
import argparse
import collections
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, 'sim')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
BUILD = os.path.join(VERIF, 'build')
SO = os.path.join(BUILD, 'simdisk.so')


def build():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(SIM, 'simdisk.c')
    tag = hashlib.sha1(open(src, 'rb').read()).hexdigest()
    stamp = os.path.join(BUILD, 'simdisk.tag')
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(SO) and os.path.exists(stamp) and open(stamp).read() == tag:
            return
        tmp = SO + '.tmp%d' % os.getpid()
        subprocess.check_call(['gcc', '-O2', '-fPIC', '-shared', '-o', tmp, src, '-ldl', '-lpthread'])
        os.rename(tmp, SO)
        with open(stamp, 'w') as f:
            f.write(tag)


def env(hashseed='0'):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LD_', 'GDAL_', 'CPL_', 'PROJ_'))}
    e.update(LD_PRELOAD=SO, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PROJ_NETWORK='OFF',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', TZ='UTC', LC_ALL='C.UTF-8',
             GDAL_PAM_ENABLED='YES', GDAL_NUM_THREADS='1', HOME='/nonexistent', PIP_NO_INDEX='1',
             MPLCONFIGDIR=os.path.join(BUILD, 'mpl'))
    return e


def scratch():
    sys.path.insert(0, SIM)
    for b in ('/dev/shm', '/tmp'):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            # a fixed-length name, so that no path length varies from run to run
            for k in range(100000):
                p = os.path.join(b, 'rsim%05d' % ((os.getpid() + k) % 100000))
                try:
                    os.mkdir(p)
                    return p
                except FileExistsError:
                    continue
    raise SystemExit('no scratch space')


class Server(object):
    def __init__(self, pid, base, hashseed='0'):
        self.p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(SIM, 'worker.py'), 'serve', pid, base], env=env(hashseed),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def run(self, case):
        self.p.stdin.write(json.dumps(case) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()


def fresh(pid, base, case, hashseed='0'):
    s = Server(pid, base, hashseed)
    try:
        return s.run(case)
    finally:
        s.close()


def ddmin(items, test):
    """smallest sublist (greedy ddmin) for which test holds"""
    n = 2
    while len(items) >= 1:
        step = max(1, len(items) // n)
        for i in range(0, len(items), step):
            cand = items[:i] + items[i + step:]
            if test(cand):
                items = cand
                n = max(2, n - 1)
                break
        else:
            if step == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(pid, shrinker, case, res, base, budget=90.0, maxruns=400):
    """shrink operations, arguments, faults and schedule while the same class of violation persists"""
    srv = Server(pid, base)
    end = time.time() + budget
    runs = [0]
    best, bres = case, res

    def bad(c):
        if runs[0] >= maxruns or time.time() > end:
            return None
        runs[0] += 1
        try:
            r = srv.run(c)
        except RuntimeError:
            return None
        return r if r.get('status') == 'violation' and r.get('sig') == res['sig'] else None

    def sched_pass():
        nonlocal best, bres
        if best.get('sched', {}).get('mode') in ('rand', 'pct') and bres.get('switches'):
            c = dict(best, sched={'mode': 'list', 'sw': bres['switches']})
            r = bad(c)
            if r:
                best, bres = c, r
        if best.get('sched', {}).get('mode') == 'list':
            def t(sw):
                nonlocal best, bres
                c = dict(best, sched={'mode': 'list', 'sw': sw})
                r = bad(c)
                if r:
                    best, bres = c, r
                return bool(r)
            ddmin(list(best['sched']['sw']), t)
    try:
        changed = True
        while changed and time.time() < end and runs[0] < maxruns:
            changed = False
            for c in shrinker(best):
                r = bad(c)
                if r:
                    best, bres = c, r
                    changed = True
                    break
        sched_pass()
    finally:
        srv.close()
    return best, bres, runs[0]


def generic_shrink(case):
    """drop list elements under well-known keys, one by one; halve big ones first"""
    import copy
    for key in ('ops', 'faults', 'threads', 'items'):
        v = case.get(key)
        if isinstance(v, list) and len(v) > 1 or (key == 'faults' and v):
            n = len(v)
            if n > 3:
                for a, b in ((0, n // 2), (n // 2, n)):
                    c = copy.deepcopy(case)
                    c[key] = v[:a] + v[b:]
                    yield c
            for i in range(n):
                c = copy.deepcopy(case)
                del c[key][i]
                yield c
    if case.get('dirseed') not in (None,):
        c = dict(case)
        c['dirseed'] = None
        yield c


def load_meta(pid):
    """read META from the property module without importing the system under test"""
    import ast
    src = open(os.path.join(VERIF, 'props', pid.lower() + '.py')).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'META':
            return ast.literal_eval(node.value)
    raise SystemExit('no META for ' + pid)


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {k['sig']: k for k in json.load(open(p)).get('known', []) if k['property'] == pid}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '8')))
    ap.add_argument('--logs', help='write the event-log hash of every run to this file (determinism self-test)')
    ap.add_argument('--hashseed', default='0')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--keep-going', type=int, default=1, help='violations per worker before it stops')
    a = ap.parse_args()
    pid = a.prop.upper()
    t0 = time.time()
    build()
    meta = load_meta(pid)
    known = known_findings(pid)
    base = scratch()
    try:
        rc = replay(a, pid, base, known) if a.replay else explore(a, pid, base, meta, known, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)


def replay(a, pid, base, known):
    rep = json.load(open(a.replay))
    res = fresh(pid, os.path.join(base, 'w0'), rep['case'], a.hashseed)
    print(json.dumps({k: res.get(k) for k in ('status', 'sig', 'msg', 'log', 'events', 'trace', 'switches')}, indent=1))
    if res['status'] == 'violation':
        same = res.get('sig') == rep.get('sig') and res.get('log') == rep.get('log')
        print('replay %s the recorded execution' % ('reproduces exactly' if same else 'violates, but differs from'))
        print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1
    return 0 if res['status'] == 'ok' else 2


def explore(a, pid, base, meta, known, t0):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    runs = a.runs or meta['runs'][tier]
    print('seed %d tier %s property %s runs %d workers %d' % (seed, tier, pid, runs, a.workers))
    sys.stdout.flush()
    deadline = time.time() + (780 if tier == 'quick' else 6 * 3600)
    procs = []
    for w in range(a.workers):
        procs.append(subprocess.Popen(
            [PY, '-W', 'ignore', os.path.join(SIM, 'worker.py'), 'batch', pid, os.path.join(base, 'w%d' % w), str(seed), tier, str(w),
             str(a.workers), str(runs), str(a.keep_going), json.dumps(sorted(known)), str(deadline)],
            env=env(a.hashseed), stdout=subprocess.PIPE, text=True))
    import threading
    lines = [[] for _ in procs]

    def reader(k):
        for l in procs[k].stdout:
            lines[k].append(l)
    ths = [threading.Thread(target=reader, args=(k,)) for k in range(len(procs))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for p in procs:
        p.wait()
    fired, probes = collections.Counter(), collections.Counter()
    evals = faulted = steps = preempts = ioops = crashes = 0
    simsec = 0.0
    logs, inters, nontrivial = {}, set(), set()
    viol, errors, knownhits, samples, fullres = [], [], collections.Counter(), [], []
    slow, slowest = 0.0, 0
    cut_short = 0
    kmsg = {}
    for k, ls in enumerate(lines):
        done = False
        for l in ls:
            r = json.loads(l)
            if r.get('done'):
                done = True
                continue
            if r['status'] == 'deadline':
                cut_short += 1
                continue
            if r['status'] in ('error', 'timeout'):
                errors.append(r)
                continue
            evals += 1
            slow, slowest = max((slow, slowest), (r.get('t', 0), r['i']))
            logs[r['i']] = r.get('log')
            fired.update(r.get('fired') or {})
            probes.update(r.get('probes') or {})
            faulted += bool(r.get('faulted'))
            steps += r.get('steps') or 0
            preempts += r.get('preempts') or 0
            ioops += r.get('ioops') or 0
            crashes += r.get('crashes') or 0
            simsec += r.get('simsec') or 0
            if r.get('inter'):
                inters.add(r['inter'])
            if r.get('faulted') or r.get('inter') or (r.get('probes') or {}).get('nontrivial'):
                nontrivial.add(r.get('log'))
            if r['status'] == 'violation':
                if r['sig'] in known:
                    knownhits[r['sig']] += 1
                    kmsg[r['sig']] = r['msg']
                else:
                    viol.append(r)
            elif r.get('case') and len(samples) < 4:
                samples.append({'index': r['i'], 'case': r['case'], 'log': r['log']})
        if not done:
            errors.append({'status': 'error', 'msg': 'worker %d ended early' % k})
    wall = time.time() - t0
    if a.logs:
        with open(a.logs, 'w') as f:
            for i in sorted(logs):
                f.write('%d %s\n' % (i, logs[i]))
    rc = 0
    nviol = 0
    if viol and a.keep_going > 1:      # development: classes of violation instead of one minimised report
        seen = {}
        for v in sorted(viol, key=lambda r: r['i']):
            seen.setdefault(v['sig'], []).append(v)
        for sig, vs in sorted(seen.items()):
            print('%4d x %s   e.g. run %d: %s' % (len(vs), sig, vs[0]['i'], vs[0]['msg'][:300]))
        return 1
    if viol:
        viol.sort(key=lambda r: r['i'])
        sys.path.insert(0, VERIF)
        rc = report(a, pid, base, seed, tier, viol)
        nviol = len(viol) if rc == 1 else 0
    if rc != 1 and errors:
        for e in errors[:3]:
            sys.stderr.write('check error: run %s: %s\n' % (e.get('i'), e.get('msg', e.get('status'))))
        # a run that never ends is a violation of bounded progress only if it does so again, alone
        tmo = [e for e in errors if e['status'] == 'timeout']
        if tmo and len(tmo) == len(errors):
            case = tmo[0]['case']
            r = fresh(pid, os.path.join(base, 'w0'), case)
            if r['status'] == 'timeout':
                path = write_replay(pid, seed, tmo[0]['i'], case, dict(r, sig='hang', log=None), 0)
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1
        rc = 2
    for sig, k in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (%s; hit in %d of %d runs)' % (pid, sig, k['what'], knownhits[sig], evals))
    if not a.no_evidence:
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'exploration'),
            'coverage': {
                'evaluations': evals,
                'distinct_nontrivial': len(nontrivial),
                'rule': meta['rule'],
                'samples': samples[:3],
                'runs_per_hour': round(evals / max(wall, 1e-3) * 3600),
                'seeds_per_hour': round(evals / max(wall, 1e-3) * 3600),
                'seed_rule': 'run i draws everything from PRNG("%s:%d:i")' % (pid, seed),
                'runs_with_a_fault_that_fired': faulted,
                'faults_fired': dict(sorted(fired.items())),
                'process_crashes': crashes,
                'simulated_time': {'scheduler_steps': steps, 'disk_operations': ioops, 'simulated_clock_seconds': round(simsec, 3)},
                'thread_preemptions': preempts,
                'distinct_interleavings': len(inters),
                'distinct_event_logs': len(set(logs.values())),
                'distinct_measure': 'sha1 of the ordered event log (operations, outcomes, disk operations, thread switches)',
                'probes': dict(sorted(probes.items())),
                'slowest_run_s': slow,
                'components_real': meta['real'],
                'components_stub': meta['stub'],
                'known_finding_hits': dict(knownhits),
                'workers': a.workers,
                'workers_stopped_by_time_limit': cut_short,
            },
            'assumptions': meta.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': nviol,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%d runs (%d faulted, %d preemptions, %d distinct logs, slowest %.2fs: %d) in %.1fs: %s' % (
        evals, faulted, preempts, len(set(logs.values())), slow, slowest, wall, {0: 'held', 1: 'VIOLATED', 2: 'CHECK ERROR'}[rc]))
    return rc


def write_replay(pid, seed, idx, case, res, shrink_runs):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (pid, seed, idx))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'index': idx, 'sig': res.get('sig'), 'msg': res.get('msg'),
                   'log': res.get('log'), 'case': case, 'switches': res.get('switches'), 'events': res.get('events'),
                   'fault_trace': res.get('trace'), 'minimisation_runs': shrink_runs}, f, indent=1)
    return path


def report(a, pid, base, seed, tier, viol):
    for v in viol[:3]:
        case = v['case']
        w = os.path.join(base, 'w0')
        res = None
        for _ in range(4):
            r = fresh(pid, w, case)
            if r.get('status') == 'violation':
                res = r
                break
        if res is None:
            sys.stderr.write('run %d reported %s (%s) but did not reproduce in a fresh process\n' % (v['i'], v['sig'], v['msg']))
            continue
        case2, res2, n = minimise(pid, generic_shrink, case, res, w)
        final = fresh(pid, w, case2)
        if final.get('status') != 'violation':
            case2, final = case, fresh(pid, w, case)
        path = write_replay(pid, seed, v['i'], case2, final, n)
        print('violation %s in run %d: %s' % (final.get('sig'), v['i'], final.get('msg')))
        print('minimised case: %s' % json.dumps(case2))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        return 1
    return 2


if __name__ == '__main__':
    main()

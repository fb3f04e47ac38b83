"""What one simulated run is made of (lives in the preloaded worker process)."""
import collections
import ctypes
import hashlib
import json
import os
import random
import re
import shutil
import sys
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RESIPPY_REPO', '/repo')
for p in (REPO, VERIF, HERE):
    if p not in sys.path:
        sys.path.insert(0, p)

import memory as memmod            # noqa: E402
import sched as schedmod          # noqa: E402
import disk as diskmod            # noqa: E402

schedmod.install_locks()
warnings.simplefilter('ignore')


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(sig, msg)
        self.sig = sig
        self.msg = msg


class HarnessError(Exception):
    pass


def caserng(prop, seed, idx):
    return random.Random('%s:%s:%s' % (prop, seed, idx))


def scratch_base():
    for b in ('/dev/shm', '/tmp'):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return b
    return tempfile.gettempdir()


def from_repo(e):
    return not isinstance(e, HarnessError) and any(
        f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(e.__traceback__))


def in_sim(e):
    return isinstance(e, HarnessError) or os.path.dirname(os.path.abspath(
        traceback.extract_tb(e.__traceback__)[-1].filename)) == os.path.dirname(os.path.abspath(__file__))


class _Names(object):
    """deterministic names for tempfile"""
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim%05d' % self.n


class Ctx(object):
    def __init__(self, disk, root):
        self.disk = disk
        self.root = root
        self.events = []
        self.h = hashlib.sha1()
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.faulted = False
        self.steps = 0
        self.preempts = 0
        self.switches = None
        self.ioops = 0
        self.crashes = 0
        self.inter = hashlib.sha1()
        self.inter_any = False
        self.simsec = 0.0
        self._armed = False

    # ------------------------------------------------------------ log
    def log(self, *a):
        s = ' '.join(str(x) for x in a).replace(self.root, '<root>')
        self.h.update(s.encode() + b'\n')
        if len(self.events) < 400:
            self.events.append(s[:400])

    def probe(self, name, n=1):
        self.probes[name] += n

    def violate(self, sig, msg):
        self.log('VIOLATION', sig, msg)
        raise Violation(sig, str(msg).replace(self.root, '<root>')[:2000])

    def path(self, *a):
        return os.path.join(self.root, *a)

    def mkdir(self, *a):
        p = self.path(*a)
        os.makedirs(p, exist_ok=True)
        return p

    # ------------------------------------------------------------ calls
    def call(self, fn, *a, **k):
        try:
            return ('ok', fn(*a, **k))
        except Violation:
            raise
        except Exception as e:
            return ('exc', e)

    @staticmethod
    def exs(e):
        return '%s: %s' % (type(e).__name__, re.sub(r'0x[0-9a-f]+', '0x', str(e))[:200])

    # ------------------------------------------------------------ disk
    def traced(self, fn, *a, **k):
        """fault-free call, returning (outcome, trace) so that faults can be placed inside the operation"""
        d = self.disk
        d.reset()
        d.arm()
        try:
            out = self.call(fn, *a, **k)
        finally:
            d.disarm()
        tr = d.trace(60000)
        self.ioops += d.nops
        self._growth = d.growth
        self.h.update(d.hash.encode())
        return out, tr

    def place(self, fault, trace):
        """resolve a fault's relative position against a fault-free trace of the same operation"""
        f = dict(fault)
        if 'pos' in f:
            pos = f.pop('pos')
            if f['action'] == 'budget':
                f['arg'] = int(pos * max(1, self._growth))
            else:
                n = sum(1 for t in trace if t[0] in f['kinds'] and f.get('path', '') in ('<root>/' + t[1]))
                f['nth'] = min(n - 1, int(pos * n)) if n else 0
        return f

    def faulty(self, faults, fn, *a, **k):
        """call under the fault plan. Returns (outcome, fired?)"""
        d = self.disk
        d.reset()
        d.install(faults)
        d.arm()
        try:
            out = self.call(fn, *a, **k)
        finally:
            d.disarm()
        fired = d.fired()
        for l, n in fired:
            self.fired[l] += n
        if fired:
            self.faulted = True
            self.probe('fault_hit_in_operation')
        if d.lib.sd_died():
            self.fired['device-dies-after-40000-operations'] += 1
        self.ioops += d.nops
        self.last_trace = d.trace(60000)
        self.h.update(d.hash.encode())
        d.clear()
        return out, bool(fired)

    def crashy(self, faults, fn, *a, **k):
        """run fn in a child process that dies (for real) at the planned operation; returns
        'crashed', 'ok' or 'exc'. Only what reached the disk survives."""
        d = self.disk
        d.reset()
        d.install(faults)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                d.arm()
                try:
                    fn(*a, **k)
                    rc = 0
                except BaseException:
                    rc = 3
                d.disarm()
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        for l, n in d.fired():
            self.fired[l] += n
            self.faulted = True
        self.ioops += d.nops
        self.last_trace = d.trace(60000)
        self.h.update(d.hash.encode())
        crashed = d.crashed
        d.clear()
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == diskmod.CRASH_CODE and crashed:
            self.crashes += 1
            self.probe('crash_inside_operation')
            return 'crashed'
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            return 'ok'
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
            return 'exc'
        raise HarnessError('child ended with status %r' % st)

    # ------------------------------------------------------------ memory
    def allocations(self, fn, *a, **k):
        """call, returning (outcome, number of array allocations it makes)"""
        lib = self.disk.lib
        lib.sd_mem_arm(1, ctypes.c_long(-1), 0)
        try:
            out = self.call(fn, *a, **k)
        finally:
            lib.sd_mem_arm(0, ctypes.c_long(-1), 0)
        return out, lib.sd_mem_n()

    def starved(self, nth, persist, fn, *a, **k):
        """call while the nth allocation of array data fails (and all later ones, if persist). Returns (outcome, fired?)"""
        lib = self.disk.lib
        lib.sd_mem_arm(1, ctypes.c_long(nth), int(bool(persist)))
        try:
            out = self.call(fn, *a, **k)
        finally:
            lib.sd_mem_arm(0, ctypes.c_long(-1), 0)
        n = lib.sd_mem_fired()
        if n:
            self.fired['memory:exhausted' + ('-persistent' if persist else '')] += n
            self.faulted = True
            self.probe('memory_ran_out_in_operation')
        return out, bool(n)

    # ------------------------------------------------------------ threads
    def solo_steps(self, program, opcodes=False, extra=()):
        s = schedmod.Sched({'mode': 'none'}, opcodes, extra=extra)
        r = s.run([program])
        return r[0], s.step

    def threads(self, programs, spec, opcodes=False, extra=(), max_steps=2000000, est=None):
        spec = dict(spec)
        if spec['mode'] == 'pct' and est:
            spec['est'] = max(4, int(est))
        if spec['mode'] == 'rand' and est and 'switches' in spec:
            spec['p'] = min(1.0, spec['switches'] / float(max(4, est)))
        s = schedmod.Sched(spec, opcodes, max_steps=max_steps, extra=extra)
        res = s.run(programs)
        self.steps += s.step
        self.preempts += s.n_preempt()
        self.switches = s.switches
        self.inter.update(s.digest.encode())
        self.inter_any = self.inter_any or s.n_preempt() > 0
        self.log('threads', len(programs), 'steps', s.step, 'switches', len(s.switches), s.digest)
        if s.deadlock:
            self.violate('no-progress', 'all simulated threads are blocked')
        if s.stalled:
            self.violate('no-progress', 'threads did not finish within %d simulated steps' % max_steps)
        return res


def run_case(prop, case, disk, base):
    """execute one explicit case in this (forked) process. Returns a result dict."""
    import numpy as np
    root = os.path.join(base, 'c')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    disk.set_root(root)
    disk.reset()
    disk.set_dirseed(case.get('dirseed'))
    random.seed(12345)
    np.random.seed(12345)
    tempfile.tempdir = os.path.join(root, 'tmp')
    os.makedirs(tempfile.tempdir)
    os.environ['TMPDIR'] = tempfile.tempdir
    tempfile._name_sequence = _Names()
    ent = random.Random('entropy of the simulated machine')
    os.urandom = lambda n: bytes(ent.getrandbits(8) for _ in range(n))       # uuid4 and friends
    ctx = Ctx(disk, root)
    res = {'status': 'ok'}
    try:
        prop.run(case, ctx)
    except Violation as v:
        res = {'status': 'violation', 'sig': v.sig, 'msg': v.msg}
    except Exception as e:
        if from_repo(e):             # nothing in the run expected the code under test to fail here
            msg = 'unexpected %s' % Ctx.exs(e)
            ctx.log('VIOLATION', 'unexpected-exception', msg)
            res = {'status': 'violation', 'sig': 'unexpected-exception',
                   'msg': (msg + ' ' + ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(
                       traceback.extract_tb(e.__traceback__)[-4:]))).replace(root, '<root>')}
        elif isinstance(e, (LookupError, TypeError, ValueError, AttributeError, ArithmeticError)) and not in_sim(e):
            # the oracle could not even take apart what the code under test gave it
            msg = 'malformed result: %s' % Ctx.exs(e)
            ctx.log('VIOLATION', 'malformed-result', msg)
            res = {'status': 'violation', 'sig': 'malformed-result',
                   'msg': (msg + ' ' + ' <- '.join('%s:%s:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(
                       traceback.extract_tb(e.__traceback__)[-4:]))).replace(root, '<root>')}
        else:                        # trouble of the machine or of the simulator is never a violation
            res = {'status': 'error', 'msg': traceback.format_exc()[-3000:]}
    except BaseException as e:
        res = {'status': 'error', 'msg': traceback.format_exc()[-3000:]}
    disk.disarm()
    res.update(events=ctx.events, log=ctx.h.hexdigest(), fired=dict(ctx.fired), probes=dict(ctx.probes),
               faulted=ctx.faulted, steps=ctx.steps, preempts=ctx.preempts, switches=ctx.switches,
               ioops=ctx.ioops, crashes=ctx.crashes, inter=ctx.inter.hexdigest() if ctx.inter_any else None,
               simsec=ctx.simsec)
    if res['status'] == 'violation':
        res['trace'] = [list(t) for t in getattr(ctx, 'last_trace', [])[-200:]]
    shutil.rmtree(root, ignore_errors=True)
    return res


def forked_case(prop, case, disk, base, timeout=120):
    """run one case in a forked child so that runs share nothing"""
    import select
    import signal
    import time
    r, w = os.pipe()
    disk.lib.sd_reset()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            nul = os.open('/dev/null', os.O_RDWR)
            os.dup2(nul, 2)
            os.dup2(nul, 1)
            os.dup2(nul, 0)
            res = run_case(prop, case, disk, base)
            data = json.dumps(res, default=str).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            try:
                os.write(w, json.dumps({'status': 'error', 'msg': traceback.format_exc()}).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(os.path.join(base, 'c'), ignore_errors=True)
    if timed_out:
        return {'status': 'timeout', 'msg': 'run exceeded %ds' % timeout}
    if os.WIFSIGNALED(st):
        fired = any(disk.lib.sd_fired(k) for k in range(16))
        return {'status': 'violation', 'sig': 'killed-under-disk-fault' if fired else 'process-killed', 'msg': 'the process died of signal %d' % os.WTERMSIG(st),
                'events': [], 'log': 'killed'}
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {'status': 'error', 'msg': 'no result from run (status %r, %d bytes)' % (st, len(buf))}


def load_prop(pid):
    import importlib
    return importlib.import_module('props.%s' % pid.lower())

"""Worker process: LD_PRELOADed, imports the system under test once, forks one child per simulated run."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core      # noqa: E402
import disk as diskmod   # noqa: E402


def out(obj):
    sys.stdout.write(json.dumps(obj, default=str) + '\n')
    sys.stdout.flush()


def slim(res):
    return {k: res.get(k) for k in ('status', 'sig', 'msg', 'log', 'fired', 'probes', 'faulted', 'steps', 'preempts',
                                    'ioops', 'crashes', 'inter', 'simsec')}


def main():
    mode, pid, base = sys.argv[1:4]
    os.makedirs(base, exist_ok=True)
    disk = diskmod.Disk()
    import warm
    warm.warm()
    prop = core.load_prop(pid)
    if hasattr(prop, 'warm'):
        try:
            prop.warm()
        except Exception as e:      # warming up only saves time: what is broken is found, and told, by a run
            sys.stderr.write('warm: %s\n' % e)
    core.memmod.install(disk.lib)
    if mode == 'batch':
        seed, tier, first, stride, total, stop_at = sys.argv[4:10]
        known = set(json.loads(sys.argv[10]))
        deadline = float(sys.argv[11])
        nviol = 0
        for i in range(int(first), int(total), int(stride)):
            if time.time() > deadline:
                out({'i': i, 'status': 'deadline'})
                break
            case = prop.gen(core.caserng(pid, seed, i), tier, i)
            t = time.time()
            res = core.forked_case(prop, case, disk, base)
            res2 = slim(res)
            res2['i'] = i
            res2['t'] = round(time.time() - t, 4)
            if res['status'] != 'ok' or i < 6:
                res2['case'] = case
            if res['status'] == 'violation':
                res2['switches'] = res.get('switches')
                out(res2)
                if res.get('sig') not in known:
                    nviol += 1
                    if nviol >= int(stop_at):
                        break
            else:
                out(res2)
        out({'done': 1})
    else:   # serve: one case per line
        for line in sys.stdin:
            line = line.strip()
            if not line:
                continue
            case = json.loads(line)
            out(core.forked_case(prop, case, disk, base))


if __name__ == '__main__':
    main()

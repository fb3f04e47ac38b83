"""C07: text lists and tables - what was written comes back whole, or somebody is told; under faults, crashes, rewrites and threads."""
import os

import numpy as np

from props.common import Held, scribble, crash_fault, gen_sched, read_fault, write_fault

META = {
    'runs': {'quick': 4000, 'thorough': 150000},
    'level': 'exploration',
    'rule': 'A run performs 2-9 seeded operations on up to three text-list files and three tables: write a list, read a list, read a '
            'table into columns, cut a file short, rewrite, write/read from several simulated threads; faults and process deaths are '
            'placed inside writes and reads. Non-trivial: a fault fired, a file was cut or overwritten, or threads were interleaved.',
    'real': ['resippy file, csv and string utilities', 'CPython file I/O and csv', 'libc', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'thread scheduler'],
    'assumptions': ['list entries hold no line breaks and the last one is not empty (the format cannot express those)'],
}
WORDS = ['a', 'grass', 'car', 'x y', ' lead', 'trail ', '', '0', '-1.5e3', 'é', 'ß∂', '#c', 'a,b', '"q"', "it's", 'tab\there', '\\n', 'z' * 300, '%s', 'None', 'v\x0bt', 'u\u2028p', '\x85', '\ufeffbom', 'f\x0c', '\x1a', '\U0001F6E9']


def words(rng, n):
    return [rng.choice(WORDS) + (str(rng.randrange(99)) if rng.random() < 0.5 else '') for _ in range(n)]


BREAKS = ['two\nlines', 'two\r\nlines', '\n', 'old\rmac', 'end\r\n']


def gen_list(rng):
    w = words(rng, rng.choice([0, 1, 1, 2, 3, 8, 40, 900]) if rng.random() > 0.01 else 12000)
    while w and w[-1] == '':
        w.pop()
    return w


def gen_table(rng):
    nc = rng.randrange(1, 6)
    head = ['c%d %s' % (j, rng.choice(['lon', 'lat', 'name, first', 'é', '"h"'])) for j in range(nc)]
    rows = [words(rng, nc) for _ in range(rng.choice([1, 1, 2, 5, 60, 400]) if rng.random() > 0.01 else 5000)]
    for r in rows:
        if nc == 1 and r[0] == '':
            r[0] = '_'
    if rng.random() < .3:
        for _ in range(rng.randrange(1, 4)):
            rng.choice(rows)[rng.randrange(nc)] = rng.choice(BREAKS)
    if nc > 1 and rng.random() < .3:        # nothing known about some of them, and some known twice
        rows.insert(rng.randrange(len(rows) + 1), [''] * nc)
        rows.insert(rng.randrange(len(rows) + 1), list(rng.choice(rows)))
    return {'head': head, 'quote': rng.random() < .3, 'rows': rows, 'delim': rng.choice(',,;\t|'), 'eol': rng.random() < 0.7, 'nl': rng.choice(['\n', '\r\n'])}


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randrange(2, 10)):
        k = rng.random()
        op = {'f': rng.randrange(3), 'frac': round(rng.random(), 4)}
        if k < 0.4:
            op.update(op='write', list=gen_list(rng))
        elif k < 0.55:
            op.update(op='table', table=gen_table(rng))
        elif k < 0.7:
            op.update(op='cut', table=gen_table(rng))
        elif k < 0.8:
            op.update(op='threads', lists=[gen_list(rng) for _ in range(3)], table=gen_table(rng))
        else:
            op.update(op='read')
        if rng.random() < 0.4:
            if op['op'] == 'write':
                op['fault'] = crash_fault(rng) if rng.random() < 0.25 else write_fault(rng)
            elif op['op'] in ('read', 'table'):
                op['fault'] = read_fault(rng)
        ops.append(op)
    return {'ops': ops, 'sched': gen_sched(rng)}


def make_table(path, t):
    import csv
    import io
    s = io.StringIO()
    w = csv.writer(s, delimiter=t['delim'], lineterminator=t['nl'],
                   quoting=csv.QUOTE_ALL if t.get('quote') or any(b in c for row in t['rows'] for c in row for b in '\r\n') else csv.QUOTE_MINIMAL)
    w.writerow(t['head'])
    for r in t['rows']:
        w.writerow(r)
    raw = s.getvalue()
    if not t['eol']:
        raw = raw[:-len(t['nl'])]
    raw = raw.encode()
    with open(path, 'wb') as f:
        f.write(raw)
    return raw


def read_table(path, t):
    from resippy.utils.csv_utils import CsvUtils
    if t['delim'] == ',':
        return CsvUtils.single_line_header_csv_to_dict(path)
    return CsvUtils.single_line_header_csv_to_dict(path, delimiter=t['delim'])


def table_problem(d, t, torn=False):
    if torn:
        if not set(d) <= set(t['head']) and len(d) > len(t['head']):
            return 'columns %s' % sorted(d)
        n = {len(v) for v in d.values()}
        if len(n) != 1:
            return 'columns of different lengths %s' % n
        n = n.pop()
        if n > len(t['rows']):
            return 'more rows than the file ever had'
        if list(d) != t['head']:
            return 'columns %s' % list(d)
    elif list(d) != t['head']:
        return 'columns %s instead of %s' % (list(d), t['head'])
    else:
        n = len(t['rows'])
    for j, h in enumerate(t['head']):
        got = list(d[h])
        want = [r[j] for r in t['rows']][:n]
        last = torn and j == len(t['head']) - 1
        if len(got) != n or (got != want if not last else got[:-1] != want[:-1]):
            return 'column %r: %s instead of %s' % (h, got[:4], want[:4])
    return None


def run(case, ctx):
    from resippy.utils import file_utils as fu
    held = Held(ctx)
    model = {}      # path -> list, or None when a failed write left the contents unknown
    for n, o in enumerate(case['ops']):
        p = ctx.path('list %d.txt' % o['f'])
        tp = ctx.path('table_%d.csv' % o['f'])
        what = 'op %d %s' % (n, o['op'])
        if o['op'] == 'write':
            L = list(o['list'])
            f = o.get('fault')
            if f:
                _, tr = ctx.traced(fu.write_text_list_to_file, list(L), ctx.path('rehearsal'))
                f = ctx.place(f, tr)
            if f and f['action'] == 'crash':
                st = ctx.crashy([f], fu.write_text_list_to_file, L, p)
                ctx.log(what, st)
                if st == 'exc':
                    ctx.violate('spurious-failure', '%s in the child' % what)
                if st == 'crashed':
                    left = open(p, 'rb').read() if os.path.exists(p) else b''
                    old = '\n'.join(model[p]).encode() if model.get(p) is not None else None
                    if left != old and not '\n'.join(L).encode().startswith(left) and model.get(p, ()) is not None:
                        ctx.violate('garbage-after-crash', '%s left %r' % (what, left[:80]))
                    model[p] = None
                else:
                    model[p] = list(L)
            else:
                out, fired = ctx.faulty([f] if f else [], fu.write_text_list_to_file, L, p)
                ctx.log(what, fired, out[0])
                if out[0] == 'exc' and not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                model[p] = list(L) if out[0] == 'ok' else None
                if out[0] == 'exc':
                    again = ctx.call(fu.write_text_list_to_file, L, p)
                    if again[0] == 'exc':
                        ctx.violate('cannot-recover', '%s: %s' % (what, ctx.exs(again[1])))
                    model[p] = list(L)
            if L != o['list']:
                ctx.violate('list-changed', '%s changed the list it was given' % what)
        elif o['op'] == 'table':
            t = o['table']
            make_table(tp, t)
            if o.get('fault'):
                _, tr = ctx.traced(read_table, tp, t)
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], read_table, tp, t)
                ctx.log(what, fired, out[0])
                if out[0] == 'exc' and not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                if out[0] == 'ok':
                    bad = table_problem(out[1], t)
                    if bad:
                        ctx.violate('wrong-table-under-fault', '%s: %s' % (what, bad))
            d = read_table(tp, t)
            bad = table_problem(d, t)
            if bad:
                ctx.violate('wrong-table', '%s: %s' % (what, bad))
            for h in list(d):
                held.keep(what, d[h])
        elif o['op'] == 'cut':
            t = o['table']
            # a quoted field that is cut loses its closing quote and swallows what follows: only plain fields have a clear meaning
            t = dict(t, quote=False, head=['h%d' % j for j in range(len(t['head']))],
                     rows=[[''.join(c for c in x if c.isalnum() and c.isascii()) or '_' for x in r] for r in t['rows']])
            raw = make_table(tp, t)
            m = int(o['frac'] * len(raw))
            with open(tp, 'wb') as f:
                f.write(raw[:m])
            ctx.fired['file:cut-short'] += 1
            ctx.faulted = True
            out = ctx.call(read_table, tp, t)
            ctx.log(what, m, out[0])
            if out[0] == 'ok':
                head = len(t['nl'].join([t['delim'].join(t['head'])])) + len(t['nl'])
                if m > head:
                    bad = table_problem(out[1], t, torn=True)
                    if bad:
                        ctx.violate('torn-table-accepted', '%s: %d of %d bytes: %s' % (what, m, len(raw), bad))
        elif o['op'] == 'threads':
            t = o['table']
            make_table(tp, t)
            ps = [ctx.path('t%d' % j) for j in range(3)]

            def prog(j):
                def go(s, tid):
                    for _ in range(2):
                        fu.write_text_list_to_file(o['lists'][j], ps[j])
                        got = fu.read_text_list_from_file(ps[j])
                        if got != o['lists'][j]:
                            return 'list %s instead of %s' % (got[:4], o['lists'][j][:4])
                    return table_problem(read_table(tp, t), t)
                return go
            _, est = ctx.solo_steps(prog(0))
            for r in ctx.threads([prog(j) for j in range(3)], case['sched'], est=est * 3):
                if r[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
                if r[1]:
                    ctx.violate('wrong-in-threads', '%s: %s' % (what, r[1]))
            ctx.probe('nontrivial')
        elif model.get(p) is not None and o.get('fault'):
            _, tr = ctx.traced(fu.read_text_list_from_file, p)
            out, fired = ctx.faulty([ctx.place(o['fault'], tr)], fu.read_text_list_from_file, p)
            ctx.log(what, fired, out[0])
            if out[0] == 'exc' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            if out[0] == 'ok' and out[1] != model[p]:
                ctx.violate('wrong-list-under-fault', '%s: %d entries %s instead of %d %s' % (what, len(out[1]), out[1][:4], len(model[p]), model[p][:4]))
        for q in sorted(model):
            if model[q] is None:
                continue
            got = fu.read_text_list_from_file(q)
            if got != model[q]:
                ctx.violate('wrong-list', '%s: %d entries %s instead of %d %s' % (what, len(got), got[:4], len(model[q]), model[q][:4]))
            if n % 2:
                held.keep(what, got)
            else:
                scribble(got)
        held.check(what)
        ctx.log(what, 'done')
    for q in sorted(model):      # whatever happened, every path can be written again
        fu.write_text_list_to_file(['again', str(q[-5:])], q)
        if fu.read_text_list_from_file(q) != ['again', str(q[-5:])]:
            ctx.violate('cannot-recover', 'final write of %s' % os.path.basename(q))

"""C10: directories - creating them (alone, together, on failing disks) and listing them completely in any order."""
import os

from props.common import crash_fault, gen_sched, read_fault

META = {
    'runs': {'quick': 4000, 'thorough': 150000},
    'level': 'exploration',
    'rule': 'A run builds a seeded directory tree (names with spaces, glob characters, several extensions, seeded listing order) and '
            'performs 2-8 seeded operations: list files by extension or prefix, list folders, create directories, list or create under '
            'a disk fault or a process death, create overlapping directories from 2-4 simulated threads that are interrupted inside the '
            'creation. Non-trivial: a fault fired or threads were interleaved.',
    'real': ['resippy file utilities', 'os.makedirs, os.listdir', 'libc', 'kernel tmpfs'],
    'stub': ['disk outcomes and listing order (LD_PRELOAD seam)', 'thread scheduler'],
    'assumptions': ['no file name starts with a dot, every file has an extension, no directory name has one (elsewhere the listing is '
                    'a matter of taste)'],
}
DIRS = ['data', 'a b', 'set[1]', 'x*y', 'q?', '[ab]', 'deep/er/dir', 'é']
EXT = ['txt', 'tif', 'TIF', 'png', 'hdr', 'tifx', 'xtif']
STEM = ['img', 'IMG_0001', 'a b', 'img[1]', 'band_1', 'a*', 'report.final', 'x.tif', 'q?', '-', 'é']


def gen(rng, tier, i):
    items = [[rng.choice(DIRS), rng.choice(STEM) + rng.choice(['', '_%d' % rng.randrange(9)]) + '.' + rng.choice(EXT)]
             for _ in range(rng.choice([0, 1, 3, 8, 30]))]
    if rng.random() < 0.02:
        items += [[rng.choice(DIRS[:2]), '%s_%d.%s' % (rng.choice(STEM), j, rng.choice(EXT))] for j in range(1500)]
    items += [[rng.choice(DIRS), rng.choice(['sub', 'sub 2', 'img', 's[0]', '.git', '.s x'])] for _ in range(rng.randrange(4))]
    items += [[rng.choice(DIRS), 'link' + rng.choice(['', ' 2', '[0]']) + rng.choice(['', '', '.' + rng.choice(EXT)])] for _ in range(rng.choice([0, 0, 1, 2]))]
    ops = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.random()
        op = {'d': rng.choice(DIRS), 'full': rng.random() < 0.5, 'rel': rng.random() < 0.2}
        if items and rng.random() < 0.5:       # mostly look where something is
            op['d'], near = rng.choice(items)
        else:
            near = ''
        if k < 0.35:
            op.update(op='files', ext=rng.choice([None, None, rng.choice(['', '.', '*.']) + rng.choice(EXT), rng.sample(EXT, 2)]))
        elif k < 0.5:
            op.update(op='starts', ext=rng.choice([None, rng.choice(EXT)]), pre=rng.choice(['img', 'a', 'x.', ['IMG', 'img'], ['band_', 'q'], 'img[', rng.choice(STEM), [rng.choice(STEM), 'zz'],
                                                 near[:rng.randrange(1, 12)] or 'a', [near[:rng.randrange(3, 12)] or 'b']]))
        elif k < 0.6:
            op.update(op='folders')
        elif k < 0.8:
            op.update(op='mkdir', new=newdir(rng))
        else:
            base = newdir(rng)
            op.update(op='threads', news=[base if rng.random() < 0.6 else base + '/' + newdir(rng) if rng.random() < .5 else newdir(rng)
                                          for _ in range(rng.randrange(2, 5))])
        if rng.random() < 0.35:
            if op['op'] in ('files', 'starts', 'folders'):
                op['fault'] = read_fault(rng, lists=True)
                op['fault'].update(kinds=rng.choice([['opendir'], ['readdir']]), action='err', err=rng.choice(['EIO', 'EACCES', 'EMFILE']))
                op['fault'].pop('arg', None)
            elif op['op'] == 'mkdir':
                op['fault'] = crash_fault(rng) if rng.random() < 0.4 else \
                    dict(kinds=['mkdir'], action=rng.choice(['err', 'err', 'budget']), err=rng.choice(['ENOSPC', 'EACCES', 'EROFS', 'EIO', 'EMLINK']),
                         pos=round(rng.random(), 3), persist=rng.random() < 0.4)
        ops.append(op)
    return {'items': items, 'ops': ops, 'dirseed': rng.randrange(1 << 30), 'sched': gen_sched(rng)}


def newdir(rng):
    return '/'.join(rng.choice(['new', 'out', 'n[1]', 'a b', 'data']) for _ in range(rng.randrange(1, 4)))


def run(case, ctx):
    from resippy.utils import file_utils as fu
    top = ctx.mkdir('t o[p]')
    files, dirs = set(), set()       # the model: paths relative to top

    def add_dir(d):
        while d:
            dirs.add(d)
            d = os.path.dirname(d)
    for d, name in case['items']:
        os.makedirs(os.path.join(top, d), exist_ok=True)
        add_dir(d)
        p = os.path.join(d, name)
        if name.startswith('link'):             # to something outside
            if p in dirs | files:
                continue
            if '.' in name:
                there = ctx.path('linked %d' % len(files))
                with open(there, 'w') as f:
                    f.write(p)
                files.add(p)
            else:
                there = ctx.mkdir('linked')
                add_dir(p)
            os.symlink(there, os.path.join(top, p))
        elif '.' in name[1:]:
            if p not in dirs:
                with open(os.path.join(top, p), 'w') as f:
                    f.write(p)
                files.add(p)
        else:
            os.makedirs(os.path.join(top, p), exist_ok=True)
            add_dir(p)

    def check_tree(what, maybe=()):
        """the real tree is the model (maybe: directories that a failed or killed creation may have left)"""
        got_d, got_f = set(), set()
        for b, ds, fs in os.walk(top):
            r = os.path.relpath(b, top)
            r = '' if r == '.' else r
            got_d |= {os.path.join(r, x) for x in ds}
            got_f |= {os.path.join(r, x) for x in fs}
        if got_f != files or not dirs <= got_d or not got_d <= dirs | set(maybe):
            ctx.violate('wrong-tree', '%s: files %s dirs %s' % (what, sorted(got_f ^ files)[:4], sorted(got_d ^ dirs)[:4]))
        dirs.update(got_d)
        for p in sorted(files):
            with open(os.path.join(top, p)) as f:
                if f.read() != p:
                    ctx.violate('wrong-tree', '%s changed the contents of %s' % (what, p))

    def parents(d):
        out = []
        while d:
            out.append(d)
            d = os.path.dirname(d)
        return out
    old = os.getcwd()
    for n, o in enumerate(case['ops']):
        what = 'op %d %s' % (n, o['op'])
        base = top
        if o['op'] in ('files', 'starts', 'folders'):
            d = o['d']
            if d not in dirs:
                continue
            path = os.path.join(base, d)
            if o['rel']:
                os.chdir(top)
                path = d
            inside = sorted(os.path.basename(p) for p in files if os.path.dirname(p) == d)
            kw = {}
            if o['op'] == 'folders':
                def fn():
                    return fu.get_all_folders_in_dir(path)
                want = [os.path.join(path, os.path.basename(p)) for p in dirs if os.path.dirname(p) == d]
            else:
                ext = o['ext']
                clean = None if ext is None else [ext.replace('.', '').replace('*', '')] if isinstance(ext, str) else ext
                want = [x for x in inside if clean is None or any(x.endswith('.' + e) for e in clean)]
                if not o['full']:
                    kw['return_fullpaths'] = False
                if o['op'] == 'files':
                    def fn():
                        return fu.get_all_files_in_dir(path, o['ext'], **kw)
                else:
                    pre = [o['pre']] if isinstance(o['pre'], str) else o['pre']
                    want = [x for x in want if any(x.startswith(q) for q in pre)]

                    def fn():
                        return fu.get_files_in_dir_that_start_with(path, o['pre'], o['ext'], **kw)
                if o['full']:
                    want = [os.path.join(path, x) for x in want]
            if o.get('fault'):
                _, tr = ctx.traced(fn)
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], fn)
            else:
                out, fired = ctx.call(fn), False
            ctx.log(what, fired, out[0], len(want))
            if out[0] == 'exc' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            if out[0] == 'ok':
                if sorted(map(os.path.normpath, out[1])) != sorted(map(os.path.normpath, want)):
                    ctx.violate('listing-hides-failure' if fired else 'wrong-listing',
                                '%s of %r: %s instead of %s' % (what, d, sorted(out[1])[:5], sorted(want)[:5]))
                ctx.probe('listed')
            os.chdir(old)
        elif o['op'] == 'mkdir':
            p = fu.get_path_from_subdirs(top, o['new'].split('/'))
            if os.path.normpath(p) != os.path.join(top, o['new']):
                ctx.violate('wrong-path', '%r below %r is %r' % (o['new'], top, p))
            p = os.path.join(top, o['new'])
            f = o.get('fault')
            if f:
                # rehearse in an empty place to learn how many operations there are
                _, tr = ctx.traced(fu.make_dir_if_not_exists, ctx.path('rehearsal%d' % n, o['new']))
                f = ctx.place(f, tr)
            if f and f['action'] == 'crash':
                st = ctx.crashy([f], fu.make_dir_if_not_exists, p)
                ctx.log(what, st)
                if st == 'exc':
                    ctx.violate('spurious-failure', '%s in the child' % what)
                ok = st == 'ok'
            else:
                out, fired = ctx.faulty([f] if f else [], fu.make_dir_if_not_exists, p)
                ctx.log(what, fired, out[0])
                ok = out[0] == 'ok'
                if not ok and not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            if ok and not os.path.isdir(p):
                ctx.violate('directory-missing', '%s returned, but there is no %s' % (what, o['new']))
            check_tree(what, parents(o['new']))
            if not ok:
                fu.make_dir_if_not_exists(p)
                if not os.path.isdir(p):
                    ctx.violate('cannot-recover', what)
                check_tree(what, parents(o['new']))
        else:
            def prog(q):
                def go(s, t):
                    p = os.path.join(top, q)
                    fu.make_dir_if_not_exists(p)
                    seen = os.path.isdir(p)
                    fu.make_dir_if_not_exists(p)
                    return seen and os.path.isdir(p)
                return go
            for q, r in zip(o['news'], ctx.threads([prog(q) for q in o['news']], case['sched'], est=12 * len(o['news']),
                                                   extra=[('/os.py', ('makedirs',)), ('<frozen os>', ('makedirs',))])):
                if r[0] != 'ok':
                    ctx.violate('failed-in-threads', '%s %s: %s' % (what, q, ctx.exs(r[1])))
                if not r[1]:
                    ctx.violate('directory-missing', '%s %s' % (what, q))
            check_tree(what, sum((parents(q) for q in o['news']), []))
            ctx.probe('nontrivial')
    check_tree('at the end')

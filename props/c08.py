"""C08: image chips - each chip is its window of the image, in memory and in the files written, through disk faults, crashes and threads."""
import os

import numpy as np

from props.common import crash_fault, diff, gen_sched, mkarray, same, write_fault

META = {
    'runs': {'quick': 2000, 'thorough': 60000},
    'level': 'exploration',
    'rule': 'A run builds 1-2 images (gray, RGB, RGBA, many bands) and performs 2-6 seeded operations: cut the whole image, cut at given '
            'corners or centres, write chips (several formats, name lists, resizing, alpha removal), write them under a disk fault or a '
            'process death, write the same chips again, write from several simulated threads. Non-trivial: a fault fired, files were '
            'overwritten or threads were interleaved.',
    'real': ['resippy image chipper and image utilities', 'imageio, Pillow, tifffile', 'libc', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'thread scheduler'],
    'assumptions': ['images are at least as large as a chip', 'lossless formats (png, tif, bmp)'],
}


def warm():
    import imageio
    import io
    import tempfile
    d = tempfile.mkdtemp()
    for e in ('png', 'tif', 'bmp'):
        imageio.imsave(os.path.join(d, 'x.' + e), np.zeros((4, 4, 3), np.uint8))
        imageio.imread(os.path.join(d, 'x.' + e))
        os.unlink(os.path.join(d, 'x.' + e))
    os.rmdir(d)
    io.BytesIO()


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 1, 2])):
        nb = rng.choice([0, 0, 1, 3, 3, 4, 7])
        items.append({'seed': rng.randrange(1 << 30), 'nb': nb, 'ny': rng.randrange(9, 60), 'nx': rng.randrange(9, 60),
                      'dtype': rng.choice(['uint8', 'uint8', 'uint16', 'float32', 'int16']), 'order': rng.choice('CFV')})
    if rng.random() < .04:
        items[0].update(ny=rng.randrange(256, 300), nx=rng.randrange(256, 300), nb=rng.choice([0, 1, 3]), dtype='uint8')
    ops = []
    for _ in range(rng.randrange(2, 7)):
        cy, cx = rng.randrange(1, 10), rng.randrange(1, 10)
        op = {'f': rng.randrange(2), 'cy': cy, 'cx': cx, 'oy': rng.randrange(cy), 'ox': rng.randrange(cx), 'seed': rng.randrange(1 << 30),
              'how': rng.choice(['whole', 'ul', 'ul', 'center']), 'n': rng.choice([1, 2, 5, 9]), 'bands': rng.choice([None, None, 'int', 'list']),
              'op': rng.choice(['chip', 'write', 'write', 'write', 'threads' if rng.random() < 0.4 else 'write']),
              'fmt': rng.choice(['png', 'png', '.png', 'tif', 'tif', 'bmp']), 'base': rng.choice([None, None, 'base', 'b.1']),
              'names': rng.choice(['', '', '', 'n %d', '40.%d', 'v1.%d.x', 'é_%d'][:7]), 'resize': rng.random() < 0.2, 'alpha': rng.random() < 0.7, 'dir': rng.choice(['out', 'o 2'])}
        if op['how'] == 'whole':
            it = items[op['f'] % len(items)]
            parts = rng.choice([1, 2, 3, 6])
            op['cy'], op['cx'] = [max(1, min(s, -(-s // parts) + rng.choice([-1, 0, 0, 1]))) for s in (it['ny'], it['nx'])]
            op['oy'], op['ox'] = rng.randrange(op['cy'] // 2 + 1), rng.randrange(op['cx'] // 2 + 1)
            if op['cy'] <= 2 or op['cx'] <= 2:
                op['oy'] = op['ox'] = 0
        if op['f'] % len(items) == 0 and items[0]['ny'] >= 256:       # sizes left out
            op.update(cy=256, cx=256, oy=0, ox=0)
        op['edit'] = rng.random() < .3
        if op['op'] == 'write' and rng.random() < 0.6:
            op['fault'] = crash_fault(rng) if rng.random() < 0.2 else write_fault(rng)
        ops.append(op)
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


def image(it):
    shape = (it['ny'], it['nx']) if it['nb'] == 0 else (it['ny'], it['nx'], it['nb'])
    a = mkarray(it['seed'], shape, it['dtype'])
    if it['order'] == 'F':
        a = np.asfortranarray(a)
    elif it['order'] == 'V':
        b = np.zeros(tuple(2 * s for s in shape), a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in shape)]
        v[...] = a
        a = v
    return a


class Ledger(object):
    def set_status(self, text, percent):
        assert 0 <= percent <= 100


def cut(o, img):
    """chips from the code under test"""
    from resippy.utils.image_utils import image_chipper as c
    rs = np.random.RandomState(o['seed'] % (2 ** 31))
    nb = 1 if img.ndim == 2 else img.shape[2]
    bands = None
    if o['bands'] == 'int':
        bands = int(rs.randint(nb))
    elif o['bands'] == 'list':
        bands = [int(x) for x in rs.permutation(nb)[:rs.randint(1, nb + 1)]]
    kw = dict(chip_ny_pixels=o['cy'], chip_nx_pixels=o['cx'], bands=bands)
    if o['cy'] == o['cx'] == 256:
        kw = dict(bands=bands)
    if o['how'] == 'whole':
        if o['oy'] or o['ox'] or o['seed'] % 2:
            kw.update(npix_overlap_y=o['oy'], npix_overlap_x=o['ox'])
        return bands, None, c.chip_entire_image_to_memory(img, **kw)
    ys, xs = [[int(v) for v in rs.randint(-3, s + 3, o['n'])] for s in img.shape[:2]]
    if o['how'] == 'ul' and rs.randint(4) == 0:         # all inside, nothing has to be moved
        ys, xs = [[int(v) for v in rs.randint(0, s - h + 1, o['n'])] for s, h in zip(img.shape[:2], (o['cy'], o['cx']))]
        kw['keep_within_image_bounds'] = bool(rs.randint(2))
    elif o['how'] == 'center' and rs.randint(4) == 0:
        ys, xs = [[v + float(f) for v, f in zip(q, rs.choice([0., .25, .5, .75], len(q)))] for q in (ys, xs)]
    if rs.randint(4) == 0:
        kw['atk_chain_ledger'] = Ledger()
    if rs.randint(2):
        ys, xs = np.array(ys), np.array(xs)
    k = (np.array(ys), np.array(xs))
    fn = c.chip_images_by_pixel_upper_lefts if o['how'] == 'ul' else c.chip_images_by_pixel_centers
    res = fn(img, ys, xs, **kw)
    if not (np.array_equal(k[0], ys) and np.array_equal(k[1], xs)):
        return bands, 'cutting changed the lists of positions', res
    if o['how'] == 'center':
        k = [(p - h / 2.0).astype(int) for p, h in zip(k, (o['cy'], o['cx']))]
    want = [(int(min(max(y, 0), img.shape[0] - o['cy'])), int(min(max(x, 0), img.shape[1] - o['cx']))) for y, x in zip(*k)]
    got = [(int(y), int(x)) for y, x in res[1]]
    return bands, None if got == want else 'positions %s instead of %s' % (got[:4], want[:4]), res


def chip_problem(o, img, keep):
    """cut and compare every chip with its window. Returns (problem, chips)"""
    bands, p, (chips, uls) = cut(o, img)
    if not same(img, keep):
        return 'cutting changed the image', chips
    if p:
        return p, chips
    full = keep if keep.ndim == 3 else keep[:, :, None]
    b = list(range(full.shape[2])) if bands is None else [bands] if isinstance(bands, int) else bands
    gray = keep.ndim == 2 or len(b) == 1
    if chips.dtype != keep.dtype or len(chips) != len(uls):
        return 'chips of type %s, %d for %d positions' % (chips.dtype, len(chips), len(uls)), chips
    seen = np.zeros(keep.shape[:2], bool)
    for c, (y, x) in zip(chips, uls):
        w = full[y:y + o['cy'], x:x + o['cx']][:, :, b]
        w = w[:, :, 0] if gray else w
        if not same(c, w):
            return 'chip at %s: %s' % ((int(y), int(x)), diff(c, w)), chips
        seen[y:y + o['cy'], x:x + o['cx']] = True
    if o['how'] == 'whole' and not seen.all():
        return '%d pixels of the image are in no chip' % (~seen).sum(), chips
    if np.shares_memory(chips, img):
        return 'chips that are the image', chips
    return None, chips


def writable(o, chips):
    """what the formats can hold"""
    fmt = o['fmt'].replace('.', '')
    nb = 1 if chips.ndim == 3 else chips.shape[3]
    a = chips
    if chips.ndim == 4 and nb not in (1, 3, 4):
        a = a[..., :3] if nb > 3 else a[..., 0]
    if fmt != 'tif' or o['resize']:
        a = a.astype(np.uint16 if a.dtype == np.uint16 and a.ndim == 3 and fmt == 'png' and not o['resize'] else np.uint8)
    if fmt == 'bmp' and a.ndim == 4 and a.shape[3] == 4:
        a = a[..., :3]
    return a


def run(case, ctx):
    import imageio
    from PIL import Image
    from resippy.utils.image_utils import image_chipper as ic
    imgs = [image(it) for it in case['items']]
    keeps = [np.array(a) for a in imgs]
    disk = {}        # path -> expected pixels, or None where a failed write left something unknown

    def write(o, chips, d):
        kw = {}
        if o['base'] is not None:
            kw['base_chip_fname'] = o['base']
        if o['names']:
            kw['fnames_list'] = [o['names'] % j for j in range(len(chips))]
        if o['resize']:
            kw.update(output_chip_ny=o['cy'] + 2, output_chip_nx=o['cx'] + 5)
        if o['fmt'] != 'png' or o['seed'] % 2:
            kw['output_format'] = o['fmt']
        if not o['alpha'] or o['seed'] % 3:
            kw['remove_alpha'] = o['alpha']
        if o['seed'] % 5 == 0:
            kw['atk_chain_ledger'] = Ledger()
        ic.write_chips_to_disk(chips, d, **kw)

    def expected(o, chips, d):
        out = {}
        for j, c in enumerate(chips):
            n = o['names'] % j if o['names'] else '%s_%08d' % (os.path.basename(d) if o['base'] is None else o['base'], j)
            if o['resize']:
                c = np.array(Image.fromarray(c).resize((o['cx'] + 5, o['cy'] + 2)))
            if o['alpha'] and c.ndim == 3 and c.shape[2] == 4:
                c = c[:, :, :3]
            out[os.path.join(d, n + '.' + o['fmt'].replace('.', ''))] = c
        return out

    def check(paths, what):
        for p in sorted(paths):
            if disk[p] is None:
                continue
            r = ctx.call(imageio.imread, p)
            if r[0] == 'exc':
                ctx.violate('chip-unreadable', '%s: %s: %s' % (what, os.path.basename(p), ctx.exs(r[1])))
            a = np.asarray(r[1])
            w = disk[p]
            if w.ndim == 3 and w.shape[2] == 1:
                w = w[:, :, 0]
            if a.ndim == 3 and w.ndim == 2 and p.endswith('bmp'):
                a = a[:, :, 0]
            if not same(a, w):
                ctx.violate('wrong-chip-on-disk', '%s: %s: %s' % (what, os.path.basename(p), diff(a, w)))

    for n, o in enumerate(case['ops']):
        img, keep = imgs[o['f'] % len(imgs)], keeps[o['f'] % len(imgs)]
        what = 'op %d %s %s' % (n, o['op'], o['how'])
        if o.get('edit'):           # other pixels, mostly between the same first and last rows
            k, _ = chip_problem(o, img, keep)
            if k:
                ctx.violate('wrong-chip', '%s: %s' % (what, k))
            img[1:-1] = img[1:-1][::-1].copy()
            keep = keeps[o['f'] % len(imgs)] = np.array(img)
        p, chips = chip_problem(o, img, keep)
        if p:
            ctx.violate('wrong-chip', '%s: %s' % (what, p))
        ctx.log(what, len(chips))
        if o['op'] == 'chip':
            continue
        chips = writable(o, chips)
        d = ctx.mkdir(o['dir'])
        want = expected(o, chips, d)
        kc = chips.copy()
        if o['op'] == 'threads':
            ds = [d] + [ctx.mkdir('thread%d' % j) for j in range(2)]

            def prog(j):
                def go(s, t):
                    q, _ = chip_problem(o, img, keep)
                    write(o, chips, ds[j])
                    return q
                return go
            _, est = ctx.solo_steps(prog(0))
            for r in ctx.threads([prog(j) for j in range(3)], case['sched'], est=est * 3):
                if r[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
                if r[1]:
                    ctx.violate('wrong-chip', '%s: %s' % (what, r[1]))
            for q in ds:
                e = expected(o, chips, q)
                disk.update(e)
                check(e, what)
            ctx.probe('nontrivial')
            continue
        f = o.get('fault')
        ok = True
        if f:
            _, tr = ctx.traced(write, o, chips, ctx.mkdir('rehearsal%d' % n))
            f = ctx.place(f, tr)
        if any(q in disk for q in want):
            ctx.probe('overwritten')
        if f and f['action'] == 'crash':
            st = ctx.crashy([f], write, o, chips, d)
            if st == 'exc':
                ctx.violate('spurious-failure', '%s in the child' % what)
            ok = st == 'ok'
            ctx.log(what, st)
        else:
            out, fired = ctx.faulty([f] if f else [], write, o, chips, d)
            ctx.log(what, fired, out[0])
            ok = out[0] == 'ok'
            if not ok and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
        if not same(kc, chips):
            ctx.violate('chips-changed', '%s changed the chips in memory' % what)
        disk.update(want if ok else {q: None for q in want})
        check(disk, what)
        if not ok:
            r = ctx.call(write, o, chips, d)
            if r[0] == 'exc':
                ctx.violate('cannot-recover', '%s: %s' % (what, ctx.exs(r[1])))
            disk.update(want)
            check(disk, what)

"""C02: ENVI store - write / read / truncate / crash histories of ENVI cubes on a faulty disk, checked against an independent
implementation of the format."""
import os
import random

import numpy as np

from props.common import Held, scribble, crash_fault, diff, mkarray, read_fault, same, write_fault

META = {
    'runs': {'quick': 4000, 'thorough': 120000},
    'level': 'exploration',
    'rule': 'A run is a seeded history of 1-6 operations (write cube, read through numpy reader, read through image object, read one '
            'band, cut the file short, read a cube with another writer\'s header) on up to four paths; about 60% of runs put a disk fault, a failed allocation or '
            'a process death inside one operation. Non-trivial: a fault fired, or a cube was written and read back.',
    'real': ['resippy envi utils, EnviImage, EnviMetadata', 'GDAL ENVI driver', 'numpy file I/O', 'libc stdio', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'allocation outcomes of numpy (seam decides which fails)'],
    'assumptions': ['the ENVI header describes little-endian data unless it says otherwise'],
}
CODES = {'uint8': 1, 'int16': 2, 'int32': 3, 'float32': 4, 'float64': 5, 'complex64': 6, 'complex128': 9, 'uint16': 12,
         'uint32': 13, 'int64': 14, 'uint64': 15}
AXES = {'bil': (0, 2, 1), 'bip': (0, 1, 2), 'bsq': (2, 0, 1)}


def gen_cube(rng):
    if rng.random() < 0.02:
        ny, nx, nb = rng.choice([(300, 257, 3), (5, 4, 1100), (1025, 70, 2)])
        return {'seed': rng.randrange(1 << 30), 'dtype': rng.choice(sorted(CODES)), 'ny': ny, 'nx': nx, 'nb': nb, 'order': rng.choice('CCFV')}
    return {'seed': rng.randrange(1 << 30), 'dtype': rng.choice(sorted(CODES)), 'ny': rng.choice([1, 2, 3, 7, 20, 61]),
            'nx': rng.choice([1, 2, 5, 16, 33]), 'nb': rng.choice([1, 1, 2, 3, 6, 11]), 'order': rng.choice('CCFV')}


def gen(rng, tier, i):
    paths = ['a.dat', 'b.img', 'sub/c', 'a2.bil']
    ops = []
    files = []
    for _ in range(rng.randrange(1, 6)):
        k = rng.random()
        if k < 0.5 or not files:
            p = rng.choice(paths)
            op = {'op': 'write', 'path': p, 'cube': gen_cube(rng), 'il': rng.choice(['bil', 'bil', 'bip', 'bsq']),
                  'hdr': rng.choice([None, None, 'x'])}
            files.append(p)
        elif k < 0.66:
            op = {'op': 'read', 'path': rng.choice(files)}
        elif k < 0.8:
            op = {'op': 'gdalread', 'path': rng.choice(files), 'band': rng.choice([None, 0, 3])}
        elif k < 0.9:
            op = {'op': 'cut', 'path': rng.choice(files), 'frac': round(rng.random(), 4)}
        else:
            op = {'op': 'foreign', 'path': rng.choice(paths), 'cube': gen_cube(rng), 'il': rng.choice(['bil', 'bip', 'bsq']),
                  'offset': rng.choice([0, 0, 17, 4096]), 'big': rng.random() < 0.4, 'style': rng.randrange(7), 'shuffle': rng.randrange(1 << 20)}
            files.append(op['path'])
        ops.append(op)
    mode = rng.random()
    j = rng.randrange(len(ops))
    if mode < 0.6:
        if ops[j]['op'] == 'write':
            if mode < 0.15:
                ops[j]['crash'] = crash_fault(rng)
            else:
                ops[j]['fault'] = write_fault(rng)
        elif ops[j]['op'] in ('read', 'gdalread'):
            ops[j]['fault'] = read_fault(rng)
    elif mode < 0.75 and ops[j]['op'] in ('write', 'read', 'gdalread'):
        ops[j]['oom'] = [round(rng.random(), 4), rng.random() < 0.4]
    return {'ops': ops}


def cube_of(c):
    a = mkarray(c['seed'], (c['ny'], c['nx'], c['nb']), c['dtype'])
    if c['order'] == 'F':
        a = np.asfortranarray(a)
    elif c['order'] == 'V':
        a = np.repeat(a, 2, axis=1)[:, ::2, :]
    return a


def parse_header(text):
    d = {}
    for line in text.split('\n')[1:]:
        if '=' in line:
            k, v = line.split('=', 1)
            d[k.strip().lower()] = v.strip()
    return d


def check_disk(ctx, path, hdr, cube, il, what):
    """independent reading of data file + header, straight from the format's definition"""
    try:
        text = open(hdr).read()
        raw = open(path, 'rb').read()
    except OSError as e:
        ctx.violate('lost-write', '%s returned normally but %s' % (what, e))
    h = parse_header(text)
    if not text.startswith('ENVI'):
        ctx.violate('bad-header', '%s: header does not start with ENVI' % what)
    want = {'samples': cube.shape[1], 'lines': cube.shape[0], 'bands': cube.shape[2], 'data type': CODES[cube.dtype.name]}
    for k, v in want.items():
        if h.get(k) != str(v):
            ctx.violate('bad-header', '%s: header %s = %r, should be %d' % (what, k, h.get(k), v))
    if h.get('interleave', '').lower() != il:
        ctx.violate('bad-header', '%s: interleave %r, asked for %s' % (what, h.get('interleave'), il))
    off = int(h.get('header offset', 0))
    dt = cube.dtype.newbyteorder('>' if h.get('byte order', '0') == '1' else '<')
    if len(raw) - off != cube.nbytes:
        ctx.violate('lost-write', '%s returned normally but the data file has %d of %d bytes' % (what, len(raw) - off, cube.nbytes))
    ax = AXES[il]
    got = np.frombuffer(raw, dt, offset=off).reshape([cube.shape[i] for i in ax]).transpose(np.argsort(ax))
    if not same(got, cube):
        ctx.violate('lost-write', '%s: the file holds other samples: %s' % (what, diff(got, cube)))


def run(case, ctx):
    from resippy.image_objects.envi.envi_image_factory import EnviImageFactory
    from resippy.utils import envi_utils
    ctx.mkdir('sub')
    held = Held(ctx)
    store = {}        # path -> (cube, header path) or None when the content is unknown

    def hdr_of(p, style):
        return ctx.path(p) + '.hdr'

    def verify_reads(p, cube, hdr, what):
        got = envi_utils.read_envi_image(ctx.path(p), hdr)
        if got.dtype.newbyteorder('=') != cube.dtype or not same(got, cube):
            ctx.violate('wrong-read', '%s: %s read back as %s: %s' % (what, cube.dtype, got.dtype, diff(got, cube)))
        scribble(got)

    for k, o in enumerate(case['ops']):
        op, p = o['op'], o['path']
        what = 'op %d %s %s' % (k, op, p)
        path = ctx.path(p)
        if op == 'write':
            cube = cube_of(o['cube'])
            keep = cube.copy()
            hdr = hdr_of(p, None)
            arg = hdr if o['hdr'] else None

            def wr(path=path, arg=arg, cube=cube):
                envi_utils.write_envi_image(cube, path, arg, interleave=o['il'])
            fresh = not os.path.exists(path) and not os.path.exists(hdr)
            if o.get('fault') or o.get('crash'):
                twin = ctx.path('sub', 'twin_' + p.replace('/', '_'))
                out, tr = ctx.traced(lambda: envi_utils.write_envi_image(cube, twin, twin + '.hdr', interleave=o['il']))
                if out[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                if o.get('crash'):
                    st = ctx.crashy([ctx.place(o['crash'], tr)], wr)
                    ctx.log(what, 'crash', st)
                    if st == 'ok':
                        check_disk(ctx, path, hdr, cube, o['il'], what)
                    elif fresh:
                        # whatever the dead writer left at a fresh path is never mistaken for a complete image
                        r = ctx.call(envi_utils.read_envi_image, path, hdr)
                        if r[0] == 'ok' and not same(r[1], cube):
                            ctx.violate('torn-image-accepted', '%s: after a crash the reader returned %s' % (what, diff(r[1], cube)))
                        ctx.probe('read_after_crash')
                else:
                    out, fired = ctx.faulty([ctx.place(o['fault'], tr)], wr)
                    ctx.log(what, 'fault', fired, out[0])
                    if out[0] == 'exc' and not fired:
                        ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                    if out[0] == 'ok':
                        check_disk(ctx, path, hdr, cube, o['il'], what + ' under a disk fault')
                    elif fresh:
                        r = ctx.call(envi_utils.read_envi_image, path, hdr)
                        if r[0] == 'ok' and not same(r[1], cube):
                            ctx.violate('torn-image-accepted', '%s: after a failed write the reader returned %s' % (what, diff(r[1], cube)))
            if o.get('oom'):
                out, n = ctx.allocations(wr)
                if out[0] == 'ok' and n:
                    if fresh:
                        os.remove(path)
                        os.remove(hdr)
                    out, fired = ctx.starved(min(n - 1, int(o['oom'][0] * n)), o['oom'][1], wr)
                    ctx.log(what, 'no memory', n, fired, out[0])
                    if out[0] == 'ok':
                        check_disk(ctx, path, hdr, cube, o['il'], what + ' without memory')
                    elif not fired:
                        ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                    elif fresh:
                        r = ctx.call(envi_utils.read_envi_image, path, hdr)
                        if r[0] == 'ok' and not same(r[1], cube):
                            ctx.violate('torn-image-accepted', '%s: after a failed write the reader returned %s' % (what, diff(r[1], cube)))
            out, _ = ctx.traced(wr)
            if out[0] != 'ok':
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            check_disk(ctx, path, hdr, cube, o['il'], what)
            if not same(cube, keep):
                ctx.violate('caller-array-changed', what)
            store[p] = (keep, hdr)
            verify_reads(p, keep, arg, what)
            ctx.probe('nontrivial')
        elif op == 'foreign':
            # a file some other ENVI writer produced: header offset, byte order, other spellings
            cube = cube_of(o['cube'])
            dt = cube.dtype.newbyteorder('>' if o['big'] else '<')
            hdr = hdr_of(p, None)
            il = o['il'].upper() if o['style'] == 1 else o['il']
            lines = ['ENVI', 'description = {', '  made elsewhere}', 'samples = %d' % cube.shape[1], 'lines   = %d' % cube.shape[0],
                     'bands   = %d' % cube.shape[2], 'header offset = %d' % o['offset'], 'file type = ENVI Standard',
                     'data type = %d' % CODES[cube.dtype.name], 'interleave = %s' % il, 'byte order = %d' % int(o['big'])]
            if o['style'] == 2:
                lines.append('wavelength = {\n %s}' % ', '.join('%g' % (400 + 10 * j) for j in range(cube.shape[2])))
            if o['style'] == 4:             # names of entries are not case sensitive
                lines[1:] = [l.split('=')[0].title() + '=' + l.split('=', 1)[1] if '=' in l else l for l in lines[1:]]
            if o['style'] == 5:
                lines.append('data file = run=%d, day=2' % k)
            if o['style'] in (5, 6):        # in no particular order; the last line ends with the file
                rest = lines[3:]
                random.Random(o['shuffle']).shuffle(rest)
                lines[3:] = rest
            with open(path, 'wb') as f:
                f.write(b'\xab' * o['offset'])
                f.write(np.ascontiguousarray(cube.transpose(AXES[o['il']])).astype(dt).tobytes())
            with open(hdr, 'w') as f:
                f.write(('\r\n' if o['style'] == 3 else '\n').join(lines) + ('' if o['style'] in (5, 6) else '\r\n' if o['style'] == 3 else '\n'))
            store[p] = (cube, hdr)
            verify_reads(p, cube, None, what)
            if o['style'] == 2:
                w = envi_utils.read_envi_header(hdr)['wavelength']
                if not np.allclose(w, 400 + 10 * np.arange(cube.shape[2])):
                    ctx.violate('bad-header', what + ': wavelengths read as %r' % (w,))
            ctx.probe('nontrivial')
        elif op == 'cut':
            if not store.get(p):
                continue
            cube, hdr = store[p]
            size = os.path.getsize(path)
            n = int(o['frac'] * size)
            with open(path, 'r+b') as f:
                f.truncate(n)
            r = ctx.call(envi_utils.read_envi_image, path, hdr)
            if r[0] == 'ok' and not same(r[1], cube):
                ctx.violate('torn-image-accepted', '%s to %d of %d bytes: the reader returned %s' % (what, n, size, diff(r[1], cube)))
            r = ctx.call(lambda: EnviImageFactory.from_file(path, hdr).read_all_image_data_from_disk())
            if r[0] == 'ok' and not same(r[1], cube):
                ctx.violate('torn-image-accepted', '%s to %d of %d bytes: the image object returned %s' % (what, n, size, diff(r[1], cube)))
            b = cube.shape[2] - 1
            r = ctx.call(lambda: EnviImageFactory.from_file(path, hdr).read_band_from_disk(b))
            if r[0] == 'ok' and not (isinstance(r[1], np.ndarray) and same(r[1], cube[:, :, b])):
                ctx.violate('torn-image-accepted', '%s to %d of %d bytes: band %d came back wrong' % (what, n, size, b))
            ctx.fired['file:cut-short'] += 1
            ctx.faulted = True
            store[p] = None
        else:
            if not store.get(p):
                continue
            cube, hdr = store[p]
            if op == 'gdalread' and cube.nbytes < 2:
                continue                    # GDAL does not recognise a one byte file as an image
            if op == 'read':
                def rd():
                    return envi_utils.read_envi_image(path, hdr)
                want = cube
            elif o['band'] is None:
                def rd():
                    im = EnviImageFactory.from_file(path, hdr)
                    m = im.get_metadata()
                    if (m.get_npix_y(), m.get_npix_x(), m.get_n_bands()) != cube.shape:
                        ctx.violate('bad-header', what + ': metadata size')
                    return im.read_all_image_data_from_disk()
                want = cube
            else:
                b = o['band'] % cube.shape[2]

                def rd():
                    return EnviImageFactory.from_file(path, hdr).read_band_from_disk(b)
                want = cube[:, :, b]
            if o.get('fault'):
                _, tr = ctx.traced(rd)
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], rd)
                ctx.log(what, 'fault', fired, out[0])
                if out[0] == 'exc' and not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                if out[0] == 'ok' and not (isinstance(out[1], np.ndarray) and same(out[1], want)):
                    if op == 'gdalread' and fired and isinstance(out[1], np.ndarray) and out[1].shape == want.shape:
                        ctx.violate('gdal-hides-unreadable-part', '%s under a read fault: %s' % (what, diff(out[1], want)))
                    ctx.violate('wrong-read', '%s under a read fault: %s' % (what, 'None' if out[1] is None else diff(out[1], want)))
            if o.get('oom'):
                out, n = ctx.allocations(rd)
                if out[0] == 'ok' and n:
                    out, fired = ctx.starved(min(n - 1, int(o['oom'][0] * n)), o['oom'][1], rd)
                    ctx.log(what, 'no memory', n, fired, out[0])
                    if out[0] == 'exc' and not fired:
                        ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                    if out[0] == 'ok' and not (isinstance(out[1], np.ndarray) and same(out[1], want)):
                        ctx.violate('wrong-read', '%s without memory: %s' % (what, 'None' if out[1] is None else diff(out[1], want)))
            out = ctx.call(rd)
            if out[0] == 'exc':
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            if not same(out[1], want):
                ctx.violate('wrong-read', '%s: %s' % (what, diff(out[1], want)))
            if k % 2:
                held.keep(what, out[1])
            else:
                scribble(out[1])
                again = rd()
                if not same(again, want):
                    ctx.violate('wrong-read', '%s (again, after the first result was changed): %s' % (what, diff(again, want)))
                held.keep(what, again)
        held.check(what)
        ctx.log(what, 'done')
    for p, v in sorted(store.items()):
        if v is not None:
            verify_reads(p, v[0], v[1], 'final state of ' + p)

"""C01: GeoTIFF store - histories of create / open / modify / write against a model, on a faulty disk."""
import numpy as np

from core import Violation
from props.common import DTYPES, crash_fault, diff, mkarray, read_fault, same, write_fault

META = {
    'runs': {'quick': 1500, 'thorough': 40000},
    'level': 'exploration',
    'rule': 'A run is a seeded history of 2-7 operations (create from array, open, modify pixels/georeference/nodata, read band, '
            'read all, write, re-save) on up to three GeoTIFF paths with a seeded GDAL cache size; 60% of runs put one disk '
            'fault or one process death inside one operation, 12% run out of memory inside one write. Non-trivial: a fault fired, or the history wrote and reopened.',
    'real': ['resippy geotiff image/metadata/point calculator/factory', 'GDAL and libtiff', 'libc stdio buffering', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam decides each failure, short transfer, full disk, process death)',
             'allocation outcomes of numpy (seam decides which fails)'],
    'assumptions': ['GDAL reads back what is in the file when the disk is healthy', 'a process death loses only what was not yet '
                    'handed to write(2)'],
}

CRS = [4326, 32618, 3857, 2263, 32733]
COMP = ['LZW', 'LZW', 'NONE', 'DEFLATE', 'PACKBITS']
XD = DTYPES + ['int8', 'complex64', 'complex128', 'int64', 'uint64']


def gen_params(rng, big=False):
    dt = rng.choice(DTYPES) if rng.random() < 0.8 else rng.choice(XD)
    if big:
        nx, ny, nb = rng.randrange(200, 620), rng.randrange(200, 620), rng.choice([1, 2])
    else:
        nx, ny, nb = rng.randrange(1, 40), rng.randrange(1, 40), rng.choice([1, 1, 2, 3, 5])
    epsg = rng.choice(CRS)
    sc = 0.0001 if epsg == 4326 else rng.choice([0.5, 2.0, 30.0])
    ul = (-77.5, 43.1) if epsg == 4326 else (rng.randrange(200000, 700000) + 0.25, rng.randrange(100000, 4700000) + 0.5)
    rot = rng.random() < 0.2
    g = [ul[0], sc, sc * 0.1 if rot else 0.0, ul[1], sc * 0.2 if rot else 0.0, -sc * rng.choice([1, 1.5])]
    nd = None
    if rng.random() < 0.6:
        if dt.startswith('float') or dt.startswith('complex'):
            nd = rng.choice([-9999, 0, -0.5, 1e-3, -32768.25, 'nan'])
        else:
            nd = rng.choice([0, 1, 100]) if dt != 'uint8' else rng.choice([0, 255, 7])
    return {'seed': rng.randrange(1 << 30), 'dtype': dt, 'nx': nx, 'ny': ny, 'nb': nb, 'geot': g, 'epsg': epsg, 'nodata': nd,
            'flat': nb == 1 and rng.random() < 0.3}


def gen(rng, tier, i):
    big = rng.random() < 0.12
    ops = [{'op': 'new', 'img': 0, 'p': gen_params(rng, big)}]
    paths = ['a.tif', 'b.tif', 'sub/c.tif']
    n = rng.randrange(2, 8)
    live, files = [0], []
    while len(ops) < n:
        k = rng.random()
        if k < 0.36 or not files:
            p = rng.choice(paths)
            ops.append({'op': 'write', 'img': rng.choice(live), 'path': p, 'comp': rng.choice(COMP)})
            files.append(p)
        elif k < 0.5:
            j = rng.choice([0, 1, 2])
            ops.append({'op': 'open', 'img': j, 'path': rng.choice(files)})
            if j not in live:
                live.append(j)
        elif k < 0.56:
            j = rng.choice([0, 1, 2])
            ops.append({'op': 'new', 'img': j, 'p': gen_params(rng)})
            if j not in live:
                live.append(j)
        elif k < 0.66:
            ops.append({'op': 'setdata', 'img': rng.choice(live), 'seed': rng.randrange(1 << 30)})
        elif k < 0.72:
            ops.append({'op': 'setband', 'img': rng.choice(live), 'seed': rng.randrange(1 << 30), 'band': rng.randrange(5)})
        elif k < 0.78:
            ops.append({'op': 'setnodata', 'img': rng.choice(live), 'nodata': rng.choice([None, 0, 3])})
        elif k < 0.83:
            ops.append({'op': 'shift', 'img': rng.choice(live), 'dx': rng.choice([10.5, -3.0])})
        elif k < 0.92:
            ops.append({'op': 'readband', 'img': rng.choice(live), 'band': rng.randrange(5)})
        else:
            ops.append({'op': 'readall', 'img': rng.choice(live), 'keep': rng.random() < 0.5})
    mode = rng.random()
    if mode < 0.6:
        idx = [j for j, o in enumerate(ops) if o['op'] == 'write']
        if idx and rng.random() < 0.8:
            j = rng.choice(idx)
            if mode < 0.08:
                ops[j]['crash'] = crash_fault(rng)
            else:
                ops[j]['fault'] = write_fault(rng)
        else:
            idx = [j for j, o in enumerate(ops) if o['op'] in ('open', 'readband', 'readall')]
            if idx:
                ops[rng.choice(idx)]['fault'] = read_fault(rng)
    elif mode < 0.72:
        idx = [j for j, o in enumerate(ops) if o['op'] == 'write']
        if idx:
            ops[rng.choice(idx)]['oom'] = [round(rng.random(), 4), rng.random() < 0.4]
    return {'ops': ops, 'cache': rng.choice([None, None, 300000, 1000000])}


class Model(object):
    __slots__ = ('arr', 'geot', 'epsg', 'nodata')

    def __init__(self, arr, geot, epsg, nodata):
        self.arr, self.geot, self.epsg, self.nodata = arr, list(geot), epsg, nodata

    def copy(self):
        return Model(self.arr.copy(), self.geot, self.epsg, self.nodata)


class Handle(object):
    def __init__(self, obj, model, path):
        self.obj, self.model, self.path = obj, model, path


_wkt = {}


def proj_of(epsg):
    from pyproj import Proj
    return Proj('EPSG:%d' % epsg, preserve_units=True)


def same_nodata(a, b, dtype=None):
    if b is not None and dtype is not None and np.dtype(dtype) in (np.dtype('float32'), np.dtype('complex64')):
        b = float(np.float32(b))        # nodata is compared with pixels, so it lives in the pixels' precision
        a = a if a is None else float(np.float32(a))
    if a is None or b is None:
        return a is None and b is None
    return a == b or (a != a and b != b)


def crs_ok(proj, epsg, geot):
    """both projections put the image's corner at the same place on earth"""
    lon, lat = (geot[0], geot[3]) if epsg == 4326 else proj_of(epsg)(geot[0], geot[3], inverse=True)
    if proj.crs.is_geographic:
        return epsg == 4326
    if epsg == 4326:
        return False
    x, y = proj(lon, lat)
    return abs(x - geot[0]) < 1e-3 and abs(y - geot[3]) < 1e-3


def check_file(ctx, path, m, what):
    import gdal
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
    ds = gdal.Open(path)
    if ds is None:
        ctx.violate('lost-write', '%s returned normally but the file cannot be opened' % what)
    if (ds.RasterXSize, ds.RasterYSize, ds.RasterCount) != (m.arr.shape[1], m.arr.shape[0], m.arr.shape[2]):
        ctx.violate('wrong-file', '%s: size %s instead of %s' % (what, (ds.RasterYSize, ds.RasterXSize, ds.RasterCount), m.arr.shape))
    for b in range(m.arr.shape[2]):
        got = ds.GetRasterBand(b + 1).ReadAsArray()
        if got is None:
            ctx.violate('lost-write', '%s returned normally but band %d cannot be read' % (what, b))
        if got.dtype != m.arr.dtype:
            ctx.violate('wrong-file', '%s: dtype %s instead of %s' % (what, got.dtype, m.arr.dtype))
        if not same(got, m.arr[:, :, b]):
            ctx.violate('lost-write', '%s returned normally but band %d holds other data: %s' % (what, b, diff(got, m.arr[:, :, b])))
        nd = ds.GetRasterBand(b + 1).GetNoDataValue()
        if not same_nodata(nd, m.nodata, m.arr.dtype):
            ctx.violate('wrong-nodata', '%s: nodata %r instead of %r' % (what, nd, m.nodata))
    gt = ds.GetGeoTransform()
    if not np.allclose(gt, m.geot, rtol=1e-12, atol=1e-9):
        ctx.violate('wrong-georef', '%s: geotransform %r instead of %r' % (what, gt, m.geot))
    ds = None
    img = GeotiffImageFactory.from_file(path)
    check_handle(ctx, img, m, what + ' (reopened)')


def check_handle(ctx, img, m, what):
    md = img.get_metadata()
    if (md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) != (m.arr.shape[1], m.arr.shape[0], m.arr.shape[2]):
        ctx.violate('wrong-metadata', '%s: metadata size' % what)
    if not same_nodata(md.get_nodata_val(), m.nodata, m.arr.dtype):
        ctx.violate('wrong-nodata', '%s: nodata %r instead of %r' % (what, md.get_nodata_val(), m.nodata))
    pc = img.get_point_calculator()
    if not np.allclose(pc.get_geot(), m.geot, rtol=1e-12, atol=1e-9):
        ctx.violate('wrong-georef', '%s: geotransform %r' % (what, list(pc.get_geot())))
    if not crs_ok(pc.get_projection(), m.epsg, m.geot):
        ctx.violate('wrong-crs', '%s: projection %s instead of EPSG:%d' % (what, pc.get_projection().srs, m.epsg))
    x, y = pc.lon_lat_alt_to_pixel_x_y(m.geot[0], m.geot[3], 0.0)
    if abs(x) > 1e-4 or abs(y) > 1e-4:
        ctx.violate('wrong-georef', '%s: origin maps to pixel %r' % (what, (x, y)))
    if img.get_image_data() is not None:
        got = img.get_image_data()
        if not same(got, m.arr):
            ctx.violate('wrong-data', '%s: image data %s' % (what, diff(got, m.arr)))
    else:
        got = img.read_all_image_data_from_disk()
        if not same(got, m.arr):
            ctx.violate('wrong-data', '%s: read-all %s' % (what, diff(got, m.arr)))
        got = img.read_band_from_disk(m.arr.shape[2] - 1)
        if not same(got, m.arr[:, :, -1]):
            ctx.violate('wrong-data', '%s: read-band %s' % (what, diff(got, m.arr[:, :, -1])))


def run(case, ctx):
    import gdal
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory as F
    if case.get('cache'):
        gdal.SetCacheMax(case['cache'])
    ctx.mkdir('sub')
    H, disk, comps = {}, {}, {}
    for k, o in enumerate(case['ops']):
        what = 'op %d %s' % (k, o['op'])
        op = o['op']
        h = H.get(o.get('img'))
        if op not in ('new', 'open') and h is None:
            continue
        # a handle that still reads lazily from a path that was written since is out of scope
        if h is not None and op not in ('new', 'open') and h.path is not None and h.obj.get_image_data() is None \
                and disk.get(h.path) is None:
            continue
        if op == 'new':
            p = o['p']
            arr = mkarray(p['seed'], (p['ny'], p['nx'], p['nb']), p['dtype'])
            nd = float('nan') if p['nodata'] == 'nan' else p['nodata']
            m = Model(arr, p['geot'], p['epsg'], nd)
            given = arr[:, :, 0].copy() if p.get('flat') else arr.copy()
            H[o['img']] = Handle(F.from_numpy_array(given, p['geot'], proj_of(p['epsg']), nd), m, None)
            check_handle(ctx, H[o['img']].obj, m, what)
        elif op == 'open':
            path = ctx.path(o['path'])
            if disk.get(o['path']) is None:
                continue
            if o.get('fault'):
                (_, tr) = ctx.traced(F.from_file, path)
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], F.from_file, path)
                ctx.log(what, 'fault', fired, out[0])
                if out[0] == 'ok':
                    try:
                        check_handle(ctx, out[1], disk[o['path']], what + ' under fault')
                    except Violation as v:
                        nbad = sum(1 for t in ctx.last_trace if t[0] == 'read' and t[4])
                        if fired and nbad == 1 and v.sig in ('wrong-georef', 'wrong-nodata', 'wrong-crs'):
                            ctx.violate('gdal-ignores-unreadable-tag', v.msg)
                        raise
                    except Exception as e:      # an image that could not be opened completely may refuse to be read
                        ctx.log('refused', ctx.exs(e))
                elif not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            img = F.from_file(path)
            H[o['img']] = Handle(img, disk[o['path']].copy(), o['path'])
            ctx.probe('reopened')
            check_handle(ctx, img, H[o['img']].model, what)
        elif op == 'setdata':
            m = h.model
            m.arr = mkarray(o['seed'], m.arr.shape, m.arr.dtype)
            h.obj.set_image_data(m.arr.copy())
            check_handle(ctx, h.obj, m, what)
        elif op == 'setband':
            m = h.model
            if h.obj.get_image_data() is None:
                continue
            b = o['band'] % m.arr.shape[2]
            band = mkarray(o['seed'], m.arr.shape[:2], m.arr.dtype)
            m.arr[:, :, b] = band
            h.obj.set_image_band(band.copy(), b)
            check_handle(ctx, h.obj, m, what)
            if not same(h.obj.get_image_band(b), band):
                ctx.violate('wrong-data', what + ': band just set reads back differently')
        elif op == 'setnodata':
            h.model.nodata = o['nodata']
            h.obj.get_metadata().set_nodata_val(o['nodata'])
        elif op == 'shift':
            g = list(h.model.geot)
            g[0] += o['dx'] if h.model.epsg != 4326 else o['dx'] * 1e-4
            h.model.geot = g
            h.obj.get_point_calculator().set_geot(list(g))
        elif op in ('readband', 'readall'):
            if h.path is None or h.obj.get_dset() is None or disk.get(h.path) is None:
                continue
            b = o.get('band', 0) % h.model.arr.shape[2]
            # what is on disk for this handle
            ref = disk[h.path].arr
            if getattr(h, 'stale', False):
                continue

            def fn():
                return h.obj.read_band_from_disk(b) if op == 'readband' else h.obj.read_all_image_data_from_disk()
            want = ref[:, :, b] if op == 'readband' else ref
            if o.get('fault'):
                # a fresh handle, so that the read really goes to the disk
                h2 = F.from_file(ctx.path(h.path))
                (_, tr) = ctx.traced(lambda: h2.read_band_from_disk(b) if op == 'readband' else h2.read_all_image_data_from_disk())
                h2 = None
                h2 = F.from_file(ctx.path(h.path))
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)],
                                        lambda: h2.read_band_from_disk(b) if op == 'readband' else h2.read_all_image_data_from_disk())
                ctx.log(what, 'fault', fired, out[0])
                if out[0] == 'ok' and not (isinstance(out[1], np.ndarray) and same(out[1], want)):
                    nbad = sum(1 for t in ctx.last_trace if t[0] == 'read' and t[4])
                    raw = comps.get(h.path) in ('NONE', 'PACKBITS') and nbad == 1 and isinstance(out[1], np.ndarray) and out[1].shape == want.shape
                    ctx.violate('gdal-reads-file-header-as-pixels' if raw else 'wrong-read', '%s under a read fault returned %s' % (
                        what, 'None' if out[1] is None else diff(out[1], want)))
                if out[0] == 'exc' and not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            got = fn()
            if not same(got, want):
                ctx.violate('wrong-read', '%s: %s' % (what, diff(got, want)))
            if op == 'readall' and o.get('keep') and h.obj.get_image_data() is None:
                h.obj.set_image_data(got)
                h.model.arr = want.copy()
        elif op == 'write':
            path = ctx.path(o['path'])
            m = h.model
            for other in H.values():          # lazily opened handles onto the overwritten path go out of scope
                if other is not h and other.path == o['path'] and other.obj.get_image_data() is None:
                    other.stale = True
            stale_self = h.path == o['path']

            def wr():
                h.obj.write_to_disk(path, o['comp'])
            if o.get('fault') or o.get('crash'):
                # fault-free rehearsal on a twin path gives the operation's disk trace
                twin = ctx.path('sub', 'twin_' + o['path'].replace('/', '_'))
                lazy = h.obj.get_image_data() is None
                (out, tr) = ctx.traced(lambda: h.obj.write_to_disk(twin, o['comp']))
                if out[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                check_file(ctx, twin, m, what + ' (rehearsal)')
                if lazy:
                    h.obj.set_image_data(None)
                if o.get('crash'):
                    st = ctx.crashy([ctx.place(o['crash'], tr)], wr)
                    ctx.log(what, 'crash', st)
                    if st == 'ok':
                        check_file(ctx, path, m, what)
                else:
                    out, fired = ctx.faulty([ctx.place(o['fault'], tr)], wr)
                    ctx.log(what, 'fault', fired, out[0] if out[0] == 'ok' else ctx.exs(out[1])[:60])
                    if out[0] == 'exc' and not fired:
                        ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                    if out[0] == 'ok':
                        check_file(ctx, path, m, what + ' under a disk fault')
                    # the image in memory is unharmed by a failed write
                    if h.obj.get_image_data() is not None and not same(h.obj.get_image_data(), m.arr):
                        ctx.violate('memory-harmed', what + ': a failed write changed the image in memory')
                ctx.probe('retry_after_fault')
            if o.get('oom'):
                disk[o['path']] = None
                lazy = h.obj.get_image_data() is None
                fired = 0
                out, n = ctx.allocations(wr)
                if out[0] == 'ok' and n:
                    if lazy:
                        h.obj.set_image_data(None)
                    if lazy and stale_self:
                        h.obj.set_image_data(m.arr.copy())
                    out, fired = ctx.starved(min(n - 1, int(o['oom'][0] * n)), o['oom'][1], wr)
                    ctx.log(what, 'no memory', n, fired, out[0])
                    if out[0] == 'ok':
                        check_file(ctx, path, m, what + ' without memory')
                if out[0] == 'exc' and not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                if h.obj.get_image_data() is None and stale_self:
                    h.obj.set_image_data(m.arr.copy())
                if h.obj.get_image_data() is not None and not same(h.obj.get_image_data(), m.arr):
                    ctx.violate('memory-harmed', what + ': a write without memory changed the image in memory')
            disk[o['path']] = None
            out, _ = ctx.traced(wr)           # healthy disk: must succeed and be exact
            if out[0] != 'ok':
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            disk[o['path']] = m.copy()
            comps[o['path']] = o['comp']
            check_file(ctx, path, m, what)
            ctx.probe('wrote')
            ctx.probe('nontrivial')
            if stale_self:
                h.stale = True
                h.model = m
            if h.obj.get_image_data() is None or not same(h.obj.get_image_data(), m.arr):
                if h.obj.get_image_data() is not None:
                    ctx.violate('memory-harmed', what + ': writing changed the image in memory')
        # nobody else's image in memory has changed
        for i in sorted(H):
            q = H[i]
            if q is not h and q.obj.get_image_data() is not None:
                check_handle(ctx, q.obj, q.model, '%s, then looking at image %s' % (what, i))
        ctx.log(what, 'done')
    # at the end every file still holds what was last written to it
    for p, m in sorted(disk.items()):
        if m is not None:
            check_file(ctx, ctx.path(p), m, 'final state of ' + p)

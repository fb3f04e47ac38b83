"""C09: images staged in new files - warped images, drone sets written band by band, converted elevation models - are and
stay what they should be, whatever else is warped or staged, whatever the disk does."""
import os
import struct
import sys
import types

import numpy as np

from props.common import crash_fault, diff, gen_sched, mkarray, read_fault, same, write_fault

META = {
    'runs': {'quick': 1200, 'thorough': 80000},
    'level': 'exploration',
    'rule': 'A run holds 1-3 images (in memory or opened from a file) and performs 2-8 seeded operations: warp an image to another projection '
            'or resolution (into a temporary or a named, possibly existing file), change pixels in memory, stage a drone set band by band, '
            'convert an elevation model to geoid or ellipsoid heights and back, make map tiles, do two of these from threads; under a disk '
            'fault or a process death inside the operation. Everything produced so far is read again after each. Non-trivial: a fault '
            'fired, a process died, threads were interleaved, or several results lived at the same time.',
    'real': ['resippy GeoTIFF, Micasense and DEM classes', 'GDAL warper, libtiff, PROJ', 'Pillow, imageio', 'libc', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'thread scheduler', 'random bytes (uuid)', 'gdal2tiles (records the image it is given)'],
    'assumptions': ['warping itself (GDAL) computes what GDAL computes when everything is in memory', 'lossless file formats'],
}
EPSG = [4326, 32618, 3857]


def opts(rng):
    return {'dst': rng.choice([4326, 32618, 32617, 3857, 0]), 'res': rng.choice([None, None, 0.37, 0.73, 1.61]), 'alg': rng.choice(['near', 'near', 'bilinear']),
            'out': rng.choice(['tmp', 'tmp', 'p0', 'p1', 'p2'])}


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        items.append({'seed': rng.randrange(1 << 30), 'ny': rng.randrange(3, 50), 'nx': rng.randrange(3, 50), 'nb': rng.choice([1, 1, 2, 3]),
                      'dtype': rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64']), 'nodata': rng.choice([None, None, 7]),
                      'epsg': rng.choice(EPSG), 'file': rng.random() < 0.5})
    if rng.random() < 0.03:
        items[0].update(ny=rng.randrange(256, 400), nx=rng.randrange(256, 400))
    ops = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.random()
        op = 'warp' if k < 0.45 else 'stage' if k < 0.6 else 'modify' if k < 0.68 else 'dem' if k < 0.8 else 'tiles' if k < 0.83 else 'threads'
        o = {'op': op, 'c': rng.randrange(3), 'seed': rng.randrange(1 << 30), 'named': rng.random() < 0.3, 'o': opts(rng), 'o2': opts(rng),
             'c2': rng.randrange(3), 'stage2': rng.random() < 0.3}
        if op in ('warp', 'stage', 'dem') and rng.random() < 0.4:
            k = rng.random()
            o['fault'] = crash_fault(rng) if k < 0.15 and op != 'dem' else write_fault(rng) if k < 0.75 else read_fault(rng)
        ops.append(o)
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


class Img(object):
    pass


def sr(epsg):
    import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s


def mem(arr, geot, wkt, nodata):
    import gdal
    from osgeo import gdal_array
    d = gdal.GetDriverByName('MEM').Create('', arr.shape[1], arr.shape[0], arr.shape[2], gdal_array.NumericTypeCodeToGDALTypeCode(arr.dtype))
    d.SetGeoTransform(geot)
    d.SetProjection(wkt)
    for b in range(arr.shape[2]):
        d.GetRasterBand(b + 1).WriteArray(arr[:, :, b])
        if nodata is not None:
            d.GetRasterBand(b + 1).SetNoDataValue(nodata)
    return d


def make(ctx, k, it):
    import gdal
    import osr
    import pyproj
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
    m = Img()
    m.arr = mkarray(it['seed'], (it['ny'], it['nx'], it['nb']), it['dtype'])
    m.nodata = it['nodata']
    if m.nodata is not None:
        rs = np.random.RandomState(it['seed'] % 2 ** 31)
        m.arr[rs.rand(*m.arr.shape) < .1] = m.nodata
    s = {4326: 2.0 ** -10, 32618: 32., 3857: 64.}[it['epsg']]
    x, y = {4326: (-77.503, 42.251), 32618: (452003.7, 4678001.3), 3857: (-8627000.3, 5190000.9)}[it['epsg']]
    m.geot = [x, s, 0, y, 0, -s]
    m.file = it['file']
    m.gsd = s
    if m.file:
        m.path = ctx.path('src%d.tif' % k)
        wkt = sr(it['epsg']).ExportToWkt()
        src = mem(m.arr, m.geot, wkt, m.nodata)
        gdal.GetDriverByName('GTiff').CreateCopy(m.path, src).FlushCache()
        m.img = GeotiffImage.init_from_file(m.path)
        d = gdal.Open(m.path)
        m.wkt = d.GetProjection()
    else:
        p = pyproj.Proj(init='epsg:%d' % it['epsg'], preserve_units=True)
        a = m.arr.copy()
        m.img = GeotiffImage.init_from_numpy_array(a if it['nb'] > 1 or it['seed'] % 2 else a[:, :, 0], m.geot, p, m.nodata)
        o = osr.SpatialReference()
        o.ImportFromProj4(p.srs)
        m.wkt = o.ExportToWkt()
    return m


def warp_options(m, o):
    import gdal
    kw = {'resampleAlg': o['alg']}
    if o['dst']:
        kw['dstSRS'] = 'EPSG:%d' % o['dst']
    if o['res'] or not o['dst']:
        kw['width'] = max(2, int(m.arr.shape[1] * (o['res'] or 1.3)))
        kw['height'] = max(2, int(m.arr.shape[0] * (o['res'] or 0.7) * 1.1))
    return gdal.WarpOptions(**kw)


class Want(object):
    def __init__(self, d):
        self.geot = d.GetGeoTransform()
        self.bands = [d.GetRasterBand(b + 1).ReadAsArray() for b in range(d.RasterCount)]
        self.nodata = d.GetRasterBand(1).GetNoDataValue()


def want(m, o):
    import gdal
    import warnings
    kw = warp_options(m, o)
    d = gdal.Warp('/vsimem/oracle.tif', mem(m.arr, m.geot, m.wkt, m.nodata), options=kw)
    w = Want(d)
    d = None
    gdal.Unlink('/vsimem/oracle.tif')
    return w


def wrong(img, w, alg='near'):
    """how does an image differ from what it should be?"""
    md = img.get_metadata()
    if (md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) != (w.bands[0].shape[1], w.bands[0].shape[0], len(w.bands)):
        return 'size %s' % ((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()),)
    if not np.allclose(img.get_point_calculator().get_geot(), w.geot, rtol=1e-9, atol=1e-9):
        return 'geotransform %s instead of %s' % (list(img.get_point_calculator().get_geot()), list(w.geot))
    if (md.get_nodata_val() is None) != (w.nodata is None) or (w.nodata is not None and md.get_nodata_val() != w.nodata):
        return 'nodata value %s instead of %s' % (md.get_nodata_val(), w.nodata)
    for b, x in enumerate(w.bands):
        got = img.read_band_from_disk(b)
        if not same(got, x) and not (alg == 'bilinear' and got.shape == x.shape and np.allclose(got.astype(float), x.astype(float), rtol=1e-5, atol=1.01 if x.dtype.kind in 'iu' else 1e-3)):
            return 'band %d: %s' % (b, diff(got, x))
    return None


def tiles_stub():
    g = types.ModuleType('gdal2tiles')
    g.got = []

    def generate_tiles(fname, out_dir, **kw):
        import gdal
        d = gdal.Open(fname)
        g.got.append((Want(d), out_dir))
    g.generate_tiles = generate_tiles
    sys.modules['gdal2tiles'] = g
    return g


def warm():
    import gdal
    gdal.PushErrorHandler('CPLQuietErrorHandler')
    m = Img()
    m.arr = np.zeros((4, 4, 1), 'uint8')
    for e in EPSG:
        gdal.Warp('', mem(m.arr, [-8627000.3, 64, 0, 5190000.9, 0, -64.], sr(3857).ExportToWkt(), None), format='MEM', dstSRS='EPSG:%d' % e)
    import resippy.image_objects.earth_overhead.micasense.micasense_image_factory  # noqa
    import resippy.photogrammetry.dem.dem_factory  # noqa


def run(case, ctx):
    import gdal
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
    from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory
    from resippy.photogrammetry.dem.dem_factory import DemFactory
    imgs = [make(ctx, k, it) for k, it in enumerate(case['items'])]
    live = {}       # key -> (name, check function returning a complaint or None)
    stage_dir = ctx.mkdir('stage')

    def check_all(what):
        for key in sorted(live):
            name, fn = live[key]
            p = fn()
            if p:
                ctx.violate('result-lost', '%s: afterwards %s has %s' % (what, name, p))
        for k, m in enumerate(imgs):
            if m.file and m.img.get_image_data() is None:
                cur = np.stack([m.img.read_band_from_disk(b) for b in range(m.arr.shape[2])], axis=2)
            else:
                cur = m.img.get_image_data()
            if not same(cur, m.arr):
                ctx.violate('image-changed', '%s: image %d: %s' % (what, k, diff(cur, m.arr)))
        if len(live) > 1:
            ctx.probe('nontrivial')

    def warper(n, k, o):
        m = imgs[k]
        dst = None if o['out'] == 'tmp' else ctx.path(o['out'] + '.tif')
        w = want(m, o)
        op = warp_options(m, o)
        key = 'w%s' % (n if dst is None else o['out'])

        def do():
            return GeotiffImage.gdalwarp_geotiff_image(m.img, op, dst) if dst else GeotiffImage.gdalwarp_geotiff_image(m.img, op)
        return key, do, (lambda im: wrong(im, w, o['alg'])), 'warp %s of image %d to %s' % (n, k, o['out'])

    def stager(n, seed, named):
        a = mkarray(seed, (2 + seed % 30, 2 + seed // 64 % 30, 5), ['uint16', 'uint8', 'float32'][seed % 3])
        if seed % 7 < 3:                    # blank bands; images of other shapes and types have the same bytes
            a = np.zeros([(4, 12, 5), (6, 8, 5), (12, 4, 5), (2, 6, 5), (3, 4, 5), (3, 8, 5)][seed // 7 % 6], a.dtype)
            a[:, :, seed // 64 % 5] = seed // 512 % 2
        names = ['cap%s_%d.tif' % (n, b) for b in range(5)] if named else None
        md, pc = object(), object()
        keep = a.copy()

        def do():
            return MicasenseImageFactory.from_numpy_and_pix4d(a, md, pc, working_dir=stage_dir, band_basenames=names)

        def chk(im):
            if im.get_metadata() is not md or im.get_point_calculator() is not pc:
                return 'another metadata or point calculator'
            if len(im.band_fnames) != 5:
                return 'band files %s' % im.band_fnames
            if not same(a, keep):
                return 'its source array changed'
            if names and [os.path.basename(f) for f in im.band_fnames] != names:
                return 'band files %s' % im.band_fnames
            for b in range(5):
                g = im.read_band_from_disk(b)
                if not same(g, keep[:, :, b]):
                    return 'band %d: %s' % (b, diff(g, keep[:, :, b]))
            g = im.read_all_image_data_from_disk()
            return None if same(g, keep) else diff(g, keep)
        return 's%s' % n, do, chk, 'staged set %s' % n

    def attempt(what, key, do, chk, name, fault, n):
        """one operation, under a fault if asked for; then once more if it failed"""
        live.pop(key, None)
        fired = False
        if fault:
            _, tr = ctx.traced(do)
            f = ctx.place(fault, tr)
            if fault['action'] == 'crash':
                st = ctx.crashy([f], do)
                ctx.log(what, st)
                fired = st == 'crashed'
                out = ('exc', RuntimeError('process died')) if fired else ctx.call(do)
            else:
                out, fired = ctx.faulty([f], do)
        else:
            out = ctx.call(do)
        ctx.log(what, fired, out[0])
        if out[0] == 'exc':
            if not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            check_all(what + ' (failed)')
            out = ctx.call(do)
            if out[0] == 'exc':
                ctx.violate('cannot-recover', '%s: %s' % (what, ctx.exs(out[1])))
            fired = False
        r = out[1]
        try:
            p = chk(r)
        except Exception as e:
            p = 'cannot be read (%s)' % ctx.exs(e)
        if p:
            ctx.violate('wrong-result-reported-good' if fired else 'wrong-result', '%s%s: %s' % (what, ' under a disk fault' if fired else '', p))
        live[key] = (name, lambda: chk(r))

    for n, o in enumerate(case['ops']):
        k = o['c'] % len(imgs)
        m = imgs[k]
        what = 'op %d %s' % (n, o['op'])
        if o['op'] == 'warp':
            key, do, chk, name = warper(n, k, o['o'])
            attempt(what, key, do, chk, name, o.get('fault'), n)
        elif o['op'] == 'stage':
            key, do, chk, name = stager(n, o['seed'], o['named'])
            attempt(what, key, do, chk, name, o.get('fault'), n)
        elif o['op'] == 'modify':
            a = mkarray(o['seed'], m.arr.shape, m.arr.dtype)
            if o['seed'] % 2 and m.img.get_image_data() is not None:
                m.img.set_image_band(a[:, :, 0], 0)
                m.arr = m.arr.copy()
                m.arr[:, :, 0] = a[:, :, 0]
            else:
                m.img.set_image_data(a.copy())
                m.arr = a
        elif o['op'] == 'tiles':
            g = tiles_stub()
            w = want(m, {'dst': 3857, 'res': None, 'alg': 'near'})
            m.img.create_map_tiles(ctx.path('tiles'))
            if len(g.got) != 1 or g.got[0][1] != ctx.path('tiles') or len(g.got[0][0].bands) != len(w.bands) or \
                    not all(same(x, y) for x, y in zip(g.got[0][0].bands, w.bands)):
                ctx.violate('wrong-result', '%s: tiles are made of another image' % what)
        elif o['op'] == 'threads':
            k2 = o['c2'] % len(imgs)
            jobs = [warper('%da' % n, k, o['o']), stager('%db' % n, o['seed'], o['named']) if o['stage2'] else warper('%db' % n, k2, o['o2'])]
            if jobs[0][0] == jobs[1][0]:
                continue                    # two threads may not write one file
            for j in jobs:
                live.pop(j[0], None)
            est = sum(ctx.solo_steps(lambda s, t, do=j[1]: do())[1] for j in jobs)
            rs = ctx.threads([(lambda s, t, do=j[1]: do()) for j in jobs], case['sched'], est=est)
            for j, r in zip(jobs, rs):
                if r[0] != 'ok':
                    ctx.violate('failed-in-threads', '%s: %s: %s' % (what, j[3], ctx.exs(r[1])))
                p = j[2](r[1])
                if p:
                    ctx.violate('wrong-in-threads', '%s: %s: %s' % (what, j[3], p))
                live[j[0]] = (j[3], lambda j=j, r=r: j[2](r[1]))
            ctx.probe('nontrivial')
        else:
            dem_op(ctx, what, n, o, DemFactory)
        check_all(what)
    for m in imgs:
        if m.file:
            with open(m.path, 'rb') as f:
                pass


def dem_op(ctx, what, n, o, DemFactory):
    import gdal
    rs = np.random.RandomState(o['seed'] % 2 ** 31)
    ny, nx = int(rs.randint(4, 30)), int(rs.randint(4, 30))
    z = mkarray(o['seed'], (ny, nx, 1), 'float32')
    z[0, 0] = 5
    nod = -99. if rs.randint(2) else None
    if nod:
        z[rs.rand(*z.shape) < .1] = nod
    geot = [-77.503, 2.0 ** -10, 0, 42.251, 0, -2.0 ** -10]
    path = ctx.path('dem%d.tif' % n)
    gdal.GetDriverByName('GTiff').CreateCopy(path, mem(z, geot, sr(4326).ExportToWkt(), nod)).FlushCache()
    grid = ctx.path('geoid%d.gtx' % n)
    g = rs.uniform(-60, 60, (9, 18))
    with open(grid, 'wb') as f:
        f.write(struct.pack('>4d2i', -80, -180., 20., 20., 9, 18) + g.astype('>f4').tobytes())
    dem = DemFactory.from_gtiff_file(path)
    dem.set_interpolation_to_nearest()
    how = ['geoid', 'ellipsoid'][rs.randint(2)]
    srs = dem.gtiff.get_point_calculator().get_projection().srs
    a, b = srs, srs + ' +geoidgrids=' + grid
    if how == 'ellipsoid':
        a, b = b, a
    d = gdal.Warp('', mem(z, geot, sr(4326).ExportToWkt(), nod), format='MEM', srcSRS=a, dstSRS=b)
    new = d.GetRasterBand(1).ReadAsArray().astype(float)
    ngeot = d.GetGeoTransform()
    out_path = ctx.path('dem%d %s.tif' % (n, how))
    old = z[:, :, 0].astype(float)
    if nod:
        old[old == nod], new[new == nod] = np.nan, np.nan
    if np.allclose(old, new, equal_nan=True):
        return

    def check(zz, gt, when):
        j, i = np.meshgrid(np.arange(zz.shape[1]), np.arange(zz.shape[0]))
        got = dem.get_elevations(gt[0] + (j + .5) * gt[1], gt[3] + (i + .5) * gt[5])
        if not (got.shape == zz.shape and np.allclose(got, zz, rtol=1e-6, atol=1e-4, equal_nan=True)):
            if fired and any(t[0] in ('open_r', 'read') and t[1].endswith('.gtx') and t[-1] for t in ctx.last_trace) and same(zz, new):
                zz = old
                if got.shape == zz.shape and np.allclose(got, zz, rtol=1e-6, atol=1e-4, equal_nan=True):
                    ctx.violate('proj-goes-without-unreadable-grid', '%s to %s heights: not converted' % (what, how))
            ctx.violate('wrong-elevation', '%s to %s heights, %s: %s' % (what, how, when, diff(got, zz)))

    def do():
        (dem.convert_to_geoid_heights if how == 'geoid' else dem.convert_to_ellipsoid_heights)(out_path, grid)
    check(old, geot, 'before')
    fired = False
    if o.get('fault'):
        dem2 = dem
        dem = DemFactory.from_gtiff_file(path)
        dem.set_interpolation_to_nearest()
        _, tr = ctx.traced(do)
        dem = dem2
        if o['seed'] % 3:
            os.unlink(out_path)
        out, fired = ctx.faulty([ctx.place(o['fault'], tr)], do)
    else:
        out = ctx.call(do)
    ctx.log(what, how, fired, out[0])
    if out[0] == 'exc':
        if not fired:
            ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
        check(old, geot, 'after it failed')
        out, fired = ctx.call(do), False
        if out[0] == 'exc':
            ctx.violate('cannot-recover', '%s to %s heights: %s' % (what, how, ctx.exs(out[1])))
        check(new, ngeot, 'once the disk is healthy again')
        return
    check(new, ngeot, 'afterwards' + (' under a disk fault' if fired else ''))

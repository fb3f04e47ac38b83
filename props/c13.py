"""C13: elevation models - every elevation is that of the file, through histories, disk faults, torn files and threads."""
import os

import numpy as np

from props.common import gen_sched, mkarray, read_fault, same

META = {
    'runs': {'quick': 2000, 'thorough': 100000},
    'level': 'exploration',
    'rule': 'A run writes 1-2 elevation files (integer or float, with or without nodata, geographic or UTM, north-up or not) and performs '
            '2-8 seeded operations: load a model (given nodata, interpolation), load it under a disk fault or from a file cut short, '
            'overwrite the file of a loaded model, declare another nodata value, put another file into a loaded model, switch the interpolation, query points, lines and grids in the model\'s or another '
            'projection, load or query while memory runs out, query from 2-3 simulated threads while another one switches the '
            'interpolation. Non-trivial: a fault fired, a file was cut or overwritten, memory ran out, or threads were interleaved.',
    'real': ['resippy DEM classes and factory, GeoTIFF image and point calculator', 'GDAL, libtiff', 'pyproj', 'libc', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'thread scheduler', 'numpy data allocator (fails on demand)'],
    'assumptions': ['a model has at least 2 x 2 posts', 'a failing disk keeps failing while the model is loaded (what GDAL makes of a '
                    'single unreadable tag is a finding of C01)'],
}
DT = ['float32', 'float32', 'float64', 'int16', 'uint8', 'int32', 'uint16']
PROJ = ['EPSG:4326', 'EPSG:32618', 'EPSG:32733']


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 1, 2])):
        items.append({'seed': rng.randrange(1 << 30), 'ny': rng.randrange(2, 40), 'nx': rng.randrange(2, 40), 'dtype': rng.choice(DT),
                      'nodata': rng.choice([None, 'some', 'some', 'nan', 'unused']), 'share': rng.choice([0.02, 0.2, 0.6]), 'proj': rng.randrange(3),
                      'geo': rng.randrange(5), 'tiled': rng.random() < 0.3, 'comp': rng.choice(['NONE', 'LZW', 'DEFLATE']), 'flat': rng.random() < 0.1})
    if rng.random() < 0.03:
        items[0].update(ny=rng.randrange(250, 530), nx=rng.randrange(250, 530))
    ops = [{'op': 'load', 'f': 0, 's': 0}]
    for _ in range(rng.randrange(2, 9)):
        k = rng.random()
        op = 'load' if k < 0.13 else 'void' if k < 0.19 else 'replace' if k < 0.25 else 'cut' if k < 0.3 else 'rewrite' if k < 0.36 else 'switch' if k < 0.44 else 'threads' if k < 0.58 else \
            'const' if k < 0.61 else 'starve' if k < 0.72 else 'query'
        ops.append({'op': op, 'f': rng.randrange(2), 's': rng.randrange(2), 'frac': round(rng.random(), 4), 'seed': rng.randrange(1 << 30),
                    'persist': rng.random() < 0.4, 'loads': rng.random() < 0.4})
    for o in ops:
        o.update(given=rng.choice([None, None, None, 'same', 'other']), how=rng.choice(['bilinear', 'bilinear', 'nearest', None]),
                 shape=rng.choice(['num', '1', '1', '2', '2F']), where=rng.choice(['in', 'in', 'posts', 'edge', 'out', 'near']),
                 foreign=rng.random() < 0.25, nthreads=rng.choice([2, 3]), switcher=rng.random() < 0.6)
    c = [o for o in ops if o['op'] == 'load']
    if rng.random() < 0.5:
        f = read_fault(rng)
        if f['action'] == 'err':
            f['persist'] = True
        rng.choice(c)['fault'] = f
    for o in ops:
        if o['op'] == 'replace' and rng.random() < 0.5:
            o['fault'] = dict(read_fault(rng), persist=True)
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


class F(object):
    pass


def make(ctx, k, it, seed):
    f = F()
    rs = np.random.RandomState(seed % (2 ** 31))
    f.path = ctx.path('dem %d.tif' % k)
    a = mkarray(seed, (it['ny'], it['nx']), it['dtype'])
    if it['dtype'] == 'int32':
        a = a // 1000
    if it['flat']:
        a[...] = a.flat[0]
    f.nodata = None
    if it['nodata'] == 'nan' and a.dtype.kind == 'f':
        f.nodata = float('nan')
        a[rs.rand(*a.shape) < it['share']] = np.nan
    elif it['nodata']:
        f.nodata = {'u': 255, 'i': -99, 'f': -9999.5}[a.dtype.kind]
        a[a == f.nodata] = 1
        if a.dtype.kind == 'f' and it['seed'] % 3 == 0:     # neighbours of the nodata value are elevations
            near = rs.rand(*a.shape) < 0.2
            a[near] = f.nodata + rs.choice([0.0625, -0.03125, 1, 0.001953125], near.sum())
        if it['nodata'] != 'unused':
            a[rs.rand(*a.shape) < it['share']] = f.nodata
    a.flat[int(rs.randint(a.size))] = 7
    f.raw = a
    f.proj = PROJ[it['proj']]
    s = 2.0 ** -rs.randint(8, 12) if it['proj'] == 0 else 2.0 ** rs.randint(-1, 5)
    x0, y0 = [(-77.5, 42.25), (452000.0, 4778000.0), (512000.0, 6500000.0)][it['proj']]
    f.geot = [[x0, s, 0, y0, 0, -s], [x0, s, 0, y0, 0, -2 * s], [x0, s, 0, y0, 0, s], [x0, s, s / 4, y0, s / 8, -s], [x0, s, 0, y0, 0, -s]][it['geo']]
    save(f, it)
    return f


def save(f, it):
    import gdal
    import osr
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(int(f.proj[5:]))
    o = ['COMPRESS=' + it['comp']] + (['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'] if it['tiled'] else [])
    code = {'uint8': 1, 'uint16': 2, 'int16': 3, 'int32': 5, 'float32': 6, 'float64': 7}[it['dtype']]
    if os.path.exists(f.path):
        os.unlink(f.path)
    d = gdal.GetDriverByName('GTiff').Create(f.path, it['nx'], it['ny'], 1, code, o)
    d.SetGeoTransform(f.geot)
    d.SetProjection(sr.ExportToWkt())
    d.GetRasterBand(1).WriteArray(f.raw)
    if f.nodata is not None:
        d.GetRasterBand(1).SetNoDataValue(f.nodata)
    d.FlushCache()


def near(v, slack):
    return [v, v - slack, v + slack] + ([float(round(v))] if abs(v - round(v)) < slack else [])


def tags_lost(path, f):
    """GDAL alone opens the file, but without its nodata value or georeference"""
    import gdal
    d = gdal.Open(path)
    return d is not None and (d.GetRasterBand(1).GetNoDataValue() is None and f.nodata is not None or not d.GetProjection() or
                              list(d.GetGeoTransform()) != f.geot)


def GeotiffRead(path):
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
    return GeotiffImageFactory.from_file(path).read_all_image_data_from_disk()


class M(object):
    """what a loaded model should answer"""
    def __init__(self, f, nodata, how):
        self.f, self.how, self.nodata = f, how, nodata
        z = f.raw.astype(float)
        if nodata is not None:
            z[f.raw == nodata] = np.nan
        self.z, self.geot, self.proj = z, list(f.geot), f.proj

    def pixels(self, x, y):
        a, b, c, d, e, g = self.geot
        det = b * g - c * e
        u, v = x - a, y - d
        return (g * u - c * v) / det, (b * v - e * u) / det

    def bad(self, px, py, got, how, slack):
        """index of the first elevation that no interpolation of the file gives, or None"""
        ny, nx = self.z.shape
        for k in range(len(px)):
            ok = False
            # rounding may put a point on either side of a post, or on it
            for x in near(px[k], slack):
                for y in near(py[k], slack):
                    x, y = min(max(x, 0.0), nx - 1.0), min(max(y, 0.0), ny - 1.0)
                    i, j = int(y), int(x)
                    if how == 'nearest':
                        want, tol = self.z[i, j], 0.0
                    else:
                        fx, fy = x - j, y - i
                        i2, j2 = min(i + 1, ny - 1), min(j + 1, nx - 1)
                        want, tol = 0.0, 0.0
                        for w, z in (((1 - fx) * (1 - fy), self.z[i, j]), (fx * (1 - fy), self.z[i, j2]), ((1 - fx) * fy, self.z[i2, j]), (fx * fy, self.z[i2, j2])):
                            if w > 0:
                                want += w * z
                                tol += abs(z) * (1e-9 + 8 * slack) if z == z else 0
                        if self.f.raw.dtype == np.float32:
                            tol = tol + 1e-3
                    if (want != want and got[k] != got[k]) or abs(want - got[k]) <= tol:
                        ok = True
            if not ok:
                return k
        return None


def points(o, m, seed):
    """world coordinates in the model's projection, and their pixel coordinates"""
    rs = np.random.RandomState(seed % (2 ** 31))
    ny, nx = m.z.shape
    n = {'num': 1, '1': int(rs.randint(1, 12)) if seed % 61 else 3000, '2': 12, '2F': 12}[o['shape']]
    if o['where'] == 'posts':
        px, py = rs.randint(0, nx, n).astype(float), rs.randint(0, ny, n).astype(float)
    elif o['where'] == 'edge':
        px, py = rs.choice([0.0, nx - 1.0], n), rs.uniform(0, ny - 1, n)
    elif o['where'] == 'near':
        px, py = rs.randint(0, nx, n) + rs.uniform(-.01, .01, n), rs.randint(0, ny, n) + rs.uniform(-.01, .01, n)
    else:
        lo, hi = (0, -1) if o['where'] == 'in' else (-4, 4)
        px, py = rs.uniform(lo, nx + hi, n), rs.uniform(lo, ny + hi, n)
    g = m.geot
    return g[0] + px * g[1] + py * g[2], g[3] + px * g[4] + py * g[5]


def problem(dem, m, o, seed, hows, buf=None):
    import pyproj
    x, y = points(o, m, seed)
    slack = 1e-7
    wp = None
    if o.get('ends') and len(x) > 2:         # these two are the same whatever the seed
        ex, ey = points(o, m, o['ends'])
        x[0], x[-1], y[0], y[-1] = ex[0], ex[-1], ey[0], ey[-1]
    if o['foreign']:
        name = 'EPSG:32618' if m.proj == 'EPSG:4326' else 'EPSG:4326'
        wp = pyproj.Proj(init=name.lower(), preserve_units=True)
        tr = pyproj.Transformer.from_crs(m.proj, name, always_xy=True)
        x, y = tr.transform(x, y)
        px, py = m.pixels(*pyproj.Transformer.from_crs(name, m.proj, always_xy=True).transform(x, y))
        slack = 1e-4
    else:
        px, py = m.pixels(x, y)
    ax, ay = (float(x[0]), float(y[0])) if o['shape'] == 'num' else (np.array(x), np.array(y))
    if o['shape'].startswith('2'):
        ax, ay = ax.reshape(3, 4), ay.reshape(3, 4)
        if o['shape'] == '2F':
            ax, ay = np.asfortranarray(ax), np.asfortranarray(ay)
    if buf is not None and isinstance(ax, np.ndarray):     # the caller uses the same arrays for question after question
        b = buf.setdefault((ax.shape, ax.flags.c_contiguous), (ax.copy(order='K'), ay.copy(order='K')))
        b[0][...], b[1][...] = ax, ay
        ax, ay = b
    keep = np.array(ax), np.array(ay)
    got = dem.get_elevations(ax, ay) if wp is None else dem.get_elevations(ax, ay, world_proj=wp)
    if not (same(keep[0], ax) and same(keep[1], ay)):
        return 'the coordinates were changed'
    shp = () if o['shape'] == 'num' or (o['shape'] == '1' and len(x) == 1 and np.ndim(got) == 0) else np.shape(ax)
    if np.shape(got) != shp:
        return 'elevations of shape %s for coordinates of shape %s' % (np.shape(got), np.shape(ax))
    flat = np.asarray(got, float).reshape(-1)
    k = None
    for how in hows:
        k = m.bad(px, py, flat, how, slack)
        if k is None:
            break
    if k is not None:
        i, j = int(py[k]), int(px[k])
        return 'elevation %r at pixel %.6f %.6f (%s), posts around: %s' % (
            float(flat[k]), px[k], py[k], '/'.join(hows), m.z[max(i, 0):i + 2, max(j, 0):j + 2].tolist())
    if isinstance(got, np.ndarray) and got.size and got.flags.writeable:
        got[...] = -1e8        # what was returned belongs to the caller
    return None


def stats(dem, m):
    z = m.z
    want = (np.nanmax(z), np.nanmin(z), np.nanmean(z))
    got = (dem.get_highest_alt(), dem.get_lowest_alt(), dem.get_mean_alt())
    tol = (0, 0, 1e-3 * max(1.0, float(np.nanmax(np.abs(z)))))
    for n, w, g, t in zip(('highest', 'lowest', 'mean'), want, got, tol):
        if not abs(w - g) <= t:
            return '%s altitude %r instead of %r' % (n, g, w)
    return None


def run(case, ctx):
    from resippy.photogrammetry.dem.dem_factory import DemFactory
    files = [make(ctx, k, it, it['seed']) for k, it in enumerate(case['items'])]
    dems, models, buf = [None, None], [None, None], {}

    def load(path, f, o):
        kw = {}
        if o['how']:
            kw['interpolation_method'] = o['how']
        nd = f.nodata
        if o['given']:
            nd = f.raw.flat[0] if o['given'] == 'other' else (f.nodata if f.nodata is not None else 7)
            nd = kw['nodata_value'] = float(nd) if f.raw.dtype.kind == 'f' else int(nd)
        if nd is not None and np.all((f.raw == nd) | (f.raw != f.raw)):
            kw.pop('nodata_value', None)
            nd = f.nodata
        return DemFactory.from_gtiff_file(path, **kw), M(f, nd, o['how'] or 'bilinear')

    def verify(dem, m, what, n=0):
        for where, shape in (('in', '2'), ('posts', '1')):
            p = problem(dem, m, {'shape': shape, 'where': where, 'foreign': False}, n + 5, [m.how], buf)
            if p:
                ctx.violate('wrong-elevation', '%s: %s' % (what, p))
        p = stats(dem, m)
        if p:
            ctx.violate('wrong-elevation', '%s: %s' % (what, p))

    for n, o in enumerate(case['ops']):
        fi = o['f'] % len(files)
        f, s = files[fi], o['s']
        what = 'op %d %s' % (n, o['op'])
        if o['op'] == 'load':
            if o.get('fault'):
                _, tr = ctx.traced(load, f.path, f, o)
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], load, f.path, f, o)
            else:
                out, fired = ctx.call(load, f.path, f, o), False
            ctx.log(what, fired, out[0])
            if out[0] == 'exc':
                if not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                out = ctx.call(load, f.path, f, o)
                if out[0] == 'exc':
                    ctx.violate('cannot-recover', '%s: %s' % (what, ctx.exs(out[1])))
            dems[s], models[s] = out[1]
            verify(dems[s], models[s], what + (' under a disk fault' if fired else ''), n)
        elif o['op'] == 'cut':
            cut = ctx.path('cut%d.tif' % n)
            with open(f.path, 'rb') as g:
                raw = g.read()
            with open(cut, 'wb') as g:
                g.write(raw[:int(o['frac'] * len(raw))])
            ctx.fired['file:cut-short'] += 1
            ctx.faulted = True
            if case['items'][fi]['comp'] == 'NONE':
                continue
            out = ctx.call(load, cut, f, o)
            ctx.log(what, out[0])
            if out[0] == 'ok':
                p = problem(out[1][0], out[1][1], {'shape': '2', 'where': 'in', 'foreign': False}, n, [out[1][1].how])
                if p:
                    ctx.violate('gdal-ignores-unreadable-tag' if tags_lost(cut, f) else 'torn-file-accepted', '%s: %s' % (what, p))
        elif o['op'] == 'rewrite':
            it = case['items'][fi]
            files[fi] = make(ctx, fi, it, o['seed'])
            ctx.probe('nontrivial')
            for d, m in zip(dems, models):
                if d is not None:
                    verify(d, m, what + ' (model loaded before)', n)
        elif o['op'] == 'starve' and (o['loads'] or dems[s] is None):
            def go():
                d, m = load(f.path, f, o)
                return d, m, stats(d, m), d.get_elevations(*points({'shape': '1', 'where': 'in'}, m, o['seed']))
            r, k = ctx.allocations(go)
            if r[0] != 'ok':
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
            r, fired = ctx.starved(min(k - 1, int(o['frac'] * k)), o['persist'], go)
            ctx.log(what, k, fired, r[0])
            if r[0] == 'ok':
                verify(r[1][0], r[1][1], what + ' (loaded without memory)', n)
                if r[1][2]:
                    ctx.violate('wrong-without-memory', '%s: %s' % (what, r[1][2]))
            elif not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
            ctx.probe('nontrivial')
            out = ctx.call(load, f.path, f, o)
            if out[0] == 'exc':
                ctx.violate('cannot-recover', '%s: %s' % (what, ctx.exs(out[1])))
            dems[s], models[s] = out[1]
            verify(dems[s], models[s], what + ' (afterwards)', n)
        elif o['op'] == 'starve':
            def go():
                return problem(dems[s], models[s], o, o['seed'], [models[s].how]) or stats(dems[s], models[s])
            r, k = ctx.allocations(go)
            if r[0] == 'ok' and not r[1]:
                r, fired = ctx.starved(min(k - 1, int(o['frac'] * k)), o['persist'], go)
            if r[0] == 'ok' and r[1]:
                ctx.violate('wrong-without-memory', '%s: %s' % (what, r[1]))
            if r[0] != 'ok' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
            ctx.probe('nontrivial')
            verify(dems[s], models[s], what + ' (afterwards)', n)
        elif o['op'] == 'const':
            from resippy.photogrammetry import crs_defs
            v = float(o['seed'] % 5000) / 7 - 100
            d = DemFactory.constant_elevation(v)
            for a in (np.zeros((3, 4)), np.ones(5), 3.0):
                g = d.get_elevations(a, a)
                if np.shape(g) != np.shape(a) or not np.all(np.asarray(g) == v):
                    ctx.violate('wrong-elevation', '%s: %r' % (what, g))
            if not d.get_highest_alt() == d.get_lowest_alt() == d.get_mean_alt() == v:
                ctx.violate('wrong-elevation', what)
            d.set_projection(crs_defs.PROJ_4326)
        elif dems[s] is None:
            continue
        elif o['op'] == 'void':
            # a model is told (late, again, differently) which of its elevations is none
            m = models[s]
            v = float(m.z.flat[o['seed'] % m.z.size]) if o['given'] != 'other' else 12345.5
            if not np.isfinite(v) or np.all((m.z == v) | np.isnan(m.z)):
                continue
            stats(dems[s], m)
            m.z = np.where(m.z == v, np.nan, m.z)
            m.nodata = v
            if o['loads']:
                r, k = ctx.allocations(lambda: dems[s].get_mean_alt())
                r, fired = ctx.starved(int(o['frac'] * 6), o['persist'], dems[s].remove_nodata_values, v)
                if r[0] != 'ok' and not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
                if r[0] == 'ok':
                    verify(dems[s], m, what + ' without memory', n)
            dems[s].remove_nodata_values(v)
            ctx.log(what, v)
            ctx.probe('nontrivial')
            verify(dems[s], m, what, n)
        elif o['op'] == 'replace':
            # another file takes the place of the one the model was loaded from
            m = models[s]
            if f.nodata is not None and not (f.nodata == m.nodata or f.nodata != f.nodata) or np.all((f.raw == m.nodata) | (f.raw != f.raw)):
                continue
            stats(dems[s], m)

            def swap():
                from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
                dems[s].set_geotiff_image(GeotiffImageFactory.from_file(f.path))
            fired = False
            if o.get('fault'):
                _, tr = ctx.traced(GeotiffRead, f.path)
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], swap)
            else:
                out = ctx.call(swap)
            ctx.log(what, fired, out[0])
            ctx.probe('nontrivial')
            if out[0] == 'exc':
                if not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
                verify(dems[s], m, what + ' (failed, it is the model it was)', n)
                out = ctx.call(swap)
                if out[0] == 'exc':
                    ctx.violate('cannot-recover', '%s: %s' % (what, ctx.exs(out[1])))
            models[s] = M(f, m.nodata, m.how)
            verify(dems[s], models[s], what, n)
        elif o['op'] == 'switch':
            m = models[s]
            m.how = o['how'] or 'nearest'
            getattr(dems[s], 'set_interpolation_to_' + m.how)()
            if dems[s].get_interpolation_method() != m.how:
                ctx.violate('wrong-elevation', '%s: %s' % (what, dems[s].get_interpolation_method()))
            verify(dems[s], m, what, n)
        elif o['op'] == 'query':
            p = problem(dems[s], models[s], o, o['seed'], [models[s].how])
            for j in range(2):
                p = p or problem(dems[s], models[s], dict(o, ends=o['seed']), o['seed'] + j, [models[s].how], buf)
            if p:
                ctx.violate('wrong-elevation', '%s: %s' % (what, p))
            ctx.log(what, o['shape'], o['where'])
            verify(dems[s], models[s], what + ' (again)', n)
        else:
            dem, m = dems[s], models[s]
            hows = ['bilinear', 'nearest'] if o['switcher'] else [m.how]

            def prog(j):
                def go(sch, tid):
                    return [problem(dem, m, o, o['seed'] + j + r, hows) for r in range(2)] + [stats(dem, m)]
                return go

            def switcher(sch, tid):
                for _ in range(2):
                    dem.set_interpolation_to_nearest()
                    dem.set_interpolation_to_bilinear()
                return []
            _, est = ctx.solo_steps(prog(0))
            progs = [prog(j) for j in range(o['nthreads'])] + ([switcher] if o['switcher'] else [])
            for r in ctx.threads(progs, case['sched'], est=est * len(progs)):
                if r[0] != 'ok':
                    ctx.violate('failed-in-threads', '%s: %s' % (what, ctx.exs(r[1])))
                for p in r[1]:
                    if p:
                        ctx.violate('wrong-elevation-in-threads', '%s: %s' % (what, p))
            if o['switcher']:
                m.how = 'bilinear'
            ctx.probe('nontrivial')
            verify(dem, m, what + ' (afterwards)', n)

"""C15: orthorectified images show what the camera sees - whatever the disk or the memory does while they are made."""
import os

import numpy as np

from props.c12 import MODELS, ZONES, Pix4d, Cam, twin
from props.common import Held, crash_fault, diff, gen_sched, mkarray, read_fault, same, write_fault

META = {
    'runs': {'quick': 3000, 'thorough': 60000},
    'level': 'exploration',
    'rule': 'A run holds 1-2 overhead images (GeoTIFF, single cameras of five kinds, look-up arrays; in memory or in a file; or a five-band '
            'drone set whose bands have cameras of their own) and an elevation model, and performs 2-6 operations: orthorectify to a polygon in '
            'some projection (into a file or not), orthorectify all of the image, find its extent, make a look-up image, pick pixel values '
            'at places on the ground, find obstructed pixels - plainly, under a disk fault or process death, without memory, or two or three '
            'of them from threads; or repeats a request after the pixels, the terrain or the camera changed under the same name. Non-trivial: a fault fired, a process died, threads were interleaved, or memory ran out.',
    'real': ['resippy orthorectification tools, cameras, images, elevation models', 'GDAL, libtiff, imageio', 'scipy, numpy, shapely, pyproj', 'libc', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'thread scheduler', 'numpy data allocator (fails on demand)'],
    'assumptions': ['scipy.ndimage.map_coordinates interpolates', 'cells within a fraction of a pixel of a decision (nearest neighbour, image border) '
                    'may take either value'],
}
SRC = ['gtiff_mem', 'gtiff_file', 'cam_mem', 'cam_file', 'drone', 'igm']


def req(rng):
    return {'f': rng.choice(['ortho'] * 7 + ['full', 'full', 'extent', 'igm', 'values', 'hidden', 'lonlats']), 'seed': rng.randrange(1 << 30), 'nx': rng.randrange(1, 40),
            'ny': rng.randrange(1, 40), 'order': rng.choice([0, 0, 1, 1, 3]), 'foreign': rng.random() < 0.3, 'bands': rng.choice(['all', 'all', 'some']), 'wide': rng.random() < 0.02,
            'nodata': rng.choice([0, 0, 7, 200]), 'mask': rng.random() < 0.2, 'out': rng.random() < 0.35, 'dem': rng.choice(['none', 'const', 'model', 'model']),
            'box': rng.random() < 0.5, 'gsd': rng.random() < 0.5, 'fresh': rng.random() < 0.5}


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 1, 2])):
        items.append({'src': rng.choice(SRC), 'cam': rng.choice(['pinhole', 'opencv', 'pix4d', 'rpc']), 'seed': rng.randrange(1 << 30), 'nb': rng.choice([1, 1, 2, 3]),
                      'dtype': rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64']), 'dem': rng.choice(['plane', 'plane', 'rough', 'rough', 'holes']),
                      'demproj': rng.random() < 0.25, 'how': rng.choice(['bilinear', 'bilinear', 'nearest']), 'demtype': rng.choice(['int16', 'float32', 'float64'])})
    ops = []
    for _ in range(rng.randrange(2, 7)):
        k = rng.random()
        o = {'op': 'threads' if k < 0.2 else 'again' if k < 0.4 else 'do', 'a': rng.randrange(2), 'r': req(rng), 'more': [req(rng) for _ in range(rng.choice([1, 1, 2]))],
             'edits': [[rng.choice(['pixels', 'terrain', 'camera', 'none']), rng.randrange(1 << 30)] for _ in range(rng.choice([1, 2, 2]))]}
        if o['op'] == 'do':
            k = rng.random()
            if k < 0.45:
                o['r']['f'] = 'ortho' if rng.random() < 0.8 else 'igm'
            if k < 0.2:
                o['r']['out'] = True
                o['fault'] = crash_fault(rng) if rng.random() < 0.2 else write_fault(rng, 'ortho')
                if 'kinds' in o['fault']:                           # what GDAL does when it cannot read back what it writes is C01's
                    o['fault']['kinds'] = [q for q in o['fault']['kinds'] if q not in ('read', 'open_r', 'opendir')] or ['write']
            elif k < 0.35:
                o['r']['fresh'] = True
                o['fault'] = read_fault(rng, 'image')
            elif k < 0.55:
                o['oom'] = {'pos': round(rng.random(), 4), 'persist': rng.random() < 0.4}
        ops.append(o)
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


# ------------------------------------------------------------------------------------------------ the world
def tiff(path, arr, geot=None, wkt=None, nodata=None):
    import gdal
    from osgeo import gdal_array
    d = gdal.GetDriverByName('GTiff').Create(path, arr.shape[1], arr.shape[0], arr.shape[2], gdal_array.NumericTypeCodeToGDALTypeCode(arr.dtype),
                                             ['COMPRESS=' + ['DEFLATE', 'LZW'][arr.shape[0] % 2]])     # uncompressed: see C03's known findings
    if geot:
        d.SetGeoTransform(geot)
        d.SetProjection(wkt)
    for b in range(arr.shape[2]):
        d.GetRasterBand(b + 1).WriteArray(arr[:, :, b])
        if nodata is not None:
            d.GetRasterBand(b + 1).SetNoDataValue(nodata)
    d.FlushCache()


def wkt(name):
    import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(int(name[5:]))
    return s.ExportToWkt()


def change_proj(a, b, x, y):
    import pyproj
    if a == b:
        return x, y
    return pyproj.Transformer.from_crs(a, b, always_xy=True).transform(x, y)


def make(ctx, k, it):
    import pyproj
    s = Cam()
    rs = np.random.RandomState(it['seed'])
    s.src = it['src']
    z, south, x, y = ZONES[rs.randint(3)]
    proj = pyproj.Proj(proj='utm', zone=z, south=south, ellps='WGS84', datum='WGS84', preserve_units=True)
    s.own = 'EPSG:%d' % (32700 + z if south else 32600 + z)
    s.other = 'EPSG:4326'
    kind = 'geotiff' if s.src.startswith('gtiff') else 'igm' if s.src == 'igm' else 'pix4d' if s.src == 'drone' else it['cam']
    if kind == 'rpc':
        s.own, s.other = 'EPSG:4326', 'EPSG:32618'
    nb = 5 if s.src == 'drone' else it['nb']
    s.models = [MODELS[kind](rs, x, y) for _ in range(nb if s.src == 'drone' else 1)]
    if kind == 'geotiff' and rs.randint(2):
        s.models[0].g[2] = s.models[0].g[4] = 0.
    if s.src == 'drone':
        for m in s.models[1:]:
            m.xyz = s.models[0].xyz + rs.uniform(-2, 2, 3)
        for m in s.models:
            m.model = 'regular'
    s.kind = kind
    m = s.models[0]
    dt = np.dtype(it['dtype'])
    a = mkarray(it['seed'], (m.ny, m.nx, nb), it['dtype'])
    s.arr = a // 2 + (np.iinfo(dt).max // 4 if dt.kind == 'u' else 0) if dt.kind != 'f' else a
    s.arr = s.arr.astype(dt)
    s.nod = None                                                    # what the image says its empty pixels hold
    if rs.randint(3) == 0:
        s.nod = [0, s.arr.flat[rs.randint(s.arr.size)].item()][rs.randint(2)]
        h, w = s.arr.shape[0] // 3, s.arr.shape[1] // 3
        for b in range(nb):
            i, j = rs.randint(s.arr.shape[0] - h), rs.randint(s.arr.shape[1] - w)
            s.arr[i:i + h, j:j + w, b][rs.rand(h, w) < rs.choice([.3, 1.])] = s.nod
    s.give = s.arr.copy()
    s.proj = proj
    s.path = ctx.path('image %d.tif' % k)
    s.names = {'band%d' % (b + 1): ctx.path('image_%04d_%d.tif' % (k, b + 1)) for b in range(nb)}
    if s.src == 'drone':
        for b, m in enumerate(s.models):
            m.key = os.path.basename(s.names['band%d' % (b + 1)])
    publish(s)
    # where it looks
    zz = 50.
    px, py = np.array([0, m.nx - 1, m.nx - 1, 0]), np.array([0, 0, m.ny - 1, m.ny - 1])
    fx, fy = s.helpers[0].pixel_x_y_alt_to_lon_lat(px, py, zz)
    s.foot = np.asarray(fx, float), np.asarray(fy, float)
    s.dem = terrain(ctx, k, it, s, rs)
    return s


def publish(s):
    """files and cameras of an image, and the image"""
    if s.src == 'drone':
        s.params = {'projection': s.proj}
        for b, m in enumerate(s.models):
            tiff(s.names['band%d' % (b + 1)], s.arr[:, :, b:b + 1])
            s.params[m.key] = {'camera_rotation_r': m.R.copy(), 'external_params': list(m.xyz) + [0., 0., 0.], 'n_x_pixels': m.nx, 'n_y_pixels': m.ny,
                               'internal_params': {'fpa_width_mm': m.wmm, 'F': m.F, 'Px': m.P[0], 'Py': m.P[1]},
                               'tangential_distortion': list(m.t), 'radial_distortion': list(m.k)}
    elif s.src.endswith('file'):
        tiff(s.path, s.arr, list(s.models[0].g) if s.kind == 'geotiff' else None, wkt(s.own))
    s.helpers = [m.build('pinhole', s.proj) for m in s.models]
    s.img = None
    s.img = open_image(s)
    s.loaded = False


def edit(s, what, seed):
    """the world changes: other pixels, another terrain or another camera under the same names"""
    rs = np.random.RandomState(seed)
    if what == 'pixels':
        a = np.roll(s.arr[::-1] if rs.randint(2) else s.arr[:, ::-1], int(rs.randint(3)), axis=0)
        if s.src.endswith(('file', 'drone')) and rs.randint(2):
            s.arr = a.copy()
            s.give = a.copy()
            publish(s)
        elif s.src.endswith(('file', 'drone')):                     # calibrated in memory, the files keep what they have
            s.arr = a.copy()
            s.give = a.copy()
            s.img.set_image_data(s.give)
            s.loaded = True
        elif rs.randint(2):
            s.arr = a.copy()
            s.give[...] = a             # the array it was made from, and that it looks at
        else:
            s.arr = a.copy()
            s.give = a.copy()
            s.img.set_image_data(s.give)
    elif what == 'terrain':
        t = s.dem
        raw = t.raw[::-1].copy() if rs.randint(2) else np.where(t.raw == t.nod, t.raw, t.raw + 3).astype(t.raw.dtype)
        s.dem = t.relief(raw)
    elif what == 'camera':
        if s.kind == 'igm':
            s.models[0].lon += rs.uniform(-1, 1)
            s.models[0].lat += rs.uniform(-1, 1)
        else:
            k = int(rs.randint(len(s.models)))
            c = Cam()
            c.kind, c.proj, c.model = s.kind, s.proj, s.models[k]
            s.models[k] = twin(c, int(rs.randint(1 << 30))).model
            if len(s.models) == 1 and rs.randint(2):                # the same image, with the camera it turns out to be
                s.img.set_point_calculator(s.models[0].build('pinhole', s.proj))
                s.helpers = [s.models[0].build('pinhole', s.proj)]
                s.loaded = True
                return
        publish(s)


def open_image(s):
    img = opened(s)
    if s.nod is not None:
        img.get_metadata().set_nodata_val(s.nod)
    return img


def opened(s):
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
    from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
    from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory
    from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image_factory import PhysicalCameraImageFactory
    from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
    m = s.models[0]
    if s.src == 'gtiff_mem':
        return GeotiffImageFactory.from_numpy_array(s.give, list(m.g), s.proj)
    if s.src == 'gtiff_file':
        return GeotiffImageFactory.from_file(s.path)
    if s.src == 'igm':
        return IgmImage.from_params(s.give, m.lon.copy(), m.lat.copy(), m.alt if np.ndim(m.alt) == 0 else m.alt.copy(), s.arr.shape[2], s.proj)
    if s.src == 'drone':
        im = MicasenseImageFactory.from_image_number_and_pix4d(dict(s.names), s.params)
        im.get_metadata().set_npix_x(m.nx)
        im.get_metadata().set_npix_y(m.ny)
        return im
    calc = m.build('pinhole', s.proj)
    if s.src == 'cam_file':
        return PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc(s.path, calc)
    md = PhysicalCameraMetadata()
    md.set_npix_x(m.nx)
    md.set_npix_y(m.ny)
    md.set_n_bands(s.arr.shape[2])
    return PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(s.give, md, calc)


class Terrain(object):
    """elevation model in a file, and what it says"""
    def relief(self, raw):
        from resippy.photogrammetry.dem.dem_factory import DemFactory
        t = Terrain()
        t.__dict__.update(self.__dict__)
        tiff(t.path, raw[:, :, None], list(t.g), wkt(t.name), t.nod)
        t.raw = raw
        t.z = raw.astype(float)
        if t.holes:
            t.z[raw == t.nod] = np.nan
        t.dem = DemFactory.from_gtiff_file(t.path, interpolation_method=t.how)
        t.low, t.high = np.nanmin(t.z), np.nanmax(t.z)
        return t

    def at(self, x, y, name):
        """elevations, and where they are certain"""
        x, y = change_proj(name, self.name, np.asarray(x, float), np.asarray(y, float))
        slack = 1e-5 if name == self.name else 1e-3
        g = self.g
        u, v = (x - g[0]) / g[1], (y - g[3]) / g[5]
        ny, nx = self.z.shape
        u, v = np.clip(u, 0, nx - 1.), np.clip(v, 0, ny - 1.)
        edge = (np.abs(u - np.rint(u)) < slack) | (np.abs(v - np.rint(v)) < slack)
        i, j = v.astype(int), u.astype(int)
        if self.how == 'nearest':
            return self.z[i, j], ~edge | self.flat
        fu, fv = u - j, v - i
        i2, j2 = np.minimum(i + 1, ny - 1), np.minimum(j + 1, nx - 1)
        out = np.zeros(np.shape(u))
        nan = np.zeros(np.shape(u), bool)
        for w, z in (((1 - fu) * (1 - fv), self.z[i, j]), (fu * (1 - fv), self.z[i, j2]), ((1 - fu) * fv, self.z[i2, j]), (fu * fv, self.z[i2, j2])):
            out = out + np.where(w > 0, w * np.where(np.isnan(z), 0, z), 0)
            nan = nan | (w > 0) & np.isnan(z)
        return np.where(nan, np.nan, out), ~(edge & self.holes)


def terrain(ctx, k, it, s, rs):
    t = Terrain()
    kind = 'plane' if s.kind == 'igm' and it['dem'] == 'holes' else it['dem']
    t.name = s.other if it['demproj'] else s.own
    fx, fy = change_proj(s.own, t.name, *s.foot)
    w, h = max(np.ptp(fx), np.ptp(fy)), max(np.ptp(fy), np.ptp(fx))
    n = int(rs.randint(12, 40))
    t.g = [fx.min() - w, 3 * w / n, 0, fy.max() + h, 0, -3 * h / n]
    i, j = np.indices((n, n))
    lo, hi = (50, 50) if kind == 'flat' else (20, 80)
    if kind == 'plane':
        a, b = rs.uniform(-1, 1, 2)
        z = 50 + 25 * (a * (j - n / 2.) + b * (i - n / 2.)) / n
        dt = 'float64'
    else:
        z = rs.uniform(lo, hi, (n, n)) if rs.randint(2) else 30 + 40 * (rs.uniform(0, 1, (n, n)) < .2)
        dt = it['demtype']
    z = z.astype(dt)
    nod = None
    if kind == 'holes':
        nod = -99
        z[rs.uniform(0, 1, z.shape) < .1] = nod
        z[0, 0] = 50
    t.path, t.nod = ctx.path('terrain %d.tif' % k), nod
    t.holes = kind == 'holes'
    t.plane, t.flat = kind == 'plane', False
    t.how = it['how'] if kind != 'plane' else 'bilinear'
    return t.relief(z)


def plateau(ctx, s, bands, seed):
    """elevation model, perhaps in another projection, that is level (and highest) wherever the camera looks, and low elsewhere"""
    rs = np.random.RandomState(seed)
    t = Terrain()
    t.name = [s.own, s.other][int(rs.randint(2))]
    top = float(rs.randint(20, 90))
    line, _ = outline(s, bands, top)
    fx, fy = change_proj(s.own, t.name, line[:, 0], line[:, 1])
    w = max(np.ptp(fx), np.ptp(fy))
    n = 40
    t.g = [fx.min() - w, 3 * w / n, 0, fy.max() + w, 0, -3 * w / n]
    z = np.full((n, n), top - float(rs.randint(10, 60)))
    z[8:32, 8:32] = top
    t.path, t.nod, t.holes, t.plane, t.flat, t.how = ctx.path('plateau %d.tif' % seed), None, False, False, False, ['bilinear', 'nearest'][int(rs.randint(2))]
    t = t.relief(z.astype(['int16', 'float64'][int(rs.randint(2))]))
    z, _ = t.at(line[:, 0], line[:, 1], s.own)
    t.top = top
    return t if (z == top).all() else None


class Flat(object):
    holes = False
    plane = True

    def __init__(self, z):
        from resippy.photogrammetry.dem.dem_factory import DemFactory
        self.dem = DemFactory.constant_elevation(z)
        self.low = self.high = z
        self.z = z

    def at(self, x, y, name):
        return np.full(np.shape(x), float(self.z)), np.ones(np.shape(x), bool)


# ------------------------------------------------------------------------------------------------ the oracle
def cells_wrong(s, arr, geot, name, t, bands, order, nodata, dtype):
    """compare every cell of an orthorectified image with what the camera sees there"""
    from scipy.ndimage import map_coordinates
    ny, nx = arr.shape[:2]
    i, j = np.indices((ny, nx))
    x, y = geot[0] + (j + .5) * geot[1], geot[3] + (i + .5) * geot[5]
    foreign = name != s.own
    wx, wy = change_proj(name, s.own, x.ravel(), y.ravel())
    z, sure = t.at(x.ravel(), y.ravel(), name)
    eps = 2e-2 if foreign or getattr(t, 'name', s.own) != s.own else 1e-3
    seen = 0
    for n, b in enumerate(bands):
        m = s.models[b if len(s.models) > 1 else 0]
        zz = np.where(np.isnan(z), 0., z)
        px, py = m.project(np.asarray(wx, float), np.asarray(wy, float), zz)
        im = s.arr[:, :, b].astype(float)
        h, w = im.shape
        got = arr[:, :, n].ravel().astype(float)
        inside = (px >= 1 + eps) & (px <= w - 3 - eps) & (py >= 1 + eps) & (py <= h - 3 - eps) & ~np.isnan(z) & sure
        void = np.isnan(z) if s.kind not in ('geotiff', 'igm') else np.zeros(z.shape, bool)      # these do not look at heights
        outside = ((px < -eps) | (px > w - 1 + eps) | (py < -eps) | (py > h - 1 + eps) | void) & sure & (void | ~np.isnan(z))
        bad = outside & (got != float(nodata))
        if bad.any():
            q = int(np.argmax(bad))
            return 'band %d, cell %d,%d is not seen by the camera (pixel %.2f %.2f) but has %r' % (b, q // nx, q % nx, px[q], py[q], got[q]), 0
        cand = np.array([map_coordinates(im, [py + dy, px + dx], order=order) for dx in (-eps, 0, eps) for dy in (-eps, 0, eps)])
        amp = np.abs(im).max()
        tol = 1e-5 * amp if dtype.kind == 'f' else 1.01
        if dtype.kind != 'f':
            cand = np.clip(cand, np.iinfo(dtype).min, np.iinfo(dtype).max)
        if order == 0:
            ok = (np.abs(cand - got) <= (0 if dtype.kind != 'f' else tol)).any(0)
        else:
            lo, hi = cand.min(0), cand.max(0)
            tol = tol + .5 * (hi - lo)
            ok = (got >= lo - tol) & (got <= hi + tol)
        bad = inside & ~ok
        if bad.any():
            q = int(np.argmax(bad))
            return 'band %d, cell %d,%d shows %r instead of %r (pixel %.3f %.3f), %d of %d cells' % (b, q // nx, q % nx, got[q], cand[4, q], px[q], py[q], bad.sum(), bad.size), 0
        seen += int(inside.sum())
    return None, seen


def wrong_image(s, g, geot, name, t, bands, r, shape):
    arr = g.get_image_data()
    nb = len(bands) + (1 if r['mask'] else 0)
    if arr.shape != (shape[0], shape[1], nb):
        return 'shape %s instead of %s' % (arr.shape, (shape[0], shape[1], nb))
    if arr.dtype != s.arr.dtype:
        return 'data type %s' % arr.dtype
    md = g.get_metadata()
    if (md.get_npix_x(), md.get_npix_y(), md.get_n_bands(), md.get_nodata_val()) != (shape[1], shape[0], nb, r['nodata']):
        return 'metadata %s' % md.metadata_dict
    got = g.get_point_calculator().get_geot()
    if not np.allclose(got, geot, rtol=1e-9, atol=1e-9 * max(abs(geot[1]), abs(geot[5]))):
        return 'georeference %s instead of %s' % (list(got), geot)
    if r['mask'] and not same(arr[:, :, -1], np.where(arr[:, :, 0] == r['nodata'], 0, 255).astype(arr.dtype)):
        return 'another transparency'
    p, seen = cells_wrong(s, arr, got, name, t, bands, r['order'], r['nodata'], arr.dtype)
    return p


def border(m):
    x, y = np.arange(m.nx), np.arange(m.ny)
    return np.concatenate((x, np.full(m.ny, m.nx - 1), x, np.full(m.ny, 0))), np.concatenate((np.zeros(m.nx, int), y, np.full(m.nx, m.ny - 1), y))


def outline(s, bands, z):
    """ground positions of the border pixels, and the size of a pixel there"""
    out = []
    size = 0
    for b in bands if len(s.models) > 1 else [0]:
        m = s.models[b]
        px, py = border(m)
        x, y = s.helpers[b].pixel_x_y_alt_to_lon_lat(px, py, z, pixel_error_threshold=2e-3)
        out.append(np.transpose((x, y)))
        size = max(size, np.hypot(np.ptp(x), np.ptp(y)) / np.hypot(m.nx, m.ny))
    return np.concatenate(out), size


def job(ctx, s, r, tag):
    """-> (callable, check(result, under fault?) -> complaint or None, path written or None)"""
    import pyproj
    from shapely.geometry import MultiPoint, Point, Polygon, box
    from resippy.photogrammetry import ortho_tools as ot
    rs = np.random.RandomState(r['seed'])
    f = r['f']
    coreg = s.src != 'drone'
    if f == 'igm' and (not coreg or s.kind == 'igm'):
        f = 'ortho'
    if f == 'hidden' and (s.kind in ('igm', 'geotiff', 'rpc') or s.src == 'drone' or s.dem.holes):
        f = 'ortho'
    if f == 'lonlats' and s.kind == 'igm':
        f = 'ortho'
    r = dict(r, f=f)
    t = Flat(0) if r['dem'] == 'none' else Flat(float(rs.randint(20, 90))) if r['dem'] == 'const' else s.dem
    if s.kind == 'rpc' and r['dem'] == 'none':
        r['dem'], t = 'const', Flat(float(rs.randint(20, 90)))
    dem = None if r['dem'] == 'none' else t.dem
    nb = s.arr.shape[2]
    bands = [int(b) for b in rs.permutation(nb)[:rs.randint(1, nb + 1)]] if r['bands'] == 'some' else list(range(nb))
    arg_bands = list(bands) if r['bands'] == 'some' else None
    name = s.other if r['foreign'] else s.own
    wp = pyproj.Proj(init=name.lower(), preserve_units=True) if r['foreign'] else s.img.get_point_calculator().get_projection()
    fresh = r['fresh'] and s.src.endswith(('file', 'drone')) and not s.loaded

    def image():
        return open_image(s) if fresh else s.img

    def level(t):
        if not isinstance(t, Flat) and (rs.randint(2) or t.name != s.own):
            return plateau(ctx, s, range(nb), r['seed']) or Flat(50.)
        return t
    if f == 'ortho':
        fx, fy = change_proj(s.own, name, *s.foot)
        cx, cy, w, h = fx.mean(), fy.mean(), np.ptp(fx), np.ptp(fy)
        w, h = max(w, h / 3), max(h, w / 3)
        k = rs.uniform(.2, 1.6)
        cx, cy = cx + rs.uniform(-.4, .4) * w, cy + rs.uniform(-.4, .4) * h
        if r['box']:
            poly = box(cx - w * k / 2, cy - h * k / 2, cx + w * k / 2, cy + h * k / 2)
        else:
            a = np.sort(rs.uniform(0, 2 * np.pi, 5))
            poly = MultiPoint([(cx + w * k / 2 * np.cos(q), cy + h * k / 2 * np.sin(q)) for q in a]).convex_hull
        b = poly.bounds
        keep = poly.wkt
        nx, ny = (r['nx'], r['ny']) if not r.get('wide') else (r['nx'] + 100, r['ny'] + 100)
        if s.kind == 'igm':
            nx, ny = nx % 12 + 1, ny % 12 + 1
        geot = [b[0], (b[2] - b[0]) / nx, 0, b[3], 0, -(b[3] - b[1]) / ny]
        out = ctx.path('ortho %s.tif' % tag) if r['out'] else None

        def do():
            kw = dict(world_proj=wp, dem=dem, bands=arg_bands, nodata_val=r['nodata'], output_fname=out, spline_order=r['order'], mask_no_data_region=r['mask'])
            if r['gsd']:                                           # leave out what is the default
                base = dict(dem=None, bands=None, nodata_val=0, output_fname=None, spline_order=0, mask_no_data_region=False)
                kw = {a: v for a, v in kw.items() if a not in base or v != base[a]}
                if name == 'EPSG:4326':
                    del kw['world_proj']
            return ot.create_ortho_gtiff_image_world_to_sensor(image(), nx, ny, poly, **kw)

        def chk(g):
            import gdal
            if poly.wkt != keep:
                return 'changed the caller\'s polygon'
            p = wrong_image(s, g, geot, name, t, bands, r, (ny, nx))
            if p is None and out:
                d = gdal.Open(out)
                a = d.ReadAsArray() if d is not None else None
                if a is None:
                    return 'no file'
                a = np.transpose(a.reshape((-1, ny, nx)), (1, 2, 0))
                if not same(a, g.get_image_data()):
                    return 'file: ' + diff(a, g.get_image_data())
                if not np.allclose(d.GetGeoTransform(), geot, rtol=1e-9, atol=1e-9 * abs(geot[1])) or d.GetRasterBand(1).GetNoDataValue() != r['nodata']:
                    return 'file with georeference %s, nodata %s' % (d.GetGeoTransform(), d.GetRasterBand(1).GetNoDataValue())
            return p
        return do, chk, out
    if f == 'full':
        r['mask'] = False
        t = level(t)
        if t.holes:
            t = Flat(50.)
        dem = t.dem if dem is not None else None
        line, size = outline(s, bands, t.high)
        metric = s.own != 'EPSG:4326'
        gsd = None
        if r['gsd'] or s.src == 'drone':                           # its bands, each distorted in its own way, may spread over thousands of pixels
            k = rs.uniform(10, 40) if s.kind != 'igm' else rs.uniform(3, 10)
            q = np.transpose(change_proj(s.own, s.own if metric else 'EPSG:32618', line[:, 0], line[:, 1]))
            gsd = max(np.ptp(q[:, 0]), np.ptp(q[:, 1])) / k
        op = wp if r['foreign'] else None

        def do():
            kw = dict(gsd_meters=gsd, dem=dem, output_proj=op, bands=arg_bands, nodata_val=r['nodata'], spline_order=r['order'])
            if r['box']:
                base = dict(gsd_meters=None, dem=None, output_proj=None, bands=None, nodata_val=0, spline_order=1)
                kw = {a: v for a, v in kw.items() if v != base[a]}
            return ot.create_full_ortho_gtiff_image(image(), **kw)

        def chk(g):
            g0 = [float(v) for v in g.get_point_calculator().get_geot()]
            a = g.get_image_data()
            ny, nx = a.shape[:2]
            if g.get_point_calculator().get_projection().srs != wp.srs:
                return 'projection %s' % g.get_point_calculator().get_projection().srs
            if isinstance(t, Flat) or hasattr(t, 'top'):
                q = np.transpose(change_proj(s.own, name, line[:, 0], line[:, 1]))
                want = q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max()
                have = g0[0], g0[0] + nx * g0[1], g0[3] + ny * g0[5], g0[3]
                # a tenth of a pixel, and what straight edges between corners do not follow in the other projection
                tol = .1 * size * (1 if name == s.own else 1. / 8e4 if name == 'EPSG:4326' else 1.1e5) + (0 if name == s.own else 5e-3 * max(np.ptp(q[:, 0]), np.ptp(q[:, 1])))
                if not np.allclose(want, have, rtol=0, atol=tol):
                    return 'covers %s instead of %s' % (have, want)
            if gsd and metric and name == s.own:
                for c, n in ((abs(g0[1]), nx), (abs(g0[5]), ny)):
                    if n > 1 and not (gsd * .99 - 1e-9 <= c <= gsd * (1 + 1. / n) * 1.01):
                        return 'cells of %s m for a ground sample distance of %s m' % (c, gsd)
            return wrong_image(s, g, g0, name, t, bands, r, (ny, nx))
        return do, chk, None
    if f == 'extent':
        t = level(t)
        if not isinstance(t, Flat) and not hasattr(t, 'top'):
            t = Flat(50.)
        dem = t.dem if dem is not None else None
        one = rs.randint(3) == 0 and arg_bands
        line, size = outline(s, bands[:1] if one else bands, t.high)

        def do():
            return ot.get_extent(image(), dem=dem, bands=arg_bands[0] if one else arg_bands)

        def chk(e):
            tol = .1 * size
            hull = MultiPoint([tuple(q) for q in line]).convex_hull
            if not e.is_valid or not e.buffer(tol).contains(hull):
                return 'the extent %s leaves out a part of %s' % (e.wkt[:200], hull.wkt[:200])
            if not hull.buffer(tol).contains(e):
                return 'the extent %s is larger than %s' % (e.wkt[:200], hull.wkt[:200])
        return do, chk, None
    if f == 'igm':
        if not t.plane:
            t = Flat(50.)
            dem = t.dem
        step = None if s.kind != 'rpc' else 1e-4
        if r['gsd'] and s.kind != 'rpc':
            step = float(rs.uniform(1, 9))

        def do():
            return ot.create_igm_image(image(), dem=dem, dem_sample_distance=step)

        def chk(g):
            m = s.models[0]
            lon, lat, alt = [np.asarray(v) for v in (g.pointcalc.lon_image, g.pointcalc.lat_image, g.pointcalc.alt_image)]
            for v in (lon, lat, alt):
                if v.shape != (m.ny, m.nx):
                    return 'shape %s' % (v.shape,)
            if not same(g.get_image_data(), s.arr) or g.get_metadata().get_n_bands() != nb:
                return 'other pixels'
            z, _ = t.at(lon, lat, s.own)
            if not np.allclose(alt, z, rtol=0, atol=1e-4):
                return 'heights %s where the ground is at %s' % (alt.flat[:2], z.flat[:2])
            px, py = m.project(lon.ravel(), lat.ravel(), alt.ravel())
            i, j = np.indices((m.ny, m.nx))
            e = np.maximum(np.abs(px - j.ravel()), np.abs(py - i.ravel()))
            tol = .5 if s.kind == 'rpc' else .05
            if not (e <= tol).all():
                q = int(np.argmax(~(e <= tol)))
                return 'pixel %d %d is looked up where the camera sees %.2f %.2f' % (q % m.nx, q // m.nx, px[q], py[q])
        return do, chk, None
    if f == 'lonlats':
        t = level(t)
        if not isinstance(t, Flat) and not hasattr(t, 'top'):
            t = Flat(50.)
        dem = t.dem if dem is not None else None
        b = int(rs.randint(nb)) if not coreg else None
        m = s.models[b or 0]
        py, px = np.indices((m.ny, m.nx)).astype(float)
        pix = {}
        if r['box']:
            n = int(rs.randint(1, 30))
            px, py = rs.uniform(0, m.nx - 1, n), rs.uniform(0, m.ny - 1, n)
            pix = dict(pixels_x=px, pixels_y=py)
        if dem is not None:
            pix['dem'] = dem
        keep = px.copy(), py.copy()

        def do():
            return ot.get_pixel_lon_lats(image(), band=b, pixel_error_threshold=2e-3, **pix)

        def chk(g):
            if not (same(keep[0], px) and same(keep[1], py)):
                return 'changed the caller\'s pixels'
            if np.shape(g[0]) != px.shape or np.shape(g[1]) != px.shape:
                return 'shapes %s %s instead of %s' % (np.shape(g[0]), np.shape(g[1]), px.shape)
            qx, qy = m.project(np.ravel(g[0]), np.ravel(g[1]), np.full(px.size, float(t.high)))
            e = np.maximum(np.abs(qx - px.ravel()), np.abs(qy - py.ravel()))
            if not (e <= .05).all():
                q = int(np.argmax(~(e <= .05)))
                return 'pixel %.2f %.2f is said to be where the camera sees %.2f %.2f' % (px.flat[q], py.flat[q], qx[q], qy[q])
        return do, chk, None
    if f == 'values':
        n = int(rs.randint(1, 9))
        w = int(rs.choice([1, 2, 5, 8]))
        x, y = change_proj(s.own, s.own, s.foot[0].mean() + rs.uniform(-.8, .8, n) * np.ptp(s.foot[0]), s.foot[1].mean() + rs.uniform(-.8, .8, n) * np.ptp(s.foot[1]))
        z = rs.uniform(20, 80, n)
        keep = x.copy(), y.copy(), z.copy()
        nod = s.img.get_metadata().get_nodata_val()

        def do():
            with np.errstate(all='ignore'):
                return ot.get_pixel_values(image(), x, y, z, window=w)

        def chk(g):
            if not (same(keep[0], x) and same(keep[1], y) and same(keep[2], z)):
                return 'changed the caller\'s coordinates'
            if g.shape != (nb, n):
                return 'shape %s' % (g.shape,)
            h = int(np.round(w / 2.))
            for b in range(nb):
                m = s.models[b if len(s.models) > 1 else 0]
                px, py = m.project(*keep)
                for q in range(n):
                    if min(abs(px[q] % 1 - .5), abs(py[q] % 1 - .5)) < 2e-3:
                        continue
                    j, i = int(np.rint(px[q])), int(np.rint(py[q]))
                    v = s.arr[max(i - h, 0):max(i + h, 0), max(j - h, 0):max(j + h, 0), b].astype(float)
                    v = v[v != nod] if nod is not None else v
                    e = v.mean() if v.size else np.nan
                    if not (np.isnan(e) and np.isnan(g[b, q]) or abs(e - g[b, q]) <= 1e-4 * (1 + np.abs(v).max())):
                        return 'band %d around pixel %d %d: %r instead of %r' % (b, j, i, g[b, q], e)
        return do, chk, None
    # hidden: which pixels are behind something
    m, t = s.models[0], s.dem
    n = int(rs.randint(4, 40))
    x = s.foot[0].mean() + rs.uniform(-1, 1, n) * np.ptp(s.foot[0])
    y = s.foot[1].mean() + rs.uniform(-1, 1, n) * np.ptp(s.foot[1])
    z, sure = t.at(x, y, s.own)
    px, py = m.project(x, y, z)
    res = float(rs.uniform(.2, 3))
    keep = [v.copy() for v in (x, y, px, py)]
    az = z if rs.randint(2) else None
    hx, hy = s.helpers[0].pixel_x_y_alt_to_lon_lat(px, py, np.full(n, t.high + 0.001), pixel_error_threshold=2e-3)

    def do():
        return ot.are_pixels_obstructed_by_dem(s.img, px, py, x, y, t.dem, alts=az, dem_resolution=res)

    def chk(g):
        if not all(same(a, b) for a, b in zip(keep, (x, y, px, py))):
            return 'changed the caller\'s coordinates'
        if np.shape(g) != (n,):
            return 'shape %s' % (np.shape(g),)
        steps = np.hypot(x - hx, y - hy).max() / res
        q = np.linspace(0, 1, 801)[1:, None]
        lo = 0.3 / max(steps, 1)
        ray = z + q * (t.high + .001 - z)
        ground, certain = t.at(x + q * (hx - x), y + q * (hy - y), s.own)
        over = ground - ray
        for k in range(n):
            if not sure[k]:
                continue
            # how long the ray stays under ground, counted in samples
            run = best = 0
            for v in over[:, k] > .05:
                run = run + 1 if v else 0
                best = max(best, run)
            inner = (q[:, 0] > lo)
            if bool(g[k]) is False and best / 800. * steps > 2.5:
                return 'pixel %d is behind terrain %.1f m above the ray (%.1f samples) but not marked' % (k, over[:, k].max(), best / 800. * steps)
            if bool(g[k]) and (over[inner, k] < -.05).all():
                return 'pixel %d is marked, but terrain stays %.2f m below the ray' % (k, -over[inner, k].max())
    return do, chk, None


def warm():
    import warnings
    import pyproj
    import resippy.photogrammetry.ortho_tools  # noqa
    import resippy.image_objects.earth_overhead.micasense.micasense_image_factory  # noqa
    import imageio
    import tempfile
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = tempfile.mktemp('.tif')
        tiff(p, np.zeros((4, 4, 1), 'uint16'))
        imageio.imread(p)
        os.unlink(p)
        for z, south, x, y in ZONES:
            u = pyproj.Proj(proj='utm', zone=z, south=south, ellps='WGS84', datum='WGS84', preserve_units=True)
            pyproj.transform(u, pyproj.Proj(init='epsg:4326', preserve_units=True), x, y)


def run(case, ctx):
    imgs = [make(ctx, k, it) for k, it in enumerate(case['items'])]

    def inputs():
        for s in imgs:
            for p in [s.path, s.dem.path] + list(s.names.values()):
                if os.path.exists(p):
                    with open(p, 'rb') as fh:
                        ctx.inputs[p] = fh.read()
    ctx.inputs = {}
    inputs()

    def untouched(what):
        for k, s in enumerate(imgs):
            if not same(s.give, s.arr):
                ctx.violate('image-changed', '%s: image %d: %s' % (what, k, diff(s.give, s.arr)))
            d = np.asarray(s.dem.dem.dem_data, float)
            if not same(d, s.dem.z):
                ctx.violate('terrain-changed', '%s: terrain %d: %s' % (what, k, diff(d, s.dem.z)))
        for p in ctx.inputs:
            with open(p, 'rb') as fh:
                if fh.read() != ctx.inputs[p]:
                    ctx.violate('file-changed', '%s: %s' % (what, os.path.basename(p)))

    def verdict(what, r, chk, g, sig):
        try:
            p = chk(g)
        except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
            p = 'malformed result (%s)' % ctx.exs(e)
        if p:
            ctx.violate(sig, '%s %s: %s' % (what, r['f'], p))
        a = g.get_image_data() if hasattr(g, 'get_image_data') else g
        if isinstance(a, np.ndarray) and a.size < 200000:
            held.keep(what + ' ' + r['f'], a)
    held = Held(ctx)
    with np.errstate(all='ignore'):
        for n, o in enumerate(case['ops']):
            s = imgs[o['a'] % len(imgs)]
            r = o['r']
            what = 'op %d on %s/%s' % (n, s.src, s.kind)
            if o['op'] == 'threads':
                jobs = [(q,) + job(ctx, s if k % 2 == 0 else imgs[-1], q, '%d%d' % (n, k)) for k, q in enumerate([r] + o['more'])]
                est = 0
                if n % 2:
                    est = sum(ctx.solo_steps(lambda sc, t, do=j[1]: do())[1] for j in jobs)
                res = ctx.threads([(lambda sc, t, do=j[1]: do()) for j in jobs], case['sched'], est=est or 3000)
                for j, g in zip(jobs, res):
                    if g[0] != 'ok':
                        ctx.violate('failed-in-threads', '%s: %s: %s' % (what, j[0]['f'], ctx.exs(g[1])))
                    verdict(what + ' in threads', j[0], j[2], g[1], 'wrong-in-threads')
                ctx.probe('nontrivial')
                untouched(what)
                continue
            if o['op'] == 'again':
                for e, (change, seed) in enumerate([['none', 0]] + o['edits']):
                    if change != 'none':
                        held.items[:] = [h for h in held.items if not (isinstance(h[1], np.ndarray) and np.shares_memory(h[1], s.give))]
                        edit(s, change, seed)
                        inputs()
                        ctx.probe('nontrivial')
                    do, chk, out = job(ctx, s, r, str(n % 2))
                    g = ctx.call(do)
                    ctx.log(what, r['f'], change, g[0])
                    if g[0] != 'ok':
                        ctx.violate('spurious-failure', '%s %s after %s changed: %s' % (what, r['f'], change, ctx.exs(g[1])))
                    verdict(what + ' after %s changed' % change, r, chk, g[1], 'wrong-image')
                    g = None
                    untouched(what)
                continue
            if 'fault' in o and s.src == 'gtiff_file':
                r = dict(r, fresh=False)
            do, chk, out = job(ctx, s, r, str(n % 2))
            # GeoTIFFs being opened while their disk fails, and what GDAL makes of it, are C01's
            if 'fault' in o and (out or s.src in ('cam_file', 'drone')):
                _, tr = ctx.traced(do)
                fl = ctx.place(o['fault'], tr)
                if fl['action'] == 'crash':
                    st = ctx.crashy([fl], do)
                    ctx.log(what, st)
                else:
                    g, fired = ctx.faulty([fl], do)
                    ctx.log(what, r['f'], fired, g[0])
                    if g[0] == 'ok':
                        verdict(what + (' under a disk fault' if fired else ''), r, chk, g[1], 'wrong-image-reported-good' if fired else 'wrong-image')
                    elif not fired:
                        ctx.violate('spurious-failure', '%s %s: %s' % (what, r['f'], ctx.exs(g[1])))
                    g = None
                untouched(what + ' after the fault')
            elif 'oom' in o:
                g, k = ctx.allocations(do)
                if g[0] == 'ok' and k:
                    g = None
                    g, fired = ctx.starved(min(k - 1, int(o['oom']['pos'] * k)), o['oom']['persist'], do)
                    ctx.log(what, r['f'], k, fired, g[0])
                    if g[0] == 'ok':
                        verdict(what + ' without memory', r, chk, g[1], 'wrong-without-memory')
                    elif not fired:
                        ctx.violate('spurious-failure', '%s %s: %s' % (what, r['f'], ctx.exs(g[1])))
                    g = None
                    untouched(what + ' without memory')
            g = ctx.call(do)
            ctx.log(what, r['f'], g[0])
            if g[0] != 'ok':
                ctx.violate('spurious-failure', '%s %s: %s' % (what, r['f'], ctx.exs(g[1])))
            verdict(what, r, chk, g[1], 'wrong-image')
            untouched(what)
            held.check(what)
        held.check('at the end')

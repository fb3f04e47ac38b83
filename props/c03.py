"""C03: image readers - physical camera, ViewReadyStereo and Micasense images opened and read on a faulty disk."""
import datetime
import os

import numpy as np

from props.common import diff, gen_sched, mkarray, read_fault, same
from props import tiffw

META = {
    'runs': {'quick': 3000, 'thorough': 80000},
    'level': 'exploration',
    'rule': 'A run creates 1-3 image files (physical camera GeoTIFF/PNG, ViewReadyStereo with RPCs, 5-band Micasense set with EXIF) '
            'and performs 2-7 seeded operations (open, read band, read all, keep data, read EXIF position, cut a file short, replace a file); 70% of runs '
            'put a read fault inside one operation, some read two images from two threads. Arrays read earlier are looked at again after every '
            'operation. Non-trivial: a fault fired or data was read back.',
    'real': ['resippy physical camera / VRS / Micasense images, metadata, factories, RPC and Pix4d point calculators', 'GDAL', 'imageio',
             'tifffile', 'exifread', 'libc'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'thread scheduler'],
    'assumptions': ['GDAL, tifffile and exifread are correct on a healthy disk'],
}
LEAP = [(1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7),
        (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]


def gen(rng, tier, i):
    files = []
    for k in range(rng.randrange(1, 4)):
        kind = rng.choice(['phys', 'phys', 'vrs', 'mica'])
        f = {'kind': kind, 'seed': rng.randrange(1 << 30), 'nx': rng.randrange(2, 70), 'ny': rng.randrange(2, 70)}
        if kind == 'phys':
            f['fmt'] = rng.choice(['tif', 'tif', 'png', 'tiled'])
            f['nb'] = rng.choice([1, 3]) if f['fmt'] == 'png' else rng.choice([1, 2, 3, 4, 7])
            f['dtype'] = rng.choice(['uint8', 'uint16']) if f['fmt'] == 'png' else rng.choice(['uint8', 'uint16', 'int32', 'float32'])
            f['nodata'] = rng.choice([None, 0, 5]) if f['fmt'] in ('tif', 'tiled') else None
        elif kind == 'vrs':
            f['nb'] = rng.choice([1, 1, 4])
            f['dtype'] = 'uint16'
        else:
            f['dtype'] = rng.choice(['uint8', 'uint16'])
            f['exif'] = {'t': rng.randrange(1230768000, 1700000000), 'apart': rng.choice([0, 1, 37, 90000]), 'subsec': str(rng.randrange(1, 99999)).rstrip('0') or '1',
                         'lon': [rng.randrange(0, 180), rng.randrange(0, 60), rng.randrange(0, 600000)], 'lonref': rng.choice('EW'),
                         'lat': [rng.randrange(0, 90), rng.randrange(0, 60), rng.randrange(0, 600000)], 'latref': rng.choice('NS'),
                         'tenths': rng.choice([0, 0, 0, 5, 7])}
            f['cams'] = rng.choice(['pix4d', 'pix4d', 'opencv'])
            f['order'] = rng.sample(range(5), 5)
        if files and rng.random() < 0.6:            # drones number their images anew on every flight
            g = rng.choice(files)
            f.update({q: g[q] for q in ('nx', 'ny', 'dtype') if g['kind'] == f['kind'] == 'mica' and q in g})
        files.append(f)
    ops = []
    for _ in range(rng.randrange(2, 8)):
        j = rng.randrange(len(files))
        ops.append({'op': rng.choice(['open', 'band', 'band', 'band', 'all', 'all', 'keep', 'exif', 'cut', 'replace']), 'f': j, 'seed': rng.randrange(1 << 30),
                    'band': rng.randrange(8), 'frac': round(rng.random(), 4), 'scribble': rng.random() < 0.3})
        if files[j]['kind'] == 'mica' and rng.random() < 0.35:
            ops[-1]['op'] = 'exif'
    if rng.random() < 0.2:
        ops.insert(rng.randrange(len(ops) + 1), {'op': 'threads', 'f': rng.randrange(len(files)), 'f2': rng.randrange(len(files)), 'band': rng.randrange(8)})
    if rng.random() < 0.7:
        c = [o for o in ops if o['op'] in ('open', 'band', 'all', 'exif')]
        if c:
            rng.choice(c)['fault'] = read_fault(rng)
    return {'files': files, 'ops': ops, 'sched': gen_sched(rng)}


RPC = {'LINE_OFF': '1500', 'SAMP_OFF': '2500.5', 'LAT_OFF': '43.1', 'LONG_OFF': '-77.6', 'HEIGHT_OFF': '150', 'LINE_SCALE': '1501',
       'SAMP_SCALE': '2501', 'LAT_SCALE': '0.05', 'LONG_SCALE': '0.06', 'HEIGHT_SCALE': '500'}


def rpcs(seed):
    rs = np.random.RandomState(seed % (2 ** 31))
    d = dict(RPC)
    for n, main in (('LINE_NUM_COEFF', 2), ('LINE_DEN_COEFF', 0), ('SAMP_NUM_COEFF', 1), ('SAMP_DEN_COEFF', 0)):
        c = rs.uniform(-1e-3, 1e-3, 20)
        c[main] = -1.0 if n == 'LINE_NUM_COEFF' else 1.0
        d[n] = ' '.join('%.12g' % x for x in c)
    d['LINE_OFF'] = str(int(rs.randint(100, 5000)))
    return d


def rpc_ref(d, lon, lat, h):
    P = (lat - float(d['LAT_OFF'])) / float(d['LAT_SCALE'])
    L = (lon - float(d['LONG_OFF'])) / float(d['LONG_SCALE'])
    H = (h - float(d['HEIGHT_OFF'])) / float(d['HEIGHT_SCALE'])
    t = np.array([np.ones_like(P), L, P, H, L * P, L * H, P * H, L * L, P * P, H * H, P * L * H, L ** 3, L * P * P, L * H * H, L * L * P, P ** 3,
                  P * H * H, L * L * H, P * P * H, H ** 3])

    def ev(k):
        return np.array([float(x) for x in d[k].split()]) @ t
    return (ev('SAMP_NUM_COEFF') / ev('SAMP_DEN_COEFF') * float(d['SAMP_SCALE']) + float(d['SAMP_OFF']) + 0.5,
            ev('LINE_NUM_COEFF') / ev('LINE_DEN_COEFF') * float(d['LINE_SCALE']) + float(d['LINE_OFF']) + 0.5)


def pix4d_params(names, nx, ny):
    from pyproj import Proj
    d = {'projection': Proj('EPSG:32618', preserve_units=True)}
    for n in names:
        k = int(n[-5]) - 1
        d[n] = {'camera_rotation_r': np.eye(3), 'external_params': [500000.0 + k, 4700000.0, 300.0 + k, 0.0, 0.0, 0.0], 'n_x_pixels': nx,
                'n_y_pixels': ny, 'internal_params': {'fpa_width_mm': 4.8, 'fpa_height_mm': 3.6, 'F': 5.4 + k, 'Px': 2.4, 'Py': 1.8},
                'tangential_distortion': [0.0, 0.0], 'radial_distortion': [0.0, 0.0, 0.0]}
    return d


def opencv_params(b):
    d = {'band_number': b + 1, 'fx_pixels': 1500. + b, 'fy_pixels': 1510. + b, 'cx_pixels': 640., 'cy_pixels': 480. - b, 'k1': .01 * b, 'k2': 0., 'k3': 0.,
         'p1': 0., 'p2': 0., 'pixel_pitch_microns': 3.75}
    for a in ('x', 'y', 'z'):
        d[a + '_offset_meters'] = .1 * b
    for a in ('omega', 'phi', 'kappa'):
        d[a + '_offset_radians'] = .01 * b
    return d


def check_cams(ctx, f, img, what):
    sm = img.get_point_calculator()
    if sm.get_num_point_calcs() != 5 or sm.bands_coregistered():
        ctx.violate('wrong-model', what + ': not five cameras of their own')
    x, y, z = np.array([500003., 500000.]), np.array([4700001., 4700009.]), np.array([10., 20.])
    for b in range(5):
        if f['cams'] == 'opencv':
            d = opencv_params(b)
            c = sm.get_point_calc(b)
            got = c._fx_pixels, c._fy_pixels, c._cx_pixels, c._cy_pixels, c._k1, c._x_offset_meters, c._omega_offset_radians
            want = -d['fx_pixels'], -d['fy_pixels'], d['cx_pixels'], d['cy_pixels'], d['k1'], d['x_offset_meters'], d['omega_offset_radians']
        else:
            s = f['nx'] / 4.8
            a, v = x - (500000.0 + b), y - 4700000.0
            w = z - (300.0 + b)
            want = np.array([(5.4 + b) * s * a / w + 2.4 * s, (5.4 + b) * s * v / w + 1.8 * s])
            got = np.array(sm.lon_lat_alt_to_pixel_x_y(x, y, z, band=b))
        if not np.allclose(got, want):
            ctx.violate('wrong-model', '%s: the camera of band %d gives %s instead of %s' % (what, b, got, want))


def band_exif(f, b):
    """each camera of the set keeps its own time and place"""
    e = f['exif']
    if not e.get('apart'):
        return e
    return dict(e, t=e['t'] + b * e['apart'], subsec=str(int(e['subsec']) + b), lon=e['lon'][:2] + [e['lon'][2] + b], lat=e['lat'][:2] + [e['lat'][2] + 2 * b])


def make(ctx, k, f):
    import gdal
    from osgeo import gdal_array
    kind = f['kind']
    if kind == 'mica':
        arr = mkarray(f['seed'], (f['ny'], f['nx'], 5), f['dtype'])
        there = ctx.path('%03d' % k)
        os.makedirs(there, exist_ok=True)
        names = [os.path.join(there, 'IMG_0000_%d.tif' % (b + 1)) for b in range(5)]
        for b in range(5):
            e = band_exif(f, b)
            t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=e['t'])
            ex = {'when': t.strftime('%Y:%m:%d %H:%M:%S'), 'subsec': e['subsec'], 'lonref': e['lonref'], 'latref': e['latref'],
                  'lon': [(e['lon'][0], 1), (e['lon'][1] * 10 + e['tenths'], 10), (e['lon'][2], 10000)],
                  'lat': [(e['lat'][0], 1), (e['lat'][1] * 10 + e['tenths'], 10), (e['lat'][2], 10000)]}
            tiffw.write(names[b], np.ascontiguousarray(arr[:, :, b]), ex)
        return arr, names
    arr = mkarray(f['seed'], (f['ny'], f['nx'], f['nb']), f['dtype'])
    ext = 'png' if f.get('fmt') == 'png' else 'tif'
    p = ctx.path('im%d.%s' % (k, ext))
    code = gdal_array.NumericTypeCodeToGDALTypeCode(arr.dtype.type)
    opts = ['TILED=YES', 'COMPRESS=LZW', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'] if f.get('fmt') == 'tiled' else ['INTERLEAVE=BAND']
    name = p if ext != 'png' else '/vsimem/x.tif'
    ds = gdal.GetDriverByName('GTiff').Create(name, f['nx'], f['ny'], f['nb'], code, opts)
    for b in range(f['nb']):
        ds.GetRasterBand(b + 1).WriteArray(np.ascontiguousarray(arr[:, :, b]))
        if f.get('nodata') is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(f['nodata'])
    if kind == 'vrs':
        ds.SetMetadata(rpcs(f['seed']), 'RPC')
    ds.FlushCache()
    if ext == 'png':
        gdal.GetDriverByName('PNG').CreateCopy(p, ds)
    ds = None
    return arr, [p]


def opener(f, paths):
    if f['kind'] == 'vrs':
        from resippy.image_objects.image_factory import ImageFactory
        return ImageFactory.digital_globe.view_ready_stereo.from_file(paths[0])
    if f['kind'] == 'mica':
        from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory
        names = {'band%d' % (b + 1): paths[b] for b in f['order']}
        if f['cams'] == 'opencv':
            return MicasenseImageFactory.from_image_number_and_opencv(names, [opencv_params(b) for b in reversed(f['order'])])
        return MicasenseImageFactory.from_image_number_and_pix4d(names, pix4d_params([os.path.basename(paths[b]) for b in f['order'][::-1]], f['nx'], f['ny']))
    from resippy.image_objects.image_factory import ImageFactory
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc
    pc = GeotiffPointCalc()
    return ImageFactory.physical_camera.from_gdal_file_and_single_point_calc(paths[0], pc)


def exif_ref(f, b):
    e = band_exif(f, b)
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=e['t'])
    leaps = sum(1 for y, m in LEAP if d >= datetime.datetime(y, m, 1))
    gps = (d - datetime.datetime(1980, 1, 6)).total_seconds() + leaps
    sec = gps % 604800 + float('0.' + e['subsec'])

    def dd(v, neg):
        return (-1 if neg else 1) * (v[0] + (v[1] + e['tenths'] / 10) / 60 + v[2] / 10000 / 3600)
    return sec, dd(e['lon'], e['lonref'] == 'W'), dd(e['lat'], e['latref'] == 'S')


def check_meta(ctx, f, arr, img, what, paths=None):
    m = img.get_metadata()
    name = paths and (os.path.splitext(paths[0])[0] if f['kind'] != 'mica' else paths[0][:paths[0].rindex('_')])
    if paths and m.get_image_name() != name:
        ctx.violate('wrong-metadata', '%s: the image is called %r' % (what, m.get_image_name()))
    if f['kind'] != 'mica':
        if (m.get_npix_y(), m.get_npix_x(), m.get_n_bands()) != arr.shape:
            ctx.violate('wrong-metadata', '%s: metadata says %s, the file is %s' % (what, (m.get_npix_y(), m.get_npix_x(), m.get_n_bands()), arr.shape))
        if f.get('nodata') != m.get_nodata_val():
            ctx.violate('wrong-nodata', '%s: nodata %r instead of %r' % (what, m.get_nodata_val(), f.get('nodata')))
    elif m.get_n_bands() != 5:
        ctx.violate('wrong-metadata', what + ': not five bands')
    if f['kind'] == 'mica':
        check_cams(ctx, f, img, what)
    if f['kind'] == 'vrs':
        d = rpcs(f['seed'])
        lon, lat, h = np.array([-77.61, -77.59, -77.6]), np.array([43.11, 43.08, 43.1]), np.array([100.0, 400.0, 0.0])
        x, y = img.get_point_calculator().lon_lat_alt_to_pixel_x_y(lon, lat, h)
        rx, ry = rpc_ref(d, lon, lat, h)
        if not (np.allclose(x, rx, atol=1e-5) and np.allclose(y, ry, atol=1e-5)):
            ctx.violate('wrong-model', '%s: RPC model gives %r, the file\'s coefficients give %r' % (what, (x, y), (rx, ry)))


def run(case, ctx):
    F, A, P, H, whole = [], [], [], {}, {}
    for k, f in enumerate(case['files']):
        arr, paths = make(ctx, k, f)
        F.append(f)
        A.append(arr)
        P.append(paths)
        whole[k] = True
    kept = {}
    held = []
    for n, o in enumerate(case['ops']):
        k = o['f']
        f, arr, paths = F[k], A[k], P[k]
        op = o['op']
        what = 'op %d %s %s%s' % (n, op, f['kind'], f.get('fmt', ''))
        for w, v, c in held:
            if not same(v, c):
                ctx.violate('earlier-result-changed', 'before %s: what %s returned: %s' % (what, w, diff(v, c)))
        nb = arr.shape[2]
        b = o['band'] % nb
        if op == 'exif' and f['kind'] != 'mica':
            continue
        if op == 'threads':
            def prog(j):
                def go(s, t):
                    im = opener(F[j], P[j])
                    bb = o['band'] % A[j].shape[2]
                    return im, im.read_band_from_disk(bb), im.read_all_image_data_from_disk(), \
                        im.get_gps_timestamp_and_center(bb) if F[j]['kind'] == 'mica' else None
                return go
            who = [k, o['f2']]
            for j, r in zip(who, ctx.threads([prog(j) for j in who], case['sched'], est=300)):
                if r[0] != 'ok':
                    ctx.violate('failed-in-threads', '%s: %s' % (what, ctx.exs(r[1])))
                im, one, all_, ex = r[1]
                if not same(one, A[j][:, :, o['band'] % A[j].shape[2]]) or not same(all_, A[j]) or ex is not None and not exif_ok(ex, F[j], o['band'] % A[j].shape[2]):
                    ctx.violate('wrong-read', '%s: image %d' % (what, j))
                check_meta(ctx, F[j], A[j], im, what, P[j])
            continue
        if op == 'replace':             # another image under the same name; one that is in memory stays
            if k in H and H[k].get_image_data() is not None:
                held.append((what, H[k].get_image_data(), H[k].get_image_data().copy()))
            H.pop(k, None)
            if o['seed'] % 2:
                F[k] = f = dict(f, seed=o['seed'], nx=f['nx'] + o['seed'] % 3, ny=f['ny'] + o['seed'] % 5 - 1 or 1)
                if f['kind'] == 'mica' and o['seed'] % 3:
                    f['exif'] = dict(f['exif'], t=f['exif']['t'] + o['seed'] % 99999, subsec='5', lon=[7, 8, 9])
            else:
                F[k] = f = dict(f, seed=o['seed'])
                if f['kind'] == 'mica' and o['seed'] % 4:
                    f['exif'] = dict(f['exif'], t=f['exif']['t'] + o['seed'] % 99999, lat=[10, o['seed'] % 60, 11])
            A[k], P[k] = make(ctx, k, f)
            continue
        if op == 'cut':
            p = paths[b % len(paths)]
            size = os.path.getsize(p)
            raw = open(p, 'rb').read()
            with open(p, 'r+b') as g:
                g.truncate(int(o['frac'] * size))
            ctx.fired['file:cut-short'] += 1
            ctx.faulted = True

            def rd(alln):
                im = opener(f, paths)
                return im.read_all_image_data_from_disk() if alln else im.read_band_from_disk(b)
            for alln in (False, True):
                r = ctx.call(rd, alln)
                want = arr if alln else arr[:, :, b]
                if r[0] == 'ok' and not (isinstance(r[1], np.ndarray) and same(r[1], want)):
                    ctx.violate('gdal-reads-file-header-as-pixels' if header_as_pixels(f, r[1]) else 'torn-image-accepted',
                                '%s to %d of %d bytes: %s read as %s' % (what, int(o['frac'] * size), size, 'image' if alln else 'band', 'None' if r[1] is None else diff(r[1], want)))
            if f['kind'] == 'mica':
                r = ctx.call(lambda: opener(f, paths).get_gps_timestamp_and_center(b))
                if r[0] == 'ok' and not exif_ok(r[1], f, b):
                    ctx.violate('torn-image-accepted', '%s: EXIF of a truncated file gives %r' % (what, r[1]))
            with open(p, 'wb') as g:
                g.write(raw)
            H.pop(k, None)
            kept.pop(k, None)
            continue
        if op == 'open':
            def fn():
                return opener(f, paths)
        elif op == 'exif':
            def fn():
                return opener(f, paths).get_gps_timestamp_and_center(b)
        else:
            if k not in H:
                H[k] = opener(f, paths)
                check_meta(ctx, f, arr, H[k], what, paths)

            def fn(h=None):
                h = h or H[k]
                return h.read_band_from_disk(b) if op == 'band' else h.read_all_image_data_from_disk()

        def good(v):
            if op == 'exif':
                return exif_ok(v, f, b)
            want = arr[:, :, b] if op == 'band' else arr
            return isinstance(v, np.ndarray) and same(v, want)

        def show(v):
            if op == 'exif':
                return '%r instead of %r' % (v, exif_ref(f, b))
            return 'None' if v is None else diff(v, arr[:, :, b] if op == 'band' else arr)
        if o.get('fault'):
            if op == 'open':
                _, tr = ctx.traced(fn)
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], fn)
                if out[0] == 'ok':
                    r = ctx.call(check_meta, ctx, f, arr, out[1], what + ' under a read fault') if f['kind'] != 'phys' else None
                    if f['kind'] == 'phys':
                        m = out[1].get_metadata()
                        if (m.get_npix_y(), m.get_npix_x(), m.get_n_bands()) != arr.shape:
                            ctx.violate('wrong-metadata', '%s under a read fault' % what)
                    r = ctx.call(out[1].read_all_image_data_from_disk)
                    if r[0] == 'ok' and not same(r[1], arr):
                        ctx.violate('wrong-read', '%s: an image opened under a read fault reads as %s' % (what, diff(r[1], arr)))
            else:
                if op == 'exif':
                    _, tr = ctx.traced(fn)
                    out, fired = ctx.faulty([ctx.place(o['fault'], tr)], fn)
                else:
                    h0 = opener(f, paths)
                    _, tr = ctx.traced(lambda: fn(h0))
                    h1 = opener(f, paths)       # a fresh handle, so that the read really goes to the disk
                    out, fired = ctx.faulty([ctx.place(o['fault'], tr)], lambda: fn(h1))
                    if fired:
                        ctx.probe('read_under_fault')
                    # the same handle works, or keeps refusing, once the disk has recovered
                    r = ctx.call(fn, h1)
                    if r[0] == 'ok' and not good(r[1]) and out[0] == 'exc':
                        ctx.violate('gdal-remembers-failed-read' if f['kind'] != 'mica' and isinstance(r[1], np.ndarray) else 'wrong-read-after-failure', '%s: after a failed read the same image gives %s' % (what, show(r[1])))
                if out[0] == 'ok' and not good(out[1]):
                    sig = 'wrong-read'
                    if fired and header_as_pixels(f, out[1]):
                        sig = 'gdal-reads-file-header-as-pixels'
                    ctx.violate(sig, '%s under a read fault: %s' % (what, show(out[1])))
            ctx.log(what, 'fault', fired, out[0])
            if out[0] == 'exc' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
        out = ctx.call(fn)
        if out[0] == 'exc':
            ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
        if op == 'open':
            H[k] = out[1]
            kept.pop(k, None)
            check_meta(ctx, f, arr, H[k], what, paths)
        else:
            if not good(out[1]):
                ctx.violate('wrong-read', '%s: %s' % (what, show(out[1])))
            ctx.probe('nontrivial')
            if isinstance(out[1], np.ndarray):
                if o['scribble'] and op != 'keep' and H[k].get_image_data() is None and out[1].flags.writeable:
                    out[1][...] = 1                     # the caller's own
                held.append((what, out[1], out[1].copy()))
        if op == 'keep':
            H[k].set_image_data(out[1])
            for bb in range(nb):
                if not same(H[k].get_image_band(bb), arr[:, :, bb]):
                    ctx.violate('wrong-read', what + ': band of the image in memory')
        ctx.log(what, 'done')


def header_as_pixels(f, got):
    """libtiff could not load the strip offsets and reads strips at offset 0, so the file's own header shows up in the pixels"""
    if f['kind'] == 'mica' or not isinstance(got, np.ndarray):
        return False
    bands = [got] if got.ndim == 2 else [got[:, :, b] for b in range(got.shape[2])]
    return any(b'II*\0' in np.ascontiguousarray(b).tobytes() for b in bands)


def exif_ok(v, f, b):
    s, lon, lat = exif_ref(f, b)
    try:
        return abs(v['gps_timestamp'] - s) < 1e-4 and abs(v['center']['lon'] - lon) < 1e-9 and abs(v['center']['lat'] - lat) < 1e-9
    except Exception:
        return False

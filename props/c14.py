"""C14: processing image cubes gives what its definition says and leaves the caller's arrays alone, however many threads
share them and whenever memory runs out."""
import numpy as np

from props.c12 import rpy
from props.common import close, diff, gen_sched, mkarray, same

META = {
    'runs': {'quick': 2500, 'thorough': 150000},
    'level': 'exploration',
    'rule': 'A run holds 1-3 image cubes with masks, spectra and bands (any numeric type and memory layout, read-only or not) that everybody '
            'shares, and performs 3-9 seeded steps: a processing function (statistics, detectors, equalization, principal components, '
            'warping, scaling, colouring, registration, spectra, ground grids, rotations), plainly, while memory runs out at one of its allocations, or two to '
            'three threads with several functions each. Every result is compared, all shared arrays are compared after each step. '
            'Non-trivial: memory ran out, threads were interleaved, or a function was applied to arrays used by an earlier one.',
    'real': ['resippy spectral and image processing', 'numpy', 'scipy', 'scikit-image', 'scikit-learn', 'Pillow', 'seaborn', 'pint'],
    'stub': ['thread scheduler', 'allocator of numpy array data (may run out)'],
    'assumptions': ['results are compared within floating point tolerances of the input type', 'cubes with at least two bands and invertible covariance'],
}
FUNS = ['mean', 'demean', 'cov', 'rx', 'ace', 'ace_demeaned', 'sam', 'equalize', 'transform', 'pca', 'warp', 'scale', 'scores', 'colour', 'blend',
        'resize', 'points', 'mmi', 'spectrum', 'resample', 'flatten', 'grid', 'uniform', 'ground', 'shift', 'rotate', 'lists']


def fun(rng):
    return {'f': rng.choice(FUNS), 'a': rng.randrange(3), 'b': rng.randrange(3), 'seed': rng.randrange(1 << 30), 'flat': rng.random() < .4,
            'mask': rng.random() < .5}


def gen(rng, tier, i):
    items = [{'seed': rng.randrange(1 << 30), 'ny': rng.randrange(4, 14), 'nx': rng.randrange(4, 14), 'nb': rng.randrange(2, 6),
              'dtype': rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64', 'float64']),
              'layout': rng.choice(['C', 'C', 'F', 'bsq', 'strided', 'readonly'])} for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.02:
        items[0].update(ny=rng.randrange(64, 90), nx=rng.randrange(64, 90))
    ops = []
    for _ in range(rng.randrange(3, 10)):
        k = rng.random()
        if k < .25:
            ops.append({'op': 'threads', 'threads': [[fun(rng) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 2, 3]))]})
        elif k < .37:
            f = fun(rng)
            ops.append(dict(f, op='call'))
            ops.append({'op': 'edit', 'a': f['a'], 'seed': rng.randrange(1 << 30)})
            ops.append(dict(f, op='call'))
        else:
            o = dict(fun(rng), op='call')
            if k < .6:
                o['oom'] = {'pos': round(rng.random(), 4), 'persist': rng.random() < .3}
            ops.append(o)
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


class Cube(object):
    """arrays of the caller"""


def layout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'bsq':
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 2, 0)), 0, 2)
    if how == 'strided':
        b = np.zeros((a.shape[0] * 2, a.shape[1], a.shape[2] + 1), a.dtype)
        b[::2, ::-1, 1:] = a
        return b[::2, ::-1, 1:]
    b = a.copy()
    if how == 'readonly':
        b.flags.writeable = False
    return b


def make(it):
    from resippy.spectral.spectrum import Spectrum
    c = Cube()
    rs = np.random.RandomState(it['seed'] % 2 ** 31)
    shape = (it['ny'], it['nx'], it['nb'])
    a = mkarray(it['seed'], shape, it['dtype'])
    c.arrays = {}
    A = c.arrays
    A['cube'] = layout(a, it['layout'])
    d = rs.standard_normal(shape) * rs.uniform(1, 50, it['nb'])
    A['dem'] = layout(d - d.mean((0, 1)), it['layout'])
    d = rs.standard_normal((shape[0] + rs.randint(3), shape[1] + rs.randint(3), it['nb'])).dot(rs.uniform(1, 5, (it['nb'], it['nb'])))
    A['demb'] = layout(d - d.mean((0, 1)), 'C')
    m = np.zeros(shape[0] * shape[1], bool if rs.randint(2) else 'uint8')
    m[rs.permutation(m.size)[:m.size // 4]] = 1
    A['mask'] = m.reshape(shape[:2])
    m = np.zeros(d.shape[0] * d.shape[1], m.dtype)
    m[rs.permutation(m.size)[:m.size // 5]] = 1
    A['mask2'] = m.reshape(d.shape[:2])
    A['target'] = rs.uniform(0, 200, it['nb']).astype(rs.choice(['float64', 'uint8', 'float32']))
    A['mean'] = rs.uniform(-5, 5, it['nb'])
    q = rs.standard_normal((it['nb'], it['nb']))
    A['icov'] = q.dot(q.T) + np.eye(it['nb'])
    A['x'] = rs.uniform(-2, it['nx'] + 1, (5, 7))
    A['y'] = rs.uniform(-2, it['ny'] + 1, (5, 7))
    A['scores'] = rs.standard_normal(6)
    for j in range(1, 6):
        if rs.randint(3) == 0:              # hardly another score
            A['scores'][j] = A['scores'][rs.randint(j)] + rs.choice([-1, 1]) * 10 ** -rs.uniform(1, 6)
    A['ul'] = rs.randint(0, 9, (6, 2))
    n = int(rs.choice([2, 5, 40, 200]))
    A['palette'] = rs.uniform(0, 1, (n, 3))
    rgb = np.zeros(shape[:2] + (int(rs.choice([3, 4])),), 'uint8')
    c.colors = {'#FF0000': 'r', '#00ff7f': 'g', '#0102FE': 'b'}
    for v in ((255, 0, 0), (0, 255, 127), (1, 2, 254), (255, 0, 1)):
        rgb[rs.randint(0, shape[0]), rs.randint(0, shape[1]), :3] = v
    if rgb.shape[2] == 4:
        rgb[:, :, 3] = 255
    A['rgb'] = rgb
    A['u8'] = rs.randint(0, 256, shape[:2]).astype('uint8')
    w = np.sort(rs.uniform(.4, 2.5, 30))
    v = rs.uniform(0, 1, 30).astype(rs.choice(['float64', 'float32']))
    if rs.randint(3) == 0:
        v = (v * 1000).astype('int32')
    if v.dtype.kind == 'f':
        v[[5, 9]] = np.nextafter(v.dtype.type(-999), v.dtype.type(0)), -999.001     # close, but not the nodata value
    v[[3, 17]] = -999
    A['wave'], A['spec'] = w, v
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(v)
    s.set_nodata_val(-999)
    c.spec = s
    s = Spectrum()
    s.set_wavelengths(w)
    A['clean'] = rs.uniform(0, 1, 30)
    s.set_spectral_data(A['clean'])
    c.clean = [s]
    s = Spectrum()                              # seen by the same sensor
    A['wave2'] = np.sort(rs.uniform(.4, 2.5, rs.choice([30, 30, 41])))
    A['clean2'] = rs.uniform(0, 1, A['wave2'].size)
    s.set_wavelengths(A['wave2'])
    s.set_spectral_data(A['clean2'])
    c.clean.append(s)
    c.rsr = []
    for k in range(3):
        r = Spectrum()
        A['rw%d' % k] = np.sort(rs.uniform(w[0], w[-1], 9))
        A['rd%d' % k] = rs.uniform(0, 1, 9)
        r.set_wavelengths(A['rw%d' % k])
        r.set_spectral_data(A['rd%d' % k])
        c.rsr.append(r)
    A['centers'] = np.array([.5, 1., 1.5])
    c.keep = {k: x.copy() for k, x in A.items()}
    c.f = {k: (x.astype(float) if x.dtype.kind in 'iuf' else x) for k, x in c.keep.items()}
    c.loose = it['dtype'] == 'float32'
    return c


def edit(c, seed):
    """the caller changes arrays of its own in place, mostly leaving their ends, sums and extremes as they are"""
    rs = np.random.RandomState(seed % 2 ** 31)
    for name in sorted(c.arrays):
        a = c.arrays[name]
        if name in ('wave', 'wave2', 'centers') or name[:2] in ('rw', 'rd') or not a.flags.writeable or rs.randint(2):
            continue
        if name == 'icov':
            a[...] = a * 1.5
        elif name == 'cube' and rs.randint(2):
            k = [rs.randint(1, n - 1) for n in a.shape[:2]] + [rs.randint(a.shape[2])]
            a[tuple(k)] = a.flat[rs.randint(a.size)]
        elif a.ndim > 1:
            a[1:-1] = a[1:-1][::-1].copy()
        else:
            a[1:-1] = a[1:-1][::-1].copy()
        c.keep[name] = a.copy()
        c.f[name] = c.keep[name].astype(float) if a.dtype.kind in 'iuf' else c.keep[name]
    # these own copies or share
    c.spec.set_spectral_data(c.arrays['spec'])
    c.clean[0].set_spectral_data(c.arrays['clean'])
    c.clean[1].set_spectral_data(c.arrays['clean2'])


# ------------------------------------------------------------------ what the functions are, in a few lines each
def cov(x):
    d = x - x.mean(0)
    return d.T.dot(d) / (len(x) - 1.)


def good(c, cube, mask=None):
    x = cube.reshape(-1, cube.shape[2])
    return x if mask is None else x[mask.reshape(-1) == 0]


def ace_formula(x, t, ic):
    return np.array([(p.dot(ic).dot(t)) ** 2 / (t.dot(ic).dot(t) * p.dot(ic).dot(p)) for p in x])


def power(m, p):
    w, v = np.linalg.eigh(m)
    return (v * w ** p).dot(v.T)


def colour_oracle(img, pal, lo, hi, bins, continuous):
    """colours before rounding, and which pixels are far enough from a class limit to have one colour only"""
    def interp(v, p):
        t = np.clip((v - lo) / (hi - lo), 0, 1) * (len(p) - 1)
        return np.stack([np.interp(t, np.arange(len(p)), p[:, k]) for k in range(3)], -1), t
    if bins is not None:
        pal = interp(np.linspace(lo, hi, bins), pal)[0]
    if continuous:
        return interp(img, pal)[0] * 255, np.ones(img.shape, bool)
    t = (img - lo) / (hi - lo) * len(pal)
    sure = np.abs(t - np.rint(t)) > 1e-6
    return pal[np.clip(np.floor(t).astype(int), 0, len(pal) - 1)] * 255, sure


def job(c, o, d):
    """-> (callable, check(result) -> complaint or None)"""
    import resippy.spectral.spectral_image_processing_1d as s1
    import resippy.spectral.spectral_image_processing_2d as s2
    import resippy.utils.image_utils.image_utils as iu
    import resippy.utils.image_utils.image_mask_utils as mu
    from resippy.utils import spectral_utils as su
    from resippy.utils.image_utils.image_registration import MMI
    import pyproj
    from shapely.geometry import Polygon
    import resippy.utils.geom_utils as gu
    import resippy.utils.numpy_and_array_utils as nu
    import resippy.utils.photogrammetry_utils as pu
    import resippy.utils.proj_utils as pr
    A, F, f = c.arrays, c.f, o['f']
    rs = np.random.RandomState(o['seed'] % 2 ** 31)
    ny, nx, nb = A['cube'].shape
    flat = o['flat']
    s = s1 if flat else s2
    tol = 3e-3 if c.loose else 1e-7

    def arr(name):
        a = A[name]
        return a.reshape(-1, a.shape[2]) if flat and a.ndim == 3 else a.reshape(-1) if flat and name.startswith('mask') else a
    mask = arr('mask') if o['mask'] else None
    fmask = c.keep['mask'] if o['mask'] else None

    def band(x):
        return x if flat else np.reshape(x, (ny, nx))

    def near(want, t=tol, fresh=True):
        def chk(got):
            if isinstance(got, np.ma.MaskedArray):
                if np.ma.getmaskarray(got).any():
                    return 'masked values'
                got = got.data
            g, w = np.asarray(got), np.asarray(want)
            if g.shape != w.shape:
                return 'shape %s instead of %s' % (g.shape, w.shape)
            if g.dtype.kind == 'c':
                g = g.real
            sc = max(1e-30, float(np.max(np.abs(w)))) if w.size else 1
            if not np.allclose(g, w, rtol=t, atol=t * sc):
                return diff(g, w)
            if fresh and any(np.shares_memory(got, a) for a in A.values()):
                return "the caller's memory"
            return None
        return chk
    x = good(c, F['cube'])
    xm = good(c, F['cube'], fmask)
    if f == 'mean':
        return lambda: s.compute_image_cube_spectral_mean(arr('cube'), mask), near(xm.mean(0))
    if f == 'demean':
        w = x - xm.mean(0)
        return lambda: s.demean_image_data(arr('cube'), mask), near(w if flat else w.reshape(ny, nx, nb))
    if f == 'cov':
        return lambda: s.compute_image_cube_spectral_covariance(arr('cube'), mask), near(cov(xm))

    def given(xm):
        kw, mu_, ic = {}, xm.mean(0), None
        if rs.randint(2):
            kw['spectral_mean'], mu_ = A['mean'], F['mean']
        if rs.randint(2):
            kw['inverse_covariance'], ic = A['icov'], F['icov']
        return kw, mu_, np.linalg.inv(cov(xm)) if ic is None else ic
    if f == 'rx':
        kw, mu_, ic = given(x)
        w = np.einsum('ij,jk,ik->i', x - mu_, ic, x - mu_)
        return lambda: s.rx_anomaly_detector(arr('cube'), **kw), near(band(w))
    if f == 'ace':
        kw, mu_, ic = given(xm)
        w = ace_formula(x - mu_, F['target'] - mu_, ic)
        return lambda: s.ace(arr('cube'), A['target'], image_mask=mask, **kw), near(band(w), max(tol, 1e-6))
    if f == 'ace_demeaned':
        return lambda: s.ace_demeaned(arr('dem'), A['mean'], A['icov']), near(band(ace_formula(good(c, F['dem']), F['mean'], F['icov'])), 1e-6)
    if f == 'sam':
        w = np.array([p.dot(F['target']) / np.sqrt(p.dot(p) * F['target'].dot(F['target'])) for p in x])
        return lambda: s.sam(arr('cube'), A['target']), near(band(w), max(tol, 1e-6))
    if f in ('equalize', 'transform'):
        two = rs.randint(2)
        m2 = arr('mask2') if two else None
        f2 = c.keep['mask2'] if two else None
        big = power(cov(good(c, F['demb'], f2)), .5).dot(power(cov(good(c, F['dem'], fmask)), -.5))
        if f == 'transform':
            return lambda: s.compute_cov_eq_linear_transform_matrix(arr('dem'), arr('demb'), mask, m2), near(big, 1e-6)
        w = good(c, F['dem']).dot(big.T)
        return lambda: s.covariance_equalization_mean_centered(arr('dem'), arr('demb'), mask, m2), near(w if flat else w.reshape(ny, nx, nb), 1e-6)
    if f == 'pca':
        n = int(rs.randint(1, nb + 1)) if rs.randint(2) else None
        wh = bool(rs.randint(2))
        kw = dict([('whiten', wh)] * (wh or rs.randint(2)), n_components=n)
        xc = x - x.mean(0)
        u, sv, _ = np.linalg.svd(xc, full_matrices=False)
        k = n or nb

        def chk(t):
            if t.shape != (ny, nx, k):
                return 'shape %s' % (t.shape,)
            if k < nb and (sv[k - 1] - sv[k]) / sv[0] < 1e-2 or sv[-1] / sv[0] < 1e-3:
                return None
            t = np.asarray(t, float).reshape(-1, k)
            w = (u[:, :k] * (np.sqrt(len(x) - 1.) if wh else sv[:k]))
            w = w.dot(w.T)
            g = t.dot(t.T)
            return None if np.allclose(g, w, rtol=0, atol=(3e-2 if c.loose else 1e-5) * np.abs(w).max()) else diff(g, w)
        return lambda: s2.compute_image_cube_pca(A['cube'], **kw), chk
    b = int(rs.randint(nb))
    B = A['cube'][:, :, b]
    FB = F['cube'][:, :, b]
    if f == 'warp':
        how = ['nearest', 'bilinear', 'bilinear', 'biquadratic', 'bicubic', 'biquartic', 'biquintic'][rs.randint(7)]
        nod = int(rs.choice([0, 7]))
        spline = None
        if how[:3] == 'biq' or how == 'bicubic':
            from scipy.ndimage import map_coordinates
            spline = map_coordinates(FB, [F['y'], F['x']], order={'biquadratic': 2, 'bicubic': 3, 'biquartic': 4, 'biquintic': 5}[how], mode='grid-constant', cval=nod)
            spline = spline, np.clip(spline, FB.min(), FB.max()), np.clip(spline, min(FB.min(), nod), max(FB.max(), nod))   # overshoot may or may not be cut off

        def chk(got):
            X, Y = F['x'], F['y']
            if got.shape != X.shape:
                return 'shape %s' % (got.shape,)
            for i in np.ndindex(X.shape):
                px, py = X[i], Y[i]
                if px < -1 or py < -1 or px > nx or py > ny:
                    if abs(got[i] - nod) > 1e-6:
                        return 'outside: %r instead of %r' % (got[i], nod)
                elif 0 <= px <= nx - 1 and 0 <= py <= ny - 1:
                    if how == 'nearest':
                        if min(abs(px % 1 - .5), abs(py % 1 - .5)) < 1e-9:
                            continue
                        w = FB[int(np.rint(py)), int(np.rint(px))]
                    elif spline is not None:
                        w = min([v[i] for v in spline], key=lambda v: abs(got[i] - v))
                    else:
                        x0, y0 = min(int(px), nx - 2), min(int(py), ny - 2)
                        u, v = px - x0, py - y0
                        w = (FB[y0, x0] * (1 - u) + FB[y0, x0 + 1] * u) * (1 - v) + (FB[y0 + 1, x0] * (1 - u) + FB[y0 + 1, x0 + 1] * u) * v
                    if abs(got[i] - w) > (1e-4 if c.loose else 1e-6) * (1 + np.abs(FB).max()):
                        return 'at %.3f %.3f: %r instead of %r' % (px, py, got[i], w)
        return lambda: iu.grid_warp_image_band(B, A['x'], A['y'], nodata_val=nod, interpolation=how), chk
    if f == 'scale':
        lo, hi = float(rs.randint(-5, 5)), float(rs.randint(6, 250))
        dt = [None, 'uint8', 'float32'][rs.randint(3)] if lo >= 0 else None
        w = (FB - FB.min()) / (FB.max() - FB.min()) * (hi - lo) + lo

        def chk(got):
            if got.shape != w.shape or (dt and got.dtype != np.dtype(dt)):
                return '%s %s' % (got.shape, got.dtype)
            return None if np.allclose(got.astype(float), w, rtol=0, atol=1.001 if dt == 'uint8' else 1e-3 if c.loose or dt else 1e-7) and \
                not np.shares_memory(got, B) else diff(got, w)
        return lambda: iu.normalize_grayscale_image(B, lo, hi, dt), chk
    if f == 'scores':
        cy, cx = int(rs.randint(1, 6)), int(rs.randint(1, 6))
        sc, ul = c.keep['scores'], c.keep['ul']
        w = np.zeros((ul[:, 0].max() + cy, ul[:, 1].max() + cx))
        for i in np.ndindex(w.shape):
            hit = [sc[k] for k in range(len(sc)) if ul[k, 0] <= i[0] < ul[k, 0] + cy and ul[k, 1] <= i[1] < ul[k, 1] + cx]
            w[i] = max(hit) if hit else 0
        return lambda: iu.create_detection_image_from_scores(A['scores'], A['ul'], cx, cy), near(w)
    if f == 'colour':
        cont, bins = bool(rs.randint(2)), [None, None, 3, 11, 150][rs.randint(5)]
        clip = bool(rs.randint(2))
        nod = float(FB.flat[rs.randint(FB.size)]) if rs.randint(3) == 0 else None
        v = FB[FB != nod] if nod is not None else FB
        lo, hi = v.min(), v.max()
        if lo == hi:
            lo, hi = 0., 1.
            clip = True
        elif clip:
            lo, hi = lo + (hi - lo) * .2, hi - (hi - lo) * .3
        kw = dict(color_palette=A['palette'], continuous=cont, n_bins=bins, nodata=nod)
        if clip:
            kw.update(min_clip=lo, max_clip=hi)
        flt = bool(rs.randint(2))
        if flt:
            kw['output_dtype'] = np.float64
        w, sure = colour_oracle(FB, F['palette'], lo, hi, bins, cont)

        def chk(got):
            if got.shape != w.shape or got.dtype != (np.float64 if flt else np.uint8):
                return '%s %s' % (got.shape, got.dtype)
            bad = np.abs(got.astype(float) - w) > (.05 if c.loose and flt else 1e-4 if flt else 1.01)
            if cont and len(F['palette']) > 100 and c.loose:
                bad = np.abs(got.astype(float) - w) > 2.5
            bad &= sure[:, :, None]
            return '%d pixels have another colour, e.g. %s instead of %s' % (bad.any(2).sum(), got[bad.any(2)][0], w[bad.any(2)][0]) if bad.any() else None
        return lambda: iu.apply_colormap_to_grayscale_image(B, **kw), chk
    if f == 'blend':
        p = float(rs.uniform(0, 1))
        w = F['cube'] * p + F['cube'][::-1] * (1 - p)
        return lambda: iu.blend_images(A['cube'], A['cube'][::-1], p), near(w, max(tol, 1e-6))
    if f == 'resize':
        from PIL import Image
        n = int(rs.randint(2, 20)), int(rs.randint(2, 20))
        w = np.array(Image.fromarray(c.keep['u8']).resize((n[1], n[0])))
        return lambda: iu.resize_image(A['u8'], n[0], n[1]), near(w)
    if f == 'points':
        r = c.keep['rgb'][:, :, :3].astype(int)
        if o['mask']:
            def chk(got):
                for h, name in c.colors.items():
                    v = [int(h[k:k + 2], 16) for k in (1, 3, 5)]
                    if not same(np.transpose(got[name]), np.argwhere((r == v).all(2))):
                        return '%s at %s' % (h, got[name])
                return None if set(got) == set(c.colors.values()) else 'colours %s' % sorted(got)
            return lambda: mu.rgb_image_point_mask_to_pixel_locations(A['rgb'], c.colors), chk
        return lambda: np.transpose(mu.rgb_image_point_mask_to_pixel_locations(A['rgb'])), near(np.argwhere(r.sum(2) > 0), fresh=False)
    if f == 'mmi':
        n = int(rs.choice([2, 10, 100]))
        j = np.histogram2d(FB.ravel(), F['u8'].ravel(), bins=n)[0]
        h1, h2 = np.histogram(c.keep['cube'][:, :, b], n)[0].astype(float), np.histogram(c.keep['u8'], n)[0].astype(float)
        z = j > 0
        w = (j[z] * np.log(j[z] / np.outer(h1, h2)[z])).sum() if np.isfinite(np.log(j[z] / np.maximum(np.outer(h1, h2)[z], 1e-9))).all() else None
        ok = np.all(np.outer(h1, h2)[z] > 0)
        return lambda: MMI.image_mmi(B, A['u8'], n), (near(w) if ok and not c.loose else (lambda got: None))
    if f == 'spectrum':
        w = F['spec'].copy()
        w[w == -999] = np.nan
        raw = o['mask']

        def chk(got):
            t = c.keep['spec'] if raw else w
            return None if close(got, t, 1e-6, 1e-9) and not any(np.shares_memory(got, a) for a in A.values()) else diff(got, t)
        return lambda: c.spec.get_spectral_data(nodata_to_nan=not raw), chk
    if f == 'resample':
        w = []
        other = o['mask']
        wave, data = (F['wave2'], F['clean2']) if other else (F['wave'], F['clean'])
        for k in range(3):
            r = np.interp(wave, F['rw%d' % k], F['rd%d' % k], left=0, right=0)
            t = data * r
            dx = np.diff(wave)
            w.append(((t[1:] + t[:-1]) * dx).sum() / ((r[1:] + r[:-1]) * dx).sum())

        def chk(got):
            if not np.isfinite(w).all():
                return None
            return near(np.array(w))(got.get_spectral_data()) or (None if same(got.get_wavelengths(), c.keep['centers']) else 'other wavelengths')
        return lambda: c.clean[1 if other else 0].resample_spectrum_direct(c.rsr, A['centers']), chk
    if f == 'flatten':
        def do():
            q = su.flatten_image_cube(A['cube'])
            return q.shape, su.unflatten_image_cube(q, nx, ny), iu.unflatten_image_band(iu.flatten_image_band(B), nx, ny), np.array(q), \
                su.is_1d_cube(q), su.is_2d_cube(A['cube']) and not su.is_1d_cube(A['cube']) and not su.is_2d_cube(q), su.get_2d_cube_nx_ny_nbands(A['cube']), iu.get_image_ny_nx_nbands(B)

        def chk(g):
            if g[0] != (ny * nx, nb) or g[4] is not True or g[5] is not True or tuple(g[6]) != (nx, ny, nb) or tuple(g[7]) != (ny, nx, 1):
                return 'shapes %s' % (g[0],)
            for p, q in ((g[1], c.keep['cube']), (g[2], c.keep['cube'][:, :, b]), (g[3], c.keep['cube'].reshape(-1, nb))):
                if not same(p, q):
                    return diff(p, q)
        return do, chk
    if f == 'grid':
        sf = [1, 2, .5][rs.randint(3)]

        def chk(g):
            gx, gy = np.arange(0, nx, 1 / sf), np.arange(0, ny, 1 / sf)
            return None if len(g) == 2 and same(g[0], np.tile(gx, (len(gy), 1))) and same(g[1], np.tile(gy[:, None], (1, len(gx)))) else 'another grid'
        return lambda: iu.create_pixel_grid(nx, ny, sf), chk
    if f == 'uniform':
        vals = [int(v) for v in rs.randint(0, 256, nb)]
        one = o['mask']

        def chk(g):
            return None if same(g, np.broadcast_to(vals[0] if one else np.array(vals), (ny, nx, nb))) and g.dtype == np.uint8 else 'other values'
        return lambda: iu.create_uniform_image_data(nx, ny, nb, vals[0] if one else vals), chk
    if f == 'ground':
        x0, y0, w, h = rs.uniform(-1e5, 1e5), rs.uniform(-1e5, 1e5), 10. ** rs.uniform(-3, 4), 10. ** rs.uniform(-3, 4)
        poly = gu.bounds_2_shapely_polygon(x0, x0 + w, y0 + h, y0)
        kx, ky = rs.uniform(.5, 30.5, 2)
        if min(abs(kx - np.rint(kx)), abs(ky - np.rint(ky))) < 1e-3:
            kx, ky = 7.5, 3.5

        def chk(g):
            if not np.allclose(poly.bounds, (x0, y0, x0 + w, y0 + h), rtol=0, atol=1e-9) or abs(poly.area - w * h) > 1e-6 * w * h + 1e-9:
                return 'polygon %s' % poly.wkt
            t = 1e-9 * (abs(x0) + abs(y0) + w + h)
            i, j = np.indices((ny, nx))
            want = np.array([x0 + (j + .5) * w / nx, y0 + h - (i + .5) * h / ny])
            if np.shape(g[0]) != want.shape or np.abs(np.array(g[0]) - want).max() > t:
                return diff(np.array(g[0]), want)
            if not np.allclose(g[1], [x0, w / nx, 0, y0 + h, 0, -h / ny], rtol=1e-9, atol=t):
                return 'geotransform %s' % (g[1],)
            return None if tuple(g[2]) == (int(kx), int(ky)) else 'pixels %s' % (g[2],)
        return lambda: (pu.create_ground_grid(x0, x0 + w, y0, y0 + h, nx, ny), pu.world_poly_to_geo_t(poly, nx, ny), pu.get_nx_ny_pixels_in_extent(poly, w / kx, h / ky)), chk
    if f == 'shift':
        name = ['EPSG:32618', 'EPSG:4326'][rs.randint(2)]
        src = pyproj.Proj(init=name.lower(), preserve_units=True)
        n = int(rs.randint(1, 9))
        px, py = (rs.uniform(-76, -74, n), rs.uniform(30, 45, n)) if name == 'EPSG:4326' else (rs.uniform(4e5, 6e5, n), rs.uniform(4.1e6, 4.9e6, n))
        e, m = rs.uniform(-1e3, 1e3, 2)
        kx, ky = px.copy(), py.copy()
        ring = [(float(a), float(b2)) for a, b2 in zip(px[0] + np.array([0, .1, .1]) * (1 if name == 'EPSG:4326' else 1e4), py[0] + np.array([0, 0, .1]) * (1 if name == 'EPSG:4326' else 1e4))]

        def chk(g):
            t = pyproj.Transformer.from_crs(name, 'EPSG:3857', always_xy=True)
            x, y = t.transform(kx, ky)
            w = np.array(t.transform(x + e, y + m, direction='INVERSE'))
            if not (same(kx, px) and same(ky, py)):
                return 'the coordinates were changed'
            r = np.array(t.transform(*np.transpose(ring)))
            if np.abs(np.array(g[1].exterior.coords.xy)[:, :3] - r).max() > 1e-3:
                return 'polygon %s' % g[1].wkt
            z = int(name[-2:]) if name != 'EPSG:4326' else None
            lon, lat = (kx, ky) if z is None else pyproj.Transformer.from_crs(name, 'EPSG:4326', always_xy=True).transform(kx, ky)
            z = int((lon[0] + 180) // 6) + 1
            q = pyproj.Transformer.from_crs('EPSG:4326', 'EPSG:%d' % (32600 + z), always_xy=True).transform(lon[0], lat[0])
            if np.abs(np.array(g[2]) - q).max() > 1e-3:
                return 'local coordinates %s instead of %s' % (g[2], q)
            return None if np.abs(np.array(g[0]) - w).max() <= (1e-8 if name == 'EPSG:4326' else 1e-3) else diff(np.array(g[0]), w)

        def do():
            lon, lat = (px[0], py[0]) if name == 'EPSG:4326' else pyproj.Transformer.from_crs(name, 'EPSG:4326', always_xy=True).transform(px[0], py[0])
            return pu.shift_points_by_meters(e, m, src, px, py), pu.reproject_geometry(Polygon(ring), src, pyproj.Proj(init='epsg:3857', preserve_units=True)), \
                pr.decimal_degrees_to_local_utm_proj(lon, lat)(lon, lat)
        return do, chk
    if f == 'rotate':
        ang = rs.uniform(-np.pi, np.pi, 3)
        ang[1] /= 2.1
        if o['mask']:
            ang[rs.randint(3)] = 0.
        order = ['rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr'][rs.randint(6)]
        one = {'r': rpy(ang[0], 0, 0), 'p': rpy(0, ang[1], 0), 'y': rpy(0, 0, ang[2])}
        w = np.eye(3)
        for k in order:
            w = one[k].dot(w)

        def chk(g):
            if np.abs(g[0] - w).max() > 1e-12:
                return diff(g[0], w)
            if np.abs((np.array(g[1]) - ang + np.pi) % (2 * np.pi) - np.pi).max() > 1e-6:
                return 'angles %s instead of %s' % (g[1], ang)
            return None if np.abs(w.dot(g[2]) - one['y']).max() < 1e-9 else 'offsets'
        return lambda: (pu.create_M_matrix(*ang, order=order), pu.solve_for_omega_phi_kappa(pu.create_M_matrix(*ang)), pu.solve_for_boresight_angle_offsets(w, one['y'])), chk
    if f == 'lists':
        n = int(rs.randint(1, 9))
        a = [[int(v) for v in rs.randint(0, 4, n)], [int(v) for v in rs.randint(0, 4, n)]]
        pairs = list(zip(*a))
        return lambda: (nu.separate_lists_to_list_of_tuples(a), nu.list_of_tuples_to_separate_lists(pairs), nu.remove_all_entries_from_list(a[0], 2)), \
            lambda g: None if (g[0], g[1], g[2]) == (pairs, a, [v for v in a[0] if v != 2]) else 'lists %s' % (g,)
    raise KeyError(f)


def warm():
    import resippy.spectral.spectral_image_processing_1d  # noqa
    import resippy.spectral.spectral_image_processing_2d  # noqa
    import resippy.utils.image_utils.image_mask_utils  # noqa
    import resippy.utils.image_utils.image_registration  # noqa
    import resippy.utils.geom_utils  # noqa
    import resippy.utils.numpy_and_array_utils  # noqa
    import resippy.utils.photogrammetry_utils  # noqa
    import resippy.utils.proj_utils  # noqa
    from resippy.spectral.spectral_image_processing_2d import compute_image_cube_pca
    compute_image_cube_pca(np.random.RandomState(1).standard_normal((4, 4, 2)))
    from skimage import transform
    transform.warp(np.zeros((4, 4)), np.zeros((2, 3, 3)), preserve_range=True)


def run(case, ctx):
    cubes = [make(it) for it in case['items']]
    used = 0

    def untouched(what):
        for k, c in enumerate(cubes):
            for name in sorted(c.arrays):
                if not same(c.arrays[name], c.keep[name]) or c.arrays[name].dtype != c.keep[name].dtype:
                    ctx.violate('caller-array-changed', '%s: %s of cube %d: %s' % (what, name, k, diff(c.arrays[name], c.keep[name])))

    def verdict(what, o, chk, r, sig):
        try:
            with np.errstate(all='ignore'):
                p = chk(r)
        except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
            p = 'malformed result (%s)' % ctx.exs(e)
        if p:
            ctx.violate(sig, '%s %s(%s): %s' % (what, o['f'], 'flat' if o['flat'] else 'cube', p))
    with np.errstate(all='ignore'):
        for n, o in enumerate(case['ops']):
            what = 'op %d' % n
            if o['op'] == 'edit':
                edit(cubes[o['a'] % len(cubes)], o['seed'])
                ctx.log(what, 'edit')
            elif o['op'] == 'call':
                c = cubes[o['a'] % len(cubes)]
                do, chk = job(c, o, cubes[o['b'] % len(cubes)])
                if 'oom' in o:
                    out, k = ctx.allocations(do)
                    if out[0] == 'ok' and k:
                        out, fired = ctx.starved(min(k - 1, int(o['oom']['pos'] * k)), o['oom']['persist'], do)
                        ctx.log(what, o['f'], k, fired, out[0])
                        untouched(what + ' ' + o['f'] + ' without memory')
                        if out[0] == 'ok':
                            verdict(what + ' without memory', o, chk, out[1], 'wrong-without-memory')
                        elif not fired:
                            ctx.violate('spurious-failure', '%s %s: %s' % (what, o['f'], ctx.exs(out[1])))
                out = ctx.call(do)
                ctx.log(what, o['f'], out[0])
                if out[0] != 'ok':
                    ctx.violate('spurious-failure', '%s %s(%s): %s' % (what, o['f'], 'flat' if o['flat'] else 'cube', ctx.exs(out[1])))
                verdict(what, o, chk, out[1], 'wrong-result')
                used += 1
            else:
                jobs = [[(f,) + job(cubes[f['a'] % len(cubes)], f, cubes[f['b'] % len(cubes)]) for f in p] for p in o['threads'] if p]
                if len(jobs) < 2:
                    continue

                def prog(js):
                    return lambda s, t: [do() for _, do, _ in js]
                est = sum(ctx.solo_steps(prog(js))[1] for js in jobs)
                untouched(what + ' alone')
                rs = ctx.threads([prog(js) for js in jobs], case['sched'], est=est)
                for js, r in zip(jobs, rs):
                    if r[0] != 'ok':
                        ctx.violate('failed-in-threads', '%s: %s: %s' % (what, [j[0]['f'] for j in js], ctx.exs(r[1])))
                    for (f, do, chk), v in zip(js, r[1]):
                        verdict(what + ' in threads', f, chk, v, 'wrong-in-threads')
                ctx.probe('nontrivial')
            untouched(what)
    if used > 1:
        ctx.probe('nontrivial')

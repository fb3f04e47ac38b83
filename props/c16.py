"""C16: simulated camera frames - every pixel shows what the described camera would see of the base image."""
import copy
import os

import numpy as np

from props.c12 import ZONES, rpy
from props.c15 import change_proj, tiff, wkt
from props.common import diff, gen_sched, mkarray, read_fault, same

META = {
    'runs': {'quick': 2000, 'thorough': 60000},
    'level': 'exploration',
    'rule': 'A run writes 1-2 base GeoTIFFs (all types, north up or rotated, projected or geographic), describes 1-2 cameras over each (any units, '
            'boresight angles in any order, exact and arbitrary angles) and performs 2-7 operations: take a frame from a pose, change the world '
            'projection, take the same frame with a camera that differs in one parameter, take frames from 2-3 threads (also as the first frames of a simulator), with a failing disk, without memory. '
            'Non-trivial: a fault fired, threads were interleaved, or memory ran out.',
    'real': ['resippy camera simulator, fixture, pinhole and GeoTIFF models', 'GDAL, libtiff', 'scipy, numpy, pyproj, pint', 'libc', 'kernel tmpfs'],
    'stub': ['disk outcomes (LD_PRELOAD seam)', 'thread scheduler', 'numpy data allocator (fails on demand)'],
    'assumptions': ['scipy.ndimage.map_coordinates interpolates', 'a pixel is located on the ground to a hundredth of a pixel'],
}
ANGLES = {'degrees': np.rad2deg, 'radians': float, 'milliradians': lambda v: v * 1e3}
ORDERS = ['rpy', 'rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr']


def pose(rng):
    return {'seed': rng.randrange(1 << 30), 'yaw': rng.choice([None, None, None, 0, 90, 180, 270, -90, 45]), 'level': rng.random() < 0.3}


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 2, 2])):
        items.append({'seed': rng.randrange(1 << 30), 'base': rng.randrange(2), 'dtype': rng.choice(['uint8', 'uint16', 'int16', 'int32', 'float32', 'float64']),
                      'geo': rng.random() < 0.25, 'rot': rng.random() < 0.3, 'other': rng.random() < 0.3, 'order': rng.choice(ORDERS), 'bore': rng.random() < 0.7,
                      'nb': rng.choice([1, 1, 3]), 'units': rng.randrange(1 << 30)})
    ops = []
    for _ in range(rng.randrange(2, 8)):
        k = rng.random()
        o = {'op': 'threads' if k < 0.25 else 'world' if k < 0.35 else 'fresh' if k < 0.42 else 'twin' if k < 0.55 else 'frame', 'c': rng.randrange(2), 'pose': pose(rng),
             'more': [pose(rng) for _ in range(rng.choice([1, 1, 2]))], 'both': rng.random() < 0.4}
        if o['op'] == 'frame':
            k = rng.random()
            if k < 0.3:
                o['fault'] = read_fault(rng, 'base')
            elif k < 0.55:
                o['oom'] = {'pos': round(rng.random(), 4), 'persist': rng.random() < 0.4}
        ops.append(o)
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


class Sim(object):
    pass


def rotation(order, roll, pitch, yaw):
    one = {'r': rpy(roll, 0, 0), 'p': rpy(0, pitch, 0), 'y': rpy(0, 0, yaw)}
    m = np.eye(3)
    for k in order:                                                 # the order in which the rotations are applied
        m = one[k].dot(m)
    return m


def make(ctx, k, it, bases):
    import pyproj
    s = Sim()
    rs = np.random.RandomState(it['seed'])
    s.path = ctx.path('base %d.tif' % it['base'])
    if it['base'] not in bases:
        b = bases[it['base']] = Sim()
        b.z, b.south, x, y = ZONES[rs.randint(3)]
        b.utm = 'EPSG:%d' % (32700 + b.z if b.south else 32600 + b.z)
        ny, nx = int(rs.randint(8, 70)), int(rs.randint(8, 70))
        a = mkarray(it['seed'], (ny, nx, it['nb']), it['dtype'])
        dt = np.dtype(it['dtype'])
        b.arr = (a // 2 + (np.iinfo(dt).max // 4 if dt.kind == 'u' else 0) if dt.kind != 'f' else a).astype(dt)     # room for overshoot
        step = rs.uniform(.5, 4)
        b.center = x, y
        b.size = step * min(nx, ny)
        b.name = 'EPSG:4326' if it['geo'] else b.utm
        if it['geo']:
            gx, gy = change_proj(b.utm, b.name, np.array([x, x + step, x]), np.array([y, y, y - step]))
            sx, sy = gx[1] - gx[0], gy[2] - gy[0]
            x, y = gx[0], gy[0]
        else:
            sx, sy = step, -step * rs.uniform(.7, 1.3)
        r = [rs.uniform(-.2, .2), rs.uniform(-.2, .2)] if it['rot'] else [0., 0.]
        b.g = [x - sx * nx / 2., sx, r[0] * sx, y - sy * ny / 2., r[1] * sy, sy]
        tiff(s.path, b.arr, list(b.g), wkt(b.name))
        b.bytes = open(s.path, 'rb').read()
    b = s.b = bases[it['base']]
    s.proj = pyproj.Proj(proj='utm', zone=b.z, south=b.south, ellps='WGS84', datum='WGS84', preserve_units=True)
    z2 = b.z + 1
    s.utm2 = 'EPSG:%d' % (32700 + z2 if b.south else 32600 + z2)
    s.proj2 = pyproj.Proj(proj='utm', zone=z2, south=b.south, ellps='WGS84', datum='WGS84', preserve_units=True)
    # where the camera model works: None leaves it to the base image
    s.world = (b.utm, s.proj) if it['geo'] or b.name != b.utm else (b.utm, None)
    if it['other']:
        s.world = (s.utm2, s.proj2)
    s.nx, s.ny = int(rs.randint(2, 26)), int(rs.randint(2, 26))
    s.alt = rs.uniform(300, 3000)
    s.f = rs.uniform(.01, .1)
    gsd = b.size * rs.uniform(.3, 1.2) / max(s.nx, s.ny)
    s.pitch = gsd * s.f / s.alt, gsd * s.f / s.alt * rs.uniform(.7, 1.4)
    s.bore = list(rs.uniform(-.08, .08, 2)) + [rs.uniform(-3, 3)] if it['bore'] else [0., 0., 0.]
    if it['bore'] and rs.randint(3) == 0:
        s.bore[int(rs.randint(3))] = 0.
    s.order = it['order']
    ru = np.random.RandomState(it['units'])
    deg = ANGLES
    length = {'meters': 1., 'mm': 1e3, 'micrometer': 1e6, 'cm': 100., 'km': 1e-3}
    s.kw = {'focal_length': s.f * 1e3, 'pixel_pitch_x': s.pitch[0] * 1e6, 'pixel_pitch_y': s.pitch[1] * 1e6}
    s.bu, s.eu, s.au = 'degrees', 'degrees', 'meters'
    if ru.randint(2):
        u = s.kw['focal_length_units'] = str(ru.choice(['meters', 'mm', 'micrometer', 'cm']))
        s.kw['focal_length'] = s.f * length[u]
    if ru.randint(2):
        u = s.kw['pixel_pitch_units'] = str(ru.choice(['meters', 'mm', 'micrometer']))
        s.kw['pixel_pitch_x'], s.kw['pixel_pitch_y'] = s.pitch[0] * length[u], s.pitch[1] * length[u]
    if ru.randint(2):
        s.bu = s.kw['boresight_units'] = str(ru.choice(list(deg)))
    if ru.randint(2):
        s.eu = s.kw['external_orientation_rpy_units'] = str(ru.choice(list(deg)))
    if ru.randint(2):
        s.au = s.kw['external_orientation_spatial_units'] = str(ru.choice(['meters', 'km', 'cm']))
    s.eu, s.au = deg[s.eu], length[s.au]
    s.kw.update({'boresight_' + n: float(deg[s.bu](v)) for n, v in zip(('roll', 'pitch', 'yaw'), s.bore)})
    if s.order != 'rpy' or ru.randint(2):
        s.kw['boresight_rpy_order'] = s.order
    s.sim = build(s)
    return s


def build(s):
    from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator
    kw = dict(s.kw)
    if s.world[1] is not None:
        kw['world_projection'] = s.world[1]
    return PhysicalCameraSimulator(s.path, npix_x=s.nx, npix_y=s.ny, **kw)


def twin(s, rs):
    """a simulator that differs from s in one respect"""
    t = copy.copy(s)
    t.kw, t.bore, t.pitch = dict(s.kw), list(s.bore), list(s.pitch)
    what = rs.randint(6)
    r = 1 + rs.choice([-1, 1]) * 10. ** -rs.uniform(.7, 2.)
    if what == 0:
        t.f *= r
        t.kw['focal_length'] *= r
    elif what < 3:
        t.pitch[what - 1] *= r
        t.kw['pixel_pitch_' + 'xy'[what - 1]] *= r
    elif what == 3:
        j = rs.randint(3)
        t.bore[j] += rs.choice([-1, 1]) * .05
        t.kw['boresight_' + ('roll', 'pitch', 'yaw')[j]] = float(ANGLES[t.bu](t.bore[j]))
    elif what == 4:
        t.nx, t.ny = t.ny, t.nx
    else:
        t.order = str(rs.choice(ORDERS))
        t.kw['boresight_rpy_order'] = t.order
    t.sim = build(t)
    return t


def shot(s, p, at=None):
    """arguments of a frame, and how to tell whether it is right"""
    rs = np.random.RandomState(p['seed'])
    b = s.b
    name = s.world[0]
    ang = np.array([rs.uniform(-.06, .06), rs.uniform(-.06, .06), rs.uniform(-3.2, 3.2)])
    if p['level']:
        ang[:2] = 0
    if p['yaw'] is not None:
        ang[2] = np.deg2rad(p['yaw'])
    m = rotation(s.order, *s.bore).dot(rotation('rpy', *ang))
    alt = s.alt * rs.uniform(.8, 1.2)
    # look at about the middle of the base image
    look = m.T.dot([0, 0, -1.])
    cx, cy = change_proj(b.utm, name, np.array([b.center[0]]), np.array([b.center[1]]))
    off = rs.uniform(-.4, .4, 2) * b.size
    x, y = float(cx[0] + look[0] / look[2] * alt + off[0]), float(cy[0] + look[1] / look[2] * alt + off[1])
    a = [float(s.eu(v)) for v in ang]
    if p['yaw'] is not None and s.eu is np.rad2deg:
        a[2] = p['yaw']
    if at is not None:
        x, y = at
    args = (x, y, alt * s.au, a[0], a[1], a[2])
    proj = s.world[1] or s.proj

    def chk(im):
        g = im.get_image_data()
        if g.shape != (s.ny, s.nx, 1) or g.dtype != b.arr.dtype:
            return 'frame of %s %s' % (g.shape, g.dtype)
        md = im.get_metadata()
        if (md.get_npix_x(), md.get_npix_y(), md.get_n_bands()) != (s.nx, s.ny, 1):
            return 'metadata %s' % ((md.get_npix_x(), md.get_npix_y(), md.get_n_bands()),)
        if not same(im.get_image_band(0), g[:, :, 0]):
            return 'band 0 is not the frame'
        # the ground under every pixel, by rays
        i, j = np.indices((s.ny, s.nx))
        u = (j.ravel() - s.nx / 2.) * s.pitch[0]
        v = (i.ravel() - s.ny / 2.) * s.pitch[1]
        d = m.T.dot(np.array([u, -v, np.full(u.shape, -s.f)]))
        t = -alt / d[2]
        wx, wy = x + t * d[0], y + t * d[1]
        # the frame's own camera
        pc = im.get_point_calculator()
        if pc.get_projection().srs != proj.srs:
            return 'the frame\'s camera is in another projection'
        qx, qy = pc.lon_lat_alt_to_pixel_x_y(wx, wy, np.zeros(wx.shape))
        e = max(np.abs(qx - j.ravel()).max(), np.abs(qy - i.ravel()).max())
        if not e < 1e-3:
            return 'the frame\'s camera puts points up to %r pixels off' % e
        bx, by = change_proj(name, b.name, wx, wy)
        A = np.array([[b.g[1], b.g[2]], [b.g[4], b.g[5]]])
        px, py = np.linalg.solve(A, np.array([bx - b.g[0], by - b.g[3]]))
        # how far a hundredth of a pixel is on the base image
        gx, gy = np.abs(np.gradient(px.reshape(s.ny, s.nx))), np.abs(np.gradient(py.reshape(s.ny, s.nx)))
        eps = .015 * max(np.max(gx) + np.max(gy), 1e-3) + 1e-3
        from scipy.ndimage import map_coordinates
        band = b.arr[:, :, 0].astype(float)
        cand = np.array([map_coordinates(band, [py + dy, px + dx]) for dx in (-eps, 0, eps) for dy in (-eps, 0, eps)])
        got = g[:, :, 0].ravel().astype(float)
        lo, hi = cand.min(0), cand.max(0)
        tol = .5 * (hi - lo) + (1e-5 * np.abs(band).max() if b.arr.dtype.kind == 'f' else 1.01)
        if b.arr.dtype.kind == 'u':
            lo, hi = [np.clip(q, 0, np.iinfo(b.arr.dtype).max) for q in (lo, hi)]
        bad = ~((got >= lo - tol) & (got <= hi + tol))
        if bad.any():
            q = int(np.argmax(bad))
            return 'pixel %d,%d shows %r instead of %r (base image %.3f %.3f), %d of %d pixels' % (q // s.nx, q % s.nx, got[q], cand[4, q], px[q], py[q], bad.sum(), bad.size)
    return args, chk


def warm():
    import resippy.utils.physical_camera_simulator  # noqa
    import pyproj
    import warnings
    import tempfile
    from props.c12 import warm as w
    w()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = tempfile.mktemp('.tif')
        tiff(p, np.zeros((9, 9, 1), 'uint16'), [0, 1, 0, 0, 0, -1], wkt('EPSG:4326'))
        import gdal
        gdal.Open(p).ReadAsArray()
        os.unlink(p)
        for z, south, x, y in ZONES:
            u = pyproj.Proj(proj='utm', zone=z, south=south, ellps='WGS84', datum='WGS84', preserve_units=True)
            pyproj.transform(u, pyproj.Proj(init='epsg:4326', preserve_units=True), x, y)


def run(case, ctx):
    bases = {}
    sims = [make(ctx, k, it, bases) for k, it in enumerate(case['items'])]
    held = []

    def verdict(what, chk, im, sig):
        try:
            p = chk(im)
        except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
            p = 'malformed result (%s)' % ctx.exs(e)
        if p:
            ctx.violate(sig, '%s: %s' % (what, p))
        held.append((what, im, im.get_image_data().copy(), chk))

    for n, o in enumerate(case['ops']):
        s = sims[o['c'] % len(sims)]
        what = 'op %d' % n
        if o['op'] == 'fresh':
            s.sim = build(s)
            continue
        if o['op'] == 'world':
            s.world = (s.utm2, s.proj2) if s.world[0] == s.b.utm else (s.b.utm, s.proj)
            s.sim.world_projection = s.world[1]
            continue
        args, chk = shot(s, o['pose'])
        if o['op'] == 'twin':       # the same poses, with cameras that are almost the same
            rs = np.random.RandomState(o['pose']['seed'])
            for t in [s, twin(s, rs), s, twin(s, rs)]:
                targs, tchk = shot(t, o['pose'], args[:2])
                g = ctx.call(t.sim.create_overhead_image_object, *targs)
                if g[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
                verdict(what + ' by another camera', tchk, g[1], 'wrong-frame')
            ctx.probe('nontrivial')
            continue
        if o['op'] == 'threads':
            if o['both']:
                s.sim = build(s)
            jobs = [(s, args, chk)]
            for k, p in enumerate(o['more']):
                t = sims[-1] if o['both'] and k % 2 else s
                jobs.append((t,) + shot(t, p))
            res = ctx.threads([(lambda sc, t, j=j: j[0].sim.create_overhead_image_object(*j[1])) for j in jobs], case['sched'])
            for j, g in zip(jobs, res):
                if g[0] != 'ok':
                    ctx.violate('failed-in-threads', '%s: %s' % (what, ctx.exs(g[1])))
                verdict(what + ' in threads', j[2], g[1], 'wrong-in-threads')
            ctx.probe('nontrivial')
            continue
        if 'fault' in o:
            _, tr = ctx.traced(lambda: build(s).create_overhead_image_object(*args))
            s.sim = build(s)
            fl = ctx.place(o['fault'], tr)
            g, fired = ctx.faulty([fl], lambda: s.sim.create_overhead_image_object(*args))
            ctx.log(what, fired, g[0])
            if g[0] == 'ok':
                verdict(what + (' with a failing disk' if fired else ''), chk, g[1], 'wrong-frame-reported-good' if fired else 'wrong-frame')
            elif not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
            g = None
            if fired:
                s.sim = build(s)                                    # GDAL does not recover on the same dataset: see C03's known findings
        elif 'oom' in o:
            def go():
                return s.sim.create_overhead_image_object(*args)
            g, k = ctx.allocations(go)
            if g[0] == 'ok' and k:
                if o['both']:
                    s.sim = build(s)
                g, fired = ctx.starved(min(k - 1, int(o['oom']['pos'] * k)), o['oom']['persist'], go)
                ctx.log(what, k, fired, g[0])
                if g[0] == 'ok':
                    verdict(what + ' without memory', chk, g[1], 'wrong-without-memory')
                elif not fired:
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
            g = None
        g = ctx.call(s.sim.create_overhead_image_object, *args)
        ctx.log(what, g[0])
        if g[0] != 'ok':
            ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(g[1])))
        verdict(what, chk, g[1], 'wrong-frame')
    for what, im, a, chk in held:
        if not same(im.get_image_data(), a):
            ctx.violate('frame-changed', '%s: %s' % (what, diff(im.get_image_data(), a)))
        verdict(what + ' (later)', chk, im, 'frame-changed')
        held.pop()
    for k in sorted(bases):
        with open(ctx.path('base %d.tif' % k), 'rb') as fh:
            if fh.read() != bases[k].bytes:
                ctx.violate('file-changed', 'base image %d' % k)

"""C12: camera models - shared by histories and threads, every answer is the one the camera's parameters determine."""
import copy
import warnings

import numpy as np

from props.common import gen_sched, same

META = {
    'runs': {'quick': 2000, 'thorough': 100000},
    'level': 'exploration',
    'rule': 'A run builds 1-3 camera models (RPC, pinhole in local UTM, OpenCV on a fixture, Pix4D, GeoTIFF, look-up arrays, or a multi-band '
            'sensor model of several of them) from seeded parameters and performs 2-7 operations on them: project points (numbers, lists, '
            'grids of any memory layout, heights given or not, coordinates in another projection), locate pixels at a height, cast rays '
            'onto a flat or sloping elevation model, move or reconfigure a camera, replace one camera of a sensor, build another camera that differs in a single number, several of these from '
            '2-3 simulated threads sharing the camera, or one while memory runs out. Non-trivial: threads were interleaved, a camera was changed '
            'between questions, or memory ran out.',
    'real': ['resippy point calculators, fixture and sensor model', 'numpy, scipy, pyproj, pint'],
    'stub': ['thread scheduler', 'elevation model for ray casting (a plane)', 'numpy data allocator (fails on demand)'],
    'assumptions': ['look-up arrays have no two points at the same distance from a question', 'rays meet the ground'],
}
KINDS = ['rpc', 'pinhole', 'pinhole84', 'opencv', 'pix4d', 'geotiff', 'igm', 'sensor']


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        items.append({'kind': rng.choice(KINDS), 'seed': rng.randrange(1 << 30), 'sub': [rng.choice(['pinhole', 'opencv', 'pix4d', 'rpc']) for _ in range(1)] * 1,
                      'n': rng.choice([1, 2, 3])})
    ops = []
    for _ in range(rng.randrange(2, 8)):
        k = rng.random()
        ops.append({'op': 'threads' if k < 0.3 else 'change' if k < 0.5 else 'starve' if k < 0.6 else 'twin' if k < 0.75 else 'ask', 'pos': round(rng.random(), 4), 'persist': rng.random() < 0.4, 'c': rng.randrange(3), 'seed': rng.randrange(1 << 30),
                    'asks': [ask(rng) for _ in range(rng.choice([2, 2, 3]))]})
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


def ask(rng):
    return {'what': rng.choice(['forward', 'forward', 'forward', 'inverse', 'inverse', 'rays']), 'shape': rng.choice(['num', '1', '1', '2', '2F', '2T', 'strided']),
            'alt': rng.choice(['array', 'array', 'num', 'none']), 'foreign': rng.random() < 0.3, 'seed': rng.randrange(1 << 30),
            'flat': rng.random() < 0.4, 'n': rng.choice([1, 2, 6, 12]) if rng.random() > 0.006 else 3000}


# ---------------------------------------------------------------- reference models
def rpy(o, p, k):
    """world to camera rotation, three elementary rotations"""
    co, so, cp, sp, ck, sk = np.cos(o), np.sin(o), np.cos(p), np.sin(p), np.cos(k), np.sin(k)
    rx = np.array([[1, 0, 0], [0, co, so], [0, -so, co]])
    ry = np.array([[cp, 0, -sp], [0, 1, 0], [sp, 0, cp]])
    rz = np.array([[ck, sk, 0], [-sk, ck, 0], [0, 0, 1]])
    return rz.dot(ry).dot(rx)


def exactly(rs, ang):
    """now and then level, or turned by exact multiples of 90 degrees"""
    k = rs.randint(8)
    if k < 2:
        ang[0] = ang[1] = 0.
    if k in (1, 2, 3):
        ang[2] = np.pi / 2 * rs.randint(-2, 3)


class Pinhole(object):
    nx, ny = 120, 90

    def __init__(self, rs, x, y):
        self.xyz = np.array([x + rs.uniform(-500, 500), y + rs.uniform(-500, 500), rs.uniform(900, 1500)])
        self.ang = [rs.uniform(-.15, .15), rs.uniform(-.15, .15), rs.uniform(-3, 3)]
        exactly(rs, self.ang)
        self.pitch = (rs.uniform(5, 20) * 1e-6, rs.uniform(5, 20) * 1e-6)
        self.f = rs.uniform(0.02, 0.08)
        self.flip = bool(rs.randint(2)), bool(rs.randint(2))

    def project(self, x, y, z):
        d = np.array([x, y, z], float) - self.xyz[:, None]
        c = rpy(*self.ang).dot(d)
        u, v = -self.f * c[0] / c[2], -self.f * c[1] / c[2]
        u, v = (-u if self.flip[0] else u), (-v if self.flip[1] else v)
        return u / self.pitch[0] + self.nx / 2., v / self.pitch[1] + self.ny / 2.

    def build(self, kind, proj):
        from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import \
            IdealPinholeFpaLocalUtmPointCalc as P
        a = dict(npix_x=self.nx, npix_y=self.ny, flip_x=self.flip[0], flip_y=self.flip[1])
        deg = self.f > 0.05
        g = np.rad2deg if deg else (lambda q: q)
        if deg:
            a.update(omega_units='degrees', phi_units='degrees', kappa_units='degrees')
        a.update(omega=g(self.ang[0]), phi=g(self.ang[1]), kappa=g(self.ang[2]))
        if self.flip[0]:
            a.update(pixel_pitch_x=self.pitch[0] * 1e3, pixel_pitch_x_units='mm', pixel_pitch_y=self.pitch[1], pixel_pitch_y_units='meters',
                     focal_length=self.f, focal_length_units='meters', sensor_altitude=self.xyz[2] / 1000, alt_units='km')
        else:
            a.update(pixel_pitch_x=self.pitch[0] * 1e6, pixel_pitch_y=self.pitch[1] * 1e6, focal_length=self.f * 1e3, sensor_altitude=self.xyz[2])
        if kind == 'pinhole':
            return P.init_from_local_params(sensor_lon=self.xyz[0], sensor_lat=self.xyz[1], native_proj=proj, **a)
        c = P.init_from_wgs84_params(self.lon, self.lat, **a)
        return c


class OpenCV(object):
    nx, ny = 120, 90

    def __init__(self, rs, x, y):
        self.f = rs.uniform(2000, 6000), rs.uniform(2000, 6000)
        self.c = rs.uniform(40, 80), rs.uniform(30, 60)
        self.k = rs.uniform(-.05, .05, 3)
        self.p = rs.uniform(-.005, .005, 2)
        self.rel = rs.uniform(-3, 3, 3)
        self.bore = rs.uniform(-.05, .05, 3)
        self.pose(rs, x, y)

    def pose(self, rs, x, y):
        self.xyz = np.array([x + rs.uniform(-300, 300), y + rs.uniform(-300, 300), rs.uniform(900, 1500)])
        self.ang = rs.uniform(-.1, .1, 3) + [0, 0, rs.uniform(-3, 3)]
        exactly(rs, self.ang)

    def project(self, x, y, z):
        F = rpy(*self.ang)
        pos = self.xyz + self.rel.dot(F)
        c = rpy(*self.bore).dot(F).dot(np.array([x, y, z], float) - pos[:, None])
        a, b = c[0] / c[2], c[1] / c[2]
        r2 = a * a + b * b
        g = 1 + self.k[0] * r2 + self.k[1] * r2 ** 2 + self.k[2] * r2 ** 3
        p1, p2 = self.p
        return self.f[0] * (a * g + 2 * p1 * a * b + p2 * (r2 + 2 * a * a)) + self.c[0], \
            -self.f[1] * (b * g + p1 * (r2 + 2 * b * b) + 2 * p2 * a * b) + self.c[1]

    def build(self, kind, proj):
        from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
        d = dict(fx_pixels=self.f[0], fy_pixels=self.f[1], cx_pixels=self.c[0], cy_pixels=self.c[1], k1=self.k[0], k2=self.k[1], k3=self.k[2],
                 p1=self.p[0], p2=self.p[1], pixel_pitch_microns=3.75)
        for n, a, b in zip(('x', 'y', 'z'), ('omega', 'phi', 'kappa'), range(3)):
            d[n + '_offset_meters'] = self.rel[b]
            d[a + '_offset_radians'] = self.bore[b]
        keep = dict(d)
        c = OpenCVPointCalc.init_from_params(d)
        assert keep == d
        self.move(c)
        c.set_projection(proj)
        return c

    def move(self, c):
        c.init_extrinsic(*(list(self.xyz) + list(self.ang)))
        c.set_approximate_lon_lat_center(self.xyz[0], self.xyz[1])


class Pix4d(object):
    nx, ny = 120, 90

    def __init__(self, rs, x, y):
        self.xyz = np.array([x + rs.uniform(-500, 500), y + rs.uniform(-500, 500), rs.uniform(900, 1500)])
        # pix4d cameras look along +z of their own axes
        ang = [rs.uniform(-.1, .1), rs.uniform(-.1, .1), rs.uniform(-3, 3)]
        exactly(rs, ang)
        self.R = np.diag([1., -1., -1.]).dot(rpy(*ang))
        self.wmm, self.F = rs.uniform(4, 9), rs.uniform(100, 300)
        self.P = rs.uniform(2, 4), rs.uniform(1, 3)
        self.k, self.t = rs.uniform(-.1, .1, 3), rs.uniform(-.005, .005, 2)
        self.model = 'regular' if rs.randint(3) else None
        self.key = 'IMG_%d.tif' % rs.randint(100)
        self.reverse = [True, True]

    def project(self, x, y, z):
        c = self.R.dot(np.array([x, y, z], float) - self.xyz[:, None])
        a, b = c[0] / c[2], c[1] / c[2]
        if self.model:
            r2 = a * a + b * b
            g = 1 + self.k[0] * r2 + self.k[1] * r2 ** 2 + self.k[2] * r2 ** 3
            t1, t2 = self.t
            a, b = g * a + 2 * t1 * a * b + t2 * (r2 + 2 * a * a), g * b + 2 * t2 * a * b + t1 * (r2 + 2 * b * b)
        s = self.nx / self.wmm
        sx, sy = [1 if r else -1 for r in self.reverse]
        return sx * self.F * s * a + self.P[0] * s, sy * self.F * s * b + self.P[1] * s

    def build(self, kind, proj):
        from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
        e = {'camera_rotation_r': self.R.copy(), 'external_params': list(self.xyz) + [0., 0., 0.], 'n_x_pixels': self.nx, 'n_y_pixels': self.ny,
             'internal_params': {'fpa_width_mm': self.wmm, 'F': self.F, 'Px': self.P[0], 'Py': self.P[1]},
             'tangential_distortion': list(self.t), 'radial_distortion': list(self.k)}
        other = dict(e, camera_rotation_r=np.eye(3), external_params=[0.] * 6, internal_params=dict(e['internal_params'], F=1.))
        return Pix4dPointCalc.init_from_params('/data/' + self.key, {self.key: e, 'a.tif': other, 'projection': proj}, self.model)


class RPC(object):
    nx, ny = 120, 90

    def __init__(self, rs, x, y):
        self.off = rs.uniform(-78, -77), rs.uniform(42, 43), rs.uniform(0, 300)
        self.scale = rs.uniform(.01, .02), rs.uniform(.01, .02), rs.uniform(200, 500)
        self.pix = (60 + rs.uniform(-5, 5), 45 + rs.uniform(-5, 5), rs.uniform(50, 70), rs.uniform(40, 60))

        def num(lon, lat):
            c = rs.uniform(-1e-3, 1e-3, 20)
            c[1] += lon
            c[2] += lat
            c[3] += rs.uniform(-.1, .1)
            return c

        def den():
            c = rs.uniform(-1e-3, 1e-3, 20)
            c[0] += 1
            return c
        r = rs.uniform(-.3, .3)
        self.co = [num(np.cos(r), np.sin(r)), den(), num(np.sin(r), -np.cos(r)), den()]

    def project(self, x, y, z):
        L, P, H = [(np.asarray(v, float) - o) / s for v, o, s in zip((x, y, z), self.off, self.scale)]
        t = [np.ones_like(L), L, P, H, L * P, L * H, P * H, L * L, P * P, H * H, P * L * H, L ** 3, L * P * P, L * H * H, L * L * P, P ** 3, P * H * H, L * L * H, P * P * H, H ** 3]
        a, b, c, d = [sum(k * v for k, v in zip(co, t)) for co in self.co]
        return a / b * self.pix[2] + self.pix[0] + .5, c / d * self.pix[3] + self.pix[1] + .5

    def build(self, kind, proj):
        from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
        c = [k.copy() for k in self.co]
        return RPCPointCalc.init_from_coeffs(c[0], c[1], self.pix[2], self.pix[0], c[2], c[3], self.pix[3], self.pix[1], self.scale[1], self.off[1],
                                             self.scale[0], self.off[0], self.scale[2], self.off[2])


class Geotiff(object):
    nx, ny = 120, 90

    def __init__(self, rs, x, y):
        s = rs.uniform(.2, 3)
        self.g = [x, s, rs.uniform(-.1, .1), y, rs.uniform(-.1, .1), -s * rs.uniform(.8, 1.2)]

    def project(self, x, y, z):
        a, b, c, d, e, f = self.g
        det = b * f - c * e
        u, v = np.asarray(x, float) - a, np.asarray(y, float) - d
        return (f * u - c * v) / det, (b * v - e * u) / det

    def build(self, kind, proj):
        from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc
        c = GeotiffPointCalc()
        c.set_geot(list(self.g))
        c.set_npix_x(self.nx)
        c.set_npix_y(self.ny)
        c.set_projection(proj)
        return c


class Igm(object):
    def __init__(self, rs, x, y):
        self.nx, self.ny = int(rs.randint(3, 14)), int(rs.randint(3, 14))
        j, i = np.meshgrid(np.arange(self.nx), np.arange(self.ny))
        a = rs.uniform(-.5, .5)
        self.lon = x + 3 * (j * np.cos(a) + i * np.sin(a)) + rs.uniform(-.9, .9, j.shape)
        self.lat = y + 3 * (j * np.sin(a) - i * np.cos(a)) + rs.uniform(-.9, .9, j.shape)
        self.alt = float(rs.randint(100)) + .5 if rs.randint(2) else rs.uniform(0, 9, j.shape)
        if rs.randint(3) == 0:
            self.lon, self.lat = np.asfortranarray(self.lon), np.asfortranarray(self.lat)

    def project(self, x, y, z):
        out = []
        i, j = np.indices((self.ny, self.nx))
        for a, b in zip(np.ravel(x), np.ravel(y)):
            d = np.sqrt((self.lon - a) ** 2 + (self.lat - b) ** 2)
            o = np.argsort(d, axis=None)[:6]
            w = 1 / np.where(d < 1e-8, 1e-8, d).ravel()[o]
            out.append((np.sum(w * j.ravel()[o]) / np.sum(w), np.sum(w * i.ravel()[o]) / np.sum(w)))
        out = np.array(out).reshape(-1, 2)
        return out[:, 0], out[:, 1]

    def build(self, kind, proj):
        from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
        return IGMPointCalc(self.lon.copy(order='K'), self.lat.copy(order='K'), self.alt if np.ndim(self.alt) == 0 else self.alt.copy(), proj)


class Sensor(object):
    nx, ny = 120, 90

    def __init__(self, rs, x, y, sub, n):
        self.bands = [MODELS[sub[0]](rs, x, y) for _ in range(n)]
        if hasattr(self.bands[0], 'xyz'):
            for b in self.bands[1:]:        # one rig
                b.xyz = self.bands[0].xyz + rs.uniform(-2, 2, 3)
        self.rpc = sub[0] == 'rpc'
        if self.rpc:
            for b in self.bands[1:]:
                b.off, b.scale = self.bands[0].off, self.bands[0].scale

    def build(self, kind, proj):
        from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel
        import pyproj
        s = EarthOverheadSensorModel()
        cs = [b.build('pinhole', proj) for b in self.bands]
        if len(cs) % 2:
            s.set_point_calcs(cs)
        else:
            for c in cs:
                s.add_point_calc(c)
        srs = cs[0].get_projection().srs
        for c in cs[1:]:                            # whatever they had before
            c.set_projection(pyproj.Proj(proj='utm', zone=7, ellps='WGS84', datum='WGS84', preserve_units=True))
        s.set_projection(cs[0].get_projection())
        for j, c in enumerate(cs):
            if s.get_point_calc(j) is not c or c.get_projection().srs != srs:
                self.bad = 'camera %d of a rig has the projection %s instead of %s' % (j, c.get_projection().srs, srs)
        s.set_approximate_lon_lat_center(*cs[0].get_approximate_lon_lat_center())
        return s


MODELS = {'rpc': RPC, 'pinhole': Pinhole, 'pinhole84': Pinhole, 'opencv': OpenCV, 'pix4d': Pix4d, 'geotiff': Geotiff, 'igm': Igm}
ZONES = [(18, False, 452000.0, 4678000.0), (33, True, 512000.0, 6500000.0), (1, False, 480000.0, 800000.0)]


class Plane(object):
    """elevation model used for ray casting"""
    def __init__(self, c, sx, sy, x0, y0, r):
        self.p = c, sx, sy, x0, y0, r
        self.asked = 0

    def at(self, x, y):
        c, sx, sy, x0, y0, r = self.p
        return c + sx * (np.asarray(x) - x0) + sy * (np.asarray(y) - y0)

    def get_elevations(self, x, y, world_proj=None):
        return self.at(x, y)

    def get_highest_alt(self):
        c, sx, sy, x0, y0, r = self.p
        return c + (abs(sx) + abs(sy)) * r

    def get_lowest_alt(self):
        c, sx, sy, x0, y0, r = self.p
        return c - (abs(sx) + abs(sy)) * r


class Cam(object):
    pass


def make(it):
    import pyproj
    rs = np.random.RandomState(it['seed'])
    c = Cam()
    c.kind = it['kind']
    z, south, x, y = ZONES[rs.randint(3)]
    c.x0, c.y0 = x, y
    c.proj = pyproj.Proj(proj='utm', zone=z, south=south, ellps='WGS84', datum='WGS84', preserve_units=True)
    c.utm = 'EPSG:%d' % (32700 + z if south else 32600 + z)
    c.model = Sensor(rs, x, y, it['sub'], it['n']) if c.kind == 'sensor' else MODELS[c.kind](rs, x, y)
    if c.kind == 'pinhole84':
        m = c.model
        m.lon, m.lat = pyproj.Transformer.from_crs(c.utm, 'EPSG:4326', always_xy=True).transform(m.xyz[0], m.xyz[1])
    c.ll = c.kind == 'rpc' or getattr(c.model, 'rpc', False)
    c.calc = c.model.build(c.kind, c.proj)
    if c.kind == 'igm' and not (same(c.calc.lon_image, c.model.lon) and same(c.calc.lat_image, c.model.lat) and
                                same(c.calc.alt_image, np.zeros(c.model.lon.shape) + c.model.alt)):
        c.bad = 'the arrays of the camera'
    return c


def ground(c, m, rs, n):
    """n points on the ground that the camera sees, and the height range"""
    if c.kind == 'igm':
        i, j = rs.randint(0, m.ny, n), rs.randint(0, m.nx, n)
        x, y = m.lon[i, j], m.lat[i, j]
        if rs.randint(3):
            x, y = x + rs.uniform(-2, 2, n), y + rs.uniform(-2, 2, n)
        return x, y, rs.uniform(0, 50, n)
    if isinstance(m, Geotiff):
        return m.g[0] + rs.uniform(-50, 300, n), m.g[3] + rs.uniform(-300, 50, n), rs.uniform(0, 50, n)
    if isinstance(m, RPC):
        return m.off[0] + m.scale[0] * rs.uniform(-.9, .9, n), m.off[1] + m.scale[1] * rs.uniform(-.9, .9, n), m.off[2] + m.scale[2] * rs.uniform(-.9, .9, n)
    return m.xyz[0] + rs.uniform(-150, 150, n), m.xyz[1] + rs.uniform(-150, 150, n), rs.uniform(0, 120, n)


BUFFERS = {}


def shaped(shape, *arrays, reuse=False):
    out = []
    for a in arrays:
        if shape == 'num':
            a = a.flat[0].item()
        elif shape == 'strided':
            b = np.full(2 * a.size + 1, -7, a.dtype)
            b[1::2] = a
            a = b[1::2]
        elif shape[0] == '2':
            r = 2 if a.size % 2 == 0 else 1
            a = a.reshape(r, -1) if shape != '2T' else np.ascontiguousarray(a.reshape(r, -1).T).T
            if shape == '2F':
                a = np.asfortranarray(a)
        if reuse and shape != 'num':       # the caller uses the same arrays for question after question
            b = BUFFERS.setdefault((shape, a.shape, a.dtype.char, len(out)), a)
            b[...] = a
            a = b
        out.append(a)
    return out


def question(cams, k, a, changed=False):
    """ask one question; returns a complaint or None"""
    import pyproj
    c = cams[k]
    rs = np.random.RandomState(a['seed'])
    m, band = c.model, None
    if c.kind == 'sensor':
        band = int(rs.randint(len(m.bands)))
        m = m.bands[band]
    elif rs.randint(3) == 0:
        band = int(rs.randint(4))
    n = 1 if a['shape'] == 'num' else a['n']
    x, y, z = ground(c, m, rs, n)
    foreign = a['foreign']
    name = 'EPSG:4326' if not c.ll else 'EPSG:32618'
    own = c.utm if not c.ll else 'EPSG:4326'
    fp = pyproj.Proj(init=name.lower(), preserve_units=True) if foreign else None
    if a['what'] == 'forward':
        if a['alt'] != 'array':
            z = np.full(n, z[0] if a['alt'] == 'num' else 0.0)
        want = m.project(x, y, z)
        if foreign:
            x, y = pyproj.Transformer.from_crs(own, name, always_xy=True).transform(x, y)
        ax, ay, az = shaped(a['shape'], x, y, z, reuse=a.get('reuse'))
        if a['alt'] != 'array':
            az = float(z[0]) if a['alt'] == 'num' else None
        keep = np.array(ax), np.array(ay), np.array(az)
        kw = {}
        if foreign:
            kw['world_proj'] = fp
        if band is not None:
            kw['band'] = band
        got = c.calc.lon_lat_alt_to_pixel_x_y(ax, ay, az, **kw)
        if not (same(keep[0], ax) and same(keep[1], ay) and (az is None or same(keep[2], az))):
            return 'projecting changed the caller\'s coordinates'
        tol = 2e-2 if foreign else 1e-4
        if c.kind == 'igm':
            tol = 1e-5 if not foreign else 1e-2
        for g, w in zip(got, want):
            if np.shape(g) != np.shape(ax):
                return 'pixels of shape %s for points of shape %s' % (np.shape(g), np.shape(ax))
            if not np.all(np.abs(np.asarray(g, float).reshape(-1) - w) <= tol * np.maximum(1, np.abs(w) * 1e-2)):
                return '%s %s: pixels %s instead of %s' % (c.kind, a['shape'], np.ravel(g)[:3], w[:3])
        scribble(got)
        return None
    px, py = rs.uniform(0, m.nx - 1, n), rs.uniform(0, m.ny - 1, n)
    if c.kind == 'igm':
        px, py = rs.randint(0, m.nx, n), rs.randint(0, m.ny, n)
    elif rs.randint(2):
        px, py = np.round(px).astype(int), np.round(py).astype(int)
    if a['what'] == 'inverse' or c.kind == 'igm' or isinstance(m, Geotiff):
        if a['alt'] != 'array' or a['shape'] == 'num':
            z = np.full(n, z[0])
        ax, ay, az = shaped(a['shape'], px, py, z, reuse=a.get('reuse'))
        if a['alt'] != 'array':
            az = float(z[0])
        keep = np.array(ax), np.array(ay), np.array(az)
        kw = {'world_proj': fp} if foreign else {}
        if band is not None:
            kw['band'] = band
        lon, lat = c.calc.pixel_x_y_alt_to_lon_lat(ax, ay, az, **kw)
        if not (same(keep[0], ax) and same(keep[1], ay) and same(keep[2], az)):
            return 'locating changed the caller\'s pixels'
        if np.shape(lon) != np.shape(ax) or np.shape(lat) != np.shape(ax):
            return 'locations of shape %s for pixels of shape %s' % (np.shape(lon), np.shape(ax))
        flon, flat_ = np.asarray(lon, float).reshape(-1), np.asarray(lat, float).reshape(-1)
        if foreign:
            flon, flat_ = pyproj.Transformer.from_crs(name, own, always_xy=True).transform(flon, flat_)
        if c.kind == 'igm':
            w = m.lon[py, px], m.lat[py, px]
            if not (np.allclose(flon, w[0], rtol=0, atol=1e-2 if foreign else 0) and np.allclose(flat_, w[1], rtol=0, atol=1e-2 if foreign else 0)):
                return 'pixel %s %s is at %s %s instead of %s %s' % (px[:2], py[:2], flon[:2], flat_[:2], w[0][:2], w[1][:2])
        else:
            b = m.project(flon, flat_, z)
            if not (np.all(np.abs(b[0] - px) <= .03) and np.all(np.abs(b[1] - py) <= .03)):
                return '%s: location of pixels %s %s at height %s is seen at %s %s' % (c.kind, px[:2], py[:2], z[:2], b[0][:2], b[1][:2])
        scribble((lon, lat))
        return None
    shp = a['shape'] if a['shape'] != 'num' else '1'
    ax, ay = shaped(shp, px, py, reuse=a.get('reuse'))
    x0, y0 = (m.off[0], m.off[1]) if isinstance(m, RPC) else (m.xyz[0], m.xyz[1])
    s, r = (0., 1.) if a['flat'] else ((rs.uniform(-1, 1) * 1000., .04) if isinstance(m, RPC) else (rs.uniform(-.1, .1), 300.))
    dem = Plane(rs.uniform(20, 90), s, 0. if a['flat'] else s * rs.uniform(-1, 1), x0, y0, r)
    if a['flat'] and rs.randint(2):
        from resippy.photogrammetry.dem.dem_factory import DemFactory
        real = DemFactory.constant_elevation(dem.p[0])
    else:
        real = dem
    keep = np.array(ax), np.array(ay)
    kw = {'world_proj': fp} if foreign else {}
    if band is not None:
        kw['band'] = band
    kw['dem_sample_distance'] = 5 if not isinstance(m, RPC) else 1e-4
    if rs.randint(3) == 0 and not a['flat']:
        kw.update(dem_highest_alt=dem.get_highest_alt() + 20, dem_lowest_alt=dem.get_lowest_alt() - 20)
    lon, lat, alt = c.calc.pixel_x_y_to_lon_lat_alt(ax, ay, real, **kw)
    if not (same(keep[0], ax) and same(keep[1], ay)):
        return 'casting rays changed the caller\'s pixels'
    for v in (lon, lat, alt):
        if np.shape(v) != np.shape(ax):
            return 'locations of shape %s for pixels of shape %s' % (np.shape(v), np.shape(ax))
    flon, flat_, falt = [np.asarray(v, float).reshape(-1) for v in (lon, lat, alt)]
    if foreign:
        flon, flat_ = pyproj.Transformer.from_crs(name, own, always_xy=True).transform(flon, flat_)
    if not np.all(np.abs(falt - dem.at(flon, flat_)) <= (1e-6 if not foreign else 1e-2) * np.maximum(1, np.abs(falt))):
        return '%s: ray hits at height %s where the ground is at %s' % (c.kind, falt[:2], dem.at(flon, flat_)[:2])
    b = m.project(flon, flat_, falt)
    tol = .5 if isinstance(m, RPC) else .05
    if not (np.all(np.abs(b[0] - px) <= tol) and np.all(np.abs(b[1] - py) <= tol)):
        k = int(np.argmax(np.abs(b[0] - px) + np.abs(b[1] - py)))
        return '%s: ray of pixel %s %s hits %s %s %s where the camera sees %s %s' % (c.kind, px[k], py[k], flon[k], flat_[k], falt[k], b[0][k], b[1][k])
    scribble((lon, lat, alt))
    return None


def scribble(arrays):
    """what was returned belongs to the caller"""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            a[...] = -9e7


def change(cams, k, seed):
    """give a camera another pose, model or band; returns False if there is nothing to change"""
    c = cams[k]
    rs = np.random.RandomState(seed)
    if c.kind == 'sensor':
        m = c.model
        j = int(rs.randint(len(m.bands)))
        old = m.bands[j]
        if isinstance(old, Pix4d) and rs.randint(2):
            new = 'regular' if rs.randint(2) else None
            for b, p in zip(m.bands, c.calc.get_point_calcs()):
                b.model = p.distortion_model = new
                b.reverse = p.reverse_x_pixels, p.reverse_y_pixels = bool(rs.randint(2)), bool(rs.randint(2))
            return True
        b = type(old)(rs, c.x0, c.y0)
        if hasattr(b, 'xyz'):
            b.xyz = old.xyz + rs.uniform(-2, 2, 3)
        else:
            b.off, b.scale = old.off, old.scale
        m.bands[j] = b
        c.calc.update_point_calc(j, b.build('pinhole', c.proj))
        return True
    if c.kind == 'opencv':
        m, o = c.model, OpenCV(rs, c.x0, c.y0)
        what = rs.randint(4)
        if what == 1:                   # calibrated again
            m.f, m.c, m.k, m.p = o.f, o.c, o.k, o.p
            c.calc.init_intrinsic(*(list(m.f) + list(m.c) + list(m.k) + list(m.p) + [3.75]))
        elif what == 2:                 # mounted in another way
            m.rel, m.bore = o.rel, o.bore
            c.calc.init_offsets(*(list(m.rel) + list(m.bore)))
        else:
            m.xyz, m.ang = o.xyz, o.ang
            m.move(c.calc)
        return True
    if c.kind == 'pix4d':
        c.model.model = c.calc.distortion_model = 'regular' if rs.randint(2) else None
        c.model.reverse = [bool(rs.randint(2)), bool(rs.randint(2))]
        c.calc.reverse_x_pixels, c.calc.reverse_y_pixels = c.model.reverse
        return True
    if c.kind == 'geotiff':
        c.model = Geotiff(rs, c.x0, c.y0)
        c.calc.set_geot(list(c.model.g))
        return True
    return False


def back(c, old):
    """give a camera the parameters it had before"""
    c.model = old
    if c.kind == 'sensor':
        for j, (b, p) in enumerate(zip(old.bands, c.calc.get_point_calcs())):
            q = b.build('pinhole', c.proj)
            if isinstance(b, Pix4d):
                q.reverse_x_pixels, q.reverse_y_pixels = b.reverse
            c.calc.update_point_calc(j, q)
    elif c.kind == 'opencv':
        c.calc.init_intrinsic(*(list(old.f) + list(old.c) + list(old.k) + list(old.p) + [3.75]))
        c.calc.init_offsets(*(list(old.rel) + list(old.bore)))
        old.move(c.calc)
    elif c.kind == 'pix4d':
        c.calc.distortion_model = old.model
        c.calc.reverse_x_pixels, c.calc.reverse_y_pixels = old.reverse
    elif c.kind == 'geotiff':
        c.calc.set_geot(list(old.g))


def twin(c, seed, same=False):
    """another camera that differs from c in one number, or in nothing"""
    rs = np.random.RandomState(seed)
    t = Cam()
    t.__dict__.update(c.__dict__)
    t.model = copy.deepcopy(c.model)
    m = t.model.bands[rs.randint(len(t.model.bands))] if c.kind == 'sensor' else t.model
    size = 10. ** -rs.uniform(0, 4)
    if same:
        pass
    elif c.kind == 'igm':
        if rs.randint(3) and m.nx > 2 and m.ny > 2:     # the corners and the edges stay
            m.lon[1:-1, 1:-1] += rs.uniform(-.5, .5) * size
            m.lat[1:-1, 1:-1] += rs.uniform(-.5, .5)
        else:
            m.lon[rs.randint(m.ny), rs.randint(m.nx)] += rs.uniform(-.5, .5)
    else:
        # the axes that images with several cameras or a range of heights need to agree on stay as they are
        names = [a for a in sorted(vars(m)) if a not in ('nx', 'ny', 'flip', 'model', 'key', 'reverse', 'lon', 'lat', 'R')
                 and not (c.kind == 'sensor' and a in ('off', 'scale')) and not (c.kind == 'pinhole84' and a == 'xyz')]
        a = names[rs.randint(len(names))]
        v = getattr(m, a)
        if a == 'co':
            v[rs.randint(4)][rs.randint(20)] += 1e-3 * size
        elif np.ndim(v) == 0:
            setattr(m, a, v * (1 + .05 * size))
        else:
            j = rs.randint(len(v))
            w = list(v)
            if a in ('xyz', 'g', 'rel'):
                w[j] += (.05 if a == 'g' and j in (1, 2, 4, 5) else 3.) * size
            elif a in ('ang', 'bore', 'k', 'p', 't'):
                w[j] += (.02 if a in ('ang', 'bore') else .002) * size
            else:
                w[j] *= 1 + .05 * size
            setattr(m, a, np.array(w) if isinstance(v, np.ndarray) else type(v)(w))
    t.calc = t.model.build(t.kind, t.proj)
    for b, p in zip(*((t.model.bands, t.calc.get_point_calcs()) if t.kind == 'sensor' else ([t.model], [t.calc]))):
        if isinstance(b, Pix4d):
            p.reverse_x_pixels, p.reverse_y_pixels = b.reverse
    return t


def warm():
    import pyproj
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in KINDS:
            cams = [make({'kind': k, 'seed': 1, 'sub': ['pinhole'], 'n': 1})]
            question(cams, 0, {'what': 'forward', 'shape': '1', 'alt': 'array', 'foreign': True, 'seed': 1, 'flat': True, 'n': 2})


def run(case, ctx):
    BUFFERS.clear()
    cams = [make(it) for it in case['items']]
    for k, c in enumerate(cams):
        if getattr(c, 'bad', None) or getattr(c.model, 'bad', None):
            ctx.violate('wrong-camera', 'camera %d: %s' % (k, getattr(c, 'bad', None) or c.model.bad))
    for n, o in enumerate(case['ops']):
        k = o['c'] % len(cams)
        what = 'op %d %s on %s' % (n, o['op'], cams[k].kind)
        if o['op'] == 'change':
            old = copy.deepcopy(cams[k].model)
            asks = o['asks'] if o['seed'] % 3 == 0 else []
            for a in asks:
                p = question(cams, k, a)
                if p:
                    ctx.violate('wrong-camera', '%s: %s' % (what, p))
            if change(cams, k, o['seed']):
                ctx.probe('nontrivial')
                for a in asks:
                    p = question(cams, k, a)
                    if p:
                        ctx.violate('wrong-camera', '%s: %s' % (what, p))
                if asks:
                    back(cams[k], old)
                for a in asks:
                    p = question(cams, k, a)
                    if p:
                        ctx.violate('wrong-camera', '%s and back: %s' % (what, p))
        elif o['op'] == 'twin':
            for a in o['asks']:         # its answers may have been kept
                p = question(cams, k, a)
                if p:
                    ctx.violate('wrong-camera', '%s: %s' % (what, p))
            t = twin(cams[k], o['seed'], o['seed'] % 4 == 0)
            if o['seed'] % 4 == 0 and len(cams) < 4:    # two of the same, one of which changes
                cams.append(t)
                change(cams, k, o['seed'])
            elif len(cams) < 4 and n % 2:
                cams.append(t)
            else:
                cams[k] = None          # gone before the other one is asked
                cams[k] = t
            k = cams.index(t)
            for a in o['asks']:
                p = question(cams, k, a)
                if p:
                    ctx.violate('wrong-camera', '%s that is almost the same: %s' % (what, p))
            ctx.probe('nontrivial')
        elif o['op'] == 'threads':
            def prog(a):
                def go(s, t):
                    return question(cams, k, a)
                return go
            asks = o['asks']
            est = 0
            if n % 2:       # asked alone first or never asked before
                for a in asks:
                    _, e = ctx.solo_steps(prog(a))
                    est += e
            for a, r in zip(asks, ctx.threads([prog(a) for a in asks], case['sched'], est=est or 400)):
                if r[0] != 'ok':
                    ctx.violate('failed-in-threads', '%s: %s %s' % (what, a['what'], ctx.exs(r[1])))
                if r[1]:
                    ctx.violate('wrong-camera-in-threads', '%s: %s' % (what, r[1]))
            ctx.probe('nontrivial')
        elif o['op'] == 'starve':
            def go():
                return question(cams, k, o['asks'][0])
            r, count = ctx.allocations(go) if n % 2 else (None, 0)
            count = count or 40
            r, fired = ctx.starved(min(count - 1, int(o['pos'] * count)), o['persist'], go)
            ctx.log(what, fired, r[0])
            if r[0] == 'ok' and r[1]:
                ctx.violate('wrong-camera-without-memory', '%s: %s' % (what, r[1]))
            if r[0] != 'ok' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
            ctx.probe('nontrivial')
        else:
            p = None
            for a in [o['asks'][0], dict(o['asks'][0], reuse=True), dict(o['asks'][0], reuse=True, seed=o['seed'])]:
                p = p or question(cams, k, a)
            if p:
                ctx.violate('wrong-camera', '%s: %s' % (what, p))
        ctx.log(what)
        for j in range(len(cams)):          # everybody else still sees the world as before
            for what_ in ('forward', 'inverse'):
                p = question(cams, j, {'what': what_, 'shape': '1', 'alt': 'array', 'foreign': False, 'seed': o['seed'] + j, 'flat': True, 'n': 3, 'reuse': n % 2})
                if p:
                    ctx.violate('wrong-camera', '%s, then asking camera %d (%s): %s' % (what, j, cams[j].kind, p))

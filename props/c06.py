"""C06: pix4d collects - every camera gets its own parameters, in any listing order, through faults, torn files, rewrites and threads."""
import os

import numpy as np

from props.common import equal, gen_sched, read_fault

META = {
    'runs': {'quick': 2500, 'thorough': 100000},
    'level': 'exploration',
    'rule': 'A run writes 1-2 pix4d project directories (several images x 1-5 cameras, unrelated files, seeded listing order) and '
            'performs 2-7 seeded operations: read the collect, read it under a disk fault, read it with one file cut short, reprocess '
            '(rewrite) it, project points through its cameras, read and project from several simulated threads. Non-trivial: a fault '
            'fired, a file was cut or rewritten, or threads were interleaved.',
    'real': ['resippy pix4d utilities and Pix4d point calculator', 'pyproj', 'osr', 'CPython file I/O', 'libc'],
    'stub': ['disk outcomes and listing order (LD_PRELOAD seam)', 'thread scheduler'],
    'assumptions': ['the camera model is the one pix4d documents: camera = R (X - T), distortion as in its manual'],
}
NAMES = {'ext': 'calibrated_external_camera_parameters.txt', 'int': 'pix4d_calibrated_internal_camera_parameters.cam',
         'cal': 'calibrated_camera_parameters.txt', 'wkt': 'wkt.prj', 'pmat': 'pmatrix.txt'}
ZONES = ['EPSG:32618', 'EPSG:32733', 'EPSG:32610']


def warm():
    for z in ZONES:
        wkt(z)


def wkt(z):
    import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(int(z[5:]))
    return s.ExportToWkt()


def gen(rng, tier, i):
    items = []
    for _ in range(rng.choice([1, 1, 2])):
        items.append({'seed': rng.randrange(1 << 30), 'ncam': rng.choice([1, 1, 2, 5]), 'nimg': rng.choice([1, 2, 4]) if rng.random() > 0.01 else 60, 'zone': rng.randrange(3),
                      'style': rng.randrange(8), 'named': rng.random() < 0.25, 'near': rng.random() < 0.4, 'shuffle': rng.random() < 0.5})
    ops = []
    for _ in range(rng.randrange(2, 8)):
        k = rng.random()
        op = 'read' if k < 0.4 else 'cut' if k < 0.6 else 'rewrite' if k < 0.7 else 'threads' if k < 0.82 else 'project'
        ops.append({'op': op, 'f': rng.randrange(2), 'which': rng.choice(['ext', 'int', 'cal', 'cal', 'wkt', 'pmat']),
                    'frac': round(rng.random(), 4), 'seed': rng.randrange(1 << 30)})
    c = [o for o in ops if o['op'] == 'read']
    if c and rng.random() < 0.7:
        rng.choice(c)['fault'] = read_fault(rng, lists=True)
    return {'items': items, 'ops': ops, 'dirseed': rng.randrange(1 << 30), 'sched': gen_sched(rng)}


class Collect(object):
    pass


def rot(o, p, k):
    """rotation X -> camera for the angles in a pix4d file (degrees)"""
    o, p, k = np.deg2rad([o, p, k])
    rx = np.array([[1, 0, 0], [0, np.cos(o), -np.sin(o)], [0, np.sin(o), np.cos(o)]])
    ry = np.array([[np.cos(p), 0, np.sin(p)], [0, 1, 0], [-np.sin(p), 0, np.cos(p)]])
    rz = np.array([[np.cos(k), -np.sin(k), 0], [np.sin(k), np.cos(k), 0], [0, 0, 1]])
    return rx.dot(ry).dot(rz)


def make(ctx, k, it, seed):
    rs = np.random.RandomState(seed % (2 ** 31))
    c = Collect()
    c.dir = ctx.mkdir('proj %d' % k, 'params')
    c.zone = ZONES[it['zone']]
    pre = '' if it['named'] else ['', 'proj_', 'x y_'][it['style'] % 3]
    c.files = {a: os.path.join(c.dir, ('n%d_' % k + a if it['named'] else pre + b)) for a, b in NAMES.items()}
    c.named = it['named']

    def r(a, b):
        return float('%.8f' % rs.uniform(a, b))
    nx, ny = int(rs.randint(100, 5000)), int(rs.randint(100, 4000))
    cams = []
    for j in range(it['ncam']):
        if cams and it.get('near') and rs.randint(2):
            d = dict(cams[-1])
            q = sorted(d)[rs.randint(len(d))]
            d[q] = float('%.8f' % (d[q] + 10. ** -rs.uniform(2, 7)))
            cams.append(d)
            continue
        d = {'F': r(3, 30), 'Px': r(1, 9), 'Py': r(1, 9), 'K1': r(-.2, .2), 'K2': r(-.2, .2), 'K3': r(-.2, .2), 'T1': r(-.01, .01),
             'T2': r(-.01, .01), 'fpa_width_mm': r(4, 30), 'fpa_height_mm': r(4, 30)}
        cams.append(d)
    keys = [('img_%04d_%d.tif' if it['style'] // 2 % 2 and n % 2 else 'IMG_%04d_%d.tif') % (n // 2 if it['style'] // 2 % 2 else n, j + 1)
            for n in range(it['nimg']) for j in range(it['ncam'])]          # file names differ in case alone, now and then
    c.cal, c.ext, c.pmat = {}, {}, {}
    for key in keys:
        j = int(key[-5]) - 1
        ext = [r(3e5, 7e5), r(4e6, 5e6), r(100, 900)] + [r(-180, 180) for _ in range(3)]
        if c.ext and it.get('near') and rs.randint(2):      # hardly another pose
            ext = list(c.ext[keys[rs.randint(len(c.ext))]])
            q = rs.randint(6)
            ext[q] = float('%.8f' % (ext[q] + 10. ** -rs.uniform(1, 7)))
        c.ext[key] = ext
        c.pmat[key] = np.array([r(-1e4, 1e4) for _ in range(12)])
        c.cal[key] = {'n_x_pixels': nx, 'n_y_pixels': ny, 'camera_matrix_k': np.array([[r(500, 5000), 0, r(0, nx)], [0, r(500, 5000), r(0, ny)], [0, 0, 1.]]),
                      'radial_distortion': np.array([r(-.2, .2) for _ in range(3)]), 'tangential_distortion': np.array([r(-.01, .01) for _ in range(2)]),
                      'camera_position_t': np.array([ext[:3]]),
                      'camera_rotation_r': np.array([[float('%.15f' % x) for x in row] for row in rot(*ext[3:])]),
                      'external_params': ext, 'internal_params': cams[j]}
    c.cams = cams
    order = list(keys)
    if it['shuffle']:
        rs.shuffle(order)
    nl = '\r\n' if it['style'] & 4 else '\n'

    def w(name, lines, raw=None):
        with open(c.files[name], 'wb') as f:
            f.write(raw if raw is not None else (nl.join(lines) + nl).encode())
    w('ext', ['imageName X Y Z Omega Phi Kappa'] + ['%s %s' % (q, ' '.join('%.8f' % v for v in c.ext[q])) for q in (order if it['style'] & 1 else sorted(keys))])
    L = ['fileName imageWidth imageHeight', 'camera matrix K [3x3]', 'radial distortion [3x1]', 'tangential distortion [2x1]',
         'camera position t [3x1]', 'camera rotation R [3x3]', 'camera model m = K [R|-Rt] X', '']
    for q in order:
        d = c.cal[q]
        L.append('%s %d %d' % (q, nx, ny))
        for m in ('camera_matrix_k', 'radial_distortion', 'tangential_distortion', 'camera_position_t', 'camera_rotation_r'):
            for row in np.atleast_2d(d[m]):
                L.append(' '.join('%.15f' % v if m == 'camera_rotation_r' else '%.8f' % v for v in row))
    w('cal', L)
    L = []
    for j, d in enumerate(cams):
        L += ['Pix4D camera calibration file %d' % j if j or it['style'] % 2 else 'Pix4D camera calibration file', '',
              '#Focal Length mm assuming a sensor width of %.8fx%.8fmm' % (d['fpa_width_mm'], d['fpa_height_mm']), 'F %.8f' % d['F'], '',
              '#Principal Point mm', 'Px %.8f' % d['Px'], 'Py %.8f' % d['Py'], '', '#Symmetrical Lens Distortion Coeffs',
              'K1 %.8f' % d['K1'], 'K2 %.8f' % d['K2'], 'K3 %.8f' % d['K3'], '', '#Tangential Lens Distortion Coeffs', 'T1 %.8f' % d['T1'],
              'T2 %.8f' % d['T2']] + ([''] if it['style'] % 3 else [])
    w('int', L)
    w('wkt', None, wkt(c.zone).encode())
    w('pmat', ['%s %s' % (q, ' '.join('%.8f' % v for v in c.pmat[q])) for q in (order if it['style'] & 1 else sorted(keys))])
    for j, junk in enumerate(['calibrated_camera_parameters.txt.bak', 'notes.txt', 'external.txt', 'offset.xyz', 'report.prj.xml']):
        with open(os.path.join(c.dir, junk), 'w') as f:
            f.write('junk\n')
    from pyproj import Proj
    c.proj = Proj(wkt_proj4(c.zone))
    return c


_P4 = {}


def wkt_proj4(z):
    if z not in _P4:
        import osr
        s = osr.SpatialReference()
        s.ImportFromWkt(wkt(z))
        _P4[z] = s.ExportToProj4()
    return _P4[z]


def read(c):
    from resippy.utils import pix4d_utils as u
    if c.named:
        b = {k: os.path.basename(v) for k, v in c.files.items()}
        return u.make_master_dict(c.dir, external_params_fname=b['ext'], internal_params_fname=b['int'], calibrated_params_fname=b['cal'], wkt_fname=b['wkt'])
    return u.make_master_dict(c.dir)


def problem(c, d, torn=False):
    """None, or what is wrong with the dictionary read from collect c. torn: one file has lost its end"""
    if d['projection'].srs != c.proj.srs:
        return 'projection %s instead of %s' % (d['projection'].srs, c.proj.srs)
    keys = [k for k in d if k not in ('projection', 'r_matrix_computed')]
    extra, lost = set(keys) - set(c.cal), set(c.cal) - set(keys)
    if extra or (lost and torn != 'cal'):
        return 'images %s are not in the collect, %s are missing' % (sorted(extra), sorted(lost))
    for k in sorted(keys):
        a, b = d[k], c.cal[k]
        if set(a) != set(b):
            return '%s: parameters %s' % (k, sorted(set(a) ^ set(b)))
        for p in sorted(b):
            x, y = a[p], b[p]
            if torn and p == 'internal_params':
                # a camera file that ends early: missing entries fail later, loudly; the last number may have lost digits
                if set(x) - set(y):
                    return '%s internal %s' % (k, sorted(x))
                wrong = [q for q in x if x[q] != y[q]]
                if torn != 'int' and (wrong or set(x) != set(y)) or len(wrong) > 1:
                    return '%s internal parameters %s' % (k, wrong)
                continue
            if not equal(np.shape(x), np.shape(y)) or not equal(x, y):
                if torn == 'ext' and p == 'external_params' and equal(list(x)[:5], y[:5]):
                    continue
                if torn == 'cal' and p == 'camera_rotation_r' and np.shape(x) == (3, 3) and equal(np.ravel(x)[:8], np.ravel(y)[:8]):
                    continue
                return '%s %s: %s instead of %s' % (k, p, x, y)
    r = d.get('r_matrix_computed')
    if r is not None and torn != 'ext' and not any(np.allclose(r, rot(*b['external_params'][3:]), atol=1e-9) for b in c.cal.values()):
        return 'the computed rotation matrix %s belongs to no image' % (r,)
    return None


def project(c, key, model, x, y, z):
    """the documented camera model"""
    b = c.cal[key]
    cam = b['camera_rotation_r'].dot(np.array([x, y, z]) - np.array(b['external_params'][:3])[:, None])
    xh, yh = cam[0] / cam[2], cam[1] / cam[2]
    if model:
        r2 = xh ** 2 + yh ** 2
        R, T = b['radial_distortion'], b['tangential_distortion']
        g = 1 + R[0] * r2 + R[1] * r2 ** 2 + R[2] * r2 ** 3
        xh, yh = (g * xh + 2 * T[0] * xh * yh + T[1] * (r2 + 2 * xh ** 2),
                  g * yh + 2 * T[1] * xh * yh + T[0] * (r2 + 2 * yh ** 2))
    i = b['internal_params']
    s = b['n_x_pixels'] / i['fpa_width_mm']
    return i['F'] * s * xh + i['Px'] * s, i['F'] * s * yh + i['Py'] * s


def check_projection(c, d, seed, torn=False):
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
    rs = np.random.RandomState(seed % (2 ** 31))
    keys = sorted(c.cal)
    calcs = []
    for _ in range(3):
        key = keys[rs.randint(len(keys))]
        model = 'regular' if rs.randint(3) else None
        calcs.append((key, model, Pix4dPointCalc.init_from_params(['', '/some/dir/'][rs.randint(2)] + key, d, model)))
    for key, model, calc in calcs:
        b = c.cal[key]
        n = int(rs.choice([1, 4, 6]))
        cam = np.array([rs.uniform(-.4, .4, n), rs.uniform(-.4, .4, n), np.ones(n)]) * rs.uniform(50, 900, n)
        x, y, z = b['camera_rotation_r'].T.dot(cam) + np.array(b['external_params'][:3])[:, None]
        want = project(c, key, model, x, y, z)
        shape = [(n,), (2, n // 2)][int(rs.randint(2) and n > 1)]
        args = [a.reshape(shape) for a in (x, y, z)]
        keep = [a.copy() for a in args]
        got = calc.lon_lat_alt_to_pixel_x_y(*args)
        if not equal(keep, args):
            return '%s: projecting changed the coordinates it was given' % key
        for g, w in zip(got, want):
            if np.shape(g) != shape or not np.allclose(np.ravel(g), w, rtol=1e-6, atol=1e-3):
                return '%s %s: pixels %s instead of %s' % (key, model, np.ravel(g)[:3], w[:3])
        if calc.get_projection().srs != c.proj.srs or tuple(calc.get_approximate_lon_lat_center()) != tuple(b['external_params'][:2]):
            return '%s: projection or approximate centre' % key
    return None


def pmat(c):
    from resippy.utils import pix4d_utils as u
    return u.read_p_matrices(c.files['pmat'])


def parts(c):
    """projection matrices, and what a point calculator reads itself"""
    from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
    from resippy.utils import pix4d_utils as u
    calc = Pix4dPointCalc()
    return [u.create_r_matrix(c.ext[k]) for k in sorted(c.ext)], pmat(c), calc.read_calibrated_external_camera_parameters(c.files['ext']), \
        calc.read_pix4d_calibrated_internal_camera_parameters(c.files['int'])


def parts_problem(c, got):
    for k, a in zip(sorted(c.ext), got[0]):
        if np.shape(a) != (3, 3) or not np.all(np.abs(a - rot(*c.ext[k][3:])) < 1e-11):
            return '%s: rotation matrix %s' % (k, a)
    for name, a, b in zip(('p matrices', 'external parameters', 'internal parameters'), got[1:], (c.pmat, c.ext, c.cams)):
        if not equal(a, b):
            return '%s differ' % name
    return None


def run(case, ctx):
    C = [make(ctx, k, it, it['seed']) for k, it in enumerate(case['items'])]
    held = {}
    for n, o in enumerate(case['ops']):
        k = o['f'] % len(C)
        c = C[k]
        what = 'op %d %s' % (n, o['op'])
        if o['op'] == 'rewrite':
            C[k] = make(ctx, k, case['items'][k], o['seed'])
            ctx.probe('nontrivial')
            c = C[k]
        elif o['op'] == 'cut':
            p = c.files[o['which']]
            raw = open(p, 'rb').read()
            m = int(o['frac'] * len(raw))
            with open(p, 'wb') as f:
                f.write(raw[:m])
            ctx.fired['file:cut-short'] += 1
            ctx.faulted = True
            if o['which'] == 'pmat':
                out = ctx.call(pmat, c)
                if out[0] == 'ok':
                    lines = raw[:m].decode().split('\n')
                    for q, v in out[1].items():
                        if q not in c.pmat:
                            if q and not any(x.startswith(q) for x in c.pmat) or len(v):
                                ctx.violate('torn-collect-accepted', '%s: p matrix of %r' % (what, q))
                            continue
                        w = c.pmat[q]
                        if q != lines[-1].split(' ')[0] and not equal(v, w) or not equal(v[:-1], w[:max(0, len(v) - 1)]):
                            ctx.violate('torn-collect-accepted', '%s: p matrix %s instead of %s' % (what, v, w))
                out = ('ok', None)
            else:
                out = ctx.call(read, c)
                if out[0] == 'ok':
                    bad = problem(c, out[1], torn=o['which'])
                    if bad:
                        ctx.violate('torn-collect-accepted', '%s: %s cut to %d of %d bytes: %s' % (what, o['which'], m, len(raw), bad))
            ctx.log(what, o['which'], m, out[0])
            with open(p, 'wb') as f:
                f.write(raw)
        elif o['op'] == 'read' and o.get('fault'):
            def rd():
                return read(c), parts(c)
            _, tr = ctx.traced(rd)
            out, fired = ctx.faulty([ctx.place(o['fault'], tr)], rd)
            ctx.log(what, 'fault', fired, out[0])
            if out[0] == 'exc' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            if out[0] == 'ok':
                bad = problem(c, out[1][0]) or parts_problem(c, out[1][1])
                if bad:
                    ctx.violate('wrong-collect-under-fault', '%s: %s' % (what, bad))
        elif o['op'] == 'threads':
            if k not in held:
                held[k] = (c, read(c))
            hc, hd = held[k]

            def prog(j):
                cc = C[(k + j) % len(C)]

                def go(s, t):
                    if j % 2:
                        return [check_projection(hc, hd, o['seed'] + j)]
                    d = read(cc)
                    return [problem(cc, d) or check_projection(cc, d, o['seed'] + j)]
                return go
            _, est = ctx.solo_steps(prog(0))
            for res in ctx.threads([prog(j) for j in range(3)], case['sched'], est=est * 3):
                if res[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(res[1])))
                if res[1][0]:
                    ctx.violate('wrong-camera-in-threads', '%s: %s' % (what, res[1][0]))
            ctx.probe('nontrivial')
        out = ctx.call(lambda: (read(c), parts(c)))
        if out[0] == 'exc':
            ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
        bad = problem(c, out[1][0]) or parts_problem(c, out[1][1])
        if bad:
            ctx.violate('wrong-collect', '%s: %s' % (what, bad))
        held.setdefault(k, (c, out[1][0]))
        for hc, hd in [(c, out[1][0])] + [held[q] for q in sorted(held)]:
            bad = check_projection(hc, hd, o['seed'])
            if bad:
                ctx.violate('wrong-projection', '%s: %s' % (what, bad))
        ctx.log(what, 'done')

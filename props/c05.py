"""C05: navigation files - records stay aligned and are interpolated exactly, through damage, faults, reloads and threads."""
import os
import struct
import sys
import types

import numpy as np

from props.common import gen_sched, read_fault

META = {
    'runs': {'quick': 3000, 'thorough': 120000},
    'level': 'exploration',
    'rule': 'A run writes 1-3 navigation files (Applanix EO text with headers and damaged lines, SBET binary) and performs 2-8 seeded '
            'operations: load into one of two navigation objects, load under a disk fault, load a file that lost its end, query scalars, '
            'arrays and grids of times, query from several simulated threads. Non-trivial: a fault fired, a file was damaged, or threads '
            'were interleaved.',
    'real': ['resippy navigation classes and factory', 'pyproj', 'CPython file I/O', 'libc'],
    'stub': ['pdal (absent here): a reader of SBET records through the same disk seam', 'disk outcomes (LD_PRELOAD seam)', 'thread scheduler'],
    'assumptions': ['record times increase', 'angles are not interpolated across the 180/360 degree wrap'],
}
SBET = ['GpsTime', 'Y', 'X', 'Z', 'XVelocity', 'YVelocity', 'ZVelocity', 'Roll', 'Pitch', 'Azimuth', 'WanderAngle', 'XBodyAccel',
        'YBodyAccel', 'ZBodyAccel', 'XBodyAngRate', 'YBodyAngRate', 'ZBodyAngRate']
EO = ['gps_time', 'easting', 'northing', 'height', 'omega', 'phi', 'kappa', 'lat', 'lon']
GET = {'get_world_xs': ('easting', 'x'), 'get_world_ys': ('northing', 'y'), 'get_alts': ('height', 'z'), 'get_rolls': ('omega', 'roll'),
       'get_pitches': ('phi', 'pitch'), 'get_headings': ('kappa', 'azimuth')}


def snake(s):
    o = ''
    for i, c in enumerate(s):
        o += ('_' if i and c.isupper() else '') + c.lower()
    return o


class Pipeline(object):
    """the part of pdal that the code under test uses"""
    def __init__(self, js):
        import json
        self.p = json.loads(js)[0]
        self.arrays = []

    def validate(self):
        if self.p['type'] != 'readers.sbet':
            raise RuntimeError('unknown stage')
        return True

    def execute(self):
        size = os.stat(self.p['filename']).st_size
        rec = 8 * len(SBET)
        if size % rec:
            raise RuntimeError('readers.sbet: invalid file size')
        with open(self.p['filename'], 'rb') as f:
            raw = f.read(size)
        if len(raw) != size:
            raise RuntimeError('readers.sbet: short read')
        self.arrays = [np.frombuffer(raw, dtype=[(n, '<f8') for n in SBET]).copy()]
        return len(self.arrays[0])


def warm():
    m = types.ModuleType('pdal')
    m.Pipeline = Pipeline
    sys.modules['pdal'] = m
    import resippy.photogrammetry.nav.nav_factory    # noqa: F401
    from pyproj import Proj
    for z in (None, '18', '33'):
        proj(z)


def args(z):
    return ('utm', z, 'WGS84', 'WGS84') if z else ('latlong', None, 'WGS84', 'WGS84')


def proj(z):
    import pyproj
    a = args(z)
    k = dict(proj=a[0], ellps=a[2], datum=a[3], preserve_units=True)
    if z:
        k['zone'] = z
    return pyproj.Proj(**k)


def gen(rng, tier, i):
    items = []
    for _ in range(rng.randrange(1, 4)):
        n = rng.choice([1, 2, 2, 3, 5, 20, 120]) if rng.random() > 0.015 else rng.choice([1024, 2051])
        items.append({'kind': rng.choice(['eo', 'eo', 'sbet']), 'seed': rng.randrange(1 << 30), 'n': n, 'head': rng.randrange(3),
                      'damage': [(rng.randrange(n), rng.randrange(6), rng.randrange(10)) for _ in range(rng.choice([0, 0, 1, 3]))],
                      'style': rng.randrange(4), 'zone': rng.choice([None, '18', '33']), 'eol': rng.random() < 0.7, 'twice': rng.random() < .12})
    ops = [{'op': 'load', 'f': 0, 'o': 0}]
    for _ in range(rng.randrange(2, 8)):
        k = rng.random()
        op = 'load' if k < 0.2 else 'cut' if k < 0.35 else 'threads' if k < 0.5 else 'query'
        ops.append({'op': op, 'f': rng.randrange(3), 'o': rng.randrange(2), 'frac': round(rng.random(), 4),
                    'q': [gen_query(rng) for _ in range(2 if op == 'threads' else 1)]})
    c = [o for o in ops if o['op'] == 'load']
    if rng.random() < 0.6:
        rng.choice(c)['fault'] = read_fault(rng)
    j = rng.randrange(len(items))
    if rng.random() < 0.4:                  # another file of this kind is tried after the first
        items[j]['kind'] = items[0]['kind']
        ops.insert(rng.randrange(1, len(ops) + 1), {'op': 'load', 'f': j, 'o': 0, 'fault': read_fault(rng)})
    return {'items': items, 'ops': ops, 'sched': gen_sched(rng)}


def gen_query(rng):
    return {'m': rng.choice(sorted(GET) + ['get_nav_records']), 'shape': rng.choice(['num', 'npnum', '1', '1', '2', '2', 'empty']),
            'where': rng.choice(['rec', 'rec', 'mid', 'any', 'any', 'ends', 'below', 'above']), 'seed': rng.randrange(1 << 30),
            'mem': rng.choice('CCFV'), 'many': rng.random() < 0.02}


class File(object):
    pass


def make(ctx, k, it):
    rs = np.random.RandomState(it['seed'] % (2 ** 31))
    f = File()
    f.kind, f.zone = it['kind'], it['zone']
    n = it['n']
    t = np.round(rs.randint(0, 600000) + np.cumsum(rs.uniform(0.001, [0.01, 2, 50][it['style'] % 3], n) + 0.001), 5)
    cols = [t] + [np.round(rs.uniform(a, b, n), 5) for a, b in
                  [(3e5, 7e5), (4e6, 5e6), (-50, 3000), (-30, 30), (-30, 30), (-180, 180), (-80, 80), (-180, 180)]]
    if it.get('twice') and n > 2:       # an instant that was recorded twice
        j = rs.randint(1, n)
        t[j] = t[j - 1]
    f.path = ctx.path('nav %d.%s' % (k, 'txt' if f.kind == 'eo' else 'out'))
    if f.kind == 'eo':
        f.names = EO
        lines, ok, odd = [], [], []
        for h in range(it['head']):
            lines.append(['# EO file, made by POSPac', 'ID GPSTIME EASTING NORTHING H OMEGA PHI KAPPA LAT LONG (deg)', '', '====='][(h + it['style']) % 4])
            ok.append(None)
        dmg = {}
        for a, b, c in it['damage']:
            dmg[a] = (b, c)
        for j in range(n):
            p = ['IMG%d' % j if it['style'] % 2 else str(j)] + ['%.5f' % c[j] for c in cols]
            good = True
            if j in dmg:
                b, c = dmg[j]
                good = False
                if b == 0:
                    p = p[:c]
                elif b == 1:
                    p[1 + c % 9] = '****'
                elif b == 2:
                    p = []
                elif b == 3:
                    lines.append('event %d lost' % j)
                    ok.append(None)
                    good = True
                elif b == 4:
                    p[1 + c % 9] += 'x'
                    if c % 9 == 8:          # a record, once the x is cut off
                        odd.append((len(lines), j))
                else:
                    p += ['extra', '7']
                    good = True
            lines.append('\t'.join(p) if it['style'] >= 2 else '   '.join(p))
            ok.append(j if good else None)
        text = '\n'.join(lines) + ('\n' if it['eol'] else '')
        ends = np.cumsum([len(x) + 1 for x in lines])
        f.raw = text.encode()
        f.rows = [(int(e), j) for e, j in zip(ends, ok) if j is not None]
        f.odd = [(int(ends[i]) - len(lines[i]) - 1, int(ends[i]), j) for i, j in odd]
        f.cols = dict(zip(EO, cols))
        f.reclen = 7
        f.data = {a: b[[j for _, j in f.rows]] for a, b in f.cols.items()}
    else:
        m = np.column_stack([t] + [rs.uniform(-90, 90, n) for _ in SBET[1:]])
        f.raw = m.astype('<f8').tobytes()
        f.names = [snake(s) for s in SBET]
        f.data = {a: m[:, j] for j, a in enumerate(f.names)}
        f.reclen = len(SBET)
    with open(f.path, 'wb') as g:
        g.write(f.raw)
    return f


def times(q, t):
    """the query argument and the flat list of times"""
    rs = np.random.RandomState(q['seed'] % (2 ** 31))
    n = {'num': 1, 'npnum': 1, '1': rs.randint(1, 9) if not q.get('many') else 1030, '2': rs.randint(1, 4) * 3 if not q.get('many') else 1026, 'empty': 0}[q['shape']]
    span = max(1.0, t[-1] - t[0])
    if q['where'] == 'rec':
        v = t[rs.randint(0, len(t), n)]
    elif q['where'] == 'ends':
        v = np.array([t[0], t[-1]])[rs.randint(0, 2, n)]
    elif q['where'] == 'mid':
        j = rs.randint(0, max(1, len(t) - 1), n)
        v = (t[j] + t[np.minimum(j + 1, len(t) - 1)]) / 2
    else:
        v = rs.uniform(t[0], t[-1], n)
        if n and q['where'] == 'below':
            v[rs.randint(n)] = t[0] - rs.choice([1e-4, 1, span])
        if n and q['where'] == 'above':
            v[rs.randint(n)] = t[-1] + rs.choice([1e-4, 1, span])
    v = np.asarray(v, float)
    if q['shape'] == 'num':
        return float(v[0]), v
    if q['shape'] == 'npnum':
        return v[0], v
    if q['shape'] == '2':
        if q.get('mem') == 'F':      # the same grid, stored column by column
            return np.asfortranarray(v.reshape(3, -1)), v
        if q.get('mem') == 'V':
            w = np.full((6, 2 * (len(v) // 3)), -1.0)[::2, 1::2]
            w[...] = v.reshape(3, -1)
            return w, v
        return v.reshape(3, -1), v
    if q.get('mem') == 'V':
        return np.repeat(v, 2)[::2], v
    return v, v


def ask(nav, q, want, skip=(), buf=None):
    """None, or what is wrong with the answer to one query. want: dict of columns (reference model)"""
    t = want['gps_time']
    arg, v = times(q, t)
    if buf is not None and isinstance(arg, np.ndarray) and arg.size:     # the caller fills the same array again and again
        b = buf.setdefault((arg.shape, arg.flags.c_contiguous), arg)
        b[...] = arg
        arg = b
    keep = np.array(arg, copy=True)
    got = getattr(nav, q['m'])(arg)
    if not np.array_equal(keep, np.asarray(arg)):
        return '%s changed the array of times it was given' % q['m']
    if len(v) and (v.min() < t[0] or v.max() > t[-1]):
        return None if got is None else '%s answered %r for times outside the file' % (q['m'], got)
    if got is None:
        return '%s(%s) gave nothing for times inside the file' % (q['m'], v[:4])
    names = want.keys() if q['m'] == 'get_nav_records' else [GET[q['m']][0] if GET[q['m']][0] in want else GET[q['m']][1]]
    shp = () if q['shape'] in ('num', 'npnum') else np.shape(arg)
    if np.shape(got) != shp:
        return '%s: shape %s for times of shape %s' % (q['m'], np.shape(got), shp)
    flat = np.asarray(got, dtype=object if q['m'] == 'get_nav_records' else float).reshape(-1)
    for name in names:
        if name in skip:
            continue
        ref = np.interp(v, t, want[name])
        have = np.asarray([r[name] for r in flat] if q['m'] == 'get_nav_records' else flat, float)
        scale = 1e-9 * max(1.0, float(np.max(np.abs(want[name]))))
        # times are subtracted from one another: allow for the cancellation in closely spaced records
        if len(t) > 1:
            d = np.diff(t)
            if np.any(d == 0):              # either record will do
                other = np.interp(v, t[np.append(d > 0, True)], want[name][np.append(d > 0, True)]), np.interp(v, t[np.append(True, d > 0)], want[name][np.append(True, d > 0)])
                hit = np.isin(v, t[1:][d == 0])
                # a record outside of the instant's first and last is never used
                near = np.where(np.abs(have - other[0]) < np.abs(have - other[1]), *other) if len(have) == len(v) else ref
                ref = np.where(hit, near, ref)
            scale += 4e-15 * float(np.max(np.abs(t))) / float(np.min(d[d > 0], initial=1e9)) * float(np.max(np.abs(want[name])))
        if len(have) != len(ref) or not np.all(np.abs(have - ref) <= scale):
            return '%s %s at %s: %s instead of %s' % (q['m'], name, v[:4], have[:4], ref[:4])
    if q['m'] != 'get_nav_records' and isinstance(got, np.ndarray) and got.size:
        got[...] = -1e9
        if np.any(np.asarray(getattr(nav, q['m'])(arg)) == -1e9):
            return '%s: changing a returned array changed the navigation data' % q['m']
    return None


def run(case, ctx):
    from resippy.photogrammetry.nav.nav_factory import NavFactory
    F = [make(ctx, k, it) for k, it in enumerate(case['items'])]
    navs, model, buf = [None, None], [None, None], {}
    loader = {'eo': 'from_applanix_eo_file', 'sbet': 'from_applanix_sbet_file'}

    def load(f, slot, path=None):
        """a fresh object, or reload into the one that is there if it is of the same kind"""
        a = (path or f.path,) + args(f.zone)
        if navs[slot] is not None and model[slot][1].kind == f.kind:
            navs[slot].load_from_file(*a)
            return navs[slot]
        return getattr(NavFactory, loader[f.kind])(*a)

    def check(slot, what, n=5):
        nav, (want, f) = navs[slot], model[slot]
        if nav.get_num_records() != len(want['gps_time']):
            ctx.violate('record-count', '%s: %d records instead of %d' % (what, nav.get_num_records(), len(want['gps_time'])))
        if nav.get_record_length() != f.reclen:
            ctx.violate('record-count', '%s: record length %d instead of %d' % (what, nav.get_record_length(), f.reclen))
        if nav.get_projection().srs != proj(f.zone).srs:
            ctx.violate('wrong-projection', '%s: %s' % (what, nav.get_projection().srs))
        if not len(want['gps_time']):
            return
        for m in sorted(GET):
            for w in ('rec', 'any'):
                p = ask(nav, {'m': m, 'shape': '1', 'where': w, 'seed': n}, want, buf=buf)
                if p:
                    ctx.violate('wrong-navigation', '%s: %s' % (what, p))

    for n, o in enumerate(case['ops']):
        f = F[o['f'] % len(F)]
        s = o['o']
        what = 'op %d %s %s' % (n, o['op'], f.kind)
        if o['op'] == 'load':
            if o.get('fault'):
                _, tr = ctx.traced(lambda: getattr(NavFactory, loader[f.kind])(*((f.path,) + args(f.zone))))
                out, fired = ctx.faulty([ctx.place(o['fault'], tr)], load, f, s)
            else:
                out, fired = ctx.call(load, f, s), False
            ctx.log(what, fired, out[0])
            if out[0] == 'exc' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            if out[0] == 'ok':
                navs[s], model[s] = out[1], (f.data, f)
            elif navs[s] is not None:
                ctx.probe('nontrivial')
            if navs[s] is not None:
                check(s, what)
        elif o['op'] == 'cut':
            p = ctx.path('cut_%d' % n)
            m = int(o['frac'] * len(f.raw))
            with open(p, 'wb') as g:
                g.write(f.raw[:m])
            ctx.fired['file:cut-short'] += 1
            ctx.faulted = True
            out = ctx.call(getattr(NavFactory, loader[f.kind]), *((p,) + args(f.zone)))
            ctx.log(what, m, out[0])
            if out[0] == 'ok' and f.kind == 'eo':
                nav = out[1]
                full = [j for e, j in f.rows if e <= m + 1]
                torn = [j for b, e, j in f.odd if b < m < e - 1] or [j for e, j in f.rows if e > m + 1][:1]
                k = nav.get_num_records()
                if k not in (len(full), len(full) + len(torn)):
                    ctx.violate('torn-file-accepted', '%s: %d records from a file that holds %d whole ones' % (what, k, len(full)))
                rows = (full + torn)[:k]
                if rows:
                    want = {a: b[rows] for a, b in f.cols.items()}
                    for q in o['q'] + [{'m': 'get_nav_records', 'shape': '1', 'where': 'rec', 'seed': n}]:
                        bad = ask(nav, q, want, skip=('lon',) if k > len(full) else ())
                        if bad:
                            ctx.violate('torn-file-accepted', '%s: %s' % (what, bad))
            elif out[0] == 'ok':
                nav, rec = out[1], 8 * len(SBET)
                if nav.get_num_records() != m // rec:
                    ctx.violate('torn-file-accepted', '%s: %d records from %d bytes' % (what, nav.get_num_records(), m))
                if m // rec:
                    want = {a: b[:m // rec] for a, b in f.data.items()}
                    bad = ask(nav, o['q'][0], want)
                    if bad:
                        ctx.violate('torn-file-accepted', '%s: %s' % (what, bad))
        elif navs[s] is None or not len(model[s][0]['gps_time']):
            continue
        elif o['op'] == 'query':
            bad = None
            for j in range(3):
                bad = bad or ask(navs[s], dict(o['q'][0], seed=o['q'][0]['seed'] + j), model[s][0], buf=buf if j else None)
            if bad:
                ctx.violate('wrong-navigation', '%s: %s' % (what, bad))
            ctx.log(what, o['q'][0]['m'], o['q'][0]['where'])
        else:
            nav, want = navs[s], model[s][0]

            def prog(j):
                def go(sch, tid):
                    return [ask(nav, dict(q, seed=q['seed'] + j), want) for q in (o['q'] if j % 2 else o['q'][::-1])]
                return go
            _, est = ctx.solo_steps(prog(0))
            for res in ctx.threads([prog(j) for j in range(2 + n % 2)], case['sched'], est=est * 2):
                if res[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(res[1])))
                for bad in res[1]:
                    if bad:
                        ctx.violate('wrong-navigation-in-threads', '%s: %s' % (what, bad))
            ctx.probe('nontrivial')
    for s in (0, 1):
        if navs[s] is not None:
            check(s, 'at the end, object %d' % s, n=99)

"""C04: spectral libraries - every reader under read faults, torn files, rewritten files, any directory listing order, and threads."""
import os

import numpy as np

from props.common import gen_sched, read_fault

META = {
    'runs': {'quick': 4000, 'thorough': 150000},
    'level': 'exploration',
    'rule': 'A run builds a spectral library (USGS directories with wavelength/resolution files plus unrelated files, ENVI ASCII plots, SVC '
            '.sig files, CSV files) and performs 2-8 seeded operations: read a spectrum, read it under a disk fault, rewrite a file and '
            'read again, cut a file short, read several spectra from simulated threads; directory listings come in a seeded order. '
            'Non-trivial: a fault fired, a file was rewritten or cut, or threads were interleaved.',
    'real': ['resippy spectrum factories and Spectrum', 'libc', 'CPython file I/O'],
    'stub': ['disk outcomes and listing order (LD_PRELOAD seam)', 'thread scheduler'],
    'assumptions': [],
}


def num(rng, lo, hi, digits=6):
    return float(('%.' + str(digits) + 'f') % rng.uniform(lo, hi))


def gen(rng, tier, i):
    items = []
    ngroup = rng.randrange(1, 3)
    for k in range(rng.randrange(1, 5)):
        kind = rng.choice(['usgs', 'usgs', 'envi', 'svc', 'csv'])
        items.append({'kind': kind, 'seed': rng.randrange(1 << 30), 'n': rng.choice([1, 2, 3, 8, 40, 300]) if rng.random() > 0.02 else 2600, 'grp': rng.randrange(ngroup),
                      'nodata': rng.random() < 0.4, 'style': rng.randrange(6), 'eol': rng.random() < 0.6})
    ops = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.random()
        op = 'read' if k < 0.5 else 'rewrite' if k < 0.65 else 'cut' if k < 0.85 else 'threads'
        ops.append({'op': op, 'f': rng.randrange(len(items)), 'which': rng.randrange(3), 'frac': round(rng.random(), 4),
                    'seed': rng.randrange(1 << 30)})
    if rng.random() < 0.6:
        c = [o for o in ops if o['op'] == 'read']
        if c:
            rng.choice(c)['fault'] = read_fault(rng, lists=True)
    return {'items': items, 'ops': ops, 'dirseed': rng.randrange(1 << 30), 'sched': gen_sched(rng), 'glob': rng.random() < 0.1}


class File(object):
    pass


def values(seed, n, kind, nodata):
    rs = np.random.RandomState(seed % (2 ** 31))
    w = np.sort(np.round(rs.uniform(350, 2500, n), 3))
    if kind == 'usgs':
        w = np.round(w / 1000, 6)
    r = np.round(rs.uniform(0, 1, n), 6)
    fw = np.round(rs.uniform(0.005, 0.02, n), 6)
    nd = np.zeros(n, bool)
    if nodata and n > 1:
        nd[rs.randint(0, n, max(1, n // 5))] = True
    return w, r, fw, nd


def write(path, text):
    with open(path, 'w') as f:
        f.write(text)


def make_group(ctx, g, seed, n, glob):
    """a USGS sensor directory: wavelengths and resolution at the top, spectra in chapters"""
    base = ctx.mkdir('splib[07]' if glob else 'splib07', 'ASCIIdata_%d' % g)
    w, _, fw, _ = values(seed, n, 'usgs', False)
    wn = ['splib07b_Wavelengths_AVIRIS_%d.txt', 's07_ASD_waves_%d.txt'][seed % 2] % g
    fn = ['splib07b_Resolution_AVIRIS_%d.txt', 's07_ASD_Bandpass_(FWHM)_%d.txt'][(seed >> 1) % 2] % g
    write(os.path.join(base, wn), ' splib07b Record=1: Waves\n' + ''.join(' %.6f \n' % x for x in w))
    write(os.path.join(base, fn), ' splib07b Record=2: FWHM\n' + ''.join(' %.6f \n' % x for x in fw))
    write(os.path.join(base, 'a_readme.txt'), 'nothing\n')
    write(os.path.join(base, 'zz_notes.txt'), 'nothing\n')
    return base, w, fw, os.path.join(base, wn), os.path.join(base, fn)


def make(ctx, k, it, groups, seed):
    from resippy.spectral.spectrum_factories.spectrum_factory import SpectrumFactory as S
    f = File()
    f.kind = it['kind']
    eol = '\n' if it['eol'] else ''
    if f.kind == 'usgs':
        base, w, fw, wf, ff = groups[it['grp']]
        n = len(w)
        _, r, _, nd = values(seed, n, 'usgs', it['nodata'])
        ch = os.path.join(base, 'Chapter_%d' % (it['style'] % 2))
        os.makedirs(ch, exist_ok=True)
        f.path = os.path.join(ch, 'spec_%d.txt' % k)
        write(f.path, ' title\n' + '\n'.join('-1.2300000e+034' if x else ' %.6f ' % v for v, x in zip(r, nd)) + eol)
        f.parts = [f.path, wf, ff]
        f.want = (w, np.where(nd, np.nan, r), fw, f.path)
        f.read = lambda: S.usgs.ascii.UsgsAsciiSpectralFactory.from_ascii_file(f.path)
    else:
        w, r, _, _ = values(seed, it['n'], f.kind, False)
        f.path = ctx.path('%s_%d.txt' % (f.kind, k))
        if f.kind == 'envi':
            t = 'ENVI ASCII Plot File [Fri Jan 1 2010]\nColumn 1: X Axis\nColumn 2: data~~2\n' + \
                '\n'.join('  %.3f    %.6f' % p for p in zip(w, r)) + eol
            f.read = lambda: S.envi.ascii.EnviAsciiPlotFileFactory.from_ascii_file(f.path)
        elif f.kind == 'svc':
            t = '/*** Spectra Vista SIG Data ***/\nname= x\ninstrument= HI: 1\nfactors= 1, 2\ndata= \n' + \
                '\n'.join('%.3f  1.1 2.2  %.6f' % (a, b * 100) for a, b in zip(w, r)) + eol
            r = np.array([float('%.6f' % (b * 100)) / 100 for b in r])
            f.read = lambda: S.svc.ascii.SvcAsciiFileFactory.from_sig_file(f.path)
        else:
            st = it['style']
            nh, wi, ri, d = [1, 0, 2, 1, 3, 0][st], [0, 1, 0, 2, 0, 1][st], [1, 0, 2, 0, 1, 2][st], ',;,\t,;'[st]
            rows = []
            for a, b in zip(w, r):
                c = ['9.5', '9.5', '9.5']
                c[wi], c[ri] = '%.3f' % a, '%.6f' % b
                rows.append(d.join(c))
            t = ''.join('head%s%d\n' % (d, h) for h in range(nh)) + '\n'.join(rows) + eol
            f.read = lambda: S.csv.ascii.CsvAsciiFileFactory.from_csv_file(f.path, d, nh, wi, ri)
        write(f.path, t)
        f.parts = [f.path]
        f.want = (w, r, None, None)
    return f


def observe(sp):
    """what a user sees: (wavelengths, data with nodata as NaN, fwhm)"""
    b, got = sp.get_spectral_data(), [sp.get_wavelengths(), sp.get_fwhm()]
    one = [None if x is None else np.array(x, float) for x in got + [b]]
    wu, su = sp.get_wavelength_units(), sp.get_spectrum_units()
    units = str(wu), str(su), sp.get_fname()
    if not isinstance(wu, str):
        units += tuple(None if x is None else np.array(x.to('nanometer').magnitude, float)
                       for x in (sp.get_wavelengths(with_units=True), sp.get_fwhm(with_units=True)))
        units += (np.array(sp.get_spectral_data(with_units=True).magnitude, float),)
    for x in got + [b, sp.get_spectral_data(nodata_to_nan=False)]:      # returned arrays are the caller's
        if x is not None:
            x[:] = -5.0
    fw = sp.get_fwhm()
    two = [np.array(sp.get_wavelengths(), float), None if fw is None else np.array(fw, float), np.array(sp.get_spectral_data(), float)]
    return one[0], one[2], one[1], two, units


def eq(a, b):
    return (a is None and b is None) or (a is not None and b is not None and a.shape == b.shape and
                                         np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True))


def problem(obs, want, prefix=False):
    """None if what was observed is what the file holds (or, for a file that lost its end, a prefix of it whose parts agree)"""
    w, r, fw, again, units = obs
    if not all(eq(a, b) for a, b in zip((w, fw, r), again)):
        return 'changing a returned array changed the spectrum'
    usgs = fw is not None
    if units[2] != want[3]:
        return 'the file name is %s' % units[2]
    if units[1] != ('reflectance_zero_to_one' if usgs else 'reflectance_0-1') or len(units) != (6 if usgs else 3) or not usgs and units[0] != 'nanometers':
        return 'the units are %s and %s' % units[:2]
    if usgs and not (eq(units[3], w * 1000) and eq(units[4], fw * 1000) and eq(units[5], r)):
        return 'with their units the numbers are others'
    if not (w.ndim == r.ndim == 1 and len(w) == len(r)) or (fw is not None and len(fw) != len(r)):
        return '%d wavelengths, %d values, %s widths' % (w.size, r.size, fw if fw is None else fw.size)
    if not prefix:
        for name, a, b in (('wavelengths', w, want[0]), ('values', r, want[1]), ('fwhm', fw, want[2])):
            if not eq(a, b):
                return '%s differ: %s instead of %s' % (name, a if a is None else a[:4], b if b is None else b[:4])
        return None
    n = len(r)
    if n > len(want[1]):
        return 'more values than were ever in the file'
    m = max(0, n - 1)           # the last number of a torn file may have lost digits, nothing can tell
    if not (eq(w[:m], want[0][:m]) and eq(r[:m], want[1][:m]) and (fw is None or eq(fw[:m], want[2][:m]))):
        return 'a pair that is complete in the file came back different'
    return None


def run(case, ctx):
    gs = [ctx.h.hexdigest()]
    groups = []
    for g in range(2):
        seed = 7000 + g + (case['dirseed'] or 0) % 1000
        groups.append(make_group(ctx, g, seed, [1, 3, 40, 224][seed % 4], case.get('glob')))
    F = [make(ctx, k, it, groups, it['seed']) for k, it in enumerate(case['items'])]
    held = []
    for n, o in enumerate(case['ops']):
        f = F[o['f'] % len(F)]
        what = 'op %d %s %s' % (n, o['op'], f.kind)
        if o['op'] == 'rewrite':
            k = o['f'] % len(F)
            F[k] = f = make(ctx, k, case['items'][k], groups, o['seed'])
            ctx.probe('nontrivial')
        if o['op'] == 'read' and o.get('fault'):
            def rd():
                return observe(f.read())
            _, tr = ctx.traced(rd)
            out, fired = ctx.faulty([ctx.place(o['fault'], tr)], rd)
            ctx.log(what, 'fault', fired, out[0])
            if out[0] == 'exc' and not fired:
                ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
            if out[0] == 'ok':
                p = problem(out[1], f.want)
                if p:
                    ctx.violate('wrong-spectrum-under-fault', '%s: %s' % (what, p))
        if o['op'] == 'cut':
            p = f.parts[o['which'] % len(f.parts)]
            raw = open(p).read()
            m = int(o['frac'] * len(raw))
            write(p, raw[:m])
            ctx.fired['file:cut-short'] += 1
            ctx.faulted = True
            out = ctx.call(lambda: observe(f.read()))
            ctx.log(what, m, out[0])
            if out[0] == 'ok':
                bad = problem(out[1], f.want, prefix=True)
                if bad:
                    ctx.violate('torn-library-accepted', '%s: %s cut to %d of %d bytes: %s' % (what, os.path.basename(p), m, len(raw), bad))
            write(p, raw)
        if o['op'] == 'threads':
            fs = [F[(o['f'] + j) % len(F)] for j in range(2 + o['which'] % 2)]

            def prog(ff):
                return lambda s, t: [observe(ff.read()) for _ in range(2)]
            _, est = ctx.solo_steps(prog(fs[0]))
            for ff, res in zip(fs, ctx.threads([prog(x) for x in fs], case['sched'], est=est * len(fs))):
                if res[0] != 'ok':
                    ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(res[1])))
                for ob in res[1]:
                    p = problem(ob, ff.want)
                    if p:
                        ctx.violate('wrong-spectrum-in-threads', '%s: %s' % (what, p))
        out = ctx.call(lambda: observe(f.read()))
        if out[0] == 'exc':
            ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(out[1])))
        p = problem(out[1], f.want)
        if p:
            ctx.violate('wrong-spectrum', '%s: %s' % (what, p))
        for h, sp, want in held[-8:]:
            p = problem(observe(sp), want)
            if p:
                ctx.violate('earlier-spectrum-changed', '%s: the spectrum read in %s: %s' % (what, h, p))
        held.append((what, f.read(), f.want))
        ctx.log(what, 'done')

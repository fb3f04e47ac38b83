"""Shared generators, fault menus and comparisons."""
import numpy as np

DTYPES = ['uint8', 'uint16', 'int16', 'uint32', 'int32', 'float32', 'float64']


def mkarray(seed, shape, dtype):
    """unique-ish values so that every pixel is attributable"""
    rs = np.random.RandomState(seed % (2 ** 31))
    dt = np.dtype(dtype)
    if dt.kind == 'c':
        return (rs.standard_normal(shape) + 1j * rs.standard_normal(shape)).astype(dt)
    if dt.kind == 'f':
        a = rs.standard_normal(shape) * 1000
        return a.astype(dt)
    if dt.kind == 'b':
        return rs.randint(0, 2, shape).astype(dt)
    ii = np.iinfo(dt)
    lo, hi = max(ii.min, -2 ** 31), min(ii.max, 2 ** 31 - 1)
    return rs.randint(lo, hi, shape, dtype=np.int64).astype(dt)


def same(a, b):
    """exact equality of arrays including shape and dtype kind; NaN equals NaN"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def equal(a, b):
    """deep equality for nested tuples/lists/dicts/arrays/scalars"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return same(a, b)
    except Exception:
        return a == b


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    try:
        w = np.argwhere(~((a == b) | ((a != a) & (b != b))))
    except Exception:
        return '%r vs %r' % (a, b)
    if not len(w):
        return 'equal'
    i = tuple(int(x) for x in w[0])
    return '%d of %d elements differ, first at %s: %r instead of %r' % (len(w), a.size, i, a[i], b[i])


class Held(object):
    """results handed out earlier, which must not change whatever happens later"""
    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def keep(self, what, a):
        self.items.append((what, a, a.copy() if isinstance(a, np.ndarray) else list(a)))
        del self.items[:-12]

    def check(self, when):
        for what, a, b in self.items:
            if not (same(a, b) if isinstance(b, np.ndarray) else a == b):
                self.ctx.violate('earlier-result-changed', '%s: what %s returned: %s' % (when, what, diff(a, b) if isinstance(b, np.ndarray) else a[:4]))


def scribble(a):
    """what was returned belongs to the caller"""
    if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
        a[...] = a.flat[0]
    elif isinstance(a, list):
        a.append('scribbled')


def write_fault(rng, path=''):
    """one fault for an operation that writes"""
    k = rng.random()
    pos = round(rng.random(), 4)
    base = {'pos': pos}
    if path:
        base['path'] = path
    if k < 0.22:
        return dict(base, kinds=['write', 'trunc', 'mkdir'], action='budget', err='ENOSPC')
    if k < 0.42:
        return dict(base, kinds=['write'], action='err', err=rng.choice(['EIO', 'ENOSPC', 'EDQUOT']))
    if k < 0.57:
        return dict(base, kinds=['write', 'trunc', 'fsync', 'close_w', 'rename'] + rng.choice([[], ['read', 'open_r', 'open_w']]),
                    action='err', err='EIO', persist=True)
    if k < 0.69:
        return dict(base, kinds=['write'], action='torn', err='EIO', arg=rng.randrange(1, 5000))
    if k < 0.79:
        return dict(base, kinds=['write'], action='short', arg=rng.randrange(1, 5000), persist=rng.random() < 0.5)
    if k < 0.87:
        return dict(base, kinds=['open_w', 'mkdir', 'rename'], action='err', err=rng.choice(['EACCES', 'EROFS', 'EMFILE', 'ENOSPC']))
    if k < 0.94:
        return dict(base, kinds=['close_w'], action='err', err=rng.choice(['EIO', 'ENOSPC']))
    return dict(base, kinds=['read', 'open_r', 'opendir'], action='err', err='EIO')


def read_fault(rng, path='', lists=False):
    k = rng.random()
    base = {'pos': round(rng.random(), 4)}
    if path:
        base['path'] = path
    if lists and k < 0.2:
        return dict(base, kinds=rng.choice([['opendir'], ['readdir']]), action='err', err='EIO')
    if k < 0.4:
        return dict(base, kinds=['read'], action='err', err='EIO')
    if k < 0.6:
        return dict(base, kinds=['read'], action='err', err='EIO', persist=True)
    if k < 0.8:
        return dict(base, kinds=['read'], action='short', arg=rng.randrange(1, 9000), persist=rng.random() < 0.5)
    return dict(base, kinds=['open_r'], action='err', err=rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT']))


def crash_fault(rng):
    return dict(kinds=['write', 'open_w', 'close_w', 'trunc', 'unlink', 'rename', 'mkdir'], action='crash',
                pos=round(rng.random(), 4), arg=rng.choice([-1, rng.randrange(0, 20000)]))


def gen_sched(rng, opcode_share=0.25):
    k = rng.random()
    if k < 0.5:
        return {'mode': 'pct', 'seed': rng.randrange(1 << 30), 'k': rng.choice([1, 1, 2, 3, 5]), 'est': 1000}
    return {'mode': 'rand', 'seed': rng.randrange(1 << 30), 'p': 0.02, 'switches': rng.choice([3, 10, 40, 200])}

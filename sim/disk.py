"""Python control of the simulated disk (simdisk.so must be LD_PRELOADed)."""
import ctypes
import errno as _errno
import os

KIND = {'open_r': 1, 'open_w': 2, 'read': 4, 'write': 8, 'trunc': 16, 'fsync': 32, 'close': 64, 'unlink': 128,
        'rename': 256, 'mkdir': 512, 'opendir': 1024, 'readdir': 2048, 'rmdir': 4096, 'close_w': 16384}
KNAME = {v: k for k, v in KIND.items()}
ACTION = {'err': 1, 'short': 2, 'torn': 3, 'crash': 4, 'budget': 5, 'eof': 6}
MUTATE = ('open_w', 'write', 'trunc', 'fsync', 'close_w', 'rename', 'mkdir', 'unlink')
HERE = os.path.dirname(os.path.abspath(__file__))
SO = os.path.join(os.path.dirname(HERE), 'build', 'simdisk.so')
CRASH_CODE = 99


class Disk(object):
    """one fault = dict(kinds=[...], action=, err='EIO', nth=, arg=, persist=, path=)"""

    def __init__(self):
        if 'simdisk.so' not in os.environ.get('LD_PRELOAD', ''):
            raise RuntimeError('simdisk.so is not preloaded')
        self.lib = ctypes.CDLL(None)
        self.lib.sd_hash.restype = ctypes.c_uint64
        for n in ('sd_nops', 'sd_ntrace', 'sd_bytes_written', 'sd_bytes_read', 'sd_growth', 'sd_fired', 'sd_matched'):
            getattr(self.lib, n).restype = ctypes.c_long
        if self.lib.sd_init() != 0:
            raise RuntimeError('sd_init failed')
        self.lib.sd_reset()
        self.plan = []

    def set_root(self, path):
        self.root = path
        self.lib.sd_set_prefix(path.encode())

    def reset(self):
        self.lib.sd_reset()
        self.plan = []

    def set_dirseed(self, s):
        self.lib.sd_set_dirseed(ctypes.c_long(-1 if s is None else s))

    def install(self, faults):
        self.lib.sd_clear_faults()
        self.plan = list(faults)
        for f in faults:
            kinds = 0
            for k in f['kinds']:
                kinds |= KIND[k]
            e = getattr(_errno, f.get('err', 'EIO'))
            rc = self.lib.sd_add_fault(kinds, ACTION[f['action']], e, int(bool(f.get('persist'))),
                                       ctypes.c_long(f.get('nth', 0)), ctypes.c_long(f.get('arg', 0)),
                                       f.get('path', '').encode())
            if rc:
                raise RuntimeError('too many faults')

    def arm(self):
        self.lib.sd_arm(1)

    def disarm(self):
        self.lib.sd_arm(0)

    def clear(self):
        self.lib.sd_clear_faults()
        self.plan = []

    def fired(self):
        """list of (fault label, count)"""
        out = []
        for i, f in enumerate(self.plan):
            n = self.lib.sd_fired(i)
            if n:
                out.append((label(f), n))
        return out

    @property
    def nops(self):
        return self.lib.sd_nops()

    @property
    def bytes_written(self):
        return self.lib.sd_bytes_written()

    @property
    def growth(self):
        return self.lib.sd_growth()

    @property
    def bytes_read(self):
        return self.lib.sd_bytes_read()

    @property
    def hash(self):
        return '%016x' % self.lib.sd_hash()

    @property
    def crashed(self):
        return bool(self.lib.sd_crashed())

    @property
    def open_fds(self):
        return self.lib.sd_open_fds()

    def trace(self, limit=400):
        n = min(self.lib.sd_ntrace(), limit)
        out = []
        k, f = ctypes.c_int(), ctypes.c_int()
        ln, rs = ctypes.c_long(), ctypes.c_long()
        p = ctypes.create_string_buffer(64)
        for i in range(n):
            self.lib.sd_trace(ctypes.c_long(i), ctypes.byref(k), ctypes.byref(f), ctypes.byref(ln), ctypes.byref(rs), p)
            out.append((KNAME.get(k.value, k.value), p.value.decode(errors='replace'), ln.value, rs.value, f.value))
        return out

    def count(self, kinds, path=''):
        """operations of these kinds seen in the trace (used by generators to place faults inside an operation)"""
        return sum(1 for t in self.trace(60000) if t[0] in kinds and path in t[1])


def label(f):
    k = '+'.join(f['kinds']) if len(f['kinds']) < 4 else 'any-mutation'
    a = f['action']
    if a in ('err', 'torn', 'budget'):
        a = {'err': '', 'torn': 'torn-', 'budget': 'disk-full-after-bytes-'}[a] + f.get('err', 'EIO')
    if f.get('persist') and f['action'] == 'err':
        a += '-persistent'
    return '%s:%s' % (k, a)

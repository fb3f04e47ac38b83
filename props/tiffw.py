"""A minimal TIFF writer (one uncompressed strip, optional Exif and GPS directories), independent of the code under test."""
import struct


def _dir(entries, base, nxt=0):
    """entries: (tag, type, count, raw bytes). Returns the bytes of the directory + overflow data, placed at offset base."""
    entries = sorted(entries)
    head = struct.pack('<H', len(entries))
    over = b''
    off = base + 2 + 12 * len(entries) + 4
    body = b''
    for tag, typ, n, raw in entries:
        if len(raw) <= 4:
            val = raw.ljust(4, b'\0')
        else:
            val = struct.pack('<I', off + len(over))
            over += raw + b'\0' * (len(raw) % 2)
        body += struct.pack('<HHI', tag, typ, n) + val
    return head + body + struct.pack('<I', nxt) + over


def _short(tag, *v):
    return (tag, 3, len(v), struct.pack('<%dH' % len(v), *v))


def _long(tag, *v):
    return (tag, 4, len(v), struct.pack('<%dI' % len(v), *v))


def _ascii(tag, s):
    b = s.encode() + b'\0'
    return (tag, 2, len(b), b)


def _rat(tag, *v):
    return (tag, 5, len(v), b''.join(struct.pack('<II', a, b) for a, b in v))


def write(path, arr, exif=None):
    """arr: 2-D uint8 or uint16. exif: dict(when='YYYY:MM:DD hh:mm:ss', subsec='123', lon=((d,1),(m,1),(s,den)), lonref='W', ...)"""
    ny, nx = arr.shape
    bits = arr.dtype.itemsize * 8
    data = arr.astype(arr.dtype.newbyteorder('<')).tobytes()
    pad = len(data) % 2
    ifd0_at = 8 + len(data) + pad
    ent = [_long(256, nx), _long(257, ny), _short(258, bits), _short(259, 1), _short(262, 1), _long(273, 8), _short(277, 1),
           _long(278, ny), _long(279, len(data)), _short(339, 1)]
    tail = b''
    if exif:
        n0 = 2 + 12 * (len(ent) + 2) + 4
        e_at = ifd0_at + n0
        e = _dir([_ascii(36867, exif['when']), _ascii(37520, exif['subsec'])], e_at)
        e += b'\0' * (len(e) % 2)
        g_at = e_at + len(e)
        g = _dir([_ascii(1, exif['latref']), _rat(2, *exif['lat']), _ascii(3, exif['lonref']), _rat(4, *exif['lon'])], g_at)
        ent += [_long(34665, e_at), _long(34853, g_at)]
        tail = e + g
    ifd0 = _dir(ent, ifd0_at)
    with open(path, 'wb') as f:
        f.write(b'II*\0' + struct.pack('<I', ifd0_at) + data + b'\0' * pad + ifd0 + tail)

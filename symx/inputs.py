"""Deterministic default contents shared by the symbolic and the concrete context."""
from __future__ import annotations

import random
import zlib

ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_'


def _rng(name, salt=0):
    return random.Random(zlib.crc32(name.encode()) * 31 + salt)


def odd_texts(n):
    """texts of n characters with what text processing tends to alter: white space at the ends and doubled, line ends,
    lower case, quotes, control characters"""
    if n == 1:
        return [' ', 'a']
    core = 'a  B\r\n\tc"\'\x00,;'
    return [(' ' + core * (n // len(core) + 1))[:n - 1] + ' ', (core * (n // len(core) + 1))[:n - 1] + '\n']


def default_text(name, n, non_ascii=False):
    r = _rng(name)
    s = ''.join(r.choices(ALPHA, k=n))
    if n and s[0].isdigit():
        s = 'Q' + s[1:]
    if non_ascii and n:
        s = s[:n // 2] + '\u00e9' + s[n // 2 + 1:]
    return s


def default_bytes(name, n):
    return _rng(name, 7).randbytes(n)


def odd_bytes(d, off, v):
    """d with the last byte v; where that is special the other end and the middle get special contents as well"""
    b = bytearray(d)
    b[-1] = v
    if v != d[-1]:
        n = len(b) - off
        if n > 2:
            b[-2] = v
            b[off] = v
        if n > 8:
            b[off + n // 2:off + n // 2 + 3] = {0: b'\x00\x01\x00', 32: b'aA ', 10: b'\r\na'}.get(v, b'\xff\x00\x7f')
    return bytes(b)


F64 = [0x7ff8dead00beef01, 0x7ff0000000000000, 0xfff0000000000000, 0x8000000000000000, 0x0000000000000000,
       0x3fb999999999999a, 0xc01c000000000000, 0x7e37e43c8800759c, 0x7ff4000000000123, 0x0000000000000001,
       0x400921fb54442d18, 0xfff8000000000077]
F32 = [0x7fc0beef, 0x7f800000, 0xff800000, 0x80000000, 0, 0x3dcccccd, 0xc0e00000, 0x7f7fffff, 0x7fa00123, 1]


def default_bits(name, w, kind):
    r = _rng(name, 3)
    if kind == 'f' and w in (32, 64) and r.random() < 0.6:
        return r.choice(F64 if w == 64 else F32)
    if r.random() < 0.3:
        return r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1])
    return r.getrandbits(w)


def default_int(name, lo, hi):
    r = _rng(name, 5)
    if hi - lo <= 300:
        return r.randint(lo, hi)
    # prefer moderate magnitudes
    a, b = max(lo, min(hi, -300)), min(hi, max(lo, 300))
    return r.randint(a, b) if a <= b else r.randint(lo, hi)

"""Dispatcher for instrumented calls and models of the native functions that can receive symbolic values."""
from __future__ import annotations

import builtins
import datetime as _dt
import enum
import functools
import io
import itertools
import logging
import operator
import os
import pathlib
import random
import re
import struct
import time
import types
import numpy as np
import z3

from . import core
from .core import SymInt, SymBool, is_sym, sym_not, Unsupported
from .values import (SymBytes, SymByteArray, SymStr, SymFlt, SymDatetime, PC, PI, PV, PR, PB, PF, StrAtom, dec_str,
                     str_join, str_pad, rope_eq, norm_slice)
from .arrays import (SymArray, SymNp, SymRow, NP_MODELS, m_zeros, deep_sym, from_real, num, cell_bits)


# --------------------------------------------------------------------------------------------------------------------
# lazily formatted strings


class LazyStr(SymStr):
    """A formatted string whose content is only computed if somebody looks at it (messages usually are not)."""
    __slots__ = ('th', '_f')
    _is_sym = True

    def __init__(self, th):
        self.th = th
        self._f = None

    def _force(self):
        if self._f is None:
            self._f = SymStr.wrap(self.th())
            self.th = None
        return self._f

    @property
    def parts(self):
        return self._force().parts

    @property
    def n(self):
        return self._force().n

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return LazyStr(lambda: SymStr.wrap(self) + SymStr.wrap(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return LazyStr(lambda: SymStr.wrap(o) + SymStr.wrap(self))


def to_text(v):
    """content of str(v) -> str | SymStr"""
    t = type(v)
    if t is SymStr or t is LazyStr:
        return v
    if t is SymInt:
        return dec_str(v)
    if t is SymBool:
        return str(bool(v))
    if t is SymFlt:
        return str(float(v))
    if t is SymNp:
        return to_text(v.val()) if v.dtype.kind in 'iu' else str(core.CUR.concretize_np(v))
    if t is SymDatetime:
        return str(core.CUR.concretize_dt(v))
    if t in (SymBytes, SymByteArray):
        return str(core.CUR.concretize_bytes(v if t is SymBytes else v.content()))
    if t is SymArray:
        return str(core.CUR.concretize_arr(v))
    return str(deep_conc(v))


_SPEC = re.compile(r'(?:(.)?([<>]))?(0)?([0-9]+)?([sd])?', re.S)


def fmt_pad(v, spec):
    """format(v, spec) of a symbolic string or integer, for padding to a width; None if the specification does more"""
    m = _SPEC.fullmatch(spec)
    num_ = type(v) is SymInt
    if not m or m[5] and (m[5] == 'd') != num_ or type(v) not in (SymInt, SymStr):
        return None
    fill, side = m[1] or ' ', m[2] or ('>' if num_ else '<')
    if m[3]:
        if not num_ or m[2] or bool(v < 0):
            return None
        fill = '0'
    t = SymStr.wrap(dec_str(v) if num_ else v)
    return str_pad(t, int(m[4] or 0), fill, side)


def sx_fstr(*parts):
    if not any(type(p) is tuple and (deep_sym(p[0]) or is_sym(p[2])) for p in parts):
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                try:
                    if conv == 114:
                        v = repr(v)
                    elif conv == 115:
                        v = str(v)
                    elif conv == 97:
                        v = ascii(v)
                    out.append(format(v, spec or ''))
                except TypeError as e:
                    if 'non-string' not in str(e):
                        raise
                    f = type(v).__repr__ if conv == 114 else type(v).__str__
                    try:
                        out.append(f(v))
                    except TypeError:
                        out.append('<object>')      # container of such objects: message only
            else:
                out.append(p)
        if any(type(x) is not str for x in out):
            def th0():
                t = ''
                for x in out:
                    t = t + x
                return t
            return LazyStr(th0)
        return ''.join(out)

    def th():
        out = ''
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if spec or conv in (114, 97):
                    spec = deep_conc(spec) if spec else ''
                    if conv not in (114, 97):
                        f = fmt_pad(v._force() if type(v) is LazyStr else v, spec)
                        if f is not None:
                            out = out + f
                            continue
                    v = deep_conc(v)
                    v = repr(v) if conv == 114 else ascii(v) if conv == 97 else v
                    out = out + format(v, spec)
                elif deep_sym(v):
                    out = out + to_text(v)
                else:
                    out = out + format(v, '')
            else:
                out = out + p
        return out
    return LazyStr(th)


# --------------------------------------------------------------------------------------------------------------------
# concretisation of nested arguments


CONC_PAIRS = []


def call_conc(f, a, k):
    """run f natively on concretised arguments; what it changes in place in an array argument (or returns of it) is
    carried back to the array itself"""
    CONC_PAIRS.append([])
    try:
        a2 = deep_conc(list(a))
        k2 = deep_conc(dict(k))
        pairs = CONC_PAIRS.pop()
    except BaseException:
        CONC_PAIRS.pop()
        raise
    try:
        r = f(*a2, **k2)
    finally:
        for s, c, before in pairs:
            write_back(s, c, before)
    for s, c, _ in pairs:
        if r is c:
            return s
    return r


def deep_conc(x):
    ctx = core.CUR
    t = type(x)
    if t is SymInt:
        return ctx.concretize_int(x)
    if t is SymBool:
        return bool(x)
    if t is SymStr or t is LazyStr:
        return ctx.concretize_str(x)
    if t is SymBytes:
        return ctx.concretize_bytes(x)
    if t is SymByteArray:
        return bytearray(ctx.concretize_bytes(x.content()))
    if t is SymFlt:
        return ctx.concretize_flt(x)
    if t is SymDatetime:
        return ctx.concretize_dt(x)
    if t is SymArray:
        r = ctx.concretize_arr(x)
        if CONC_PAIRS:
            CONC_PAIRS[-1].append((x, r, r.copy()))
            r.flags.writeable = x.obj.flags.writeable
        return r
    if t is SymNp:
        return ctx.concretize_np(x)
    if t is list:
        return [deep_conc(y) for y in x]
    if t is tuple:
        return tuple(deep_conc(y) for y in x)
    if t is dict:
        return {deep_conc(k): deep_conc(v) for k, v in x.items()}
    return x


# --------------------------------------------------------------------------------------------------------------------
# subscripts / membership / slices


def sx_slice(a, b, c):
    return slice(a, b, c)


def _slice_sym(k):
    return isinstance(k, slice) and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step))


def key_sym(k):
    """a key which is symbolic or a tuple with symbolic elements"""
    return is_sym(k) or type(k) is tuple and any(key_sym(x) for x in k)


def key_eq(a, b):
    """equality of keys: bool or SymBool, without splitting the path"""
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = core.sym_and(r, key_eq(x, y))
            if r is False:
                return False
        return r
    if is_sym(a) or is_sym(b):
        e = (a == b) if is_sym(a) else (b == a)
        return e if isinstance(e, (bool, SymBool)) else bool(e)
    return a == b


def _dict_find(d, k):
    """key of dict d equal to k (k or some key symbolic), or None-marker"""
    for kk in list(d.keys()):
        if kk is k:
            return True, kk
    for kk in list(d.keys()):
        if key_sym(kk) or key_sym(k):
            if bool(key_eq(kk, k)):
                return True, kk
        elif kk == k:
            return True, kk
    return False, None


def _needs_scan(d, k):
    if key_sym(k):
        return True
    if isinstance(k, (str, int, float, bytes, tuple)):
        return any(key_sym(x) for x in d)
    return False


def set_add(s, x):
    """add to a set with symbolic elements (their hashes do not tell them apart from concrete ones)"""
    if key_sym(x) or any(key_sym(y) for y in s):
        for y in list(s):
            if y is x or bool(key_eq(y, x)):
                return
    s.add(x)


def set_find(s, x):
    for y in list(s):
        if y is x or bool(key_eq(y, x)):
            return True, y
    return False, None


def m_set(f, a):
    it = list(a[0])
    r = set()
    for x in it:
        set_add(r, x)
    return r if f is set else frozenset(r)


def sx_getitem(x, k):
    t = type(x)
    if t in (bytes, bytearray):
        if _slice_sym(k) or is_sym(k):
            r = SymBytes.wrap(bytes(x))[k]
            return r
    elif t is str:
        if _slice_sym(k) or is_sym(k):
            return SymStr.wrap(x)[k]
    elif isinstance(x, dict) and not is_sym(x):
        if _needs_scan(x, k):
            ok, kk = _dict_find(x, k)
            if ok:
                return dict.__getitem__(x, kk)
            m = getattr(type(x), '__missing__', None)
            if m is not None:
                return m(x, k)
            raise KeyError(k)
    elif isinstance(x, enum.EnumMeta) and is_sym(k):
        for n in x.__members__:
            if bool(k == n):
                return x[n]
        raise KeyError(k)
    elif isinstance(x, np.ndarray) and not is_sym(x) and (is_sym(k) or _slice_sym(k)):
        return x[deep_conc(k) if not isinstance(k, slice) else
                 slice(*[deep_conc(y) for y in (k.start, k.stop, k.step)])]
    return x[k]


def sx_setitem(x, k, v):
    if isinstance(x, dict) and not is_sym(x) and _needs_scan(x, k):
        ok, kk = _dict_find(x, k)
        if type(x).__setitem__ is not dict.__setitem__:
            x[kk if ok else k] = v
        else:
            dict.__setitem__(x, kk if ok else k, v)
        return
    x[k] = v


def sx_in(a, c):
    t = type(c)
    if is_sym(a) or t in (list, tuple, dict, set, frozenset):
        if t in (list, tuple) and type(a) is not tuple:
            if is_sym(a) or any(is_sym(y) for y in c):
                # one disjunction instead of one path per element
                r = False
                for y in c:
                    if y is a:
                        return True
                    e = (y == a) if is_sym(y) or not is_sym(a) else (a == y)
                    r = core.sym_or(r, e if isinstance(e, (bool, SymBool)) else bool(e))
                    if r is True:
                        return True
                return bool(r)
            return a in c
        if isinstance(c, dict) and not is_sym(c):
            if _needs_scan(c, a):
                return sx_in(a, list(c.keys()))
            return a in c
        if t in (set, frozenset) and (key_sym(a) or any(key_sym(y) for y in c)):
            r = False
            for y in c:
                if y is a:
                    return True
                r = core.sym_or(r, key_eq(y, a))
                if r is True:
                    return True
            return bool(r)
        if isinstance(c, (types.MappingProxyType,)) or t is type({}.keys()) or t is type({}.values()):
            return sx_in(a, list(c))
        if isinstance(c, enum.EnumMeta) and is_sym(a):
            return sx_in(a, [m.value for m in c])
        if t is str and is_sym(a):
            return bool(SymBool.mk(z3.Contains(z3.StringVal(c), a.zs())))
    return a in c


# --------------------------------------------------------------------------------------------------------------------
# individual models


def m_len(x):
    t = type(x)
    if t is SymBytes or t is SymByteArray:
        return x.size
    if t is SymStr or t is LazyStr:
        return x.n
    if hasattr(t, '_is_sym'):
        return len(x)
    f = getattr(t, '__len__', None)
    if isinstance(f, types.FunctionType):
        # python-level __len__ may return a symbolic int
        return f(x)
    return len(x)


def m_type(*a):
    if len(a) == 1:
        return a[0].__class__ if is_sym(a[0]) else type(a[0])
    return type(*a)


def m_int(x=0, *a, **k):
    t = type(x)
    if a or k:
        return int(deep_conc(x), *deep_conc(a), **k)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymFlt:
        import z3 as _z
        if x.r is None:
            isn = x != x
            if isn is not False and bool(isn):
                raise ValueError('cannot convert float NaN to integer')
            f = x.fp()
            if bool(SymBool.mk(_z.fpIsInf(f))):
                raise OverflowError('cannot convert float infinity to integer')
        return x.to_int()
    if t is SymNp:
        v = x.val()
        return m_int(v)
    if t is SymStr or t is LazyStr:
        a1 = x.single()
        from .values import DecAtom
        if isinstance(a1, DecAtom):
            return a1.x
        return int(core.CUR.concretize_str(x))
    if t is SymBytes or t is SymByteArray:
        return int(deep_conc(x))
    if t is SymArray:
        return m_int(x.item())
    f = getattr(t, '__int__', None)
    return int(x)


def m_float(x=0.0):
    t = type(x)
    if t is SymFlt:
        return x
    if t is SymInt:
        return SymFlt.from_int(x)
    if t is SymBool:
        return SymFlt.from_int(x.as_int())
    if t is SymNp:
        return m_float(x.val())
    if t is SymArray:
        return m_float(x.item())
    if is_sym(x):
        return float(deep_conc(x))
    return float(x)


def m_bool(x=False):
    if type(x) is SymBool:
        return x
    return bool(x)


def m_str(*a, **k):
    if len(a) == 1 and not k and is_sym(a[0]):
        x = a[0]
        if type(x) in (SymStr, LazyStr):
            return x
        return LazyStr(lambda: to_text(x))
    if a and not k and not is_sym(a[0]):
        x = a[0]
        # python-level __str__ may build symbolic text
        f = getattr(type(x), '__str__', None)
        if len(a) == 1 and isinstance(f, types.FunctionType) and not isinstance(x, (pathlib.PurePath, BaseException)):
            return f(x)
        if len(a) == 1 and isinstance(x, (list, tuple, dict)) and deep_sym(x):
            return LazyStr(lambda: str(deep_conc(x)))
        return str(*a)
    if deep_sym(a):
        return str(*deep_conc(a), **k)
    return str(*a, **k)


def m_repr(x):
    if is_sym(x) or (isinstance(x, (list, tuple, dict)) and deep_sym(x)):
        return LazyStr(lambda: repr(deep_conc(x)))
    f = getattr(type(x), '__repr__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def m_bytes(*a, **k):
    if a and not k and len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymBytes:
            return x
        if t is SymByteArray:
            return x.content().lower()
        if t is SymInt:
            return SymBytes([PF(0, x)]) if bool(x > 0) else b''
        if t in (list, tuple) and deep_sym(x):
            out = SymBytes([])
            for y in x:
                if is_sym(y):
                    if y < 0 or y > 255:
                        raise ValueError('bytes must be in range(0, 256)')
                    out = out + SymBytes.from_int(y, 1)
                else:
                    out = out + bytes([y])
            return out.lower()
        if t is SymArray:
            return x.tobytes()
        f = getattr(t, '__bytes__', None)
        if isinstance(f, types.FunctionType):
            return f(x)
    if deep_sym(a):
        if len(a) == 2 and type(a[0]) in (SymStr, LazyStr):
            return a[0].encode(a[1])
        return bytes(*deep_conc(a), **k)
    return bytes(*a, **k)


def m_bytearray(*a, **k):
    if not a:
        return SymByteArray(b'', 0)
    x = a[0]
    if type(x) is SymInt:
        if x < 0:
            raise ValueError('negative count')
        return SymByteArray(b'', x)
    if isinstance(x, int):
        if x < 0:
            raise ValueError('negative count')
        return SymByteArray(b'', int(x))
    if type(x) in (SymBytes, SymByteArray):
        return SymByteArray(x.content() if type(x) is SymByteArray else x)
    if type(x) in (SymStr, LazyStr):
        return SymByteArray(SymBytes.wrap(x.encode(a[1])))
    if type(x) is list and deep_sym(x):
        return SymByteArray(SymBytes.wrap(m_bytes(x)))
    return SymByteArray(bytes(bytearray(*a, **k)))


def m_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return x
    if isinstance(x, (bytes, bytearray)):
        return memoryview(x)
    return memoryview(x)


def m_round(x, n=None):
    if type(x) is SymNp:
        x = x.val()
    if n is None:
        if type(x) in (SymInt, SymFlt):
            return x.__round__()
        return round(x)
    return round(deep_conc(x), n) if is_sym(x) and type(x) is not SymInt else round(x, n)


def m_isinstance(x, c):
    return isinstance(x, c)


def m_hash(x):
    return hash(x)


def m_minmax(op):
    nat = min if op == '<' else max

    def f(*a, **k):
        if k:
            return nat(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(is_sym(x) for x in xs):
            return nat(*a)
        if not xs:
            raise ValueError('empty')
        best = xs[0]
        for x in xs[1:]:
            if (x < best) if op == '<' else (x > best):
                best = x
        return best
    return f


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_divmod(a, b):
    return (a // b, a % b)


_FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
        'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    items = []
    for m in re.finditer(r'(\d*)([a-zA-Z?])', fmt):
        items.append((m.group(1), m.group(2)))
    return order, items


def struct_pack(fmt, *args):
    if not deep_sym(args):
        return struct.pack(fmt, *args)
    order, items = parse_fmt(fmt)
    if order == '@':
        raise Unsupported('native struct format')
    out = SymBytes([])
    it = iter(args)
    for cnt, ch in items:
        if ch == 's':
            v = next(it)
            n = int(cnt or 1)
            v = SymBytes.wrap(v)
            if bool(v.size > n):
                v = SymBytes.wrap(v[:n])
            elif bool(v.size < n):
                v = v + SymBytes.wrap(b'\0')._repeat(n - v.size)
            out = out + v
            continue
        if ch == 'x':
            out = out + b'\0' * int(cnt or 1)
            continue
        for _ in range(int(cnt or 1)):
            try:
                v = next(it)
            except StopIteration:
                raise struct.error('pack expected more items')
            out = out + pack1(order, ch, v)
    for _ in it:
        raise struct.error('pack: too many items')
    return out.lower()


def pack1(order, ch, v):
    if type(v) is SymNp:
        v = v.val()
    if not is_sym(v):
        return struct.pack(order + ch, v)
    if type(v) is SymBool:
        v = v.as_int()
    if ch in _FMT:
        w, signed = _FMT[ch]
        if type(v) is not SymInt:
            raise struct.error('required argument is not an integer')
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        if v < lo or v > hi:
            raise struct.error('argument out of range')
        return v.to_bytes(w, 'little' if order in '<' else 'big', signed=signed)
    if ch in 'df':
        if type(v) is SymInt:
            v = SymFlt.from_int(v)
            if not is_sym(v):
                return struct.pack(order + ch, v)
        if type(v) is not SymFlt:
            raise struct.error('required argument is not a float')
        if order == '<':
            raise Unsupported('little endian float pack')
        if ch == 'd':
            if v.r is not None:
                return SymBytes([PR(v, 8)])
            return SymBytes([PV(v.bits)])
        # single precision
        if v.r is not None:
            if v.i is not None:
                if bool(core.sym_and(v >= -2 ** 24, v <= 2 ** 24)):
                    return SymBytes([PR(v, 4)])
                return struct.pack('>f', core.CUR.concretize_flt(v))
            f32 = z3.fpRealToFP(z3.RNE(), v.r, z3.Float32())
            return SymBytes([PV(z3.fpToIEEEBV(f32))])
        f = v.fp()
        f32 = z3.fpFPToFP(z3.RNE(), f, z3.Float32())
        if bool(SymBool.mk(z3.And(z3.fpIsInf(f32), z3.Not(z3.fpIsInf(f))))):
            raise OverflowError('float too large to pack with f format')
        if bool(SymBool.mk(z3.fpIsNaN(f))):
            # C cast double->float keeps sign and the top payload bits (quieting)
            b = v.bits
            return SymBytes([PV(z3.simplify(z3.Concat(z3.Extract(63, 63, b), z3.BitVecVal(0xff, 8), z3.BitVecVal(1, 1),
                                                      z3.Extract(50, 29, b))))])
        return SymBytes([PV(z3.fpToIEEEBV(f32))])
    if ch == '?':
        return SymBytes.from_int(v != 0, 1)
    raise Unsupported('struct format ' + ch)


def struct_unpack(fmt, b):
    if not is_sym(b):
        return struct.unpack(fmt, b)
    order, items = parse_fmt(fmt)
    b = SymBytes.wrap(b)
    out = []
    pos = 0
    for cnt, ch in items:
        for _ in range(int(cnt or 1)):
            if ch not in _FMT or order not in '>!':
                return struct.unpack(fmt, core.CUR.concretize_bytes(b))
            w, signed = _FMT[ch]
            v = b.slice(pos, pos + w).to_uint()
            pos += w
            if signed:
                h = 1 << (8 * w - 1)
                v = (v + h) % (2 * h) - h
            out.append(v)
    if not bool(b.size == pos):
        raise struct.error('unpack requires a buffer of other size')
    return tuple(out)


# ---- regular expressions --------------------------------------------------------------------------------------------


def rx_to_z3(tree, flags=0):
    try:
        from re import _constants as C
    except ImportError:
        import sre_constants as C
    S = z3.StringVal
    allch = z3.Range(chr(0), chr(0x2fff))

    def cls(items):
        neg = False
        alts = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                alts.append(lit(av))
            elif op is C.RANGE:
                alts.append(z3.Range(chr(av[0]), chr(av[1])))
                if icase:
                    for a, b, d in ((65, 90, 32), (97, 122, -32)):
                        x, y = max(a, av[0]), min(b, av[1])
                        if x <= y:
                            alts.append(z3.Range(chr(x + d), chr(y + d)))
                            alts += [z3.Re(S(o)) for k, o in FOLD.items() if x <= ord(k) <= y]
            elif op is C.CATEGORY:
                alts.append(cat(av))
            else:
                raise Unsupported('regex class')
        r = alts[0] if len(alts) == 1 else z3.Union(*alts)
        return z3.Intersect(allch, z3.Complement(r)) if neg else r

    icase = bool(flags & re.IGNORECASE)
    uni = not flags & re.ASCII
    FOLD = {'k': '\u212a', 'K': '\u212a', 's': '\u017f', 'S': '\u017f'} if uni else {}

    def lit(av):
        c = chr(av)
        cs = {c}
        if icase and av < 128:
            cs |= {c.upper(), c.lower()} | ({FOLD[c]} if c in FOLD else set())
        cs = sorted(cs)
        return z3.Re(S(c)) if len(cs) == 1 else z3.Union(*[z3.Re(S(x)) for x in cs])

    def cat(av):
        # beyond ASCII: the first blocks of each class (a string of any other such character is not followed exactly)
        d = z3.Range('0', '9')
        if uni:
            d = z3.Union(d, z3.Range('\u0660', '\u0669'))
        w = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), d, z3.Re(S('_')))
        if uni:
            w = z3.Union(w, z3.Range('\u00c0', '\u00d6'), z3.Range('\u00d8', '\u00f6'), z3.Range('\u00f8', '\u02c1'))
        s = z3.Union(*[z3.Re(S(c)) for c in ' \t\n\r\f\v' + ('\x1c\x1d\x1e\x1f\x85\xa0' if uni else '')])
        m = {C.CATEGORY_DIGIT: d, C.CATEGORY_WORD: w, C.CATEGORY_SPACE: s}
        if av in m:
            return m[av]
        n = {C.CATEGORY_NOT_DIGIT: d, C.CATEGORY_NOT_WORD: w, C.CATEGORY_NOT_SPACE: s}
        return z3.Intersect(allch, z3.Complement(n[av]))

    def seq(items):
        rs = [one(op, av) for op, av in items]
        if not rs:
            return z3.Re(S(''))
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def one(op, av):
        if op is C.LITERAL:
            return lit(av)
        if op is C.NOT_LITERAL:
            return z3.Intersect(allch, z3.Complement(lit(av)))
        if op is C.ANY:
            if flags & re.DOTALL:
                return allch
            return z3.Intersect(allch, z3.Complement(z3.Re(S('\n'))))
        if op is C.IN:
            return cls(av)
        if op is C.BRANCH:
            return z3.Union(*[seq(x) for x in av[1]])
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('regex flags of a group')
            return seq(av[3])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) or op is getattr(C, 'POSSESSIVE_REPEAT', None):
            lo, hi, sub = av
            r = seq(sub)
            if hi is C.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            return z3.Loop(r, lo, hi)
        raise Unsupported('regex op %s' % op)
    return seq(tree)


def rx_match(pat, how, s):
    try:
        return _rx_match(pat, how, s)
    except Unsupported:
        core.CUR.note_concretised('regex ' + repr(pat.pattern)[:60])
        return getattr(pat, how)(core.CUR.concretize_str(s))


def _rx_match(pat, how, s):
    if isinstance(pat.pattern, bytes) or pat.flags & ~(re.UNICODE | re.ASCII | re.IGNORECASE | re.DOTALL | re.VERBOSE):
        raise Unsupported('regex flags')
    from re import _parser
    tree = list(_parser.parse(pat.pattern, pat.flags))
    from re import _constants as C
    begin = end = dollar = False
    while tree and tree[0][0] is C.AT and tree[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        tree = tree[1:]
        begin = True
    while tree and tree[-1][0] is C.AT and tree[-1][1] in (C.AT_END, C.AT_END_STRING):
        if tree[-1][1] is C.AT_END:
            dollar = True
        tree = tree[:-1]
        end = True
    r = rx_to_z3(tree, pat.flags)
    anyre = z3.Star(z3.Range(chr(0), chr(0x2fff)))
    if how == 'fullmatch':
        full = r if not dollar else r
    else:
        if dollar:
            r = z3.Concat(r, z3.Option(z3.Re(z3.StringVal('\n'))))
        full = r if end else z3.Concat(r, anyre)
        if how == 'search' and not begin:
            full = z3.Concat(anyre, full)
    c = SymBool.mk(z3.InRe(s.zs(), full))
    if core.CUR.lazy_match and type(c) is SymBool:
        return _LazyMatch(c)
    if bool(c):
        return _Match(pat, how, s)
    return None


class _LazyMatch:
    """outcome of a match in a condition nothing but logging depends on"""

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return bool(self.c)


_CMETHOD = type(re.compile('').match)       # builtin methods defined with METH_METHOD


def sx_isnone(x):
    return core.sym_not(x.c) if type(x) is _LazyMatch else x is None


def sx_not(x):
    if type(x) is _LazyMatch:
        x = x.c
    return core.sym_not(x) if type(x) is SymBool else not x


def sx_logif(test, body):
    ctx = core.CUR
    if ctx is None:
        return body() if test() else None
    old, ctx.lazy_match = ctx.lazy_match, True
    try:
        c = test()
    finally:
        ctx.lazy_match = old
    if type(c) is _LazyMatch:
        c = c.c
    if type(c) is SymBool:
        n = len(ctx.log_records)
        body()
        ctx.log_records[n:] = [(r, c) for r in ctx.log_records[n:]]
    elif c:
        body()


class _Match:
    def __init__(self, pat, how, s):
        self.pat, self.how, self.string = pat, how, s

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if self.how == 'fullmatch' and name == 'group':
            return lambda *a: self.string
        m = getattr(self.pat, self.how)(core.CUR.concretize_str(self.string))
        return getattr(m, name)


# ---- enums ----------------------------------------------------------------------------------------------------------


class LazyEnum:
    """result of EnumClass(symbolic value): membership is decided, which member it is only if somebody asks"""

    def __init__(self, cls, v):
        self.__dict__['_cls'] = cls
        self.__dict__['_v'] = v
        self.__dict__['_m'] = None

    @property
    def __class__(self):
        return self._cls

    def _force(self):
        if self._m is None:
            for m in self._cls:
                if bool(self._v == m.value):
                    self.__dict__['_m'] = m
                    break
            else:
                raise core.PathDone('enum')
        return self._m

    def __getattr__(self, name):
        if name == 'value' or name == '_value_':
            return self._v
        return getattr(self._force(), name)

    def __eq__(self, o):
        return self._v == o

    def __ne__(self, o):
        return sym_not(self._v == o)

    def __hash__(self):
        return hash(self._v)


def enum_lookup(cls, v):
    vals = [m.value for m in cls]
    cands = []
    for x in vals:
        if type(v) in (SymStr, LazyStr) and isinstance(x, str):
            cands.append(x)
        elif type(v) in (SymInt, SymFlt, SymBool) and isinstance(x, (int, float)):
            cands.append(x)
    if cands:
        if type(v) in (SymStr, LazyStr):
            a = v.single()
            lens = {len(c) for c in cands}
            e = core.sym_or(*[v == c for c in cands])
        else:
            e = core.sym_or(*[v == c for c in cands])
        if bool(e):
            return LazyEnum(cls, v)
    if '_missing_' in cls.__dict__:
        r = cls._missing_(v)
        if r is not None:
            return r
    raise ValueError(f'not a valid {cls.__name__}')


# ---- progress bar ---------------------------------------------------------------------------------------------------


class ProgressModel:
    """contract of progressbar.progressbar used by the writer: iterate, never more items than max_value"""

    def __init__(self, it, max_value):
        self.it, self.max = it, max_value

    def __iter__(self):
        n = 0
        for x in self.it:
            if n and self.max is not None and not is_sym(self.max) and n > self.max:
                raise ValueError('Value out of range, should be between 0 and max_value')
            yield x
            n += 1


def m_progressbar(iterator, min_value=0, max_value=None, **k):
    return PB_FACTORY(iterator, max_value)


PB_FACTORY = ProgressModel


# ---- loggers --------------------------------------------------------------------------------------------------------


def log_call(logger, name, args):
    ctx = core.CUR
    if name in ('warning', 'error', 'exception', 'critical', 'warn'):
        ctx.log_records.append(name)
    elif name == 'info' and args:
        ctx.info_msgs.append(args[0])
    return None


LOG_NAMES = {'debug', 'info', 'warning', 'error', 'exception', 'critical', 'warn', 'log'}


# ---- lru_cache ------------------------------------------------------------------------------------------------------


def _flat_key(a, k):
    return tuple(a) + tuple(x for kv in sorted(k.items()) for x in kv)


def _kind(x):
    t = type(x)
    if t in (SymStr, LazyStr) or isinstance(x, str):
        return 's'
    if t in (SymBytes, SymByteArray) or isinstance(x, (bytes, bytearray)):
        return 'b'
    if t is SymBool or isinstance(x, bool):
        return 'bool'
    if t is SymInt:
        return 'i'
    if type(x) is int:
        return 'i'
    if t is SymFlt or isinstance(x, float):
        return 'f'
    if isinstance(x, _dt.datetime):
        return 'd'
    if isinstance(x, int):
        return 'i'
    return 'o'


def _keys_may_collide(k1, k2):
    """None: certainly not a hit we need to consider. Otherwise list of (a, b) to compare."""
    if len(k1) != len(k2):
        return None
    pairs = []
    for a, b in zip(k1, k2):
        if a is b:
            continue
        if isinstance(a, tuple) and isinstance(b, tuple):
            p = _keys_may_collide(a, b)
            if p is None:
                return None
            pairs += p
            continue
        sa, sb = is_sym(a), is_sym(b)
        if not sa and not sb:
            try:
                if not (type(a) is type(b) and a is b) and not (a == b):
                    return None
            except Exception:
                return None
            pairs.append((a, b))
            continue
        ka, kb = _kind(a), _kind(b)
        num_ = {'i', 'f', 'bool'}
        if ka != kb and not (ka in num_ and kb in num_):
            return None
        pairs.append((a, b))
    return pairs


def _interesting(pairs):
    """equality of these arguments does not imply that the arguments behave the same"""
    for a, b in pairs:
        ka, kb = _kind(a), _kind(b)
        if ka != kb or ka in ('f', 'd') or (ka == 'o' and type(a) is not type(b)):
            return True
        if not is_sym(a) and not is_sym(b) and type(a) is not type(b):
            return True
    return False


def _same_result(r1, r2):
    if r1 is r2:
        return True
    if isinstance(r1, bytes) and isinstance(r2, bytes):
        if not is_sym(r1) and not is_sym(r2):
            return r1 == r2
        a, b = SymBytes.wrap(r1), SymBytes.wrap(r2)
        if not is_sym(a.size) and not is_sym(b.size):
            if a.size != b.size:
                return False
            return rope_eq(a, b)
    return None


def make_lru(f, maxsize=128, typed=False):
    entries = []          # (key, result) in insertion order
    exact = {}
    info = [0, 0]

    @functools.wraps(f)
    def wrapper(*a, **k):
        if maxsize == 0:
            return f(*a, **k)
        key = _flat_key(a, k)
        try:
            if not any(is_sym(x) for x in key):
                for x in key:
                    hash(x)
            else:
                for x in key:
                    if not is_sym(x):
                        hash(x)
                    elif type(x) in (SymByteArray, SymArray):
                        raise TypeError('unhashable type')
        except TypeError:
            raise
        symkey = deep_sym(key)
        if not symkey:
            hk = (tuple(type(x) for x in key), key) if typed else key
            if hk in exact:
                return exact[hk]
        # identical symbolic objects
        cand = []
        for ek, er in entries:
            if typed and tuple(_kind(x) for x in ek) != tuple(_kind(x) for x in key):
                continue
            if not symkey and not deep_sym(ek):
                continue
            p = _keys_may_collide(ek, key)
            if p is None:
                continue
            if not p:
                return er
            cand.append((p, er, ek))
        for p, er, ek in cand:
            if len(p) == 1 and type(p[0][0]) is SymInt and type(p[0][1]) is SymInt:
                d = p[0][0] - p[0][1]
                if not is_sym(d) and d == 0:
                    return er
            elif all((type(x) in (SymStr,) and type(y) in (SymStr,) and x.single() is not None
                      and x.single() is y.single()) for x, y in p):
                return er
        res = None
        have = False
        for p, er, ek in cand:
            if not _interesting(p):
                continue
            eq = core.sym_and(*[_eqv(x, y) for x, y in p])
            if eq is False:
                continue
            if not have:
                try:
                    res = f(*a, **k)
                    have = True
                except Exception:
                    if bool(eq):
                        return er
                    continue
            s = _same_result(er, res)
            if s is True:
                continue
            if s is not None:
                # provably equal whenever the keys are?
                both = core.sym_and(eq, sym_not(s))
                if both is False:
                    continue
                if core.CUR.impossible(both):
                    continue
            if bool(eq):
                return er
        if not have:
            res = f(*a, **k)
        entries.append((key, res))
        if not symkey:
            exact[hk] = res
        return res

    def cache_clear():
        entries.clear()
        exact.clear()

    wrapper.cache_clear = cache_clear
    wrapper.cache_info = lambda: functools._CacheInfo(0, len(entries), maxsize, len(entries))
    wrapper.cache_parameters = lambda: {'maxsize': maxsize, 'typed': typed}
    wrapper.__wrapped__ = f
    return wrapper


def _eqv(x, y):
    e = (x == y) if is_sym(x) or not is_sym(y) else (y == x)
    return e if isinstance(e, (bool, SymBool)) else bool(e)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return make_lru(maxsize)
    return lambda f: make_lru(f, maxsize, typed)


def cache(f):
    return make_lru(f, None)


# ---- virtual files --------------------------------------------------------------------------------------------------


VROOT = '/vfs/'


def vpath(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, str) and not is_sym(p) and p.startswith(VROOT):
        return p
    return None


class VFile:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.name = fs, path, mode, path
        self.closed = False
        self.pos = 0
        base = mode.replace('b', '').replace('t', '')
        ent = fs.files.get(path)
        if base in ('r', 'r+') and ent is None:
            raise FileNotFoundError(path)
        if base.startswith('x') and ent is not None:
            raise FileExistsError(path)
        parent = os.path.dirname(path)
        if ent is None and parent + '/' != VROOT and parent not in fs.dirs:
            raise FileNotFoundError(path)
        if base in ('w', 'w+', 'x', 'x+') or ent is None:
            fs.files[path] = SymBytes([])
            if ent is None or base[0] in 'wx':
                fs.note(path)
        self.append = base.startswith('a')
        self.readable_ = base.startswith('r') or '+' in base
        self.writable_ = not base == 'r'
        self.fs.open_files.append(self)

    def write(self, b):
        if not self.writable_ or self.closed:
            raise io.UnsupportedOperation('not writable')
        b = SymBytes.wrap(b)
        cur = self.fs.files[self.path]
        if self.append or core_syn(self.pos, cur.size) or bool(self.pos == cur.size):
            new = cur + b
            self.pos = new.size
        else:
            head = cur.slice(0, self.pos)
            end = self.pos + b.size
            tail = cur.slice(end, cur.size) if bool(end < cur.size) else SymBytes([])
            new = head + b + tail
            self.pos = end
        self.fs.files[self.path] = new
        self.fs.note(self.path)
        return b.size

    def writelines(self, it):
        for x in it:
            self.write(x)

    def read(self, n=-1):
        cur = self.fs.files[self.path]
        end = cur.size if n is None or (not is_sym(n) and n < 0) else self.pos + n
        if bool(end > cur.size):
            end = cur.size
        r = cur.slice(self.pos, end)
        self.pos = end
        return r.lower()

    def seek(self, off, whence=0):
        cur = self.fs.files[self.path]
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else cur.size + off
        return self.pos

    def tell(self):
        return self.fs.files[self.path].size if self.append else self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        self.fs.files[self.path] = self.fs.files[self.path].slice(0, n)
        self.fs.note(self.path)
        return n

    def flush(self):
        pass

    def fileno(self):
        return 10 ** 6

    def close(self):
        self.closed = True

    def readable(self):
        return self.readable_

    def writable(self):
        return self.writable_

    def seekable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def core_syn(a, b):
    d = a - b
    return type(d) is not SymInt and d == 0


class VFS:
    def __init__(self):
        self.files = {}
        self.dirs = set()
        self.history = {}       # path -> list of contents after each change
        self.open_files = []
        self.h5 = {}

    def note(self, path):
        self.history.setdefault(path, []).append(self.files.get(path))


class VH5:
    """h5py.File counterpart over symbolic arrays"""

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.filename = path
        self.closed = False

    def _ds(self, k):
        k = k.strip('/')
        d = self.fs.h5[self.path]
        if k not in d:
            raise KeyError(f"Unable to synchronously open object (object '{k}' doesn't exist)")
        return VDataset(d, k, self.mode)

    def __getitem__(self, k):
        if self.closed:
            raise ValueError('Invalid location identifier (invalid location identifier)')
        return self._ds(k)

    def __contains__(self, k):
        return k.strip('/') in self.fs.h5[self.path]

    def get(self, k, default=None):
        try:
            return self._ds(k)
        except KeyError:
            return default

    def keys(self):
        return self.fs.h5[self.path].keys()

    def __iter__(self):
        return iter(self.keys())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class VDataset:
    def __init__(self, d, k, mode):
        self._d, self._k, self.mode = d, k, mode

    @property
    def _a(self):
        return self._d[self._k]

    dtype = property(lambda s: s._a.dtype)
    shape = property(lambda s: s._a.shape)
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    name = property(lambda s: '/' + s._k)

    def __len__(self):
        return len(self._a)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1) and k.step < 0:
                raise ValueError('Step must be >= 1')
        r = self._a[k] if k != () else self._a[...]
        return r.copy() if hasattr(r, 'copy') else r

    def __setitem__(self, k, v):
        if self.mode == 'r':
            raise OSError("Can't write data (no write intent on file)")
        self._a[k] = v

    def __array__(self, *a, **k):
        return np.asarray(self._a)

    def __iter__(self):
        return iter(self._a)


class MemFile(VFile):
    """io.BytesIO"""

    def __init__(self, initial_bytes=b''):
        self.fs, self.path, self.name = self, 0, None
        self.closed = self.append = False
        self.readable_ = self.writable_ = True
        self.pos = 0
        self.files = {0: SymBytes.wrap(initial_bytes)}

    @property
    def __class__(self):
        return io.BytesIO

    def note(self, path):
        pass

    def write(self, b):
        if bool(self.pos > self.files[0].size):
            self.files[0] = SymBytes(self.files[0].parts + [PF(0, self.pos - self.files[0].size)], self.pos)
        return VFile.write(self, b)

    def getvalue(self):
        return self.files[0].lower()

    def getbuffer(self):
        return self.files[0].lower()

    read1 = VFile.read

    def seekable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def m_open(file, mode='r', *a, **k):
    p = vpath(file)
    if p is None:
        if isinstance(file, str) and any(c in mode for c in 'wax+'):
            raise Unsupported('open for writing outside of the virtual file system')
        return open(file, mode, *a, **k)
    return VFile(core.CUR.fs, p, mode)


def m_h5file(name, mode='r', **k):
    import h5py
    p = vpath(name)
    if p is None:
        return h5py.File(name, mode, **k)
    fs = core.CUR.fs
    if p not in fs.h5:
        raise FileNotFoundError(p)
    return VH5(fs, p, mode)


def _fsop(name):
    nat = {'exists': os.path.exists, 'isfile': os.path.isfile, 'getsize': os.path.getsize, 'remove': os.remove,
           'unlink': os.unlink, 'replace': os.replace, 'rename': os.rename}[name]

    def f(p, *a, **k):
        v = vpath(p)
        if v is None:
            if name in ('remove', 'unlink', 'replace', 'rename'):
                raise Unsupported(name)
            return nat(p, *a, **k)
        fs = core.CUR.fs
        if name in ('exists', 'isfile'):
            return v in fs.files or v in fs.h5
        if v not in fs.files:
            raise FileNotFoundError(v)
        if name == 'getsize':
            return fs.files[v].size
        if name in ('remove', 'unlink'):
            del fs.files[v]
            fs.note(v)
            return None
        w = vpath(a[0])
        fs.files[w] = fs.files.pop(v)
        fs.note(w)
        fs.note(v)
    return f


def _dirop(nat):
    def f(p, *a, **k):
        v = vpath(p)
        if v is None:
            if nat is os.path.isdir:
                return nat(p)
            raise Unsupported(nat.__name__)
        v = v.rstrip('/')
        there = v + '/' == VROOT or v in core.CUR.fs.dirs
        if nat is os.path.isdir:
            return there
        if there and not k.get('exist_ok'):
            raise FileExistsError(v)
        core.CUR.fs.dirs.add(v)
    return f


def _pathop(name):
    def f(self, *a, **k):
        v = vpath(self)
        if v is None:
            return getattr(self, name)(*a, **k)
        if name == 'open':
            return m_open(self, *a, **k)
        if name in ('exists', 'is_file'):
            return _fsop('exists')(v)
        if name == 'is_dir':
            return _dirop(os.path.isdir)(v)
        if name == 'mkdir':
            return _dirop(os.mkdir)(v, **k)
        if name == 'unlink':
            try:
                return _fsop('unlink')(v)
            except FileNotFoundError:
                if k.get('missing_ok') or (a and a[0]):
                    return None
                raise
        if name == 'write_bytes':
            with m_open(v, 'wb') as fh:
                return fh.write(a[0])
        if name == 'read_bytes':
            with m_open(v, 'rb') as fh:
                return fh.read()
        if name in ('rename', 'replace'):
            return _fsop(name)(v, a[0])
        if name == 'touch':
            with m_open(v, 'ab'):
                return None
        return getattr(self, name)(*a, **k)
    return f


PATH_OPS = {n: _pathop(n) for n in ('open', 'exists', 'is_file', 'unlink', 'write_bytes', 'read_bytes', 'rename',
                                    'replace', 'touch', 'is_dir', 'mkdir')}


def m_strjoin(sep, it):
    it = list(it)
    if not deep_sym(it) and not is_sym(sep):
        return sep.join(it)
    if all(isinstance(x, str) for x in it):
        return LazyStr(lambda: str_join(sep, it)) if any(type(x) is LazyStr for x in it) else str_join(sep, it)
    raise TypeError('sequence item: expected str instance')


def m_bytesjoin(sep, it):
    it = list(it)
    if not deep_sym(it):
        return sep.join(it)
    return SymBytes.wrap(sep).join(it)


def m_strformat(fmt, a, k):
    import string
    pieces = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            pieces.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        elif field[0].isdigit() and not any(c in field for c in '.['):
            v = a[int(field)]
        else:
            raise Unsupported('format field ' + field)
        pieces.append((v, ord(conv) if conv else -1, spec or None))
    return sx_fstr(*pieces)


class _Rnd:
    pass


def m_randint(low, high=None, size=None, **k):
    # any value of the documented range: deterministic representative (specifications under test set it explicitly)
    if size is not None:
        raise Unsupported('randint size')
    return 4242 if (high if high is not None else low) > 4242 else (0 if high is None else low)


def m_now(*a, **k):
    return _dt.datetime(2031, 2, 3, 4, 5, 6, 789000)


def m_timeit(stmt='pass', setup='pass', timer=None, number=1000000, globals=None):
    if callable(stmt):
        for _ in range(number):
            stmt()
        return 0.125
    raise Unsupported('timeit')


def m_empty(shape, dtype=float, order='C', **k):
    return m_zeros(shape, dtype, order)


def m_np_dtype(*a, **k):
    return np.dtype(*[deep_conc(x) for x in a], **k)


def m_from_iter(*a, **k):
    return deep_conc(a)


import h5py as _h5py            # noqa: E402
import progressbar as _pbmod    # noqa: E402
import timeit as _timeit        # noqa: E402
import shutil as _shutil        # noqa: E402

# models applied only when some argument is symbolic
SYM_MODELS = {
    struct.pack: struct_pack, struct.unpack: struct_unpack,
    divmod: m_divmod, round: m_round, np.dtype: m_np_dtype,
}
SYM_MODELS.update(NP_MODELS)

# models applied always
MODELS = {
    len: m_len, type: m_type, int: m_int, float: m_float, str: m_str, bytes: m_bytes, bytearray: m_bytearray,
    repr: m_repr, memoryview: m_memoryview,
    min: m_minmax('<'), max: m_minmax('>'), sum: m_sum,
    builtins.open: m_open, io.open: m_open, io.BytesIO: MemFile, _h5py.File: m_h5file,
    _pbmod.progressbar: m_progressbar, _timeit.timeit: m_timeit,
    np.zeros: m_zeros, np.empty: m_empty,
    os.path.exists: _fsop('exists'), os.path.isfile: _fsop('isfile'), os.path.getsize: _fsop('getsize'),
    os.path.isdir: _dirop(os.path.isdir), os.mkdir: _dirop(os.mkdir), os.makedirs: _dirop(os.makedirs),
    os.remove: _fsop('remove'), os.unlink: _fsop('unlink'), os.replace: _fsop('replace'), os.rename: _fsop('rename'),
    _shutil.move: _fsop('replace'), os.fsync: lambda fd: None,
    np.random.randint: m_randint, random.randint: lambda a, b: m_randint(a, b + 1),
    random.randrange: lambda a, b=None, c=1: m_randint(a, b),
    print: lambda *a, **k: None,
    time.time: lambda: 1.0e9, time.perf_counter: lambda: 1.0,
}

# native callables that treat their arguments opaquely (or through the protocols the proxies implement)
OPAQUE = {isinstance, issubclass, getattr, setattr, hasattr, delattr, callable, id, iter, next, enumerate, zip, map,
          filter, any, all, list, tuple, dict, set, frozenset, reversed, sorted, range, slice, hash, abs, pow, bool,
          object, property, staticmethod, classmethod, itertools.chain, itertools.repeat, itertools.islice,
          itertools.takewhile, itertools.accumulate, functools.partial, functools.reduce, operator.add,
          functools.wraps, functools.update_wrapper, itertools.zip_longest, itertools.count, itertools.starmap,
          itertools.chain.from_iterable, operator.itemgetter, operator.attrgetter, isinstance,
          object.__setattr__, vars, dir, types.SimpleNamespace, operator.mul, operator.sub, operator.eq, operator.lt,
          operator.index, itertools.product, itertools.groupby, types.MappingProxyType}
OPAQUE_SELF = (list, dict, set, frozenset, tuple, types.MappingProxyType)

import collections as _coll     # noqa: E402
OPAQUE |= {_coll.defaultdict, _coll.OrderedDict, _coll.deque, _coll.Counter, _coll.namedtuple}
OPAQUE_SELF = OPAQUE_SELF + (_coll.deque,)

# python-level stdlib/numpy functions (have __code__ or are array-function dispatchers) that need models
_DT_NOW = {'now': m_now, 'utcnow': m_now, 'today': m_now}


def _dict_method(d, name, a, k):
    key = a[0]
    if name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__') and _needs_scan(d, key):
        ok, kk = _dict_find(d, key)
        if name == '__contains__':
            return ok
        if name == 'get':
            return dict.__getitem__(d, kk) if ok else (a[1] if len(a) > 1 else None)
        if name == 'pop':
            if ok:
                return dict.pop(d, kk)
            if len(a) > 1:
                return a[1]
            raise KeyError(key)
        if name == 'setdefault':
            if ok:
                return dict.__getitem__(d, kk)
            dict.__setitem__(d, key, a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
    return getattr(d, name)(*a, **k)


def sx_call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        # plain python function: run it (instrumented or pure-python library)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    if t is types.MethodType:
        s = f.__self__
        if isinstance(s, logging.Logger) and f.__name__ in LOG_NAMES:
            return log_call(s, f.__name__, a)
        if isinstance(s, pathlib.PurePath):
            n = f.__name__
            if n in PATH_OPS:
                return PATH_OPS[n](s, *a, **k)
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType or t is _CMETHOD:
        s = getattr(f, '__self__', None)
        n = f.__name__
        if s is not None and not isinstance(s, types.ModuleType):
            if isinstance(s, type):
                if issubclass(s, _dt.datetime) and n in _DT_NOW:
                    return m_now()
            elif is_sym(s):
                return f(*a, **k)
            else:
                if n == 'join' and isinstance(s, str):
                    return m_strjoin(s, *a)
                if n == 'join' and isinstance(s, (bytes, bytearray)):
                    return m_bytesjoin(s, *a)
                if n == 'format' and isinstance(s, str):
                    if deep_sym(a) or deep_sym(k):
                        return m_strformat(s, a, k)
                    return f(*a, **k)
                if isinstance(s, struct.Struct):
                    if n == 'pack' and deep_sym(a):
                        return struct_pack(s.format, *a)
                    if n == 'unpack' and deep_sym(a):
                        return struct_unpack(s.format, *a)
                    return f(*a, **k)
                if isinstance(s, re.Pattern) and n in ('match', 'fullmatch', 'search') and a and is_sym(a[0]):
                    return rx_match(s, n, a[0])
                if isinstance(s, dict) and n in ('get', 'pop', 'setdefault', '__contains__', '__getitem__') and a:
                    return _dict_method(s, n, a, k)
                if isinstance(s, dict) and n == '__setitem__':
                    return sx_setitem(s, *a)
                if type(s) is set and n in ('add', 'discard', 'remove', 'update') and a and (
                        deep_sym(a) or any(key_sym(y) for y in s)):
                    if n == 'add':
                        return set_add(s, a[0])
                    if n == 'update':
                        for it in a:
                            for y in list(it):
                                set_add(s, y)
                        return None
                    ok, y = set_find(s, a[0])
                    if ok:
                        return s.discard(y)
                    if n == 'remove':
                        raise KeyError(a[0])
                    return None
                if isinstance(s, OPAQUE_SELF):
                    if n in ('index', 'count', 'remove') and deep_sym(a):
                        return f(*a, **k)
                    return f(*a, **k)
                if n in ('__setattr__', '__getattribute__', '__delattr__', '__init__', 'send', 'throw', 'close'):
                    return f(*a, **k)
                if isinstance(s, (types.GeneratorType,)):
                    return f(*a, **k)
    elif isinstance(f, type):
        if f in (set, frozenset) and a:
            a = (list(a[0]),)
            if any(key_sym(y) for y in a[0]):
                return m_set(f, a)
        if isinstance(f, enum.EnumMeta):
            if a and is_sym(a[0]) and not k:
                return enum_lookup(f, a[0])
            return f(*a, **k)
        if f in OPAQUE or issubclass(f, BaseException):
            return f(*a, **k)
        mod = getattr(f, '__module__', '') or ''
        if mod.startswith('dliswriter') or f.__flags__ & (1 << 9) and mod not in ('numpy', 'datetime', 'decimal'):
            # heap (python-level) class
            if issubclass(f, np.generic) and deep_sym(a):
                return SymNp(np.dtype(f), _np_ctor(f, a[0]))
            return f(*a, **k)
        if issubclass(f, np.generic) and a and is_sym(a[0]):
            return SymNp(np.dtype(f), _np_ctor(f, a[0]))
    else:
        if _hashable(f) and f in OPAQUE:
            return f(*a, **k)
        # callable instances of python classes
        if isinstance(getattr(t, '__call__', None), types.FunctionType):
            return f(*a, **k)
    if _hashable(f) and f in OPAQUE:
        return f(*a, **k)
    if deep_sym(a) or deep_sym(k):
        try:
            m = SYM_MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*a, **k)
        core.CUR.note_concretised('call:' + getattr(f, '__name__', str(f)))
        return call_conc(f, a, k)
    return f(*a, **k)


def _np_ctor(f, x):
    from .arrays import cast_cell
    dt = np.dtype(f)
    if type(x) is SymNp:
        return cast_cell(x.c, x.dtype, dt)
    if type(x) is SymInt:
        if dt.kind in 'iu':
            info = np.iinfo(dt)
            if x < int(info.min) or x > int(info.max):
                raise OverflowError('Python integer out of bounds')
            return x
        if dt.kind == 'f':
            from .arrays import int_to_flt
            return int_to_flt(x, dt)
        raise Unsupported('np scalar constructor')
    if type(x) is SymFlt:
        return cast_cell(x, np.dtype(np.float64), dt)
    raise Unsupported('np scalar constructor')


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def install():
    builtins.__sx_call__ = sx_call
    builtins.__sx_getitem__ = sx_getitem
    builtins.__sx_setitem__ = sx_setitem
    builtins.__sx_in__ = sx_in
    builtins.__sx_logif__, builtins.__sx_not__, builtins.__sx_isnone__ = sx_logif, sx_not, sx_isnone
    builtins.__sx_fstr__ = sx_fstr
    builtins.__sx_slice__ = sx_slice

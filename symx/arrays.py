"""Symbolic numpy arrays: a real object ndarray of cells (so views, strides, broadcasting and read-only flags are
numpy's own) plus the dtype the program believes the array has."""
from __future__ import annotations

import math
import struct
import numpy as np
import z3

from . import core
from .core import SymBase, SymInt, SymBool, is_sym, sym_not
from .values import SymFlt, SymBytes, PC, PI, PV, PR, flt_same


class Bits:
    """opaque cell: raw bits of one element (numeric/native sense)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Swap:
    """cell whose bytes are reversed with respect to `c`"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


def swap(c):
    return c.c if type(c) is Swap else Swap(c)


def bswap_bv(v):
    n = v.size() // 8
    if n == 1:
        return v
    return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]))


def cell_bits(c, dt):
    """z3 BV of the cell (native sense)"""
    if type(c) is Bits:
        return c.v
    if type(c) is Swap:
        return bswap_bv(cell_bits(c.c, dt))
    w = dt.itemsize * 8
    if dt.kind in 'iu':
        if type(c) is SymInt:
            return z3.Int2BV(c.z(), w)
        return z3.BitVecVal(int(c), w)
    if dt.kind == 'f':
        if type(c) is SymFlt:
            if w == 64:
                return c.bits if c.bits is not None else z3.fpToIEEEBV(c.fp())
            return z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), c.fp(), z3.Float32()))
        return z3.BitVecVal(int.from_bytes(struct.pack({64: '>d', 32: '>f', 16: '>e'}[w], c), 'big'), w)
    raise core.Unsupported('cell_bits')


def cell_part(c, dt):
    """big-endian rope part of the cell"""
    if type(c) is Swap:
        inner = cell_part(c.c, dt)
        if type(inner) is PC:
            return PC(inner.b[::-1])
        if inner.n == 1:
            return inner
        return PV(bswap_bv(cell_bits(c.c, dt)))
    if type(c) is Bits:
        return PV(c.v)
    w = dt.itemsize
    if dt.kind in 'iub':
        if type(c) is SymInt:
            x = c % (256 ** w)
            return PI(x, w) if type(x) is SymInt else PC(int(x).to_bytes(w, 'big'))
        if type(c) is SymBool:
            return cell_part(c.as_int(), dt)
        return PC((int(c) % 256 ** w).to_bytes(w, 'big'))
    if dt.kind == 'f':
        if type(c) is SymFlt:
            if c.r is not None and w in (4, 8):
                return PR(c, w)
            return PV(cell_bits(c, dt))
        return PC(np.array(c, dtype=dt.newbyteorder('>')).tobytes())
    raise core.Unsupported('cell_part kind ' + dt.kind)


def num(c, dt):
    """numeric value of a cell"""
    if type(c) is Swap:
        return num(Bits(bswap_bv(cell_bits(c.c, dt))), dt)
    if type(c) is Bits:
        w = dt.itemsize * 8
        if dt.kind == 'i':
            return core.atom(z3.BV2Int(c.v, is_signed=True), -2 ** (w - 1), 2 ** (w - 1) - 1)
        if dt.kind == 'u':
            return core.atom(z3.BV2Int(c.v), 0, 2 ** w - 1)
        if dt.kind == 'b':
            return SymBool.mk(c.v != 0)
        if dt.kind == 'f' and w == 64:
            return SymFlt(bits=c.v)
        if dt.kind == 'f' and w == 32:
            f = z3.fpToFP(z3.RNE(), z3.fpBVToFP(c.v, z3.Float32()), z3.Float64())
            s = SymFlt(bits=z3.fpToIEEEBV(f))
            s._fp = f
            return s
        raise core.Unsupported('num')
    return c


def wrap_int(x, dt):
    w = dt.itemsize * 8
    if dt.kind == 'u':
        return x % (1 << w)
    lo, hi = (x.bounds() if type(x) is SymInt else (x, x))
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return x
    return (x + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))


_UF = {}


def uf(name, a, b):
    k = (name, a, b)
    if k not in _UF:
        _UF[k] = z3.Function(name, z3.BitVecSort(a), z3.BitVecSort(b))
    return _UF[k]


def int_to_flt(x, d):
    """an int as a floating-point number of the given type: rounded half to even where it has too many digits"""
    if type(x) is not SymInt:
        return float(np.dtype(d).type(x))
    if np.dtype(d).itemsize == 8:
        return SymFlt.from_int(x)
    if np.dtype(d).itemsize != 4:
        return float(np.dtype(d).type(x.__index__()))
    lo, hi = x.bounds()
    big = max(abs(lo), abs(hi))
    if big <= 1 << 24 or bool(core.sym_and(x >= -2 ** 24, x <= 2 ** 24)):
        return SymFlt.from_int(x)
    if big > 1 << 33:
        return float(np.float32(x.__index__()))
    neg = bool(x < 0)
    m = -x if neg else x
    for k in range(1, 10):
        if big <= 1 << (24 + k) or bool(m <= 2 ** (24 + k)):
            break
    z = m.z()
    q, r, h = z / (1 << k), z % (1 << k), 1 << (k - 1)
    up = z3.Or(r > h, z3.And(r == h, q % 2 == 1))
    v = core.atom(z3.simplify((q + z3.If(up, z3.IntVal(1), z3.IntVal(0))) * (1 << k)), 1 << 24, 1 << (25 + k))
    return SymFlt.from_int(-v if neg else v)


def cast_cell(c, s, d):
    """numpy 'unsafe' conversion of one element from dtype s to dtype d"""
    if (s.kind, s.itemsize) == (d.kind, d.itemsize):
        return c
    if d.kind == 'O':
        return SymNp(s, c)
    if type(c) is Swap:
        c = Bits(bswap_bv(cell_bits(c.c, s)))
    sw, dw = s.itemsize * 8, d.itemsize * 8
    if type(c) is Bits:
        if s.kind in 'iu' and d.kind in 'iu':
            if dw <= sw:
                return Bits(z3.simplify(z3.Extract(dw - 1, 0, c.v))) if dw < sw else c
            return Bits(z3.simplify((z3.SignExt if s.kind == 'i' else z3.ZeroExt)(dw - sw, c.v)))
        if s.kind == 'f' and d.kind == 'f' and sw == 32 and dw == 64:
            # exact except for NaN payload handling, which the uninterpreted function keeps abstract
            return Bits(uf('cast_f4_f8', 32, 64)(c.v))
        return Bits(uf(f'cast_{s.kind}{s.itemsize}_{d.kind}{d.itemsize}', sw, dw)(c.v))
    if not is_sym(c):
        r = np.array([c], dtype=s).astype(d)[0]
        return r.item()
    if s.kind in 'iub' and d.kind in 'iu':
        return wrap_int(core.as_int(c), d)
    if s.kind in 'iub' and d.kind == 'f':
        return int_to_flt(core.as_int(c), d)
    if s.kind == 'f' and d.kind in 'iu':
        return wrap_int(c.to_int(), d)
    if s.kind == 'f' and d.kind == 'f':
        if type(c) is SymFlt and c.r is not None:
            return c                # grid values are exactly representable in both widths
        return Bits(uf(f'cast_{s.kind}{s.itemsize}_{d.kind}{d.itemsize}', sw, dw)(cell_bits(c, s)))
    if d.kind == 'b':
        return num(c, s) != 0
    raise core.Unsupported('cast')


def native(dt):
    return dt.newbyteorder('=')


class SymNp(SymBase):
    """numpy scalar"""
    _is_sym = True
    __slots__ = ('dtype', 'c')

    def __init__(self, dtype, c):
        self.dtype = native(np.dtype(dtype))
        self.c = c

    @property
    def __class__(self):
        return self.dtype.type

    shape = ()
    ndim = 0
    size = 1

    @property
    def itemsize(self):
        return self.dtype.itemsize

    nbytes = itemsize

    def val(self):
        return num(self.c, self.dtype)

    def item(self):
        return self.val()

    tolist = item

    def byteswap(self, inplace=False):
        if self.dtype.itemsize == 1:
            return self
        return SymNp(self.dtype, swap(self.c))

    def tobytes(self, order='C'):
        return cells_bytes([self.c], self.dtype)

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        return SymNp(dt, cast_cell(self.c, self.dtype, dt))

    def copy(self):
        return self

    def view(self, dt):
        return SymArray.scalar0(self).view(dt)

    def __array__(self, dtype=None, copy=None):
        return core.CUR.concretize_arr(SymArray.scalar0(self))

    def _bin(self, o, op, rev=False):
        if type(o) is SymArray:
            return NotImplemented
        r = np_binop(self, o, op, rev)
        return r

    def __add__(self, o):
        return self._bin(o, '+')

    def __radd__(self, o):
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        return self._bin(o, '*')

    def __rmul__(self, o):
        return self._bin(o, '*', True)

    def __truediv__(self, o):
        return self._bin(o, '/')

    def __rtruediv__(self, o):
        return self._bin(o, '/', True)

    def __pow__(self, o):
        if type(o) is int and o == 2:
            return self * self
        return core.CUR.concretize_np(self) ** o

    def __mod__(self, o):
        v = self.val()
        if type(v) is SymInt and type(o) is int:
            return SymNp(self.dtype, v % o)
        return core.CUR.concretize_np(self) % o

    def __neg__(self):
        return np_binop(SymNp(self.dtype, 0 if self.dtype.kind in 'iu' else -0.0), self, '-')

    def __abs__(self):
        v = self.val()
        return SymNp(self.dtype, abs(v) if self.dtype.kind == 'f' else wrap_int(abs(v), self.dtype))

    def _cmp(self, o, op):
        v = self.val()
        if type(o) is SymNp:
            o = o.val()
        elif isinstance(o, np.generic) and not is_sym(o):
            o = o.item()
        elif type(o) is SymArray or (isinstance(o, np.ndarray)):
            return NotImplemented
        return {'==': lambda: v == o, '!=': lambda: v != o, '<': lambda: v < o, '<=': lambda: v <= o,
                '>': lambda: v > o, '>=': lambda: v >= o}[op]()

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self.val() != 0)

    def __hash__(self):
        return hash(self.val())

    def __float__(self):
        return float(self.val())

    def __int__(self):
        return int(self.val())

    def __index__(self):
        return self.val().__index__()

    def __str__(self):
        return '<symnp>'

    __repr__ = __str__

    def __format__(self, s):
        return '<symnp>'

    def __round__(self, n=None):
        return round(self.val(), n) if n is not None else round(self.val())

    def is_integer(self):
        v = self.val()
        return v.is_integer()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        getattr(self.dtype.type, name)
        return getattr(core.CUR.concretize_np(self), name)

    def __deepcopy__(self, memo):
        return self


_BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def _np_val(x):
    if type(x) is SymNp:
        return x.val(), x.dtype
    if isinstance(x, np.generic) and not is_sym(x):
        return x.item(), x.dtype
    return x, None


def np_binop(a, b, op, rev=False):
    if rev:
        a, b = b, a
    va, da = _np_val(a)
    vb, db = _np_val(b)

    def dummy(d, v):
        if d is not None:
            return np.ones(1, d)[0]
        if isinstance(v, bool):
            return True
        if isinstance(v, int):
            return 1
        if isinstance(v, float):
            return 1.0
        raise core.Unsupported('np_binop operand')
    with np.errstate(all='ignore'):
        rd = np.asarray(_BIN[op](dummy(da, va), dummy(db, vb))).dtype
    if rd.kind in 'iu':
        return SymNp(rd, wrap_int(_BIN[op](core.as_int(va), core.as_int(vb)), rd))
    if rd.kind != 'f':
        raise core.Unsupported('np_binop kind')
    va = SymFlt.from_int(core.as_int(va)) if isinstance(va, int) else va
    vb = SymFlt.from_int(core.as_int(vb)) if isinstance(vb, int) else vb
    if not is_sym(va) and not is_sym(vb):
        with np.errstate(all='ignore'):
            return SymNp(rd, np.asarray(_BIN[op](np.asarray(va, rd), np.asarray(vb, rd))).item())
    # float arithmetic with infinities/NaN operands that are concrete
    for x, other in ((va, vb), (vb, va)):
        if not is_sym(x) and not math.isfinite(x) and type(other) is SymFlt and other.r is not None:
            with np.errstate(all='ignore'):
                # any finite value of `other` gives the same result for +,-; for * and / only the sign matters
                if op in '+-':
                    a_, b_ = (va, 1.0) if other is vb else (1.0, vb)
                    return SymNp(rd, float(_BIN[op](np.float64(a_), np.float64(b_))))
                o = float(other)
                a_, b_ = (va, o) if other is vb else (o, vb)
                return SymNp(rd, float(_BIN[op](np.float64(a_), np.float64(b_))))
    if op == '/':
        if bool(vb == 0):
            o = va if not is_sym(va) else float(va)
            with np.errstate(all='ignore'):
                return SymNp(rd, float(np.float64(o) / np.float64(0.0)))
    if rd.itemsize == 4 and not (type(va) is SymFlt and va.r is not None or type(vb) is SymFlt and vb.r is not None):
        raise core.Unsupported('float32 arithmetic on opaque bits')
    return SymNp(rd, _BIN[op](va, vb))


def cells_bytes(cells, dt):
    """memory bytes of the cells with dtype dt"""
    big = dt.byteorder == '>' or dt.itemsize == 1
    parts = []
    for c in cells:
        parts.append(cell_part(c if big else swap(c), dt))
    return SymBytes(parts).lower()


def obj_dtype(dt):
    """object-cell counterpart of a (structured) dtype"""
    if dt.names is None:
        return np.dtype(object)
    return np.dtype([(n, object, dt[n].shape) if dt[n].shape else (n, object) for n in dt.names])


SHAPE_OPS = ('reshape', 'ravel', 'flatten', 'transpose', 'squeeze', 'swapaxes', 'repeat', 'take')


class SymArray(SymBase):
    _is_sym = True

    def __init__(self, obj, dtype, name=None):
        self.obj = obj
        self._dtype = np.dtype(dtype)
        self.name = name

    @property
    def __class__(self):
        return np.ndarray

    @staticmethod
    def scalar0(s):
        o = np.empty((), dtype=object)
        o[()] = s.c
        return SymArray(o, s.dtype)

    @property
    def dtype(self):
        return self._dtype

    @dtype.setter
    def dtype(self, d):
        d = np.dtype(d)
        if (d.kind, d.itemsize) == (self._dtype.kind, self._dtype.itemsize):
            if d.byteorder != self._dtype.byteorder and d.itemsize > 1:
                self._map_inplace(swap)
            self._dtype = d
        else:
            raise core.Unsupported('dtype assignment')

    shape = property(lambda s: s.obj.shape)
    ndim = property(lambda s: s.obj.ndim)
    size = property(lambda s: s.obj.size)
    itemsize = property(lambda s: s._dtype.itemsize)
    nbytes = property(lambda s: s.obj.size * s._dtype.itemsize)
    flags = property(lambda s: s.obj.flags)
    T = property(lambda s: SymArray(s.obj.T, s._dtype))

    @property
    def base(self):
        return self.obj.base

    @property
    def strides(self):
        k = self.obj.dtype.itemsize
        return tuple(x // k * self._dtype.itemsize for x in self.obj.strides)

    def _map_inplace(self, f):
        o = self.obj
        for idx in np.ndindex(o.shape):
            o[idx] = f(o[idx])

    def _map(self, f, dtype=None):
        o = np.empty(self.obj.shape, dtype=object)
        for idx in np.ndindex(o.shape):
            o[idx] = f(self.obj[idx])
        return SymArray(o, dtype or self._dtype)

    def __len__(self):
        return len(self.obj)

    @staticmethod
    def _key(k):
        def one(x):
            if isinstance(x, slice):
                return slice(*[y.__index__() if is_sym(y) else y for y in (x.start, x.stop, x.step)])
            if type(x) is SymInt or type(x) is SymNp:
                return x.__index__()
            if type(x) is SymArray:
                return x.to_real_bool()
            if type(x) is SymBool:
                return bool(x)
            return x
        if isinstance(k, tuple):
            return tuple(one(x) for x in k)
        return one(k)

    def to_real_bool(self):
        if self._dtype.kind == 'b':
            o = np.empty(self.obj.shape, dtype=bool)
            for i in np.ndindex(o.shape):
                o[i] = bool(self.obj[i])
            return o
        return core.CUR.concretize_arr(self)

    def __getitem__(self, k):
        if isinstance(k, str):
            if self._dtype.names is None:
                raise IndexError('only integers, slices... are valid indices')
            if is_sym(k):
                for n in self._dtype.names:
                    if k == n:
                        k = n
                        break
                else:
                    raise ValueError('no field of name')
            o = self.obj[k]         # ValueError if missing
            return SymArray(o, self._dtype[k].base)
        if isinstance(k, list) and k and all(isinstance(x, str) for x in k):
            return SymArray(self.obj[k], self._dtype[k])
        k = self._key(k)
        o = self.obj[k]
        if isinstance(o, np.ndarray):
            return SymArray(o, self._dtype)
        if self._dtype.names is not None:
            return SymRow(o, self._dtype)
        return SymNp(self._dtype, o)

    def __setitem__(self, k, v):
        if isinstance(k, str) and is_sym(k):
            for n in self._dtype.names or ():
                if k == n:
                    k = n
                    break
            else:
                raise ValueError('no field of name')
        dt = self._dtype[k].base if isinstance(k, str) else self._dtype
        k2 = k if isinstance(k, str) else self._key(k)
        if type(v) is SymArray:
            if v._dtype.names is not None or dt.names is not None:
                if v._dtype.names is not None and dt.names is not None:
                    # structured assignment is by position
                    tgt = self.obj[k2]
                    for a, b in zip(dt.names, v._dtype.names):
                        SymArray(tgt[a], dt[a].base)[...] = SymArray(v.obj[b], v._dtype[b].base)
                    return
                raise core.Unsupported('structured assignment')
            self.obj[k2] = v.astype(dt).obj
        elif type(v) is SymNp:
            c = cast_cell(v.c, v.dtype, dt)
            self.obj[k2] = c
        elif isinstance(v, np.ndarray) or isinstance(v, np.generic):
            self.obj[k2] = from_real(np.asarray(v)).astype(dt).obj
        else:
            self.obj[k2] = v

    def __iter__(self):
        for i in range(len(self.obj)):
            yield self[i]

    def cells(self):
        return [self.obj[i] for i in np.ndindex(self.obj.shape)]

    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dt)
        if not copy and dt == self._dtype:
            return self
        if self._dtype.names is not None or dt.names is not None:
            if dt.names is None or self._dtype.names is None:
                raise core.Unsupported('struct astype')
            out = SymArray(np.zeros(self.obj.shape, dtype=obj_dtype(dt)), dt)
            for a, b in zip(dt.names, self._dtype.names):
                out[a] = self[b]
            return out
        s = self._dtype
        r = self._map(lambda c: cast_cell(c, s, dt), dt)
        return r

    def copy(self, order='C'):
        return SymArray(self.obj.copy(), self._dtype)

    def byteswap(self, inplace=False):
        if self._dtype.names is not None:
            raise core.Unsupported('struct byteswap')
        if self._dtype.itemsize == 1:
            return self if inplace else self.copy()
        if inplace:
            self._map_inplace(swap)
            return self
        return self._map(swap)

    def tobytes(self, order='C'):
        if self._dtype.names is not None:
            out = SymBytes([])
            for row in self:
                for f in row:
                    pass
                out = out + row.tobytes()
            return out.lower()
        o = self.obj
        if order == 'F' or (order == 'A' and o.flags.f_contiguous and not o.flags.c_contiguous):
            return cells_bytes(list(o.T.ravel()) if o.ndim else [o[()]], self._dtype)
        return cells_bytes(self.cells(), self._dtype)

    def view(self, dt=None, *a):
        if dt is None or dt is np.ndarray:
            return SymArray(self.obj.view(), self._dtype)
        dt = np.dtype(dt)
        if (dt.kind, dt.itemsize) == (self._dtype.kind, self._dtype.itemsize):
            if dt.byteorder == self._dtype.byteorder or dt.itemsize == 1 or dt == self._dtype:
                return SymArray(self.obj.view(), dt)
            return self._map(swap, dt)
        if dt.itemsize == self._dtype.itemsize and dt.names is None and self._dtype.names is None:
            s = self._dtype
            return self._map(lambda c: Bits(cell_bits(c, s)), dt)
        raise core.Unsupported('view')

    def tolist(self):
        if self.ndim == 0:
            return num(self.obj[()], self._dtype)
        return [x.tolist() if hasattr(x, 'tolist') else x for x in self]

    def item(self, *a):
        if not a:
            if self.obj.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return num(self.cells()[0], self._dtype)
        return num(self.obj[a if len(a) > 1 else a[0]], self._dtype)

    def fill(self, v):
        self[...] = v

    def _vals(self):
        return [SymNp(self._dtype, c) for c in self.cells()]

    def _reduce(self, op):
        v = self._vals()
        if not v:
            raise ValueError('zero-size array to reduction operation')
        if self._dtype.kind == 'f':
            for x in v:
                isn = x.val() != x.val()
                if isn is not False and bool(isn):
                    return SymNp(self._dtype, x.c)
        # a single if-then-else term instead of one path per ordering
        nums = [x.val() for x in v]
        if all(isinstance(x, int) for x in nums):
            lo, hi = zip(*[(x.bounds() if type(x) is SymInt else (x, x)) for x in nums])
            e = core.zi(nums[0])
            for x in nums[1:]:
                z = core.zi(x)
                e = z3.If(z < e, z, e) if op == '<' else z3.If(z > e, z, e)
            e = z3.simplify(e)
            if z3.is_int_value(e):
                return SymNp(self._dtype, e.as_long())
            b = (min(lo), min(hi)) if op == '<' else (max(lo), max(hi))
            return SymNp(self._dtype, core.atom(e, *b))
        best = v[0]
        for x in v[1:]:
            if (x < best) if op == '<' else (x > best):
                best = x
        return best

    def min(self, axis=None, **k):
        if axis not in (None, 0) or self.ndim != 1:
            return core.CUR.concretize_arr(self).min(axis=axis, **k)
        return self._reduce('<')

    def max(self, axis=None, **k):
        if axis not in (None, 0) or self.ndim != 1:
            return core.CUR.concretize_arr(self).max(axis=axis, **k)
        return self._reduce('>')

    def all(self, axis=None, **k):
        r = True
        for x in self.cells():
            b = num(x, self._dtype)
            if not is_sym(b):
                if not b:
                    return False
                continue
            if type(b) is not SymBool:
                b = b != 0
            r = core.sym_and(r, b)
        return r

    def any(self, axis=None, **k):
        r = False
        for x in self.cells():
            b = num(x, self._dtype)
            if not is_sym(b):
                if b:
                    return True
                continue
            if type(b) is not SymBool:
                b = b != 0
            r = core.sym_or(r, b)
        return r

    def _elem(self, o, f, boolean=False, dummyop=None):
        if type(o) is SymArray:
            a, b = np.broadcast_arrays(self.obj, o.obj)
            db = o._dtype
        elif isinstance(o, np.ndarray):
            o = from_real(o)
            a, b = np.broadcast_arrays(self.obj, o.obj)
            db = o._dtype
        else:
            a = self.obj
            b = None
            db = None
        out = np.empty(a.shape, dtype=object)
        rd = np.dtype(bool)
        for i in np.ndindex(out.shape):
            y = SymNp(db, b[i]) if b is not None else o
            r = f(SymNp(self._dtype, a[i]), y)
            if boolean:
                out[i] = r
            else:
                out[i] = r.c
                rd = r.dtype
        if not out.size and not boolean:
            rd = self._dtype
        return SymArray(out, rd)

    def __add__(self, o):
        return self._elem(o, lambda x, y: np_binop(x, y, '+'))

    def __radd__(self, o):
        return self._elem(o, lambda x, y: np_binop(y, x, '+'))

    def __sub__(self, o):
        return self._elem(o, lambda x, y: np_binop(x, y, '-'))

    def __rsub__(self, o):
        return self._elem(o, lambda x, y: np_binop(y, x, '-'))

    def __mul__(self, o):
        return self._elem(o, lambda x, y: np_binop(x, y, '*'))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._elem(o, lambda x, y: np_binop(x, y, '/'))

    def __rtruediv__(self, o):
        return self._elem(o, lambda x, y: np_binop(y, x, '/'))

    def __pow__(self, o):
        if type(o) is int and o == 2:
            return self * self
        return core.CUR.concretize_arr(self) ** o

    def __neg__(self):
        return self._elem(None, lambda x, y: -x)

    def __abs__(self):
        return self._elem(None, lambda x, y: abs(x))

    def __eq__(self, o):
        return self._elem(o, lambda x, y: x == y, True)

    def __ne__(self, o):
        return self._elem(o, lambda x, y: x != y, True)

    def __lt__(self, o):
        return self._elem(o, lambda x, y: x < y, True)

    def __le__(self, o):
        return self._elem(o, lambda x, y: x <= y, True)

    def __gt__(self, o):
        return self._elem(o, lambda x, y: x > y, True)

    def __ge__(self, o):
        return self._elem(o, lambda x, y: x >= y, True)

    def __and__(self, o):
        return self._elem(o, lambda x, y: x.val() & (y.val() if type(y) is SymNp else y), True)

    def __or__(self, o):
        return self._elem(o, lambda x, y: x.val() | (y.val() if type(y) is SymNp else y), True)

    def __invert__(self):
        if self._dtype.kind == 'b':
            return self._map(lambda c: sym_not(c))
        raise core.Unsupported('~array')

    __hash__ = None

    def __bool__(self):
        if self.obj.size == 1:
            return bool(num(self.cells()[0], self._dtype) != 0)
        if self.obj.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __array__(self, dtype=None, copy=None):
        r = core.CUR.concretize_arr(self)
        return r if dtype is None else r.astype(dtype)

    def __repr__(self):
        return f'SymArray{self.shape}{self._dtype}'

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __getattr__(self, name):
        if name.startswith('__') or name in ('obj', '_dtype'):
            raise AttributeError(name)
        if name in SHAPE_OPS:
            def call(*a, **k):
                return SymArray(getattr(self.obj, name)(*a, **k), self._dtype)
            return call
        if name == 'setflags':
            return self.obj.setflags
        if name == 'flat':
            return iter(self[i] for i in np.ndindex(self.obj.shape))
        if not callable(getattr(np.ndarray, name)):
            return getattr(core.CUR.concretize_arr(self), name)

        def native(*a, **k):
            from .models import call_conc
            return call_conc(getattr(np.ndarray, name), (self,) + a, k)
        return native

    def _inplace(self, o, op):
        if not self.obj.flags.writeable:
            raise ValueError('output array is read-only')
        d = np.ones(1, self._dtype)
        od = o._dtype if type(o) is SymArray else o.dtype if type(o) is SymNp or isinstance(o, (np.ndarray, np.generic)) \
            else None
        one = np.ones(1, od) if od is not None else (1.5 if isinstance(o, float) else 1)
        getattr(d, '__i' + op + '__')(one)                                # a cast numpy refuses is refused here
        self[...] = getattr(self, '__' + op + '__')(o)
        return self

    def __iadd__(self, o):
        return self._inplace(o, 'add')

    def __isub__(self, o):
        return self._inplace(o, 'sub')

    def __imul__(self, o):
        return self._inplace(o, 'mul')

    def __itruediv__(self, o):
        return self._inplace(o, 'truediv')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()


class SymRow(SymBase):
    """np.void counterpart: one row of a structured array (a view)"""
    _is_sym = True

    def __init__(self, row, dtype):
        self.row = row
        self.dtype = dtype

    @property
    def __class__(self):
        return np.void

    def __len__(self):
        return len(self.dtype.names)

    def _field(self, n):
        dt = self.dtype[n]
        v = self.row[n]
        if dt.shape:
            return SymArray(v, dt.base)
        return SymNp(dt.base, v)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.dtype.names:
                raise ValueError('no field of name')
            return self._field(k)
        if isinstance(k, slice):
            return tuple(self._field(n) for n in self.dtype.names[k])
        return self._field(self.dtype.names[k])

    def __iter__(self):
        for n in self.dtype.names:
            yield self._field(n)

    def item(self):
        return tuple(self)

    tolist = item

    def tobytes(self, order='C'):
        out = SymBytes([])
        for n in self.dtype.names:
            dt = self.dtype[n]
            v = self.row[n]
            cells = [v[i] for i in np.ndindex(v.shape)] if dt.shape else [v]
            out = out + cells_bytes(cells, dt.base)
        return out.lower()

    def __array__(self, dtype=None, copy=None):
        raise core.Unsupported('np.void to array')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise core.Unsupported('np.void.' + name)


def from_real(a):
    """SymArray with concrete cells"""
    if a.dtype.names is not None:
        out = SymArray(np.zeros(a.shape, dtype=obj_dtype(a.dtype)), a.dtype)
        for n in a.dtype.names:
            out.obj[n] = from_real(a[n]).obj
        return out
    o = np.empty(a.shape, dtype=object)
    nat = a.astype(a.dtype.newbyteorder('='))
    w = a.dtype.itemsize * 8
    raw = nat.view(f'u{a.dtype.itemsize}') if a.dtype.kind in 'f' else nat
    for i in np.ndindex(a.shape):
        if a.dtype.kind == 'f':
            v = nat[i].item()
            o[i] = Bits(z3.BitVecVal(int(raw[i]), w)) if v != v else v
        elif a.dtype.kind in 'iub':
            o[i] = nat[i].item()
        else:
            raise core.Unsupported('array kind ' + a.dtype.kind)
    return SymArray(o, a.dtype)


def write_back(s, c, before):
    """carry what a native call changed in place in `c`, the concretised copy of `s`, back to `s`"""
    if c.dtype != before.dtype or c.shape != before.shape:
        raise core.Unsupported('array changed in place to another type or shape')
    if c.dtype.names is not None:
        for n in c.dtype.names:
            write_back(s[n], c[n], before[n])
        return
    if c.tobytes() == before.tobytes():
        return
    new = from_real(c)
    for i in np.ndindex(c.shape):
        if c[i].tobytes() != before[i].tobytes():
            s.obj[i] = new.obj[i]


# ---- numpy function models -----------------------------------------------------------------------------------------


def m_zeros(shape, dtype=float, order='C', **k):
    ctx = core.CUR
    if not ctx.sym_arrays:
        if is_sym(shape):
            shape = shape.__index__()
        return np.zeros(shape, dtype, order)
    dt = np.dtype(dtype)
    if is_sym(shape):
        shape = shape.__index__()
    if isinstance(shape, tuple):
        shape = tuple(x.__index__() if is_sym(x) else x for x in shape)
    o = np.zeros(shape, dtype=obj_dtype(dt))    # object zeros: ints 0
    if dt.names is not None:
        return SymArray(o, dt)
    return SymArray(o, dt)


def m_diff(a, n=1, axis=-1, **k):
    if n != 1 or a.ndim != 1:
        return np.diff(core.CUR.concretize_arr(a), n, axis)
    return a[1:] - a[:-1]


def _isnan(x):
    v = x.val()
    if isinstance(v, int):
        return False
    return v != v


def m_sort(a, *args, **k):
    """insertion sort, forking on comparisons; NaN last"""
    out = []
    for x in a._vals():
        if bool(_isnan(x)):
            out.append(x)
            continue
        j = len(out)
        while j > 0 and (bool(_isnan(out[j - 1])) or bool(x < out[j - 1])):
            j -= 1
        out.insert(j, x)
    o = np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        o[i] = x.c
    return SymArray(o, a.dtype)


def m_unique(a, **k):
    if k:
        return np.unique(core.CUR.concretize_arr(a), **k)
    s = m_sort(a)
    out = []
    for x in s._vals():
        if out:
            if bool(_isnan(x)) and bool(_isnan(out[-1])):
                continue
            if bool(x == out[-1]):
                continue
        out.append(x)
    o = np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        o[i] = x.c
    return SymArray(o, a.dtype)


def m_median(a, axis=None, **k):
    f = a.astype(np.float64) if a.dtype.kind in 'iub' else a
    vals = f._vals()
    if not vals:
        return np.float64('nan')
    for x in vals:
        if bool(_isnan(x)):
            return SymNp(f.dtype, float('nan'))
    s = m_sort(f)._vals()
    n = len(s)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / SymNp(f.dtype, 2.0)


def m_array(obj, dtype=None, **k):
    if type(obj) is SymArray:
        r = obj.copy()
        return r.astype(dtype) if dtype is not None else r
    if type(obj) is SymNp:
        return SymArray.scalar0(obj)
    if not deep_sym(obj):
        return np.array(obj, dtype=dtype, **k)
    # nested lists with symbolic leaves: shape from a skeleton

    def skel(x):
        if isinstance(x, (list, tuple)):
            return [skel(y) for y in x]
        if type(x) is SymArray or isinstance(x, np.ndarray):
            return np.zeros(x.shape)
        return 0
    sk = np.array(skel(obj))        # ValueError if ragged
    o = np.empty(sk.shape, dtype=object)
    kinds = set()
    for i in np.ndindex(sk.shape):
        y = obj
        for j in i:
            y = y[j]
        if type(y) is SymNp:
            kinds.add(y.dtype)
            o[i] = y.c
        else:
            kinds.add(np.dtype(np.int64) if isinstance(y, (int, bool)) else
                      np.dtype(np.float64) if isinstance(y, float) else np.dtype(object))
            o[i] = y
    if dtype is not None:
        dt = np.dtype(dtype)
    elif np.dtype(object) in kinds:
        dt = np.dtype(object)
    else:
        dt = np.result_type(*kinds) if kinds else np.dtype(np.float64)
    return SymArray(o, dt)


def deep_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(y) for y in x.values())
    return False


def m_isnan(x):
    if type(x) is SymArray:
        return SymArray(x._map(lambda c: _isnan(SymNp(x.dtype, c))).obj, bool)
    if type(x) is SymNp:
        return _isnan(x)
    return x != x


def m_isfinite(x):
    def fin(v):
        v = v.val() if type(v) is SymNp else v
        if isinstance(v, int):
            return True
        if type(v) is SymFlt:
            if v.r is not None:
                return True
            f = v.fp()
            return SymBool.mk(z3.Not(z3.Or(z3.fpIsNaN(f), z3.fpIsInf(f))))
        return math.isfinite(v)
    if type(x) is SymArray:
        return SymArray(x._map(lambda c: fin(SymNp(x.dtype, c))).obj, bool)
    return fin(x)


def m_array_equal(a, b, **k):
    if a.shape != b.shape:
        return False
    return (a == b).all()


def m_asarray(a, dtype=None, **k):
    if type(a) is SymArray:
        return a if dtype is None else a.astype(dtype, copy=False)
    return m_array(a, dtype)


def m_ascontiguous(a, dtype=None, **k):
    r = a if dtype is None else a.astype(dtype, copy=False)
    if r.obj.flags.c_contiguous:
        return r
    return r.copy()


def m_concatenate(arrs, axis=0, **k):
    arrs = [x if type(x) is SymArray else from_real(x) for x in arrs]
    dt = np.result_type(*[x.dtype for x in arrs])
    return SymArray(np.concatenate([x.astype(dt).obj for x in arrs], axis=axis), dt)


NP_MODELS = {
    np.diff: m_diff, np.unique: m_unique, np.median: m_median, np.array: m_array, np.asarray: m_asarray,
    np.asanyarray: m_asarray, np.ascontiguousarray: m_ascontiguous, np.require: lambda a, *r, **k: a,
    np.sort: m_sort, np.isnan: m_isnan, np.isfinite: m_isfinite, np.array_equal: m_array_equal,
    np.min: lambda a, **k: a.min(**k), np.max: lambda a, **k: a.max(**k), np.amin: lambda a, **k: a.min(**k),
    np.amax: lambda a, **k: a.max(**k), np.all: lambda a, **k: a.all(**k), np.any: lambda a, **k: a.any(**k),
    np.copy: lambda a, **k: a.copy(), np.abs: abs, np.concatenate: m_concatenate,
    np.ndim: lambda a: a.ndim, np.shape: lambda a: a.shape, np.size: lambda a: a.size,
    np.atleast_1d: lambda a: a if a.ndim else a.reshape(1),
    np.subtract: lambda a, b: a - b, np.less: lambda a, b: a < b, np.greater: lambda a, b: a > b,
    np.equal: lambda a, b: a == b,
    np.squeeze: lambda a, **k: a.squeeze(**k), np.ravel: lambda a, **k: a.ravel(**k),
    np.reshape: lambda a, s, **k: a.reshape(s, **k),
}

"""Symbolic bytes (ropes), strings, floats and date-times."""
from __future__ import annotations

import datetime as _dt
from fractions import Fraction
import z3

from . import core
from .core import SymBase, SymInt, SymBool, is_sym, cmp0, sym_not, zi, INF, Unsupported


# --------------------------------------------------------------------------------------------------------------------
# rope parts


class Blob:
    """An opaque source of bytes: contents arbitrary, length symbolic or concrete."""
    __slots__ = ('name', 'n', 'kind', 'owner')

    def __init__(self, name, n, kind='bytes', owner=None):
        self.name, self.n, self.kind, self.owner = name, n, kind, owner


_LIT = {}


def lit_blob(b):
    """literal bytes that are cut at symbolic positions"""
    r = _LIT.get(b)
    if r is None:
        r = _LIT[b] = Blob(f'lit{len(_LIT)}', len(b), 'lit', LitOwner(b))
    return r


class LitOwner:
    ascii = True

    def __init__(self, b):
        self.b = b

    def eq_atom(self, o):
        if isinstance(o, LitOwner):
            return self.b == o.b
        return o.eq_lit(self.b)

    def eq_lit(self, b):
        return self.b == b


class PC:
    """concrete bytes"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    @property
    def n(self):
        return len(self.b)

    def cut(self, a, b):
        if type(a) is SymInt or type(b) is SymInt:
            return PB(lit_blob(self.b), a, b - a)
        return PC(self.b[a:b])


class PI:
    """big-endian unsigned bytes i..i+w of an integer expression written on W bytes"""
    __slots__ = ('x', 'w')

    def __init__(self, x, w):
        self.x, self.w = x, w

    @property
    def n(self):
        return self.w

    def cut(self, a, b):
        if a == 0 and b == self.w:
            return self
        x = self.x
        lo = self.w - b
        x = x // (256 ** lo) if lo else x
        x = x % (256 ** (b - a))
        if type(x) is not SymInt:
            return PC(int(x).to_bytes(b - a, 'big'))
        return PI(x, b - a)


class PV:
    """bit-vector bytes, most significant first"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    @property
    def n(self):
        return self.v.size() // 8

    def cut(self, a, b):
        if a == 0 and b == self.n:
            return self
        hi = self.v.size() - 8 * a - 1
        lo = self.v.size() - 8 * b
        return PV(z3.simplify(z3.Extract(hi, lo, self.v)))


class PR:
    """IEEE-754 big-endian bytes of an exactly representable real"""
    __slots__ = ('x', 'w')

    def __init__(self, x, w):
        self.x, self.w = x, w

    @property
    def n(self):
        return self.w

    def cut(self, a, b):
        if a == 0 and b == self.w:
            return self
        # a fragment of the float: opaque
        v = core.CUR.concretize_flt(self.x)
        import struct
        return PC(struct.pack('>d' if self.w == 8 else '>f', v)[a:b])


class PB:
    """slice of a blob"""
    __slots__ = ('blob', 'off', 'len')

    def __init__(self, blob, off, n):
        self.blob, self.off, self.len = blob, off, n

    @property
    def n(self):
        return self.len

    def cut(self, a, b):
        return PB(self.blob, self.off + a, b - a).norm()

    def norm(self):
        if self.blob.kind == 'lit' and type(self.off) is not SymInt and type(self.len) is not SymInt:
            return PC(self.blob.owner.b[self.off:self.off + self.len])
        return self


class PF:
    """one byte repeated"""
    __slots__ = ('c', 'len')

    def __init__(self, c, n):
        self.c, self.len = c, n

    @property
    def n(self):
        return self.len

    def cut(self, a, b):
        n = b - a
        if type(n) is not SymInt and n <= 4096 and type(self.c) is not SymInt:
            return PC(bytes([self.c]) * n)
        return PF(self.c, n)


def _dec(c):
    return bool(c)


class SymBytes(SymBase):
    """Immutable rope."""
    __slots__ = ('parts', 'size', '_mut')
    _is_sym = True

    def __init__(self, parts, size=None):
        ps = []
        for p in parts:
            n = p.n
            if type(n) is not SymInt and n == 0:
                continue
            if ps and type(p) is PC and type(ps[-1]) is PC:
                ps[-1] = PC(ps[-1].b + p.b)
            elif ps and type(p) is PB and type(ps[-1]) is PB and p.blob is ps[-1].blob \
                    and _syn_eq(ps[-1].off + ps[-1].len, p.off):
                ps[-1] = PB(p.blob, ps[-1].off, ps[-1].len + p.len).norm()
                if type(ps[-1]) is PC and len(ps) > 1 and type(ps[-2]) is PC:
                    ps[-2:] = [PC(ps[-2].b + ps[-1].b)]
            elif ps and type(p) is PF and type(ps[-1]) is PF and _syn_eq(p.c, ps[-1].c):
                ps[-1] = PF(p.c, ps[-1].len + p.len)
            else:
                ps.append(p)
        self.parts = ps
        if size is None:
            size = 0
            for p in ps:
                size = size + p.n
        self.size = size

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def wrap(b):
        t = type(b)
        if t is SymBytes:
            return b
        if t is SymByteArray:
            return b.content()
        if isinstance(b, (bytes, bytearray, memoryview)):
            return SymBytes([PC(bytes(b))])
        raise TypeError(f'expected bytes, got {t}')

    @staticmethod
    def from_int(x, w):
        """big-endian, x already known to be in range"""
        if type(x) is not SymInt:
            return SymBytes([PC(int(x).to_bytes(w, 'big'))])
        return SymBytes([PI(x, w)])

    def lower(self):
        """plain bytes if fully concrete"""
        if not self.parts:
            return b''
        if len(self.parts) == 1 and type(self.parts[0]) is PC:
            return self.parts[0].b
        return self

    def _repeat(self, n):
        if len(self.parts) == 1 and type(self.parts[0]) is PC and len(self.parts[0].b) == 1:
            if n <= 0:
                return b''
            return SymBytes([PF(self.parts[0].b[0], n)])
        if len(self.parts) == 1 and type(self.parts[0]) is PI and self.parts[0].w == 1:
            if n <= 0:
                return b''
            return SymBytes([PF(self.parts[0].x, n)])
        n = n.__index__()
        return SymBytes(self.parts * max(n, 0)).lower()

    def __add__(self, o):
        if is_sym(o) and type(o) not in (SymBytes, SymByteArray):
            return NotImplemented
        try:
            o = SymBytes.wrap(o)
        except TypeError:
            return NotImplemented
        return SymBytes(self.parts + o.parts, self.size + o.size)

    def __radd__(self, o):
        if isinstance(o, bytearray):
            # bytearray + bytes -> bytearray
            return SymByteArray(SymBytes.wrap(bytes(o)) + self)
        try:
            o = SymBytes.wrap(o)
        except TypeError:
            return NotImplemented
        return SymBytes(o.parts + self.parts, self.size + o.size)

    def __mul__(self, n):
        return self._repeat(n)

    __rmul__ = __mul__

    def slice(self, a, b):
        """rope bytes a..b with 0 <= a <= b <= size (may fork to locate the cut points)"""
        out = []
        pos = 0
        started = False
        for p in self.parts:
            n = p.n
            end = pos + n
            if not started:
                if not (_syn_eq(a, pos)) and _dec(a >= end):
                    pos = end
                    continue
                started = True
                s = a - pos
                if type(s) is SymInt and core.CUR.impossible(s != 0):
                    s = 0
            else:
                s = 0
            # the part contributes bytes s..min(n, b-pos)
            if _syn_eq(b, pos):
                break
            if _dec(b <= end):
                e = b - pos
                if not _syn_eq(e, n) and (type(e) is SymInt or type(n) is SymInt) and core.CUR.impossible(e != n):
                    e = n
                if _dec(e > s):
                    out.append(p if (_syn_eq(s, 0) and _syn_eq(e, n)) else p.cut(*_cutpos(p, s, e)))
                break
            out.append(p if _syn_eq(s, 0) else p.cut(*_cutpos(p, s, n)))
            pos = end
        return SymBytes(out)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return core.CUR.concretize_bytes(self)[k]
            a, b = norm_slice(k, self.size)
            return self.slice(a, b).lower()
        if k < 0:
            k = self.size + k
        if k < 0 or k >= self.size:
            raise IndexError('index out of range')
        return self.slice(k, k + 1).to_uint()

    def to_uint(self):
        """Big-endian unsigned value."""
        v = 0
        for p in self.parts:
            t = type(p)
            if t is PC:
                v = v * (256 ** len(p.b)) + int.from_bytes(p.b, 'big')
            elif t is PI:
                v = v * (256 ** p.w) + p.x
            elif t is PV:
                w = p.n
                v = v * (256 ** w) + core.atom(z3.BV2Int(p.v), 0, 256 ** w - 1)
            elif t is PF:
                n = p.len.__index__()
                for _ in range(n):
                    v = v * 256 + p.c
            elif t is PB:
                n = p.len.__index__()
                for i in range(n):
                    v = v * 256 + core.CUR.blob_byte(p.blob, p.off + i)
            else:
                b = core.CUR.concretize_bytes(SymBytes([p]))
                v = v * (256 ** len(b)) + int.from_bytes(b, 'big')
        return v

    def __len__(self):
        return self.size.__index__()

    def __bool__(self):
        return bool(self.size > 0)

    def __iter__(self):
        n = self.__len__()
        for i in range(n):
            yield self[i]

    def __eq__(self, o):
        if type(o) not in (SymBytes, SymByteArray) and not isinstance(o, (bytes, bytearray)):
            return False
        return rope_eq(self, SymBytes.wrap(o))

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        return core.CUR.hash_bytes(self)

    def __contains__(self, o):
        return o in core.CUR.concretize_bytes(self)

    def __bytes__(self):
        return core.CUR.concretize_bytes(self)

    def __repr__(self):
        out = []
        for p in self.parts:
            t = type(p)
            out.append({PC: lambda: repr(p.b), PI: lambda: f'I{p.w}', PV: lambda: f'V{p.n}', PR: lambda: f'R{p.w}',
                        PB: lambda: f'<{p.blob.name}>', PF: lambda: f'F{p.c}'}[t]())
        return 'Rope[' + ' '.join(out) + ']'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(bytes, name)        # AttributeError if it does not exist

        def call(*a, **k):
            if not k and len(a) <= 1 and name in ('strip', 'lstrip', 'rstrip') and not any(is_sym(x) for x in a):
                return bytes_strip(self, name, *a)
            if not k and len(a) == 1 and name in ('startswith', 'endswith') and isinstance(a[0], bytes) and not is_sym(a[0]):
                n = len(a[0])
                if _dec(self.size < n):
                    return False
                return self[:n] == a[0] if name == 'startswith' else self[self.size - n:] == a[0]
            b = core.CUR.concretize_bytes(self)
            return getattr(b, name)(*a, **k)
        return call

    def join(self, it):
        out = SymBytes([])
        first = True
        for x in it:
            if not first:
                out = out + self
            out = out + x
            first = False
        return out.lower()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _syn_eq(a, b):
    d = a - b
    return type(d) is not SymInt and d == 0


def _cutpos(p, s, e):
    """cut positions: concrete for parts with fixed layout"""
    if type(p) is PC or type(p) is PB and p.blob.kind == 'lit':
        return _determined(s), _determined(e)
    if type(p) in (PB, PF):
        return s, e
    if type(s) is SymInt:
        s = s.__index__()
    if type(e) is SymInt:
        e = e.__index__()
    return s, e


def _determined(x):
    """an integer that has one value on this path becomes that value"""
    if type(x) is not SymInt:
        return x
    v = core.CUR.determined(x)
    return x if v is None else v


def norm_slice(k, size):
    a = 0 if k.start is None else k.start
    b = size if k.stop is None else k.stop
    if not _syn_eq(a, 0):
        if a < 0:
            a = size + a
            if a < 0:
                a = 0
        elif a > size:
            a = size
    if not _syn_eq(b, size):
        if b < 0:
            b = size + b
            if b < 0:
                b = 0
        elif b > size:
            b = size
    if b < a:
        b = a
    return a, b


def part_eq(p, q):
    """Equality of two parts of (path-condition-)equal length -> bool | SymBool"""
    tp, tq = type(p), type(q)
    if tp is PC and tq is PC:
        return p.b == q.b
    if tp is PI and tq is PI:
        return p.x == q.x
    if {tp, tq} == {PC, PI}:
        c, i = (p, q) if tp is PC else (q, p)
        return i.x == int.from_bytes(c.b, 'big')
    if tp is PV and tq is PV:
        if p.v.eq(q.v):
            return True
        return SymBool.mk(z3.simplify(p.v == q.v))
    if {tp, tq} == {PC, PV}:
        c, i = (p, q) if tp is PC else (q, p)
        return SymBool.mk(z3.simplify(i.v == z3.BitVecVal(int.from_bytes(c.b, 'big'), i.v.size())))
    if {tp, tq} == {PI, PV}:
        i, v = (p, q) if tp is PI else (q, p)
        return SymBool.mk(zi(i.x) == z3.BV2Int(v.v))
    if tp is PR and tq is PR:
        if p.w != q.w:
            return False
        return flt_same(p.x, q.x)
    if {tp, tq} == {PR, PC}:
        r, c = (p, q) if tp is PR else (q, p)
        import struct
        v = struct.unpack('>d' if r.w == 8 else '>f', c.b)[0]
        return flt_same(r.x, v)
    if {tp, tq} == {PR, PV}:
        r, v = (p, q) if tp is PR else (q, p)
        sort = z3.Float64() if r.w == 8 else z3.Float32()
        fp = z3.fpBVToFP(v.v, sort)
        return SymBool.mk(z3.And(z3.Not(z3.fpIsNaN(fp)), z3.Not(z3.fpIsInf(fp)),
                                 z3.fpToReal(fp) == r.x.real_z(), z3.Not(z3.And(z3.fpIsZero(fp), z3.fpIsNegative(fp)))))
    if tp is PB and tq is PB:
        if p.blob is q.blob:
            e = p.off == q.off
            if e is True:
                return True
            return core.sym_or(e, p.len == 0)
        if p.blob.owner is not None and q.blob.owner is not None and _syn_eq(p.off, 0) and _syn_eq(q.off, 0) \
                and _syn_eq(p.len, p.blob.n) and _syn_eq(q.len, q.blob.n):
            return p.blob.owner.eq_atom(q.blob.owner)
        if 'lit' in (p.blob.kind, q.blob.kind):
            lit, o = (p, q) if p.blob.kind == 'lit' else (q, p)
            n = core.as_int(lit.len).__index__()        # one case per position
            return part_eq(PB(lit.blob, core.as_int(lit.off).__index__(), n).norm(), PB(o.blob, o.off, n))
        return p.len == 0
    if tp is PF and tq is PF:
        e = p.c == q.c
        if e is True:
            return True
        return core.sym_or(e, p.len == 0)
    if {tp, tq} == {PF, PC}:
        f, c = (p, q) if tp is PF else (q, p)
        if not c.b:
            return True
        if type(f.c) is SymInt:
            return f.c == c.b[0] if len(set(c.b)) == 1 else False
        return c.b == bytes([f.c]) * len(c.b)
    if PB in (tp, tq):
        b, o = (p, q) if tp is PB else (q, p)
        if b.blob.kind == 'lit':
            # literal cut at a symbolic place against concrete bytes: one case per position
            if type(b.off) is SymInt:
                b = PB(b.blob, b.off.__index__(), b.len)
            if type(b.len) is SymInt:
                b = PB(b.blob, b.off, b.len.__index__())
            return part_eq(b.norm(), o)
        if type(o) is PC and b.blob.owner is not None and _syn_eq(b.off, 0) and _syn_eq(b.len, b.blob.n):
            return b.blob.owner.eq_lit(o.b)
        if type(o) is PC and len(o.b) <= 64:
            r = [core.CUR.blob_byte(b.blob, b.off + i) == o.b[i] for i in range(len(o.b))]
            return core.sym_and(*r)
        return b.len == 0
    # PF vs PI/PV etc. (short): go through integers
    n = p.n
    if type(n) is SymInt:
        n = n.__index__()
    return SymBytes([p]).to_uint() == SymBytes([q]).to_uint()


def rope_eq(r, s):
    """Equality of ropes -> bool | SymBool (may fork to align the parts)."""
    le = r.size == s.size
    if le is False:
        return False
    if le is not True and not bool(le):
        return False
    a, b = list(r.parts), list(s.parts)
    conds = []
    while a and b:
        p, q = a[0], b[0]
        d = p.n - q.n
        if type(d) is not SymInt and d == 0 or (type(d) is SymInt and bool(cmp0(d, '=='))):
            c = part_eq(p, q)
            a.pop(0)
            b.pop(0)
        elif bool(cmp0(d, '<') if type(d) is SymInt else d < 0):
            n = p.n
            c, rest = _split_cmp(q, p, n)
            a.pop(0)
            b[0:1] = rest
        else:
            n = q.n
            c, rest = _split_cmp(p, q, n)
            b.pop(0)
            a[0:1] = rest
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    for rest in (a, b):
        for p in rest:
            c = p.n == 0
            if c is False:
                return False
            if c is not True:
                conds.append(c)
    return core.sym_and(*conds)


def _split_cmp(big, small, n):
    """compare the first n bytes of `big` with `small`; return (cond, [rest of big])"""
    if type(n) is SymInt and type(big) not in (PB, PF, PC):
        n = n.__index__()
        if n == 0:
            return True, [big]
    head = big.cut(0, n)
    tail = big.cut(n, big.n)
    if type(small) in (PB, PF) and small.n is not n:
        small = small.cut(0, n)
    return part_eq(head, small), [tail]


class SymByteArray(SymBase):
    __slots__ = ('pre', 'fill')
    _is_sym = True

    def __init__(self, pre, fill=0):
        """content = rope `pre` followed by `fill` zero bytes"""
        self.pre = SymBytes.wrap(pre)
        self.fill = fill

    @property
    def __class__(self):
        return bytearray

    def content(self):
        if type(self.fill) is not SymInt and self.fill == 0:
            return self.pre
        return SymBytes(self.pre.parts + [PF(0, self.fill)], self.pre.size + self.fill)

    @property
    def size(self):
        return self.pre.size + self.fill

    def __len__(self):
        return self.size.__index__()

    def __bool__(self):
        return bool(self.size > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            r = self.content()[k]
            return SymByteArray(r)
        return self.content()[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            v = SymBytes.wrap(v)
            a, b = norm_slice(k, self.size)
            if _syn_eq(a, self.pre.size) or bool(a == self.pre.size):
                # append at the boundary
                if _dec(b - a <= self.fill):
                    self.fill = self.fill - (b - a)
                    self.pre = self.pre + v
                    return
            c = self.content()
            head = c.slice(0, a)
            tail = c.slice(b, c.size)
            self.pre = SymBytes(head.parts + v.parts + tail.parts)
            self.fill = 0
            # recover the zero tail
            if self.pre.parts and type(self.pre.parts[-1]) is PF and self.pre.parts[-1].c == 0:
                self.fill = self.pre.parts[-1].len
                self.pre = SymBytes(self.pre.parts[:-1])
            return
        if k < 0:
            k = self.size + k
        self[k:k + 1] = SymBytes.from_int(v, 1) if is_sym(v) else bytes([v])

    def __add__(self, o):
        return SymByteArray(self.content() + SymBytes.wrap(o))

    def __radd__(self, o):
        r = SymBytes.wrap(o) + self.content()
        return SymByteArray(r) if isinstance(o, bytearray) else r

    def __iadd__(self, o):
        self.pre = self.content() + SymBytes.wrap(o)
        self.fill = 0
        return self

    extend = __iadd__

    def append(self, x):
        self.__iadd__(SymBytes.from_int(x, 1) if is_sym(x) else bytes([x]))

    def clear(self):
        self.pre = SymBytes([])
        self.fill = 0

    def copy(self):
        return SymByteArray(self.pre, self.fill)

    def __eq__(self, o):
        return self.content() == o

    def __ne__(self, o):
        return sym_not(self == o)

    def __iter__(self):
        return iter(self.content())

    def __bytes__(self):
        return bytes(self.content())

    def __repr__(self):
        return 'SymByteArray'

    def __delitem__(self, k):
        self[k] = b''

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        getattr(bytearray, name)

        def call(*a, **k):
            if name in ('strip', 'lstrip', 'rstrip', 'startswith', 'endswith'):
                r = getattr(SymBytes.wrap(self.content()), name)(*a, **k)
                return SymByteArray(SymBytes.wrap(r)) if 'strip' in name else r
            b = bytearray(core.CUR.concretize_bytes(self.content()))
            r = getattr(b, name)(*a, **k)
            self.pre = SymBytes.wrap(bytes(b))
            self.fill = 0
            return r
        return call


def bytes_strip(s, how, chars=None):
    """strip, lstrip, rstrip; a byte at a time, three on either side, then natively"""
    chars = b' \t\n\r\x0b\x0c' if chars is None else bytes(chars)
    for side in ('rstrip', 'lstrip'):
        if how not in ('strip', side):
            continue
        for k in range(4):
            if type(s) is not SymBytes:
                return getattr(s, how)(chars)
            if _dec(s.size == 0):
                return b''
            c = s[-1] if side == 'rstrip' else s[0]
            if not any(_dec(c == x) for x in set(chars)):
                break
            if k == 3:
                return getattr(core.CUR.concretize_bytes(s), how)(chars)
            s = s[:s.size - 1] if side == 'rstrip' else s[1:]
    return s


# --------------------------------------------------------------------------------------------------------------------
# strings


class StrAtom:
    """An arbitrary string with symbolic length; content is materialised as a z3 String only when needed."""

    def __init__(self, name, n, ascii_='yes'):
        self.name = name
        self.n = n
        self._s = None
        self.blob = Blob(name, n, 'str', self)
        self.ascii = True if ascii_ == 'yes' else SymBool(z3.Bool(f'{name}!ascii'))

    def s(self):
        ctx = core.CUR
        d = ctx.path_strs
        if self.name not in d:
            s = z3.String(f'{self.name}!s')
            d[self.name] = s
            ctx.assume_z(z3.Length(s) == zi(self.n))
            asc = z3.InRe(s, z3.Star(z3.Range(chr(0), chr(127))))
            if self.ascii is True:
                ctx.assume_z(asc)
            else:
                ctx.assume_z(self.ascii.e == asc)
        return d[self.name]

    def eq_atom(self, o):
        if o is self:
            return True
        le = self.n == o.n
        if le is False:
            return False
        return SymBool.mk(self.s() == o.s())

    def eq_lit(self, b):
        if isinstance(b, bytes):
            try:
                b = b.decode('ascii')
            except UnicodeDecodeError:
                return False
        le = self.n == len(b)
        if le is False:
            return False
        return SymBool.mk(self.s() == z3.StringVal(b))


class DecAtom:
    """decimal digits of a non-negative integer; number of digits fixed on the path"""

    def __init__(self, x, n):
        self.x, self.n = x, n
        self.blob = Blob(f'dec{len(_DEC)}', n, 'dec', self)
        self.name = self.blob.name
        self.ascii = True

    def s(self):
        return z3.IntToStr(zi(self.x))

    def eq_atom(self, o):
        if isinstance(o, DecAtom):
            return self.x == o.x
        return SymBool.mk(self.s() == o.s())

    def eq_lit(self, b):
        if isinstance(b, bytes):
            b = b.decode('latin1')
        if b.isascii() and b.isdigit() and (b == '0' or b[0] != '0'):
            return self.x == int(b)
        return False


_DEC = {}


def str_pad(t, width, ch, side):
    """t.ljust / t.rjust (side '<' or '>': where the text goes)"""
    p = SymStr.fill(ch, width - t.n)
    return t + p if side == '<' else p + t


def dec_str(x):
    """str(SymInt)"""
    neg = bool(x < 0)
    y = -x if neg else x
    if type(y) is not SymInt:
        return str(x)
    n = 1
    while y >= 10 ** n:
        n += 1
    key = (tuple(sorted(y.lin.items())), y.c, n)
    if key not in _DEC:
        _DEC[key] = DecAtom(y, n)
    r = SymStr([(_DEC[key], 0, n)])
    return ('-' + r) if neg else r


class SymStr(SymBase):
    """Concatenation of literals, whole atoms and fills."""
    __slots__ = ('parts', 'n')
    _is_sym = True

    def __init__(self, parts):
        ps = []
        n = 0
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if ps and isinstance(ps[-1], str):
                    ps[-1] = ps[-1] + p
                    n = n + len(p)
                    continue
                n = n + len(p)
            elif p[0] == 'fill':
                if type(p[2]) is not SymInt:
                    if p[2] <= 0:
                        continue
                n = n + p[2]
            else:
                n = n + p[2]
            ps.append(p)
        self.parts = ps
        self.n = n

    @property
    def __class__(self):
        return str

    @staticmethod
    def fill(ch, k):
        if k <= 0:
            return ''
        if len(ch) != 1:
            return ch * k.__index__()
        return SymStr([('fill', ch, k)])

    @staticmethod
    def wrap(s):
        if type(s) is SymStr:
            return s
        f = getattr(type(s), '_force', None)
        if f is not None:
            return f(s)
        if isinstance(s, str):
            return SymStr([str.__str__(s)])
        raise TypeError

    def lower_(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return self

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(self.parts + SymStr.wrap(o).parts).lower_()

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(SymStr.wrap(o).parts + self.parts).lower_()

    def __mul__(self, k):
        k = k.__index__()
        return SymStr(self.parts * max(k, 0)).lower_()

    __rmul__ = __mul__

    def __mod__(self, o):
        return core.CUR.concretize_str(self) % o

    def single(self):
        if len(self.parts) == 1 and not isinstance(self.parts[0], str) and self.parts[0][0] != 'fill':
            a, off, n = self.parts[0]
            if _syn_eq(off, 0) and _syn_eq(n, a.n):
                return a
        return None

    def zs(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(z3.StringVal(p))
            elif p[0] == 'fill':
                out.append(z3.StringVal(p[1] * p[2].__index__()))
            else:
                a, off, n = p
                if _syn_eq(off, 0) and _syn_eq(n, a.n):
                    out.append(a.s())
                else:
                    out.append(z3.SubString(a.s(), zi(off), zi(n)))
        if len(out) == 1:
            return out[0]
        return z3.Concat(*out)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        o = SymStr.wrap(o)
        le = self.n == o.n
        if le is False:
            return False
        a, b = self.single(), o.single()
        if a is not None and b is not None:
            return a.eq_atom(b)
        if a is not None and not o.parts:
            return le
        if b is not None and not self.parts:
            return le
        if a is not None and len(o.parts) == 1 and isinstance(o.parts[0], str):
            return a.eq_lit(o.parts[0])
        if b is not None and len(self.parts) == 1 and isinstance(self.parts[0], str):
            return b.eq_lit(self.parts[0])
        if len(self.parts) == len(o.parts) and all(
                (x == y if isinstance(x, str) and isinstance(y, str) else
                 (not isinstance(x, str) and not isinstance(y, str) and x[0] is y[0] and x[0] != 'fill'
                  and _syn_eq(x[1], y[1]) and _syn_eq(x[2], y[2]))) for x, y in zip(self.parts, o.parts)):
            return True
        return SymBool.mk(self.zs() == o.zs())

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __lt__(self, o):
        return SymBool.mk(self.zs() < SymStr.wrap(o).zs())

    def __gt__(self, o):
        return SymBool.mk(SymStr.wrap(o).zs() < self.zs())

    def __hash__(self):
        return core.CUR.hash_str(self)

    def __bool__(self):
        return bool(self.n > 0)

    def __len__(self):
        return self.n.__index__()

    def __contains__(self, o):
        if isinstance(o, str) and not is_sym(o) and len(o) == 1 and all(
                isinstance(p, str) or p[0] == 'fill' or isinstance(p[0], DecAtom) for p in self.parts):
            return any((o in p) if isinstance(p, str) else (p[1] == o if p[0] == 'fill' else o.isdigit())
                       for p in self.parts)
        return bool(SymBool.mk(z3.Contains(self.zs(), SymStr.wrap(o).zs())))

    def startswith(self, o, *a):
        if a or isinstance(o, tuple):
            return core.CUR.concretize_str(self).startswith(o, *a)
        if self.parts and isinstance(self.parts[0], str) and not is_sym(o) and len(self.parts[0]) >= len(o):
            return self.parts[0].startswith(o)
        return SymBool.mk(z3.PrefixOf(SymStr.wrap(o).zs(), self.zs()))

    def endswith(self, o, *a):
        if a or isinstance(o, tuple):
            return core.CUR.concretize_str(self).endswith(o, *a)
        return SymBool.mk(z3.SuffixOf(SymStr.wrap(o).zs(), self.zs()))

    def isascii(self):
        r = []
        for p in self.parts:
            if isinstance(p, str):
                if not p.isascii():
                    return False
            elif p[0] != 'fill' and p[0].ascii is not True:
                r.append(p[0].ascii)
        return core.sym_and(*r)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        ok = True
        for p in self.parts:
            if isinstance(p, str):
                if not p.isascii():
                    ok = False
            elif p[0] != 'fill' and p[0].ascii is not True:
                if not bool(p[0].ascii):
                    ok = False
        if not ok:
            if enc in ('ascii', 'us-ascii') and errors == 'strict':
                raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
            return core.CUR.concretize_str(self).encode(encoding, errors)
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(PC(p.encode('ascii')))
            elif p[0] == 'fill':
                out.append(PF(ord(p[1]), p[2]))
            else:
                out.append(PB(p[0].blob, p[1], p[2]))
        return SymBytes(out).lower()

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1):
            a, b = norm_slice(k, self.n)
            out = []
            pos = 0
            for p in self.parts:
                n = len(p) if isinstance(p, str) else p[2]
                end = pos + n
                if _dec(a >= end) and not _syn_eq(a, pos):
                    pos = end
                    continue
                s = a - pos if _dec(a > pos) else 0
                last = _dec(b <= end)
                e = (b - pos) if last else n
                if isinstance(p, str):
                    s = int(s) if type(s) is not SymInt else s.__index__()
                    e = int(e) if type(e) is not SymInt else e.__index__()
                    out.append(p[s:e])
                elif p[0] == 'fill':
                    out.append(('fill', p[1], e - s))
                else:
                    out.append((p[0], p[1] + s, e - s))
                if last:
                    break
                pos = end
            return SymStr(out).lower_()
        return core.CUR.concretize_str(self)[k]

    def __iter__(self):
        return iter(core.CUR.concretize_str(self))

    def __str__(self):
        return '<symstr>'

    def __repr__(self):
        return "'<symstr>'"

    def __format__(self, spec):
        return '<symstr>'

    def ljust(self, width, ch=' '):
        return str_pad(SymStr.wrap(self), width, ch, '<')

    def rjust(self, width, ch=' '):
        return str_pad(SymStr.wrap(self), width, ch, '>')

    def join(self, it):
        return str_join(self, it)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        getattr(str, name)

        def call(*a, **k):
            s = core.CUR.concretize_str(self)
            return getattr(s, name)(*a, **k)
        return call

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def str_join(sep, it):
    out = ''
    first = True
    for x in it:
        if not isinstance(x, str):
            raise TypeError('sequence item: expected str instance')
        if not first:
            out = out + sep
        out = out + x
        first = False
    return out


# --------------------------------------------------------------------------------------------------------------------
# floats


def _known_flt(x):
    """the float if the bits of a SymFlt are known, the SymFlt otherwise"""
    if x.r is None and x.i is None and x.bits is not None and z3.is_bv_value(x.bits):
        import struct
        return struct.unpack('>d', x.bits.as_long().to_bytes(8, 'big'))[0]
    return x


class SymFlt(SymBase):
    """Python float: either raw bits (z3 BV64) or an exactly representable real (z3 Real)."""
    __slots__ = ('bits', 'r', 'i', '_fp', 'q')
    _is_sym = True

    def __init__(self, bits=None, r=None, i=None, q=None):
        self.bits = bits
        self.r = r
        self.q = q          # (num, den, p): the value is (num / den) ** p, den > 0 on this path, p in (1, 2)
        self.i = i          # int | SymInt when the value is known to be that integer
        self._fp = None

    @property
    def __class__(self):
        return float

    @staticmethod
    def from_int(i):
        if type(i) is not SymInt:
            return float(i)
        lo, hi = i.bounds()
        if not (lo >= -2 ** 53 and hi <= 2 ** 53):
            if not bool(core.sym_and(i >= -2 ** 53, i <= 2 ** 53)):
                return float(i.__index__())
        return SymFlt(r=z3.ToReal(i.z()), i=i)

    @staticmethod
    def mk_real(r):
        r = z3.simplify(r)
        if z3.is_rational_value(r):
            f = Fraction(r.numerator_as_long(), r.denominator_as_long())
            return float(f)
        return SymFlt(r=r)

    def real_z(self):
        if self.r is not None:
            return self.r
        return z3.fpToReal(self.fp())

    def fp(self):
        if self._fp is None:
            if self.bits is not None:
                self._fp = z3.fpBVToFP(self.bits, z3.Float64())
            else:
                self._fp = z3.fpRealToFP(z3.RNE(), self.r, z3.Float64())
        return self._fp

    def _binary(self, o, op, rev=False):
        """arithmetic"""
        if type(o) is SymBool:
            o = o.as_int()
        if isinstance(o, bool):
            o = int(o)
        if type(o) is SymInt:
            o = SymFlt.from_int(o)
        if isinstance(o, int) and not is_sym(o):
            o = float(o)
        if type(o) is not SymFlt and not (isinstance(o, float) and not is_sym(o)):
            return NotImplemented
        import math
        if type(o) is SymFlt:
            o = _known_flt(o)
        if is_sym(o):
            s = _known_flt(self)
            if not is_sym(s):
                return o._binary(s, op, not rev)
        if self.r is not None and ((type(o) is SymFlt and o.r is not None)
                                   or (isinstance(o, float) and not is_sym(o) and math.isfinite(o))):
            a = self.r
            b = o.r if type(o) is SymFlt else real_val(o)
            if rev:
                a, b = b, a
            if op == '/':
                if bool(SymBool.mk(z3.simplify(b == 0))):
                    raise ZeroDivisionError('float division by zero')
                if not z3.is_rational_value(b):
                    if bool(SymBool.mk(z3.simplify(b > 0))):
                        return SymFlt(r=a / b, q=(a, b, 1))
                    return SymFlt(r=a / b, q=(z3.simplify(-a), z3.simplify(-b), 1))
                return SymFlt.mk_real(a / b)
            q = self.q
            if q is not None and q[2] == 1:
                if op in '+-' and not is_sym(o):
                    n, d, _ = q
                    c = real_val(o)
                    n = z3.simplify(n + c * d if op == '+' else c * d - n if rev else n - c * d)
                    return SymFlt(r=n / d, q=(n, d, 1))
                if op == '*' and type(o) is SymFlt and o.q is not None and o.q[2] == 1 and o.q[0].eq(q[0]) \
                        and o.q[1].eq(q[1]):
                    return SymFlt(r=(q[0] / q[1]) * (q[0] / q[1]), q=(q[0], q[1], 2))
            return SymFlt.mk_real({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]())
        if self.r is not None and not is_sym(o) and (math.isnan(o) or math.isinf(o) and op in '+-'):
            return o if math.isnan(o) or op == '+' or rev else -o
        fa = self.fp()
        fb = o.fp() if type(o) is SymFlt else z3.FPVal(float(o), z3.Float64())
        if rev:
            fa, fb = fb, fa
        if op == '/' and bool(SymBool.mk(z3.simplify(z3.fpIsZero(fb)))):
            raise ZeroDivisionError('float division by zero')
        f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](z3.RNE(), fa, fb)
        s = SymFlt(bits=z3.fpToIEEEBV(f))
        s._fp = f
        return s

    def __add__(self, o):
        return self._binary(o, '+')

    def __radd__(self, o):
        return self._binary(o, '+', True)

    def __sub__(self, o):
        return self._binary(o, '-')

    def __rsub__(self, o):
        return self._binary(o, '-', True)

    def __mul__(self, o):
        return self._binary(o, '*')

    def __rmul__(self, o):
        return self._binary(o, '*', True)

    def __truediv__(self, o):
        return self._binary(o, '/')

    def __rtruediv__(self, o):
        return self._binary(o, '/', True)

    def __pow__(self, o, m=None):
        if type(o) is int and o == 2:
            return self * self
        return self.__float__() ** o

    def __neg__(self):
        if self.bits is not None:
            return SymFlt(bits=self.bits ^ z3.BitVecVal(1 << 63, 64))
        return SymFlt.mk_real(-self.r)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.bits is not None:
            return SymFlt(bits=self.bits & z3.BitVecVal((1 << 63) - 1, 64))
        return SymFlt.mk_real(z3.If(self.r >= 0, self.r, -self.r))

    def _cmp(self, o, op):
        if type(o) is SymBool:
            o = o.as_int()
        if isinstance(o, bool):
            o = int(o)
        import math
        if type(o) is SymFlt:
            o = _known_flt(o)
            if type(o) is SymFlt:
                s = _known_flt(self)
                if type(s) is float:
                    return o._cmp(s, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op))
        if self.r is not None:
            if type(o) is SymFlt and o.r is not None:
                b = o.r
            elif type(o) is SymInt:
                b = z3.ToReal(o.z())
            elif isinstance(o, (int, float)) and not is_sym(o):
                if isinstance(o, float) and math.isnan(o):
                    return op == '!='
                if isinstance(o, float) and math.isinf(o):
                    return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
                b = real_val(o)
            elif type(o) is SymFlt:
                b = None
            else:
                return {'==': False, '!=': True}.get(op, NotImplemented)
            if b is not None and self.q is not None and not is_sym(o) and op not in ('==', '!='):
                n, d, pw = self.q
                if pw == 1:
                    a, b = n, b * d
                elif o < 0:
                    return op in ('>', '>=')
                else:
                    # |num| against sqrt(o) * den
                    f = Fraction(o)
                    w = 10 ** 40
                    b = z3.RealVal(f'{math.isqrt(f.numerator * w // f.denominator)}/{10 ** 20}') * d
                    a = z3.If(n >= 0, n, -n)
                e = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
                return SymBool.mk(z3.simplify(e))
            if b is not None:
                a = self.r
                e = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                     '==': lambda: a == b, '!=': lambda: a != b}[op]()
                return SymBool.mk(z3.simplify(e))
        if type(o) is SymInt:
            o = SymFlt.from_int(o)
        if isinstance(o, (int, float)) and not is_sym(o):
            fb = z3.FPVal(float(o), z3.Float64())
        elif type(o) is SymFlt:
            fb = o.fp()
        else:
            return {'==': False, '!=': True}.get(op, NotImplemented)
        fa = self.fp()
        e = {'<': lambda: z3.fpLT(fa, fb), '<=': lambda: z3.fpLEQ(fa, fb), '>': lambda: z3.fpGT(fa, fb),
             '>=': lambda: z3.fpGEQ(fa, fb), '==': lambda: z3.fpEQ(fa, fb),
             '!=': lambda: z3.Not(z3.fpEQ(fa, fb))}[op]()
        return SymBool.mk(z3.simplify(e))

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self != 0)

    def is_integer(self):
        if self.i is not None:
            return True
        if self.r is not None:
            return SymBool.mk(z3.IsInt(self.r))
        f = self.fp()
        return SymBool.mk(z3.And(z3.Not(z3.fpIsInf(f)), z3.fpEQ(f, z3.fpRoundToIntegral(z3.RTZ(), f))))

    def __mod__(self, o):
        if isinstance(o, (int, float)) and o == 1:
            if bool(self.is_integer()):
                return 0.0
        return self.__float__() % o

    def __int__(self):
        return core.CUR.concretize_flt(self).__int__()

    def to_int(self):
        """int(self) -> int | SymInt"""
        if self.i is not None:
            return self.i
        if self.r is not None:
            e = z3.If(self.r >= 0, z3.ToInt(self.r), -z3.ToInt(-self.r))
            return core.atom(e)
        f = core.CUR.concretize_flt(self)
        return int(f)

    def __trunc__(self):
        return self.to_int()

    def __round__(self, nd=None):
        if nd is None and self.r is not None:
            # banker's rounding of an exact real
            if self.i is not None:
                return self.i
            fl = core.atom(z3.ToInt(self.r))
            frac = SymFlt.mk_real(self.r - z3.ToReal(zi(fl)))
            if frac < 0.5:
                return fl
            if frac > 0.5:
                return fl + 1
            return fl if fl % 2 == 0 else fl + 1
        return round(self.__float__(), nd) if nd is not None else round(self.__float__())

    def __floor__(self):
        if self.r is not None:
            return core.atom(z3.ToInt(self.r))
        import math
        return math.floor(self.__float__())

    def __ceil__(self):
        if self.r is not None:
            return -core.atom(z3.ToInt(-self.r))
        import math
        return math.ceil(self.__float__())

    def __floordiv__(self, o):
        if self.r is not None and isinstance(o, (int, float)) and not is_sym(o) and o:
            return SymFlt.mk_real(z3.ToReal(z3.ToInt(self.r / real_val(o))))
        return self.__float__() // o

    def __float__(self):
        return core.CUR.concretize_flt(self)

    def __hash__(self):
        return hash(core.CUR.concretize_flt(self))

    def __str__(self):
        return '<symfloat>'

    __repr__ = __str__

    def __format__(self, s):
        return '<symfloat>'

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def hex(self):
        return core.CUR.concretize_flt(self).hex()

    def as_integer_ratio(self):
        return core.CUR.concretize_flt(self).as_integer_ratio()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def real_val(o):
    f = Fraction(o)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def flt_same(a, b):
    """bit identity of two floats given as SymFlt | float"""
    import math, struct
    if type(a) is not SymFlt:
        a, b = b, a
    if type(a) is not SymFlt:
        return struct.pack('>d', a) == struct.pack('>d', b)
    if type(b) is SymFlt:
        if a.bits is not None and b.bits is not None:
            return SymBool.mk(z3.simplify(a.bits == b.bits))
        if a.r is not None and b.r is not None:
            return SymBool.mk(z3.simplify(a.r == b.r))
        x, y = (a, b) if a.bits is not None else (b, a)
        f = x.fp()
        return SymBool.mk(z3.And(z3.Not(z3.fpIsNaN(f)), z3.Not(z3.fpIsInf(f)), z3.fpToReal(f) == y.r,
                                 z3.Not(z3.And(z3.fpIsZero(f), z3.fpIsNegative(f)))))
    if a.bits is not None:
        return SymBool.mk(z3.simplify(a.bits == z3.BitVecVal(int.from_bytes(struct.pack('>d', b), 'big'), 64)))
    if math.isnan(b) or math.isinf(b) or (b == 0 and math.copysign(1, b) < 0):
        return False
    return SymBool.mk(z3.simplify(a.r == real_val(b)))


# --------------------------------------------------------------------------------------------------------------------
# date-times


def leap(y):
    return core_and(y % 4 == 0, sym_not(core_and(y % 100 == 0, sym_not(y % 400 == 0))))


def core_and(a, b):
    if type(a) is bool:
        return b if a else False
    if type(b) is bool:
        return a if b else False
    return a & b


class SymDate:
    """calendar date with a concrete month, symbolic year and day"""
    __slots__ = ('year', 'month', 'day')

    def __init__(self, y, m, d):
        self.year, self.month, self.day = y, m, d

    def _last(self):
        if self.month != 2:
            return (31, 0, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[self.month - 1]
        return 29 if leap(self.year) else 28

    def __add__(self, td):
        if td.days == 1:
            if self.day == self._last():
                return SymDate(self.year + 1, 1, 1) if self.month == 12 else SymDate(self.year, self.month + 1, 1)
            return SymDate(self.year, self.month, self.day + 1)
        if td.days == -1:
            if self.day == 1:
                if self.month == 1:
                    return SymDate(self.year - 1, 12, 31)
                d = SymDate(self.year, self.month - 1, 1)
                return SymDate(d.year, d.month, d._last())
            return SymDate(self.year, self.month, self.day - 1)
        raise Unsupported('date arithmetic')

    def __sub__(self, td):
        return self + (-td)

    def toordinal(self):
        y = self.year - 1
        n = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)[self.month - 1] + self.day
        if self.month > 2:
            n = n + (1 if leap(self.year) else 0)
        return y * 365 + y // 4 - y // 100 + y // 400 + n


class SymDatetime(SymBase):
    """datetime with a concrete calendar date and symbolic time of day; offset in minutes (int|SymInt) or None."""
    _is_sym = True
    __slots__ = ('date_', 'secs', 'us', 'off', 'fold')

    def __init__(self, date, secs, us, off, fold=0):
        self.date_, self.secs, self.us, self.off, self.fold = date, secs, us, off, fold

    @property
    def __class__(self):
        return _dt.datetime

    year = property(lambda s: s.date_.year)
    month = property(lambda s: s.date_.month)
    day = property(lambda s: s.date_.day)
    hour = property(lambda s: s.secs // 3600)
    minute = property(lambda s: (s.secs // 60) % 60)
    second = property(lambda s: s.secs % 60)
    microsecond = property(lambda s: s.us)

    @property
    def tzinfo(self):
        if self.off is None:
            return None
        if type(self.off) is not SymInt:
            return _dt.timezone(_dt.timedelta(minutes=self.off))
        return _SymTz(self.off)

    def utcoffset(self):
        if self.off is None:
            return None
        return _dt.timedelta(minutes=core.as_int(self.off).__index__())

    def astimezone(self, tz=None):
        if tz is not _dt.timezone.utc:
            return core.CUR.concretize_dt(self).astimezone(tz)
        off = self.off
        if off is None:
            off = core.CUR.local_offset(self)
        s = self.secs - off * 60
        d = self.date_
        if s < 0:
            s = s + 86400
            d = d - _dt.timedelta(days=1)
        elif s >= 86400:
            s = s - 86400
            d = d + _dt.timedelta(days=1)
        return SymDatetime(d, s, self.us, 0)

    def replace(self, **k):
        if set(k) == {'tzinfo'}:
            tz = k['tzinfo']
            if tz is None:
                return SymDatetime(self.date_, self.secs, self.us, None, self.fold)
            if tz is _dt.timezone.utc:
                return SymDatetime(self.date_, self.secs, self.us, 0, self.fold)
        if set(k) == {'microsecond'}:
            return SymDatetime(self.date_, self.secs, k['microsecond'], self.off, self.fold)
        return core.CUR.concretize_dt(self).replace(**k)

    def date(self):
        return self.date_

    def __eq__(self, o):
        if not isinstance(o, _dt.datetime):
            return False
        if type(o) is not SymDatetime:
            off = o.utcoffset()
            o = SymDatetime(o.date(), o.hour * 3600 + o.minute * 60 + o.second, o.microsecond,
                            None if off is None else int(off.total_seconds() // 60), o.fold)
        if (self.off is None) != (o.off is None):
            return False
        if self.off is None:
            return (self.date_.toordinal() * 86400 + self.secs) * 1000000 + self.us \
                == (o.date_.toordinal() * 86400 + o.secs) * 1000000 + o.us
        return self.total_us() == o.total_us()

    def __ne__(self, o):
        return sym_not(self == o)

    def total_us(self):
        off = self.off if self.off is not None else core.CUR.local_offset(self)
        return (self.date_.toordinal() * 86400 + self.secs - off * 60) * 1000000 + self.us

    def __hash__(self):
        return 7

    def __str__(self):
        return '<symdatetime>'

    __repr__ = __str__

    def __format__(self, s):
        return '<symdatetime>'

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        getattr(_dt.datetime, name)
        return getattr(core.CUR.concretize_dt(self), name)

    def __add__(self, o):
        return core.CUR.concretize_dt(self) + o

    def __sub__(self, o):
        return core.CUR.concretize_dt(self) - o

    def __deepcopy__(self, memo):
        return self


class _SymTz(_dt.tzinfo):
    def __init__(self, off):
        self.off = off

    def utcoffset(self, d):
        return _dt.timedelta(minutes=self.off.__index__())

    def dst(self, d):
        return _dt.timedelta(0)

    def tzname(self, d):
        return 'sym'

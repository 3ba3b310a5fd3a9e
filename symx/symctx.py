"""Symbolic execution context."""
from __future__ import annotations

import datetime as _dt
import json
import re
import struct
import sys
import time
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import core, models, arrays
from . import inputs as I
from .context import Base, Res, apply_layout, apply_layout1, digest, find_total, DEFAULT_OUT, set_timezone, local_offset_table
from .core import (SymInt, SymBool, Steer, PathDone, Violation, Budget, Unsupported, is_sym, zb, zi, atom, INF,
                   cmp0, sym_and, sym_not, sym_or)
from .values import (SymBytes, SymByteArray, SymStr, SymFlt, SymDatetime, SymDate, Blob, StrAtom, DecAtom, PC, PI, PV, PR, PB,
                     PF, rope_eq, flt_same, _DEC)
from .arrays import SymArray, SymNp, SymRow, Bits, Swap, cell_part, cell_bits, cast_cell, num, native


def _memo(f):
    """asking for an input again gives the same input"""
    def g(self, name, *a, **k):
        if name in self.handles:
            return self.handles[name]
        v = self.handles[name] = f(self, name, *a, **k)
        return v
    return g


class SymCtx(Base):
    symbolic = True
    local_tz = 'UTC'

    def __init__(self, ex, dw, loader=None):
        self.timezone('UTC')
        self.ex = ex
        self.stats = ex.stats
        self.dw = dw
        self.loader = loader
        self.fs = models.VFS()
        self.log_records = []
        self.lazy_match = False
        self.info_msgs = []
        self.path_strs = {}
        self.sym_arrays = True
        self.vars = []          # (name, kind, payload)
        self.byname = {}
        self.handles = {}
        self.obs = []
        self.blob_reads = {}
        self.digits = {}
        self.replayer = None
        self.conc_count = {}
        self.want_snaps = False
        self.exact = True       # no truncation on this path
        self.notes = {}
        self.dates = {}

    # ------------------------------------------------------------------ engine services
    def decide(self, e):
        e = z3.simplify(e) if not isinstance(e, bool) else e
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.ex.decide(e)

    def assume_z(self, e):
        self.ex.assume(e)

    def impossible(self, cond):
        if isinstance(cond, bool):
            return not cond
        return self.ex.note(lambda: self.ex.check(cond.e) == z3.unsat)

    def determined(self, x):
        def get():
            m = self.ex.get_model()
            if m is None:
                return None
            v = m.eval(x.z(), model_completion=True)
            if not z3.is_int_value(v):
                return None
            return v.as_long() if self.ex.check(x.z() != v) == z3.unsat else None
        return self.ex.note(get)

    def note_concretised(self, site):
        self.stats.concretised[site] = self.stats.concretised.get(site, 0) + 1

    def _site(self):
        f = sys._getframe(2)
        while f is not None:
            fn = f.f_code.co_filename
            if '/dliswriter/' in fn or '/props/' in fn:
                return f'{fn.split("/src/")[-1].split("/verif/")[-1]}:{f.f_lineno}'
            f = f.f_back
        return '?'

    def _pick(self, zexpr, what, limit, prefer=None):
        """Fork over concrete values of an expression: model-chosen values, at most `limit` of them."""
        n = 0
        while True:
            def get():
                if prefer is not None and n < len(prefer) and prefer[n] is not None:
                    if self.ex.check(zexpr == prefer[n]) == z3.sat:
                        return prefer[n]
                m = self.ex.get_model()
                if m is None:
                    return None
                return m.eval(zexpr, model_completion=True)
            v = self.ex.note(get)
            if v is None:
                raise PathDone('infeasible')
            n += 1
            if n > limit:
                self.stats.truncated += 1
                self.note_concretised('truncated:' + what)
                raise PathDone('truncated')
            e = z3.simplify(zexpr == v)
            if z3.is_true(e) or (not z3.is_false(e) and self.ex.decide(e, 0.75)):
                return v

    def concretize_int(self, x):
        if type(x) is not SymInt:
            return int(x)
        z = x.z()
        lo, hi = x.bounds()
        site = self._site()
        self.note_concretised('int@' + site)
        small = hi - lo <= 40
        pref = None if small else [None] + [z3.IntVal(b) for b in (lo, hi) if abs(b) < 1 << 70]
        v = self._pick(z, 'int@' + site, 64 if small else 6, pref)
        return v.as_long()

    def concretize_flt(self, x):
        site = self._site()
        self.note_concretised('float@' + site)
        if x.i is not None and type(x.i) is not SymInt:
            return float(x.i)
        if x.bits is not None:
            pref = [z3.BitVecVal(b, 64) for b in (0x7ff8dead00beef01, 0x8000000000000000, 0x7ff0000000000000,
                                                  0x3fd5555555555555, 0xc01c000000000000, 0x7e37e43c8800759c, 1)]
            v = self._pick(x.bits, 'float@' + site, 8, pref)
            return struct.unpack('>d', v.as_long().to_bytes(8, 'big'))[0]
        v = self._pick(x.r, 'float@' + site, 6)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))

    def concretize_str(self, s):
        if not is_sym(s):
            return s
        self.note_concretised('str@' + self._site())
        out = ''
        for p in s.parts:
            if isinstance(p, str):
                out += p
            elif p[0] == 'fill':
                out += p[1] * core.as_int(p[2]).__index__()
            else:
                a, off, n = p
                if isinstance(a, DecAtom):
                    t = str(core.as_int(a.x).__index__())
                else:
                    t = self._conc_atom(a)
                off = core.as_int(off).__index__()
                n = core.as_int(n).__index__()
                out += t[off:off + n]
        return out

    def _conc_atom(self, a):
        n = core.as_int(a.n).__index__()
        if n == 0:
            return ''
        asc = a.ascii if a.ascii is True else bool(a.ascii)
        t = I.default_text(a.name, n, not asc)
        sv = a.s()
        v = self._pick(sv, 'str ' + a.name, 4, [z3.StringVal(x) for x in [t] + I.odd_texts(n)])
        return zstr(v)

    def concretize_bytes(self, r):
        r = SymBytes.wrap(r)
        self.note_concretised('bytes@' + self._site())
        out = b''
        for p in r.parts:
            t = type(p)
            if t is PC:
                out += p.b
            elif t is PI:
                out += core.as_int(p.x).__index__().to_bytes(p.w, 'big')
            elif t is PV:
                v = self._pick(p.v, 'bits', 4)
                out += v.as_long().to_bytes(p.n, 'big')
            elif t is PR:
                out += struct.pack('>d' if p.w == 8 else '>f', self.concretize_flt(p.x))
            elif t is PF:
                out += bytes([core.as_int(p.c).__index__()]) * core.as_int(p.len).__index__()
            else:
                off = core.as_int(p.off).__index__()
                n = core.as_int(p.len).__index__()
                if p.blob.kind == 'lit':
                    out += p.blob.owner.b[off:off + n]
                    continue
                if isinstance(p.blob.owner, StrAtom):
                    out += self._conc_atom(p.blob.owner).encode('ascii')[off:off + n]
                    continue
                if isinstance(p.blob.owner, DecAtom):
                    out += str(core.as_int(p.blob.owner.x).__index__()).encode()[off:off + n]
                    continue
                if n > 1000:
                    raise Unsupported('concretising a long opaque byte string')
                d = I.default_bytes(p.blob.name, off + n)
                if n:
                    last = zi(self.blob_byte(p.blob, off + n - 1))
                    v = self._pick(last, 'last byte', 4, [z3.IntVal(x) for x in (d[-1], 0, 32, 10)]).as_long()
                    d = I.odd_bytes(d, off, v)
                for i in range(off, off + n):
                    self.assume_z(zi(self.blob_byte(p.blob, i)) == d[i])
                out += d[off:]
        return out

    def concretize_np(self, x):
        return self.concretize_arr(SymArray.scalar0(x))[()]

    def concretize_arr(self, a):
        self.note_concretised('array@' + self._site())
        dt = a.dtype
        out = np.zeros(a.shape, dtype=dt)
        if dt.names is not None:
            for n in dt.names:
                out[n] = self.concretize_arr(a[n])
            return out
        for i in np.ndindex(a.shape):
            c = a.obj[i]
            if type(c) in (Bits, Swap):
                b = cell_bits(c, dt)
                v = self._pick(b, 'cell', 4) if not z3.is_bv_value(b) else b
                raw = v.as_long().to_bytes(dt.itemsize, 'big')
                out[i] = np.frombuffer(raw, dtype=dt.newbyteorder('>'))[0]
            elif type(c) is SymInt:
                out[i] = c.__index__()
            elif type(c) is SymFlt:
                out[i] = self.concretize_flt(c)
            elif type(c) is SymBool:
                out[i] = bool(c)
            else:
                out[i] = c
        return out

    def concretize_dt(self, d):
        self.note_concretised('datetime@' + self._site())
        s = core.as_int(d.secs).__index__()
        us = core.as_int(d.us).__index__()
        dd = d.date_
        if type(dd) is SymDate:
            dd = _dt.date(core.as_int(dd.year).__index__(), dd.month, core.as_int(dd.day).__index__())
        r = _dt.datetime.combine(dd, _dt.time()) + _dt.timedelta(seconds=s, microseconds=us)
        if d.off is not None:
            r = r.replace(tzinfo=_dt.timezone(_dt.timedelta(minutes=core.as_int(d.off).__index__())))
        return r.replace(fold=d.fold)

    def hash_int(self, x):
        return 0x5eed1

    hash_str = hash_bytes = hash_int

    def blob_byte(self, blob, off):
        if blob.kind == 'lit':
            if type(off) is not SymInt:
                return blob.owner.b[off]
            f = _uf_blob(blob.name)
            b = blob.owner.b
            lo, hi = off.bounds()
            e = z3.IntVal(0)
            for i in range(max(0, int(max(lo, 0))), min(len(b), int(min(hi, len(b) - 1)) + 1)):
                e = z3.If(off.z() == i, z3.IntVal(b[i]), e)
            return atom(e, 0, 255)
        if isinstance(blob.owner, StrAtom):
            s = blob.owner.s()
            return atom(z3.StrToCode(z3.SubString(s, zi(off), z3.IntVal(1))), 0, 255)
        if isinstance(blob.owner, DecAtom):
            return self._digit(blob.owner, off)
        f = _uf_blob(blob.name)
        e = f(zi(off))
        a = atom(e, 0, 255)
        k = (blob.name, e.get_id())
        if k not in self.blob_reads:
            self.blob_reads[k] = (blob, off)
            self.assume_z(z3.And(e >= 0, e <= 255))
        return a

    def _digit(self, d, off):
        """character of a decimal number: digits are determined by their sum"""
        ds = self.digits.get(d.blob.name)
        if ds is None:
            ds = [z3.Int(f'{d.blob.name}.{i}') for i in range(d.n)]
            self.digits[d.blob.name] = ds
            self.assume_z(z3.And(*[z3.And(x >= 0, x <= 9) for x in ds],
                                 z3.Sum(*[x * 10 ** (d.n - 1 - i) for i, x in enumerate(ds)]) == zi(d.x)))
        if type(off) is not SymInt:
            return atom(ds[off], 0, 9) + 48
        e = ds[-1]
        for i, x in enumerate(ds[:-1]):
            e = z3.If(off.z() == i, x, e)
        return atom(e, 0, 9) + 48

    # ------------------------------------------------------------------ inputs
    def _reg(self, name, kind, payload):
        if name in self.byname:
            if kind == 'arr' and len(payload) == len(self.byname[name]):
                return payload          # the same cells again
            raise Unsupported('duplicate input ' + name)
        self.byname[name] = payload
        self.vars.append((name, kind, payload))
        return payload

    @_memo
    def int(self, name, lo, hi, even=False):
        if lo == hi:
            self._reg(name, 'const', lo)
            return lo
        if even:
            a, b = (lo + 1) // 2, hi // 2
            v = z3.Int(f'{name}[2*{a},{b}]')
            x = atom(v, a, b)
            self.ex.assume(z3.And(v >= a, v <= b))
            x = x * 2
        else:
            v = z3.Int(f'{name}[{lo},{hi}]')
            x = atom(v, lo, hi)
            self.ex.assume(z3.And(v >= lo, v <= hi))
        self._reg(name, 'int', (x, lo, hi, even))
        return x

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    @_memo
    def choice(self, name, options):
        i = self.ex.choose(len(options))
        self._reg(name, 'const', i)
        return options[i]

    @_memo
    def string(self, name, lo, hi, ascii_='yes'):
        n = self._len(name, lo, hi)
        a = StrAtom(name, n, ascii_)
        if a.ascii is not True:
            self.ex.assume(z3.Or(a.ascii.e, zi(n) >= 1))
        self._reg(name, 'str', a)
        if type(n) is not SymInt and n == 0:
            return ''
        return SymStr([(a, 0, n)])

    def _len(self, name, lo, hi):
        if lo == hi:
            return lo
        v = z3.Int(f'{name}.len[{lo},{hi}]')
        self.ex.assume(z3.And(v >= lo, v <= hi))
        return atom(v, lo, hi)

    @_memo
    def payload(self, name, lo, hi):
        n = self._len(name, lo, hi)
        b = Blob(name, n)
        self._reg(name, 'blob', b)
        if type(n) is not SymInt and n == 0:
            return b''
        return SymBytes([PB(b, 0, n)])

    @_memo
    def flt(self, name):
        v = z3.BitVec(name + '#f', 64)
        self._reg(name, 'flt', v)
        return SymFlt(bits=v)

    def real(self, name, lo, hi, den=1):
        i = self.int(name, lo, hi)
        if den == 1:
            return SymFlt.from_int(i)
        return SymFlt.mk_real(z3.ToReal(zi(i)) / den)

    @_memo
    def dtime(self, name, date=(2021, 3, 4), tz='utc', us=True):
        s = atom_int(self, f'{name}.s', 0, 86399)
        u = atom_int(self, f'{name}.us', 0, 999999) if us else 0
        off = {'utc': 0, 'naive': None}.get(tz, 'sym')
        if off == 'sym':
            off = atom_int(self, f'{name}.off', -14 * 60, 14 * 60) if tz == 'any' else int(tz)
        if date[0] == 'sym':
            _, mo, ylo, yhi = date
            y = atom_int(self, f'{name}.y', ylo, yhi)
            d = atom_int(self, f'{name}.d', 1, 31 if mo != 2 else 29)
            if mo in (4, 6, 9, 11):
                self.ex.assume(z3.And(zi(d) <= 30))
            if mo == 2:
                z = zi(y)
                lp = z3.And(z % 4 == 0, z3.Or(z % 100 != 0, z % 400 == 0))
                self.ex.assume(z3.Or(zi(d) <= 28, lp))
            self._reg(name, 'dt', (s, u, off, y, d))
            return SymDatetime(SymDate(y, mo, d), s, u, off)
        self._reg(name, 'dt', (s, u, off))
        return SymDatetime(_dt.date(*date), s, u, off)

    def timezone(self, tz):
        """the local time zone of the process from here on (a POSIX TZ string)"""
        self.local_tz = tz
        set_timezone(tz)

    def local_offset(self, v):
        """offset, in minutes, of the local time zone at the naive date-time v"""
        if ',' not in self.local_tz:
            return local_offset_table(self.local_tz, _dt.date(2001, 1, 1), 0)[0][1]
        if type(v.date_) is SymDate:
            raise Unsupported('symbolic date in a time zone with daylight saving')
        tab = local_offset_table(self.local_tz, v.date_, v.fold)
        for start, off in reversed(tab[1:]):
            if v.secs >= start:
                return off
        return tab[0][1]

    def dtime_utc(self, v):
        """(year, month, day, microsecond of the day) in UTC"""
        if type(v) is not SymDatetime:
            u = v.astimezone(_dt.timezone.utc)
            return u.year, u.month, u.day, ((u.hour * 60 + u.minute) * 60 + u.second) * 1000000 + u.microsecond
        u = v.astimezone(_dt.timezone.utc)
        return u.year, u.month, u.day, u.secs * 1000000 + u.us

    def dtime_us(self, v):
        if type(v) is not SymDatetime:
            u = v.astimezone(_dt.timezone.utc).replace(tzinfo=None)
            return (u - _dt.datetime(1900, 1, 1)) // _dt.timedelta(microseconds=1)
        return v.total_us() - _dt.date(1900, 1, 1).toordinal() * 86400 * 1000000

    def array(self, name, dtype, shape, kind='bits', lo=None, hi=None, den=1, layout='C'):
        dt = np.dtype(dtype)
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        o = np.empty(shape, dtype=object)
        cells = []
        w = dt.itemsize * 8
        for k, i in enumerate(np.ndindex(shape)):
            if kind == 'bits':
                v = z3.BitVec(f'{name}.{k}#b{w}', w)
                o[i] = Bits(v)
                cells.append((f'{name}.{k}', 'bits', v, w, dt.kind))
            else:
                v = z3.Int(f'{name}.{k}[{lo},{hi}]')
                self.ex.assume(z3.And(v >= lo, v <= hi))
                x = atom(v, lo, hi)
                if kind == 'int' and dt.kind in 'iu':
                    o[i] = x
                else:
                    o[i] = SymFlt.from_int(x) if den == 1 else SymFlt.mk_real(z3.ToReal(v) / den)
                cells.append((f'{name}.{k}', 'int', x, lo, hi))
        self._reg(name, 'arr', cells)
        return SymArray(apply_layout(o, layout), dt)

    def set_cell(self, arr, idx, value):
        o = arr.obj
        if arr.dtype.kind == 'f' and isinstance(value, float) and not is_sym(value) and value != value:
            value = Bits(z3.BitVecVal(0x7ff8000000000000 if arr.dtype.itemsize == 8 else 0x7fc00000,
                                      arr.dtype.itemsize * 8))
        o[idx] = value

    def snapshot(self, a):
        if type(a) is np.ndarray:
            return a.copy()
        return SymArray(a.obj.copy(), a.dtype)

    def be(self, a, idx, cast=None):
        if type(a) is np.ndarray:
            v = np.asarray(a[idx])
            v = v if cast is None else v.astype(np.dtype(cast))
            return v.astype(v.dtype.newbyteorder('>')).tobytes()
        c = a.obj[idx]
        dt = a.dtype
        if isinstance(c, np.ndarray):
            cells = [c[i] for i in np.ndindex(c.shape)]
        else:
            cells = [c]
        nd = native(dt)
        if cast is not None:
            cd = native(np.dtype(cast))
            cells = [cast_cell(x, nd, cd) for x in cells]
            nd = cd
        return SymBytes([cell_part(x, nd) for x in cells]).lower()

    def cell(self, a, idx):
        return num(a.obj[idx], native(a.dtype))

    def arrays_same(self, a, b):
        if type(a) is np.ndarray and type(b) is np.ndarray:
            return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.names is not None:
            return sym_and(*[self.arrays_same(a[n], b[n]) for n in a.dtype.names])
        return SymBytes.wrap(a.tobytes()) == SymBytes.wrap(b.tobytes())

    def structured(self, fields, layout='C'):
        n = len(fields[0][1])
        dt = np.dtype([(nm, a.dtype, a.shape[1:]) if a.ndim > 1 else (nm, a.dtype) for nm, a in fields])
        o = np.zeros(n, dtype=arrays.obj_dtype(dt))
        for nm, a in fields:
            o[nm] = a.obj
        return SymArray(apply_layout1(o, layout), dt)

    def h5(self, name, datasets):
        p = models.VROOT + name
        self.fs.h5[p] = {k.strip('/'): SymArray(np.array(a.obj, copy=True), a.dtype) if type(a) is SymArray
                         else arrays.from_real(a) for k, a in datasets}
        return p

    def h5_content(self, p):
        return dict(self.fs.h5[p])

    def h5_raw(self, p):
        return 'n/a'

    # ------------------------------------------------------------------ files
    def path(self, name):
        return models.VROOT + name

    def read_file(self, p):
        v = self.fs.files.get(p)
        return None if v is None else SymBytes.wrap(v).lower()

    def put_file(self, p, b):
        self.fs.files[p] = SymBytes.wrap(b)

    def snap_count(self, p):
        return len(self.fs.history.get(p, ()))

    def snap_since(self, p, n):
        return [None if x is None else x.lower() for x in self.fs.history.get(p, [])[n:]]

    def warning_count(self):
        n = 0
        for r in self.log_records:
            n = n + (self.ite(r[1], 1, 0) if type(r) is tuple else 1)
        return n

    def reported_total(self):
        for m in reversed(self.info_msgs):
            if type(m) not in (SymStr, models.LazyStr):
                v = find_total(m) if isinstance(m, str) else None
                if v is not None:
                    return v
                continue
            t = ''
            for p in SymStr.wrap(m).parts:
                if isinstance(p, str):
                    t += p
                    if find_total(t) is not None:
                        return find_total(t)
                elif re.search('total[^0-9]*size[^0-9]*$', t.lower()) and type(p[0]) is DecAtom:
                    return p[0].x
                else:
                    t += '?'
        return None

    # ------------------------------------------------------------------ logic
    def and_(self, *b):
        return sym_and(*[_b(x) for x in b])

    def or_(self, *b):
        return sym_or(*[_b(x) for x in b])

    def not_(self, b):
        return sym_not(b)

    def implies(self, a, b):
        return sym_or(sym_not(_b(a)), _b(b))

    def ite(self, c, a, b):
        if isinstance(c, bool) and not is_sym(c):
            return a if c else b
        return atom(z3.If(c.e, zi(a), zi(b)))

    def eq(self, a, b):
        return a == b

    def feq(self, a, b):
        return flt_same(a, b)

    def f64_bytes(self, a):
        if type(a) is SymInt:
            a = SymFlt.from_int(a)
        return models.struct_pack('>d', a)

    def f32_bytes(self, a):
        return models.struct_pack('>f', a)

    def f32_exact(self, a):
        if type(a) is SymInt:
            a = SymFlt.from_int(a)
        if not is_sym(a):
            return ConCtx.f32_exact(self, a)
        f = a.fp()
        g = z3.fpFPToFP(z3.RNE(), z3.fpFPToFP(z3.RNE(), f, z3.Float32()), z3.Float64())
        return SymBool.mk(z3.Or(z3.fpEQ(f, g), z3.fpIsNaN(f)))

    def f64_value(self, b):
        b = SymBytes.wrap(b)
        if len(b.parts) == 1 and type(b.parts[0]) is PR:
            x = b.parts[0].x
            return x if type(x) is SymFlt else SymFlt.mk_real(x)
        return struct.unpack('>d', self.concretize_bytes(b))[0]

    def concrete(self, x):
        return not is_sym(x)

    def isascii(self, s):
        return s.isascii()

    def slen(self, s):
        return s.n if is_sym(s) else len(s)

    def fresh(self):
        return self.loader()

    def matches(self, s, pattern):
        if not is_sym(s):
            return re.fullmatch(pattern, s) is not None
        return models.rx_match(re.compile(pattern), 'fullmatch', s) is not None

    def uint(self, b):
        return b.to_uint() if is_sym(b) else int.from_bytes(b, 'big')

    def chop(self, b, a, z):
        return SymBytes.wrap(b).slice(a, z).lower()

    # ------------------------------------------------------------------ verdicts
    def assume(self, c):
        if type(c) is SymBool:
            if z3.is_true(c.e):
                return
            self.ex.assume(c.e)
            if self.ex.note(lambda: self._feasible()) is False:
                raise PathDone('assume')
            return
        if not c:
            raise PathDone('assume')

    def _feasible(self):
        if self.ex.model is not None:
            return True
        return self.ex.get_model() is not None or self.ex.check() == z3.unknown

    def require(self, c, msg, key=None):
        self.stats.requires += 1
        if type(c) is SymBool:
            e = z3.simplify(c.e)
            if z3.is_true(e):
                return
            c = SymBool(e) if not z3.is_false(e) else False
        elif is_sym(c) or not isinstance(c, bool):
            c = bool(c)
        if c is True:
            return

        def solve():
            extra = [] if c is False else [z3.Not(c.e)]
            self.stats.requires_solver += 1
            t0 = time.time()
            r = self.ex.check(*extra)
            if r == z3.unsat:
                return 'ok' if c is not False else 'infeasible'
            if r == z3.unknown:
                self.stats.incomplete.append('solver gave no answer for: ' + _m(msg))
                return 'unknown'
            inp = self.build_inputs(extra)
            if inp is None:
                self.stats.incomplete.append('no inputs for: ' + _m(msg))
                return 'unknown'
            v = self.replayer(inp) if self.replayer else {'status': 'none', 'msg': ''}
            if v['status'] == 'violation':
                return ('bad', inp, v)
            self.stats.unreproduced.append({'msg': _m(msg), 'status': v['status'], 'info': v['msg'][-600:],
                                            'inputs': _short(inp)})
            return 'spurious'
        r = self.ex.note(solve)
        if isinstance(r, tuple):
            raise Violation(r[2]['msg'] or _m(msg), (r[1], r[2].get('key') or key))
        if r == 'infeasible':
            raise PathDone('infeasible')
        if c is False:
            self.exact = False
            raise PathDone('spurious' if r == 'spurious' else 'unknown')
        if r in ('spurious', 'unknown'):
            self.exact = False
            self.ex.assume(c.e)

    def reached(self, tag):
        self.stats.reached[tag] = self.stats.reached.get(tag, 0) + 1

    def observe(self, name, v):
        self.obs.append((name, v))

    # ------------------------------------------------------------------ models -> inputs
    def build_inputs(self, extra=(), prefer=True):
        """Concrete inputs satisfying the path condition (and extra); unconstrained parts get varied defaults."""
        prefs = []
        if prefer:
            for name, kind, p in self.vars:
                if kind == 'int':
                    x, lo, hi, even = p
                    v = I.default_int(name, lo, hi)
                    prefs.append(x.z() == (v - v % 2 if even else v))
                elif kind == 'flt':
                    prefs.append(p == I.default_bits(name, 64, 'f'))
                elif kind == 'arr':
                    for c in p:
                        if c[1] == 'bits':
                            prefs.append(c[2] == I.default_bits(c[0], c[3], c[4]))
                        else:
                            prefs.append(zi(c[2]) == I.default_int(c[0], c[3], c[4]))
                elif kind == 'str':
                    if p.name in self.path_strs:
                        continue
                    if type(p.n) is SymInt:
                        lo, hi = p.n.bounds()
                        prefs.append(p.n.z() == I.default_int(p.name, lo, min(hi, lo + 12)))
                elif kind == 'blob':
                    if type(p.n) is SymInt:
                        lo, hi = p.n.bounds()
                        prefs.append(p.n.z() == I.default_int(p.name, lo, min(hi, lo + 40)))
                elif kind == 'dt':
                    for i, x in enumerate(p):
                        if type(x) is SymInt:
                            lo, hi = x.bounds()
                            prefs.append(x.z() == I.default_int(f'{name}{i}', lo, hi))
        act = list(prefs)
        m = None
        s = self.ex.solver
        for _ in range(12):
            r = self.ex.check(*extra, *act)
            if r == z3.sat:
                m = s.model()
                break
            if r == z3.unknown or not act:
                break
            core_ids = {c.get_id() for c in s.unsat_core()}
            n = [a for a in act if a.get_id() not in core_ids]
            if len(n) == len(act):
                break
            act = n
        if m is None:
            r = self.ex.check(*extra)
            if r != z3.sat:
                return None
            m = s.model()
        self.wm = m
        return self.inputs_of(m)

    def inputs_of(self, m):
        out = {}
        for name, kind, p in self.vars:
            if kind == 'const':
                out[name] = p
            elif kind == 'int':
                out[name] = ev_int(m, p[0])
            elif kind == 'flt':
                out[name] = m.eval(p, model_completion=True).as_long()
            elif kind == 'arr':
                out[name] = [ev_int(m, c[2]) if c[1] == 'int' else m.eval(c[2], model_completion=True).as_long()
                             for c in p]
            elif kind == 'str':
                out[name] = self.str_content(m, p)
            elif kind == 'blob':
                out[name] = self.blob_content(m, p).hex()
            elif kind == 'dt':
                out[name] = {'s': ev_int(m, p[0]), 'us': ev_int(m, p[1]),
                             'off': None if p[2] is None else ev_int(m, p[2])}
                if len(p) > 3:
                    out[name].update(y=ev_int(m, p[3]), d=ev_int(m, p[4]))
        return out

    def str_content(self, m, a):
        if a.name in self.path_strs:
            return zstr(m.eval(self.path_strs[a.name], model_completion=True))
        n = ev_int(m, a.n)
        asc = True if a.ascii is True else z3.is_true(m.eval(a.ascii.e, model_completion=True))
        return I.default_text(a.name, n, not asc)

    def blob_content(self, m, b):
        n = ev_int(m, b.n)
        d = bytearray(I.default_bytes(b.name, n))
        f = None
        for (nm, _), (bl, off) in self.blob_reads.items():
            if nm == b.name:
                o = ev_int(m, off)
                if 0 <= o < n:
                    d[o] = m.eval(_uf_blob(nm)(z3.IntVal(o)), model_completion=True).as_long() % 256
        return bytes(d)

    # ------------------------------------------------------------------ evaluating observations
    def evaluate(self, v, m):
        t = type(v)
        if t in (SymBytes, SymByteArray):
            return self.ev_rope(SymBytes.wrap(v), m)
        if t is SymInt:
            return ev_int(m, v)
        if t is SymBool:
            return z3.is_true(m.eval(v.e, model_completion=True))
        if isinstance(v, str) and is_sym(v):
            return self.ev_str(v, m)
        if t is SymFlt:
            return self.ev_flt(v, m)
        if t in (list, tuple):
            return [self.evaluate(x, m) for x in v]
        return v

    def ev_flt(self, v, m):
        if v.bits is not None:
            return struct.unpack('>d', m.eval(v.bits, model_completion=True).as_long().to_bytes(8, 'big'))[0]
        r = m.eval(v.r, model_completion=True)
        if not z3.is_rational_value(r):
            r = z3.simplify(r)
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))

    def ev_str(self, s, m):
        out = ''
        for p in s.parts:
            if isinstance(p, str):
                out += p
            elif p[0] == 'fill':
                out += p[1] * ev_int(m, p[2])
            else:
                a, off, n = p
                t = str(ev_int(m, a.x)) if isinstance(a, DecAtom) else self.str_content(m, a)
                o = ev_int(m, off)
                out += t[o:o + ev_int(m, n)]
        return out

    def ev_rope(self, r, m):
        out = []
        for p in r.parts:
            t = type(p)
            if t is PC:
                out.append(p.b)
            elif t is PI:
                out.append(ev_int(m, p.x).to_bytes(p.w, 'big'))
            elif t is PV:
                out.append(ev_bv(m, p.v).to_bytes(p.n, 'big'))
            elif t is PR:
                out.append(struct.pack('>d' if p.w == 8 else '>f', self.ev_flt(p.x, m)))
            elif t is PF:
                out.append(bytes([ev_int(m, p.c)]) * ev_int(m, p.len))
            else:
                o, n = ev_int(m, p.off), ev_int(m, p.len)
                ow = p.blob.owner
                if p.blob.kind == 'lit':
                    d = ow.b
                elif isinstance(ow, StrAtom):
                    d = self.str_content(m, ow).encode('utf-8')
                elif isinstance(ow, DecAtom):
                    d = str(ev_int(m, ow.x)).encode()
                else:
                    d = self.blob_content(m, p.blob)
                out.append(d[o:o + n])
        return b''.join(out)

    def digests(self, m):
        return [[n, digest(self.evaluate(v, m))] for n, v in self.obs]


def _m(msg):
    try:
        return msg if isinstance(msg, str) else str(msg())
    except Exception:
        return '?'


def _short(inp):
    return {k: (v if not isinstance(v, (str, list)) or len(v) < 200 else str(v)[:200]) for k, v in inp.items()}


def _b(x):
    return x if isinstance(x, (bool, SymBool)) else bool(x)


_UFB = {}


def _uf_blob(name):
    if name not in _UFB:
        _UFB[name] = z3.Function('byte!' + name, z3.IntSort(), z3.IntSort())
    return _UFB[name]


def atom_int(ctx, name, lo, hi):
    v = z3.Int(f'{name}[{lo},{hi}]')
    ctx.ex.assume(z3.And(v >= lo, v <= hi))
    return atom(v, lo, hi)


def ev_int(m, x):
    if type(x) is SymInt:
        r = m.eval(x.z(), model_completion=True)
        if not z3.is_int_value(r):
            r = z3.simplify(r)
        return r.as_long()
    return int(x)


_CAST = re.compile(r'cast_([iuf])(\d+)_([iuf])(\d+)')


def ev_bv(m, e):
    """value of a bit-vector term; applications of the uninterpreted casts get numpy's value"""
    e = _subst_casts(m, e)
    r = m.eval(e, model_completion=True)
    if not z3.is_bv_value(r):
        r = z3.simplify(r)
    return r.as_long()


def _subst_casts(m, e):
    apps = []

    def walk(x, seen):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and _CAST.fullmatch(x.decl().name()):
            apps.append(x)
            return
        for c in x.children():
            walk(c, seen)
    walk(e, set())
    for a in apps:
        k1, s1, k2, s2 = _CAST.fullmatch(a.decl().name()).groups()
        v = ev_bv(m, a.arg(0))
        src = np.frombuffer(v.to_bytes(int(s1), 'big'), dtype=f'>{k1}{s1}')
        with np.errstate(all='ignore'):
            d = src.astype(f'>{k2}{s2}').tobytes()
        e = z3.substitute(e, (a, z3.BitVecVal(int.from_bytes(d, 'big'), int(s2) * 8)))
    return e


_ESC = re.compile(r'\\u\{([0-9a-fA-F]+)\}')


def zstr(v):
    s = v.as_string()
    return _ESC.sub(lambda k: chr(int(k.group(1), 16)), s)

"""The two execution contexts a harness can run in: symbolic (SymCtx) and concrete replay (ConCtx)."""
from __future__ import annotations

import builtins
import datetime as _dt
import hashlib
import json
import logging
import os
import re
import shutil
import struct
import sys
import tempfile
import time
from fractions import Fraction

import numpy as np

from . import inputs as I
from .core_light import PathDone, Violation, Budget, Unsupported, Steer      # noqa: F401


class Discard(PathDone):
    pass


class Res:
    """Outcome of an operation: exception (or None), value."""
    __slots__ = ('exc', 'value', 'data', 'snaps', 'warnings')

    def __init__(self, exc=None, value=None):
        self.exc, self.value = exc, value
        self.data = None
        self.snaps = None
        self.warnings = 0

    @property
    def ok(self):
        return self.exc is None


DEFAULT_OUT = 1 << 20


def set_timezone(tz):
    if os.environ.get('TZ') != tz:
        os.environ['TZ'] = tz
        time.tzset()


_OFFS = {}


def local_offset_table(tz, date, fold):
    """[(second of the day from which it holds, offset in minutes)] of the (current) local time zone on a day"""
    k = (tz, date, fold)
    if k not in _OFFS:
        tab = []
        for q in range(96):
            t = _dt.datetime(date.year, date.month, date.day, q // 4, q % 4 * 15, fold=fold)
            o = t.astimezone().utcoffset()
            o = (o.days * 86400 + o.seconds) // 60
            if not tab or tab[-1][1] != o:
                tab.append((q * 900, o))
        _OFFS[k] = tab
    return _OFFS[k]


class Base:
    """Harness-facing helpers that are identical in both contexts."""

    def call(self, f, *a, **k):
        try:
            return Res(None, f(*a, **k))
        except Steer:
            raise
        except RecursionError as e:
            raise Unsupported('recursion') from e
        except Exception as e:
            return Res(e, None)

    def ok(self, what, f, *a, **k):
        """An operation the property obliges the library to accept."""
        r = self.call(f, *a, **k)
        if r.exc is not None:
            self.require(False, f'{what}: raised {type(r.exc).__name__}: {self.exc_text(r.exc)}')
        return r.value

    def must(self, f, *a, **k):
        """Set-up step: if it raises, this path is outside of the scenario."""
        r = self.call(f, *a, **k)
        if r.exc is not None:
            raise PathDone(f'set-up raised {type(r.exc).__name__}')
        return r.value

    def write(self, df, name='out.dlis', **kw):
        kw.setdefault('output_chunk_size', DEFAULT_OUT)
        p = self.path(name)
        n0 = self.snap_count(p)
        w0 = self.warning_count()
        r = self.call(df.write, p, **kw)
        r.data = self.read_file(p)
        r.snaps = self.snap_since(p, n0)
        r.warnings = self.warning_count() - w0
        return r

    def write_ok(self, df, name='out.dlis', what='write', **kw):
        r = self.write(df, name, **kw)
        if r.exc is not None:
            self.require(False, f'{what} of a valid specification raised {type(r.exc).__name__}: '
                                f'{self.exc_text(r.exc)}')
        return r

    def exc_text(self, e):
        return type(e).__name__


# ====================================================================================================================
# concrete


class _SnapFile:
    """wraps a real file opened for writing inside the scratch directory; records content after each write"""

    def __init__(self, f, path, ctx):
        self._f, self._path, self._ctx = f, path, ctx

    def write(self, b):
        n = self._f.write(b)
        self._f.flush()
        self._ctx._snap(self._path)
        return n

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)


class _WarnCount(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.n = 0
        self.info = []

    def emit(self, r):
        if r.levelno >= logging.WARNING:
            self.n += 1
        elif r.levelno == logging.INFO:
            self.info.append(str(r.msg))


def find_total(t):
    m = re.search(r'total[^0-9]*size[^0-9]*([0-9]+)', t.lower())
    return int(m.group(1)) if m else None


class ConCtx(Base):
    symbolic = False

    def __init__(self, dw, inputs, rng_seed=1):
        self.timezone('UTC')
        self.dw = dw
        self.inputs = inputs
        self.dir = tempfile.mkdtemp(prefix='symxrep_')
        self.obs = []
        self.snapshots = {}
        self.used = {}
        self._open = builtins.open
        self._wc = _WarnCount()
        self.want_snaps = False
        self.notes = {}

    # -- life cycle
    def __enter__(self):
        lg = logging.getLogger()
        self._old = (lg.handlers[:], lg.level)
        lg.handlers = [self._wc]
        lg.setLevel(logging.INFO)
        ctx = self

        def op(file, mode='r', *a, **k):
            f = ctx._open(file, mode, *a, **k)
            try:
                p = os.fspath(file)
            except TypeError:
                return f
            if isinstance(p, str) and p.startswith(ctx.dir) and any(c in mode for c in 'wax+'):
                ctx._snap(p)
                return _SnapFile(f, p, ctx)
            return f
        builtins.open = op
        return self

    def __exit__(self, *a):
        builtins.open = self._open
        lg = logging.getLogger()
        lg.handlers, lv = self._old[0], self._old[1]
        lg.setLevel(lv)
        shutil.rmtree(self.dir, ignore_errors=True)

    def _snap(self, p):
        if not self.want_snaps:
            self.snapshots.setdefault(p, []).append(None)
            return
        with self._open(p, 'rb') as f:
            self.snapshots.setdefault(p, []).append(f.read())

    # -- inputs
    def _in(self, name):
        if name not in self.inputs:
            raise KeyError('missing input ' + name)
        return self.inputs[name]

    def int(self, name, lo, hi, even=False):
        if name not in self.inputs:
            v = I.default_int(name, lo, hi)
            return v - v % 2 if even else v
        return self.inputs[name]

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, options):
        i = self.inputs.get(name, 0)
        return options[i]

    def string(self, name, lo, hi, ascii_='yes'):
        if name not in self.inputs:
            return I.default_text(name, max(lo, min(hi, 5)))
        return self.inputs[name]

    def payload(self, name, lo, hi):
        if name not in self.inputs:
            return I.default_bytes(name, max(lo, min(hi, 20)))
        return bytes.fromhex(self.inputs[name])

    def flt(self, name):
        b = self.inputs.get(name)
        if b is None:
            b = I.default_bits(name, 64, 'f')
        return struct.unpack('>d', b.to_bytes(8, 'big'))[0]

    def real(self, name, lo, hi, den=1):
        return self.int(name, lo, hi) / den

    def dtime(self, name, date=(2021, 3, 4), tz='utc', us=True):
        d = self.inputs.get(name) or {'s': 3723, 'us': 5000, 'off': {'utc': 0, 'naive': None}.get(tz, 90)}
        if date[0] == 'sym':
            date = (d.get('y', date[2]), date[1], d.get('d', 1))
        base = _dt.datetime(*date) + _dt.timedelta(seconds=d['s'], microseconds=d['us'])
        if d['off'] is not None:
            base = base.replace(tzinfo=_dt.timezone(_dt.timedelta(minutes=d['off'])) if d['off'] else
                                _dt.timezone.utc)
        return base

    def timezone(self, tz):
        """the local time zone of the process from here on (a POSIX TZ string)"""
        set_timezone(tz)

    def dtime_utc(self, v):
        """(year, month, day, microsecond of the day) in UTC"""
        u = v.astimezone(_dt.timezone.utc)
        return u.year, u.month, u.day, ((u.hour * 60 + u.minute) * 60 + u.second) * 1000000 + u.microsecond

    def dtime_us(self, v):
        """UTC microseconds since 1900"""
        u = v.astimezone(_dt.timezone.utc).replace(tzinfo=None)
        return (u - _dt.datetime(1900, 1, 1)) // _dt.timedelta(microseconds=1)

    def array(self, name, dtype, shape, kind='bits', lo=None, hi=None, den=1, layout='C'):
        dt = np.dtype(dtype)
        n = int(np.prod(shape)) if shape else 1
        vals = self.inputs.get(name)
        nat = dt.newbyteorder('=')
        if kind == 'bits':
            if vals is None:
                vals = [I.default_bits(f'{name}.{i}', dt.itemsize * 8, dt.kind) for i in range(n)]
            a = np.array(vals, dtype=f'u{dt.itemsize}').view(nat)
        elif kind == 'int':
            if vals is None:
                vals = [I.default_int(f'{name}.{i}', lo, hi) for i in range(n)]
            a = np.array(vals, dtype=nat)
        else:
            if vals is None:
                vals = [I.default_int(f'{name}.{i}', lo, hi) for i in range(n)]
            a = np.array([v / den for v in vals], dtype=nat)
        return apply_layout(a.reshape(shape).astype(dt), layout)

    def set_cell(self, arr, idx, value):
        arr[idx] = value

    # -- array helpers for oracles
    def snapshot(self, a):
        return a.copy() if a.dtype.names is None else a.copy()

    def be(self, a, idx, cast=None):
        v = np.asarray(a[idx])
        if cast is not None:
            with np.errstate(all='ignore'):
                v = v.astype(np.dtype(cast))
        return v.astype(v.dtype.newbyteorder('>')).tobytes()

    def cell(self, a, idx):
        return a[idx].item()

    def arrays_same(self, a, b):
        if a.dtype != b.dtype or a.shape != b.shape or a.strides != b.strides and a.size > 1 and False:
            return False
        return a.tobytes() == b.tobytes()

    def structured(self, fields, layout='C'):
        """fields: list of (name, array) -> structured array"""
        n = len(fields[0][1])
        dt = np.dtype([(nm, a.dtype, a.shape[1:]) if a.ndim > 1 else (nm, a.dtype) for nm, a in fields])
        out = np.zeros(n, dtype=dt)
        for nm, a in fields:
            out[nm] = a
        return apply_layout1(out, layout)

    def h5(self, name, datasets):
        import h5py
        p = os.path.join(self.dir, name)
        with h5py.File(p, 'w') as f:
            for k, a in datasets:
                f.create_dataset(k, data=a)
        return p

    def h5_content(self, p):
        import h5py
        out = {}
        with h5py.File(p, 'r') as f:
            def vis(nm, o):
                if isinstance(o, h5py.Dataset):
                    out[nm] = o[...]
            f.visititems(vis)
        return out

    def h5_raw(self, p):
        with self._open(p, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()

    # -- files
    def path(self, name):
        return os.path.join(self.dir, name)

    def read_file(self, p):
        if not os.path.isfile(p):
            return None
        with self._open(p, 'rb') as f:
            return f.read()

    def put_file(self, p, b):
        with self._open(p, 'wb') as f:
            f.write(b)

    def snap_count(self, p):
        return len(self.snapshots.get(p, ()))

    def snap_since(self, p, n):
        return self.snapshots.get(p, [])[n:]

    def warning_count(self):
        return self._wc.n

    def reported_total(self):
        """total size the writer reports (None if it does not)"""
        for m in reversed(self._wc.info):
            v = find_total(m)
            if v is not None:
                return v
        return None

    # -- verdicts
    def assume(self, c):
        if not c:
            raise Discard('assume')

    def require(self, c, msg, key=None):
        if not c:
            raise Violation(msg if isinstance(msg, str) else msg(), key)

    def reached(self, tag):
        self.used[tag] = self.used.get(tag, 0) + 1

    def observe(self, name, v):
        self.obs.append([name, digest(v)])

    def exc_text(self, e):
        return str(e)[:200]

    # -- logic helpers usable in oracles
    def and_(self, *b):
        return all(b)

    def or_(self, *b):
        return any(b)

    def not_(self, b):
        return not b

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def feq(self, a, b):
        """bit identity of floats"""
        return struct.pack('>d', a) == struct.pack('>d', b)

    def f32(self, a):
        return struct.pack('>f', a)

    def f64_bytes(self, a):
        return struct.pack('>d', a)

    def f32_bytes(self, a):
        return struct.pack('>f', a)

    def f32_exact(self, a):
        """single precision holds the value"""
        try:
            b = struct.unpack('>f', struct.pack('>f', a))[0]
        except OverflowError:
            return False
        return b == a or a != a

    def f64_value(self, b):
        return struct.unpack('>d', b)[0]

    def concrete(self, x):
        return True

    def isascii(self, s):
        return s.isascii()

    def slen(self, s):
        return len(s)

    def fresh(self):
        """a second, independent instance of the library (stand-in for a fresh process)"""
        from . import instrument
        return instrument.load_real()

    def matches(self, s, pattern):
        return re.fullmatch(pattern, s) is not None

    def uint(self, b):
        return int.from_bytes(b, 'big')

    def chop(self, b, a, z):
        return b[a:z]


def apply_layout(a, layout):
    """same operations on real arrays and on the object arrays of cells"""
    if layout == 'C':
        return a
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        big = np.empty((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        big[1::2] = a
        big[0::2] = a[::-1] if len(a) else a
        return big[1::2]
    if layout == 'neg':
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == 'readonly':
        a = a.copy()
        a.setflags(write=False)
        return a
    if layout == 'view':
        big = np.empty((a.shape[0] + 3,) + a.shape[1:], dtype=a.dtype)
        big[2:2 + len(a)] = a
        big[:2] = a[:1]
        big[2 + len(a):] = a[:1]
        return big[2:2 + len(a)]
    if layout == 'colslice' and a.ndim == 2:
        big = np.empty((a.shape[0], a.shape[1] + 2), dtype=a.dtype)
        big[:, 1:-1] = a
        big[:, :1] = a[:, :1]
        big[:, -1:] = a[:, :1]
        return big[:, 1:-1]
    return a


def apply_layout1(a, layout):
    if layout == 'readonly':
        a.setflags(write=False)
        return a
    if layout == 'strided':
        big = np.zeros(2 * len(a), dtype=a.dtype)
        big[1::2] = a
        return big[1::2]
    return a


def digest(v):
    if isinstance(v, (bytes, bytearray)):
        return f'{len(v)}:{hashlib.sha256(bytes(v)).hexdigest()[:20]}'
    if v is None or isinstance(v, (int, str, bool)):
        return repr(v)
    if isinstance(v, float):
        return struct.pack('>d', v).hex()
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(digest(x) for x in v) + ']'
    return type(v).__name__


def run_concrete(fn, inputs, dw):
    """-> dict(status, msg, key, obs)"""
    ctx = ConCtx(dw, inputs)
    st, msg, key = 'ok', '', None
    with ctx:
        try:
            fn(ctx)
        except Violation as e:
            st, msg, key = 'violation', e.msg, e.inputs
        except PathDone as e:
            st, msg = 'discard', str(e)
        except Steer as e:
            st, msg = 'error', repr(e)
        except Exception as e:
            import traceback
            st, msg = 'error', traceback.format_exc()[-1500:]
    return {'status': st, 'msg': msg, 'key': key, 'obs': ctx.obs, 'reached': sorted(ctx.used)}

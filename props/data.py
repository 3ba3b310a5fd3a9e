"""Frame data in a decoded file: descriptors of the listed channels and the rows (shared by the data properties)."""
import numpy as np
from . import reader as R

RC_OF = {'i1': R.SSHORT, 'i2': R.SNORM, 'i4': R.SLONG, 'u1': R.USHORT, 'u2': R.UNORM, 'u4': R.ULONG,
         'f4': R.FSINGL, 'f8': R.FDOUBL}
DT_OF = {v: k for k, v in RC_OF.items()}
SIZE = {R.SSHORT: 1, R.SNORM: 2, R.SLONG: 4, R.USHORT: 1, R.UNORM: 2, R.ULONG: 4, R.FSINGL: 4, R.FDOUBL: 8}
DTYPES = list(RC_OF)
ORDERS = ['<', '>']
LAYOUTS1 = ['C', 'strided', 'neg', 'readonly', 'view']
LAYOUTS2 = ['C', 'F', 'strided', 'neg', 'colslice']


def key(dt):
    """'f4', 'u1'... of a dtype"""
    d = np.dtype(dt)
    return f'{d.kind}{d.itemsize}'


def one(ctx, xs, cond, what):
    """the single element of a list satisfying cond"""
    m = [x for x in xs if cond(x)]
    ctx.require(len(m) == 1, f'{len(m)} {what} instead of one')
    return m[0]


def frame_obj(ctx, lf, name, copy=0, origin=None):
    return one(ctx, lf.of_type(b'FRAME'),
               lambda o: o.ob.name == name and o.ob.copy == copy and (origin is None or o.ob.origin == origin),
               f'FRAME objects {name!r}/{copy}')


def vals(ctx, obj, label, what=''):
    a = obj.get(label)
    ctx.require(a is not None and a.values is not None, f'{what} {label.decode()} is absent')
    return a.values


def listed(ctx, lf, fr):
    """CHANNEL objects of a frame, in listed order, resolved in the logical file"""
    out = []
    for ref in vals(ctx, fr, b'CHANNELS', 'frame'):
        out.append(one(ctx, lf.of_type(b'CHANNEL'), lambda o: bool(ref.same(ctx, o.ob)), 'CHANNEL objects referred to'))
    return out


def descr(ctx, lf, fr):
    """[(name, rc, [dim])] of the listed channels"""
    out = []
    for ch in listed(ctx, lf, fr):
        rc = vals(ctx, ch, b'REPRESENTATION-CODE', 'channel')
        ctx.require(len(rc) == 1, 'channel with several representation codes')
        rc = int(rc[0])
        ctx.require(rc in SIZE, f'representation code {rc} is not one of channel data')
        dim = [int(x) for x in vals(ctx, ch, b'DIMENSION', 'channel')]
        out.append((ch, rc, dim))
    return out


def rows_of(ctx, rd, lf, fr):
    """[(frame number, slot bytes)] of the records referring to a frame, in file order"""
    out = []
    for r in lf.iflrs():
        if r.type != 0:
            continue
        ob, st = R.iflr_ref(rd, r)
        if not ob.same(ctx, fr.ob):
            continue
        n = st.uvari()
        out.append((n, st.d))
    return out


def prod(dim):
    n = 1
    for d in dim:
        n *= d
    return n


def expect_row(ctx, arrays, casts, i):
    """bytes of the slots of a row: every cell big-endian in frame channel order"""
    e = b''
    for a, c in zip(arrays, casts):
        e = e + ctx.be(a, i if a.ndim == 1 else (i,), c)
    return e


def check_frame(ctx, rd, lf, name, arrays, casts=None, rows=None, copy=0, names=None):
    """the frame holds exactly the given rows of the given arrays, bit for bit, decoded by its own descriptors"""
    casts = casts or [None] * len(arrays)
    fr = frame_obj(ctx, lf, name, copy)
    ds = descr(ctx, lf, fr)
    ctx.require(len(ds) == len(arrays), f'{len(ds)} channels listed instead of {len(arrays)}')
    rows = range(len(arrays[0])) if rows is None else rows
    got = rows_of(ctx, rd, lf, fr)
    ctx.require(len(got) == len(rows), f'{len(got)} frame-data records for {len(rows)} rows')
    for k, ((ch, rc, dim), a, c) in enumerate(zip(ds, arrays, casts)):
        if names is not None:
            ctx.require(ch.ob.name == names[k], f'channel {k} in the list is another one')
    for j, ((n, d), i) in enumerate(zip(got, rows)):
        ctx.require(n == j + 1, f'row {j} does not have frame number {j + 1}')
        for k, ((ch, rc, dim), a, c) in enumerate(zip(ds, arrays, casts)):
            w = SIZE[rc] * prod(dim)
            ctx.require(w <= len(d), f'row {j}: record too short for channel {k}')
            slot, d = d[:w], d[w:]
            want = ctx.be(a, i if a.ndim == 1 else (i,), c)
            kind = key(c if c is not None else a.dtype)
            ctx.require(DT_OF[rc] == kind, f'channel {k}: code {rc} for data of type {kind}')
            ctx.require(len(slot) == len(want), f'row {j}, channel {k}: slot of {len(slot)} bytes')
            ctx.require(slot == want, f'row {j}, channel {k}: other bits')
        ctx.require(len(d) == 0, f'row {j}: bytes left over')
    ctx.reached('frame')
    return fr

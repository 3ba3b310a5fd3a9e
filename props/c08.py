"""C08 A frame's channel descriptors match the layout of its data records."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D

REQ = ('iflr',)
BOUNDS = ('every (dtype, cast dtype) pair, scalar and widths 1..4, two byte orders; user-set DIMENSION and ELEMENT-LIMIT '
          '(symbolic values 0..5, one or two of them, at creation or later) against data of width 0..4; 1-4 channels per '
          'frame in any listed order; inline/dict/structured/HDF5 sources; channels listed in two frames or shared dataset '
          'names; two consecutive writes with data of other types and widths')
OUTSIDE = 'widths above 300; more than four channels'


def layout(ctx, r, want, name=b'F', lfi=0, observe=True):
    """want: [(dtype key, [dim])] in listed order"""
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    if observe:
        ctx.observe('file', r.data)
    lf = lfs[lfi]
    fr = D.frame_obj(ctx, lf, name)
    ds = D.descr(ctx, lf, fr)
    ctx.require(len(ds) == len(want), f'{len(ds)} channels listed instead of {len(want)}')
    total = 0
    for k, ((ch, rc, dim), (dt, shape)) in enumerate(zip(ds, want)):
        ctx.require(D.DT_OF[rc] == dt, f'channel {k}: code {rc} for data of type {dt}')
        ctx.require(dim == shape, f'channel {k}: DIMENSION {dim} for rows of shape {shape}')
        el = [int(x) for x in D.vals(ctx, ch, b'ELEMENT-LIMIT', 'channel')]
        ctx.require(len(el) >= len(dim) and all(e >= d for e, d in zip(el, dim)),
                    f'channel {k}: ELEMENT-LIMIT {el} does not bound {dim}')
        for lab in (b'DIMENSION', b'ELEMENT-LIMIT'):
            ctx.require(ch.get(lab).rc == R.UVARI, 'dimension code')
        total += D.SIZE[rc] * D.prod(dim)
    n = 0
    for x in lf.iflrs():
        if x.type == 0:
            ob, st = R.iflr_ref(rd, x)
            if not ob.same(ctx, fr.ob):
                continue
            st.uvari()
            ctx.require(len(st.d) == total, f'record slots take {len(st.d)} bytes, the descriptors say {total}')
            n += 1
    ctx.require(n >= 1, 'no rows')
    ctx.reached('layout')


def dim(w):
    return [w] if w else [1]


def arr(ctx, name, dt, w, rows=2, **k):
    return ctx.array(name, dt, (rows, w) if w else (rows,), **k)


def codes(ctx):
    src = ctx.choice('src', D.DTYPES)
    to = ctx.choice('to', [None] + D.DTYPES)
    w = ctx.choice('w', [0, 1, 3])
    a = arr(ctx, 'a', ctx.choice('order', D.ORDERS) + src, w)
    df, lf, = S.new_file(ctx), None
    lf, o = S.add_lf(df)
    c = lf.add_channel('A', data=a, cast_dtype=None if to is None else np.dtype(to).type)
    lf.add_frame('F', channels=[c])
    layout(ctx, ctx.write_ok(df), [(to or src, dim(w))], observe=to is None)


def declared(n_dim, n_el, later=False):
    """DIMENSION and ELEMENT-LIMIT set by the user: refused or consistent with the rows"""
    def fn(ctx):
        w = ctx.choice('w', [0, 1, 2, 4])
        dt = ctx.choice('dt', ['<f4', '>i2'])
        a = arr(ctx, 'a', dt, w)
        df = S.new_file(ctx)
        lf, o = S.add_lf(df)
        d = [ctx.int(f'd{i}', 0, 5) for i in range(n_dim)] or None
        e = [ctx.int(f'e{i}', 0, 5) for i in range(n_el)] or None
        if later:
            c = lf.add_channel('A', data=a)
            if d:
                ctx.must(setattr, c.dimension, 'value', d)
            if e:
                ctx.must(setattr, c.element_limit, 'value', e)
        else:
            c = ctx.must(lf.add_channel, 'A', data=a, dimension=d, element_limit=e)
        c2 = lf.add_channel('B', data=np.arange(2, dtype='u1'))
        lf.add_frame('F', channels=[c2, c])
        r = ctx.write(df)
        if r.exc is not None:
            ok = ctx.and_(*[x == y for x, y in zip(d, dim(w))], len(d) == 1) if d else True
            ok2 = ctx.and_(e[0] >= (w or 1)) if e else True
            ctx.require(ctx.not_(ctx.and_(ok, ok2)), 'matching dimension and limit refused')
            return
        layout(ctx, r, [('u1', [1]), (dt[1:], dim(w))])
    return fn


def source(kind):
    def fn(ctx):
        w = ctx.choice('w', [(0, 1), (2, 0), (3, 4), (0, 0)])
        o = ctx.choice('o', [('<f8', '>i4'), ('>u2', '<u1'), ('<i1', '>f4')])
        cast = ctx.choice('cast', [(None, None), ('f4', None), (None, 'i2')])
        a, b = arr(ctx, 'a', o[0], w[0]), arr(ctx, 'b', o[1], w[1])
        rev = ctx.bool('rev')
        df = S.new_file(ctx)
        lf, _ = S.add_lf(df)
        ct = [None if c is None else np.dtype(c).type for c in cast]
        kw = {}
        if kind == 'inline':
            chs = [lf.add_channel('A', data=a, cast_dtype=ct[0]), lf.add_channel('B', data=b, cast_dtype=ct[1])]
        else:
            chs = [lf.add_channel('A', dataset_name='x', cast_dtype=ct[0]),
                   lf.add_channel('B', dataset_name='y', cast_dtype=ct[1])]
            fields = [('z', np.arange(2, dtype='i2') if kind == 'dict' else a), ('y', b), ('x', a)]
            if kind == 'dict':
                kw['data'] = dict(fields)
            elif kind == 'struct':
                kw['data'] = ctx.structured(fields)
            else:
                kw['data'] = ctx.h5('d.h5', fields)
        want = [(cast[0] or o[0][1:], dim(w[0])), (cast[1] or o[1][1:], dim(w[1]))]
        if rev:
            chs, want = chs[::-1], want[::-1]
        lf.add_frame('F', channels=chs)
        layout(ctx, ctx.write_ok(df, **kw), want)
    return fn


def rewrite(ctx):
    """the same specification written twice, with data of other types and widths"""
    w1, w2 = ctx.choice('ws', [(0, 2), (2, 0), (3, 1), (2, 2)])
    d1, d2 = ctx.choice('dts', [('<f8', '<f4'), ('>i2', '<u4'), ('<u1', '>u1')])
    cast = ctx.choice('cast', [None, 'f4'])
    rows = ctx.choice('rows', [1, 2])
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    c = lf.add_channel('A', cast_dtype=None if cast is None else np.float32)
    c2 = lf.add_channel('B', cast_dtype=np.uint8)
    lf.add_frame('F', channels=[c, c2])
    for i, (w, d) in enumerate(((w1, d1), (w2, d2))):
        a = arr(ctx, f'a{i}', d, w, rows)
        b = arr(ctx, f'b{i}', '<u4', w2 if i == 0 else w1, rows)
        r = ctx.write_ok(df, data={'A': a, 'B': b})
        layout(ctx, r, [(cast or d[1:], dim(w)), ('u1', dim(w2 if i == 0 else w1))])


def shared(ctx):
    """one channel in two frames; two channels of one dataset; equal channel names in different frames and sets"""
    w = ctx.choice('w', [0, 1, 3])
    a = arr(ctx, 'a', ctx.choice('dt', ['<f4', '>u2']), w)
    b = arr(ctx, 'b', '>f8', 2)
    k = D.key(a.dtype)
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    case = ctx.choice('case', ['two frames', 'one dataset', 'same name', 'same name, other set'])
    if case == 'two frames':
        c = lf.add_channel('A', data=a)
        c2 = lf.add_channel('B', data=b)
        lf.add_frame('F', channels=[c, c2])
        lf.add_frame('G', channels=[c])
        r = ctx.write_ok(df)
        layout(ctx, r, [(k, dim(w)), ('f8', [2])])
        layout(ctx, r, [(k, dim(w))], b'G')
    elif case == 'one dataset':
        c = lf.add_channel('A', dataset_name='q')
        c2 = lf.add_channel('B', cast_dtype=np.float64)
        c2.dataset_name = 'q'
        lf.add_frame('F', channels=[c2, c])
        layout(ctx, ctx.write_ok(df, data={'q': a}), [('f8', dim(w)), (k, dim(w))])
    else:
        c = lf.add_channel('A', data=a)
        c2 = lf.add_channel('A', data=b, set_name='S' if case != 'same name' else None)
        lf.add_frame('F', channels=[c])
        lf.add_frame('G', channels=[c2])
        r = ctx.write_ok(df)
        layout(ctx, r, [(k, dim(w))])
        layout(ctx, r, [('f8', [2])], b'G')


def twice(ctx):
    """a channel listed twice, or two channels of one name: refused or described consistently"""
    a = arr(ctx, 'a', '<f4', 0)
    b = arr(ctx, 'b', '>i2', 2)
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    c = lf.add_channel('A', data=a)
    case = ctx.choice('case', ['same channel', 'same name', 'same name, other set'])
    c2 = c if case == 'same channel' else lf.add_channel('A', data=b, set_name=None if case == 'same name' else 'S')
    lf.add_frame('F', channels=ctx.choice('order', [[c, c2], [c2, c]]))
    r = ctx.write(df)
    if r.exc is not None:
        ctx.reached('refused')
        return
    two = [('f4', [1]), ('f4', [1]) if case == 'same channel' else ('i2', [2])]
    layout(ctx, r, two)


def override(ctx):
    """data passed to write replaces inline data of another type and shape"""
    a = arr(ctx, 'a', '<f4', ctx.choice('w0', [0, 2]))
    w = ctx.choice('w', [0, 3])
    b = arr(ctx, 'b', '>u1', w)
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    c = lf.add_channel('A', data=a)
    lf.add_frame('F', channels=[c])
    layout(ctx, ctx.write_ok(df, data={'A': b}), [('u1', dim(w))])
    r = ctx.write_ok(df)
    layout(ctx, r, [('f4', dim(a.shape[1] if a.ndim > 1 else 0))])


def wide(ctx):
    """dimension needing a two-byte UVARI"""
    w = ctx.choice('w', [127, 128, 255, 300])
    a = np.arange(2 * w, dtype=ctx.choice('dt', ['<u2', '>f8', '<i1'])).reshape(2, w)
    df = S.new_file(ctx, max_record_length=ctx.choice('vrl', [8192, 512]))
    lf, _ = S.add_lf(df)
    c = lf.add_channel('A', data=a)
    lf.add_frame('F', channels=[c])
    layout(ctx, ctx.write_ok(df), [(D.key(a.dtype), [w])])


def scenarios(tier):
    q = tier == 'quick'
    return [
        Scenario('codes', codes, 4),
        Scenario('declared-dim', declared(1, 0), 1),
        Scenario('declared-limit', declared(0, 1), 1),
        Scenario('declared-both', declared(1, 1), 2),
        Scenario('declared-both-later', declared(1, 1, True), 2),
        Scenario('declared-limit-2', declared(0, 2), 2),
        Scenario('declared-dim-2', declared(2, 1), 2), Scenario('declared-dim-2-alone', declared(2, 0), 1),
        Scenario('inline', source('inline'), 1),
        Scenario('dict', source('dict'), 1),
        Scenario('struct', source('struct'), 1),
        Scenario('h5', source('h5'), 1),
        Scenario('rewrite', rewrite, 2),
        Scenario('shared', shared, 1),
        Scenario('twice', twice, 1),
        Scenario('override', override, 1),
        Scenario('wide', wide, 1),
    ] + ([] if q else [
        Scenario('declared-2-2', declared(2, 2), 3),
        Scenario('declared-later-2', declared(1, 2, True), 3),
    ])

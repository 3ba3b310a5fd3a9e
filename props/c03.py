"""C03 Channel data round-trips bit-exactly, one numbered record per row."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D

REQ = ('iflr',)
BOUNDS = ('every cell an unconstrained bit pattern (all NaN payloads, infinities, signed zeros, integer extremes); eight '
          'dtypes x two byte orders x five memory layouts, 3 rows scalar and 2 rows of width 1..4; every pair of source and '
          'cast dtype (plus int64/uint64/bool/float16 sources where accepted); 3-channel frames in every channel order with '
          'mixed shapes; 1..6 rows with input chunks 1..7; frame numbers up to 700 (thorough 16500); inline, dict, '
          'structured-array and HDF5 sources; a second write after a change of cells, casts, source, order or names; frame data '
          'records made directly with any frame number 1..2^30-1')
OUTSIDE = 'more than 6 rows with symbolic cells, widths above 4; numpy casts themselves (uninterpreted in the proof, real in the replays); casts of floats outside the range of the integer type (undefined)'


def start(ctx, vrl=8192):
    df = S.new_file(ctx, max_record_length=vrl)
    lf, o = S.add_lf(df)
    return df, lf


def finish(ctx, df, name, arrays, casts=None, **kw):
    snaps = [ctx.snapshot(a) for a in arrays]
    r = ctx.write_ok(df, **kw)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    ctx.observe('file', r.data)
    D.check_frame(ctx, rd, lfs[0], name, snaps, casts)


def scalar(dts, layouts, rows=3):
    def fn(ctx):
        dt = ctx.choice('order', D.ORDERS) + ctx.choice('dt', dts)
        a = ctx.array('a', dt, (rows,), layout=ctx.choice('layout', layouts))
        df, lf = start(ctx)
        c = lf.add_channel('A', data=a)
        lf.add_frame('F', channels=[c])
        finish(ctx, df, b'F', [a])
    return fn


def matrix(dts, layouts, ws, rows=2):
    def fn(ctx):
        dt = ctx.choice('order', D.ORDERS) + ctx.choice('dt', dts)
        w = ctx.choice('w', ws)
        a = ctx.array('a', dt, (rows, w), layout=ctx.choice('layout', layouts))
        df, lf = start(ctx)
        c = lf.add_channel('A', data=a)
        lf.add_frame('F', channels=[c])
        finish(ctx, df, b'F', [a])
    return fn


def in_range(ctx, a, to):
    """float cells outside of the integer type's range have no defined cast: not claimed"""
    if a.dtype.kind == 'f' and np.dtype(to).kind in 'iu':
        ii = np.iinfo(np.dtype(to))
        for i in np.ndindex(a.shape):
            x = ctx.cell(a, i)
            ctx.assume(ctx.and_(x >= float(ii.min), x <= float(ii.max)))


def cast(srcs, w=0, orders=D.ORDERS):
    def fn(ctx):
        dt = ctx.choice('order', orders) + ctx.choice('src', srcs)
        to = ctx.choice('to', D.DTYPES)
        rows = 2
        a = ctx.array('a', dt, (rows, w) if w else (rows,))
        in_range(ctx, a, to)
        df, lf = start(ctx)
        how = ctx.choice('how', ['type', 'later', 'dtype', 'be'])
        t = {'dtype': np.dtype(to), 'be': np.dtype('>' + to)}.get(how, np.dtype(to).type)
        if how == 'later':
            c = lf.add_channel('A', data=a)
            c.cast_dtype = t
        else:
            c = lf.add_channel('A', data=a, cast_dtype=t)
        lf.add_frame('F', channels=[c])
        finish(ctx, df, b'F', [a], [to])
    return fn


def odd_sources(srcs):
    """sources of types without a representation code, cast to one that has: refused or converted exactly as numpy does"""
    def fn(ctx):
        src = ctx.choice('src', srcs)
        fixed = {'?': np.array([True, False]), '<f2': np.array([1.5, 100.0], '<f2')}
        a = fixed[src] if src in fixed else ctx.array('a', src, (2,))
        to = ctx.choice('to', D.DTYPES)
        if src not in fixed:
            in_range(ctx, a, to)
        df, lf = start(ctx)
        c = lf.add_channel('A', data=a, cast_dtype=np.dtype(to).type)
        lf.add_frame('F', channels=[c])
        s = ctx.snapshot(a)
        r = ctx.write(df)
        ctx.assume(r.exc is None)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        ctx.observe('file', r.data)
        D.check_frame(ctx, rd, lfs[0], b'F', [s], [to])
    return fn


PERM = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def multi(source):
    def fn(ctx):
        """three channels; the frame's order is not that in which they were added"""
        perm = ctx.choice('perm', PERM)
        o1, o2 = ctx.choice('orders', [('<', '>'), ('>', '<'), ('>', '>')])
        rows = 3
        arrs = [ctx.array('a', o1 + 'f8', (rows,), layout='strided'),
                ctx.array('b', o2 + 'i2', (rows, 2)),
                ctx.array('c', o1 + 'f4', (rows,), layout='neg')]
        cs = [None, ctx.choice('cast', [None, np.float32, np.dtype('>u1')]), None]
        keys = ['A', 'B', 'C']
        df, lf = start(ctx)
        kw = {}
        if source == 'inline':
            chs = [lf.add_channel(k, data=a, cast_dtype=c) for k, a, c in zip(keys, arrs, cs)]
        else:
            chs = [lf.add_channel(k, cast_dtype=c) for k, c in zip(keys, cs)]
            if source == 'dict':
                kw['data'] = {'X': arrs[2], 'C': arrs[2], 'A': arrs[0], 'B': arrs[1]}
            elif source == 'struct':
                kw['data'] = ctx.structured([('X', arrs[0]), ('B', arrs[1]), ('C', arrs[2]), ('A', arrs[0])],
                                            ctx.choice('slayout', ['C', 'strided', 'readonly']))
            else:
                kw['data'] = ctx.h5('d.h5', [('/C', arrs[2]), ('/B', arrs[1]), ('/A', arrs[0])])
        lf.add_frame('F', channels=[chs[i] for i in perm])
        finish(ctx, df, b'F', [arrs[i] for i in perm], [cs[i] for i in perm], **kw)
    return fn


def struct_native(ctx):
    """structured array whose fields are exactly the frame's: byte order per field, whole and in chunks"""
    o1, o2 = ctx.choice('orders', [('<', '<'), ('<', '>'), ('>', '<'), ('>', '>')])
    n = 3
    a = ctx.array('a', o1 + 'i4', (n,))
    b = ctx.array('b', o2 + ctx.choice('bt', ['f8', 'u2', 'f4']), (n, ctx.choice('w', [1, 2])))
    s = ctx.structured([('A', a), ('B', b)], ctx.choice('slayout', ['C', 'strided']))
    df, lf = start(ctx)
    chs = [lf.add_channel('A'), lf.add_channel('B')]
    lf.add_frame('F', channels=chs)
    finish(ctx, df, b'F', [a, b], data=s, input_chunk_size=ctx.choice('ck', [None, 1, 2, 3, 4]))


def chunks(ctx):
    n = ctx.choice('rows', [1, 2, 3, 4, 5, 6])
    a = ctx.array('a', '>u2', (n,))
    b = ctx.array('b', '<f4', (n, 2), layout='F')
    df, lf = start(ctx)
    c1, c2 = lf.add_channel('A', data=a), lf.add_channel('B', data=b)
    lf.add_frame('F', channels=[c2, c1])
    finish(ctx, df, b'F', [b, a], input_chunk_size=ctx.choice('ck', [None, 1, 2, 3, 4, 5, 6, 7]))


def many(n, src='inline'):
    def fn(ctx):
        """row count and frame numbers beyond the one-byte (two-byte) encoding"""
        ck = ctx.choice('ck', [None, 50, 127, n - 1]) if n < 1000 else ctx.choice('ck', [4096])
        base = np.arange(n, dtype='<i2')
        df, lf = start(ctx)
        b = base * 3
        c1 = lf.add_channel('A', data=base)
        c2 = lf.add_channel('B', data=b.astype('>i2'))
        lf.add_frame('F', channels=[c2, c1])
        s = ctx.write_ok(df, input_chunk_size=ck)
        rd, sul, segs, recs, lfs = R.read_all(ctx, s.data, REQ)
        fr = D.frame_obj(ctx, lfs[0], b'F')
        got = D.rows_of(ctx, rd, lfs[0], fr)
        ctx.require(len(got) == n, f'{len(got)} records for {n} rows')
        for i, (k, d) in enumerate(got):
            ctx.require(k == i + 1, 'frame number')
            ctx.require(d == b[i:i + 1].astype('>i2').tobytes() + base[i:i + 1].astype('>i2').tobytes(), 'row bytes')
        ctx.observe('file', s.data)
        ctx.reached('frame')
    return fn


def two_frames(ctx):
    """two frames of one logical file with channels and datasets of equal names"""
    a = ctx.array('a', '<f4', (2,))
    b = ctx.array('b', '>u1', (3, 2))
    c = ctx.array('c', '>f8', (2,), layout='neg')
    df, lf = start(ctx)
    c1 = lf.add_channel('X', data=a)
    c2 = lf.add_channel('X', data=b)
    c3 = lf.add_channel('Y', data=c)
    lf.add_frame('F', channels=[c1, c3])
    lf.add_frame('G', channels=[c2])
    sa, sb, sc = ctx.snapshot(a), ctx.snapshot(b), ctx.snapshot(c)
    r = ctx.write_ok(df)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    ctx.observe('file', r.data)
    D.check_frame(ctx, rd, lfs[0], b'F', [sa, sc])
    D.check_frame(ctx, rd, lfs[0], b'G', [sb])


def rewrite(ctx):
    """one specification written twice, something changed in between: the second file holds what is current then"""
    how = ctx.choice('how', ['cells', 'cast', 'uncast', 'source', 'dataset', 'order', 'rows', 'replace', 'layout'])
    o1 = ctx.choice('order', ['<', '>'])
    a = ctx.array('a', o1 + 'f4', (2,))
    b = ctx.array('b', '<i4', (2, 2), layout='F')
    c = ctx.array('c', o1 + 'f8', (3,), layout='neg' if how == 'layout' else 'C')
    d = ctx.array('d', '>i4', (3, 2))
    df, lf = start(ctx)
    ch = [lf.add_channel('A', cast_dtype=np.float64 if how == 'uncast' else None), lf.add_channel('B')]
    fr = lf.add_frame('F', channels=list(ch))
    src = {'A': a, 'B': b}
    casts = ['f8' if how == 'uncast' else None, None]
    arrs = [a, b]

    def go(name):
        snaps = [ctx.snapshot(x) for x in arrs]
        r = ctx.write_ok(df, name, data=src)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        ctx.observe(name, r.data)
        D.check_frame(ctx, rd, lfs[0], b'F', snaps, casts)
    go('a.dlis')
    if how == 'cells':
        ctx.set_cell(a, (1,), ctx.cell(c, (0,)))
        ctx.set_cell(b, (0, 1), 77)
    elif how == 'cast':
        ch[0].cast_dtype, ch[1].cast_dtype = np.float64, np.int16
        casts = ['f8', 'i2']
    elif how == 'uncast':
        ch[0].cast_dtype = None
        casts = [None, None]
    elif how == 'source':
        src = ctx.structured([('B', b), ('A', a)])
    elif how == 'dataset':
        ch[0].dataset_name = 'x'
        src = {'A': b, 'B': b, 'x': a}
    elif how == 'order':
        fr.channels.value = ch[::-1]
        arrs = [b, a]
    elif how == 'rows':
        src, arrs = {'A': c, 'B': d}, [c, d]
    elif how == 'replace':
        src['A'], src['B'] = c, d
        arrs = [c, d]
    else:
        src, arrs = {'B': d, 'A': c}, [c, d]
    go('b.dlis')


def wide_rows(ctx):
    """rows longer than a visible record"""
    w = ctx.choice('w', [1, 2, 3, 8, 20])
    a = ctx.array('a', ctx.choice('dt', ['<f8', '>u1', '>i4']), (2, w))
    df, lf = start(ctx, ctx.choice('vrl', [48, 128]))
    c = lf.add_channel('A', data=a)
    lf.add_frame('F', channels=[c])
    finish(ctx, df, b'F', [a])


def frame_number(ctx):
    """every frame number there can be (the record class itself; the other scenarios decide if its interface has changed)"""
    n = ctx.int('n', 1, 2 ** 30 - 1)
    df, lf = start(ctx)
    a = np.array([7, 9], dtype=np.uint8)
    c = lf.add_channel('A', data=a)
    fr = lf.add_frame('F', channels=[c])
    row = np.array([(7,)], dtype=[('A', 'u1')])[0]
    try:
        cls = ctx.dw.logical_record.iflr_types.FrameData
        pre = fr.obname
    except AttributeError:
        ctx.assume(False)
    def body(k):
        r = ctx.call(cls, fr, frame_number=k, slots=row, origin_reference=fr.origin_reference)
        ctx.assume(r.exc is None)
        try:
            f = r.value._make_body_bytes
        except AttributeError:
            ctx.assume(False)
        r = ctx.call(f)
        ctx.assume(r.exc is None)
        ctx.assume(len(r.value) > len(pre) and bool(r.value[:len(pre)] == pre))
        return r.value[len(pre):]
    ctx.assume(bool(body(1) == b'\x01\x07'))         # the interface is as we know it
    rest = body(n)
    k, top = (1, 0) if bool(n < 128) else (2, 0x8000) if bool(n < 2 ** 14) else (4, 0xc0000000)
    ctx.require(len(rest) == k + 1, 'frame number of another length')
    ctx.require(ctx.uint(rest[:k]) == n + top, 'other frame number')
    ctx.require(rest[k:] == b'\x07', 'other data')
    ctx.reached('number')


def scenarios(tier):
    q = tier == 'quick'
    return [
        Scenario('scalar', scalar(D.DTYPES, D.LAYOUTS1), 2),
        Scenario('matrix', matrix(D.DTYPES, ['C', 'F', 'strided', 'colslice'], [1, 3]), 3),
        Scenario('cast-int', cast(['i1', 'i2', 'i4', 'u1']), 3),
        Scenario('cast-rest', cast(['u2', 'u4', 'f4', 'f8']), 3),
        Scenario('cast-odd', odd_sources(['<i8', '>u8', '?', '<f2']), 1),
        Scenario('cast-2d', cast(['f8', 'i4'], 2), 1),
        Scenario('multi-inline', multi('inline'), 1),
        Scenario('multi-dict', multi('dict'), 1),
        Scenario('multi-struct', multi('struct'), 2),
        Scenario('multi-h5', multi('h5'), 1),
        Scenario('struct-native', struct_native, 2),
        Scenario('chunks', chunks, 1),
        Scenario('many', many(700), 1), Scenario('frame-number', frame_number, 1),
        Scenario('two-frames', two_frames, 1),
        Scenario('wide-rows', wide_rows, 1),
        Scenario('rewrite', rewrite, 1),
    ] + ([] if q else [
        Scenario('matrix-wide', matrix(D.DTYPES, D.LAYOUTS2, [1, 2, 3, 4], 3), 4),
        Scenario('scalar-rows', scalar(D.DTYPES, D.LAYOUTS1, 6), 2),
        Scenario('cast-2d-all', cast(D.DTYPES, 3), 4),
        Scenario('many-16500', many(16500), 3),
    ])

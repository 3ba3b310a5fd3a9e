"""C11 All data sources are equivalent and the row window selects exactly its rows."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D

REQ = ('iflr',)
BOUNDS = ('every cell an unconstrained bit pattern; 2-3 channels (scalar and 2-D, two byte orders, with and without casts, '
          'permuted frame lists, two frames), 1-4 rows; inline / dict / structured array / HDF5 with dataset-name mapping, '
          'extra datasets and several dataset orders; every window from_idx 0..rows+1, to_idx None or -1..rows+2 '
          '(symbolic), input chunks None, 1..5; a second write with another window, chunk and kind of source')
OUTSIDE = 'more than four rows, HDF5 chunked or compressed storage'
COMB = [('<f8', '>i2', '<u1'), ('>u4', '<f4', '>f4')]
NATIVE = [('<f8', '<i2', '<u1'), ('<f4', '<f4', '<f4')]


def arrays(ctx, rows, tag='', combos=COMB, w=2):
    t = ctx.choice('dts' + tag, combos)
    return [ctx.array('a' + tag, t[0], (rows,)),
            ctx.array('b' + tag, t[1], (rows, w)),
            ctx.array('c' + tag, t[2], (rows,))]


def build(ctx, arrs, kind, perm=(0, 1, 2), names=('A', 'B', 'C'), dsets=None, casts=(None, None, None), order=0,
          extra=False, tag='', units=None):
    """-> (DLISFile, write kwargs): the same specification with the data given in one of the four ways"""
    df = S.new_file(ctx)
    lf, o = S.add_lf(df)
    dsets = dsets or [None] * len(arrs)
    casts = [None if c is None else np.dtype(c).type for c in casts]
    loc = [d or n for d, n in zip(dsets, names)]
    kw = {}
    chs = []
    for n, d, a, c in zip(names, dsets, arrs, casts):
        k = {'cast_dtype': c}
        if d:
            k['dataset_name'] = d
        if kind == 'inline':
            k['data'] = a
        chs.append(lf.add_channel(n, **k))
    lf.add_frame('F', channels=[chs[i] for i in perm])
    if kind != 'inline':
        items = list(zip(loc, arrs))
        items = [items, items[::-1], items[1:] + items[:1]][order]
        if extra:
            rows = len(arrs[0])
            e = np.arange(rows, dtype='<i4') * 7
            if kind == 'h5':
                items = [('extra', e)] + items[:1] + [('grp/extra', np.arange(rows + 2) * 1.0)] + items[1:]
            elif kind == 'dict':
                items = [('extra', e)] + items[:1] + [('zz', np.arange(rows + 2) * 1.0)] + items[1:]
            else:
                items = [('extra', arrs[0])] + items[:1] + [('zz', arrs[-1])] + items[1:]
        if kind == 'dict':
            kw['data'] = dict(items)
        elif kind == 'struct':
            kw['data'] = ctx.structured(items)
        else:
            kw['data'] = ctx.h5('d' + tag + '.h5', items)
    return df, kw


def same(ctx, r1, r2, what):
    ctx.require(len(r1.data) == len(r2.data), f'{what}: files differ in length')
    ctx.require(r1.data == r2.data, f'{what}: files differ')
    ctx.reached('compared')


PERMS = [(0, 1, 2), (2, 0, 1), (1, 0, 2)]


def sources(kind):
    def fn(ctx):
        rows = ctx.choice('rows', [1, 3])
        arrs = arrays(ctx, rows)
        perm = ctx.choice('perm', PERMS)
        casts = ctx.choice('casts', [(None,) * 3, ('f4', None, 'u2')])
        if any(casts):
            arrs[0] = ctx.array('a2', '<u2', (rows,))
            arrs[2] = ctx.array('c2', '>i4', (rows,))
        order = ctx.choice('order', [0, 1, 2])
        extra = ctx.bool('extra')
        ds = {'dict': ('x', None, 'B'), 'struct': ('x', None, 'B0'), 'h5': ('/g/x', 'B', 'k/C')}[kind]
        if kind == 'dict':
            ds = ('x', None, 'B0')
        ck = ctx.choice('ck', [None, 2])
        df0, kw0 = build(ctx, arrs, 'inline', perm, casts=casts)
        r0 = ctx.write_ok(df0, 'a.dlis')
        df1, kw1 = build(ctx, arrs, kind, perm, casts=casts, dsets=ds, order=order, extra=extra)
        r1 = ctx.write_ok(df1, 'b.dlis', input_chunk_size=ck, **kw1)
        ctx.observe('file', r1.data)
        same(ctx, r0, r1, f'inline and {kind}')
        rd, sul, segs, recs, lfs = R.read_all(ctx, r1.data, REQ)
        D.check_frame(ctx, rd, lfs[0], b'F', [arrs[i] for i in perm], [casts[i] for i in perm],
                      names=[[b'A', b'B', b'C'][i] for i in perm])
    return fn


def swapped(kind):
    """dataset names that are the names of other channels"""
    def fn(ctx):
        rows = 2
        dt = ctx.choice('dt', ['<f8', '>u2', '<i4'])
        arrs = [ctx.array('a', dt, (rows,)), ctx.array('b', dt, (rows,)), ctx.array('c', dt, (rows,))]
        ds = ctx.choice('ds', [('B', 'A', 'C'), ('B', 'C', 'A'), ('A', 'C', 'B')])
        perm = ctx.choice('perm', PERMS)
        df, kw = build(ctx, arrs, kind, perm, dsets=ds, order=ctx.choice('order', [0, 1, 2]))
        win = ctx.choice('win', [(0, None), (1, None), (0, 1)])
        r = ctx.write_ok(df, from_idx=win[0], to_idx=win[1], **kw)
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        D.check_frame(ctx, rd, lfs[0], b'F', [arrs[i] for i in perm], rows=range(*slice(*win).indices(rows)))
    return fn


def exact_struct(ctx):
    """a structured array holding exactly the frame's channels, in its order (no copying needed) or in another"""
    rows = ctx.choice('rows', [2, 3])
    arrs = arrays(ctx, rows, combos=NATIVE + COMB[:1])
    perm = ctx.choice('perm', PERMS)
    order = ctx.choice('order', PERMS)
    n = ['A', 'B', 'C']
    df, _ = build(ctx, arrs, 'none', perm) if False else (None, None)
    df = S.new_file(ctx)
    lf, o = S.add_lf(df)
    chs = [lf.add_channel(k) for k in n]
    lf.add_frame('F', channels=[chs[i] for i in perm])
    s = ctx.structured([(n[i], arrs[i]) for i in order])
    lo = ctx.int('from', 0, rows - 1)
    hi = ctx.choice('to', [None, rows, rows - 1])
    ck = ctx.choice('ck', [None, 1, 2])
    r = ctx.write(df, data=s, from_idx=lo, to_idx=hi, input_chunk_size=ck)
    lo, top = int(lo), rows if hi is None else hi
    if r.exc is not None:
        ctx.require(lo >= top, 'valid window refused')
        return
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    D.check_frame(ctx, rd, lfs[0], b'F', [arrs[i] for i in perm], rows=range(lo, top))


def window(kind, rows, reorder=False):
    def fn(ctx):
        arrs = arrays(ctx, rows, combos=NATIVE[:1] if kind == 'struct' else COMB[:1])
        lo = ctx.int('from', 0, rows + 1)
        hi = ctx.int('to', -1, rows + 2) if ctx.bool('bounded') else None
        ck = ctx.choice('ck', [None, 1, 2, rows, rows + 1])
        df, kw = build(ctx, arrs, kind, (2, 0, 1) if reorder else (0, 1, 2), order=1 if reorder else 0)
        r = ctx.write(df, 'a.dlis', from_idx=lo, to_idx=hi, input_chunk_size=ck, **kw)
        lo = int(lo)
        hi = rows if hi is None else int(hi)
        if r.exc is not None:
            ctx.require(not (0 <= lo < hi <= rows), 'valid window refused')
            ctx.reached('refused')
            return
        ctx.require(0 <= lo < hi <= rows, 'window outside of the data accepted')
        df1, kw1 = build(ctx, [a[lo:hi] for a in arrs], 'dict', (2, 0, 1) if reorder else (0, 1, 2))
        r1 = ctx.write_ok(df1, 'b.dlis', **kw1)
        ctx.observe('file', r.data)
        same(ctx, r, r1, 'window and pre-sliced data')
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        D.check_frame(ctx, rd, lfs[0], b'F', [arrs[i] for i in ((2, 0, 1) if reorder else (0, 1, 2))],
                      rows=range(lo, hi))
    return fn


def window_index(kind, rows=3):
    """window of an indexed frame: derived index metadata are those of the rows selected"""
    def fn(ctx):
        ix = ctx.array('ix', '<i4', (rows,), kind='int', lo=-50, hi=50)
        b = ctx.array('b', '>f4', (rows,))
        lo = ctx.int('from', 0, rows - 1)
        hi = ctx.choice('to', [None, rows, rows - 1, 2])
        ctx.assume(lo < (rows if hi is None else hi))

        def make(x, y, k):
            df = S.new_file(ctx)
            lf, o = S.add_lf(df)
            kw = {}
            if k == 'inline':
                c = [lf.add_channel('I', units='m', data=x), lf.add_channel('B', data=y)]
            else:
                c = [lf.add_channel('I', units='m'), lf.add_channel('B')]
                kw['data'] = {'I': x, 'B': y} if k == 'dict' else ctx.structured([('I', x), ('B', y)]) if \
                    k == 'struct' else ctx.h5('d.h5', [('I', x), ('B', y)])
            lf.add_frame('F', channels=c, index_type='BOREHOLE-DEPTH')
            return df, kw
        lo = int(lo)
        df, kw = make(ix, b, kind)
        r = ctx.write_ok(df, 'a.dlis', from_idx=lo, to_idx=hi, **kw)
        df1, kw1 = make(ix[lo:hi], b[lo:hi], 'inline')
        r1 = ctx.write_ok(df1, 'b.dlis')
        ctx.observe('file', r.data)
        same(ctx, r, r1, 'window and pre-sliced data')
    return fn


def two_frames(kind):
    """two frames over one source, with different channel subsets and orders"""
    def fn(ctx):
        rows = 2
        arrs = arrays(ctx, rows) + [ctx.array('d', '>i4', (rows, 2))]
        win = ctx.choice('win', [(0, None), (1, None), (0, 1)])
        cast = ctx.choice('cast', [None, 'f4'])
        names = ['A', 'B', 'C', 'D']
        df = S.new_file(ctx)
        lf, o = S.add_lf(df)
        kw = {}
        chs = [lf.add_channel(n, cast_dtype=np.float32 if n == 'D' and cast else None,
                              **({'data': a} if kind == 'inline' else {})) for n, a in zip(names, arrs)]
        sets = ctx.choice('sets', [((0, 1), (3, 2)), ((2, 3), (0, 1)), ((1,), (3, 0, 2))])
        for nm, ss in zip(('F', 'G'), sets):
            lf.add_frame(nm, channels=[chs[i] for i in ss])
        items = list(zip(names, arrs))[::-1]
        if kind == 'dict':
            kw['data'] = dict(items)
        elif kind == 'struct':
            kw['data'] = ctx.structured(items)
        elif kind == 'h5':
            kw['data'] = ctx.h5('d.h5', items)
        r = ctx.write_ok(df, from_idx=win[0], to_idx=win[1], **kw)
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        for nm, ss in zip((b'F', b'G'), sets):
            D.check_frame(ctx, rd, lfs[0], nm, [arrs[i] for i in ss], [cast if i == 3 else None for i in ss],
                          rows=range(*slice(*win).indices(rows)))
    return fn


def rewritten(ctx):
    """one specification written twice with other windows, chunks or kinds of source"""
    rows = 3
    arrs = arrays(ctx, rows, combos=COMB[:1])
    kinds = ctx.choice('kinds', [('dict', 'dict'), ('struct', 'dict'), ('dict', 'h5'), ('h5', 'struct'), ('h5', 'h5')])
    wins = ctx.choice('wins', [((1, None), (0, None)), ((0, 2), (1, 3)), ((0, None), (2, None)), ((2, 3), (0, 1))])
    cks = ctx.choice('cks', [(None, 1), (2, None), (1, 2)])
    perm = ctx.choice('perm', PERMS)
    names = ['A', 'B', 'C']
    df = S.new_file(ctx)
    lf, o = S.add_lf(df)
    chs = [lf.add_channel(n) for n in names]
    lf.add_frame('F', channels=[chs[i] for i in perm])
    other = [ctx.array('a2', '<f8', (rows,)), ctx.array('b2', '>i2', (rows, 2)), ctx.array('c2', '<u1', (rows,))]
    for i, (kind, (lo, hi), ck) in enumerate(zip(kinds, wins, cks)):
        items = list(zip(names, other if i else arrs))
        src = dict(items) if kind == 'dict' else ctx.structured(items) if kind == 'struct' else \
            ctx.h5('d.h5' if kinds != ('h5', 'h5') else f'd{i}.h5', items)
        r = ctx.write_ok(df, f'{i}.dlis', data=src, from_idx=lo, to_idx=hi, input_chunk_size=ck)
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    D.check_frame(ctx, rd, lfs[0], b'F', [other[i] for i in perm], rows=range(*slice(*wins[1]).indices(rows)))
    df1, kw1 = build(ctx, [a[slice(*wins[1])] for a in other], 'inline', perm)
    same(ctx, ctx.write_ok(df1, 'z.dlis', **kw1), r, 'second write and pre-sliced data')


def mixed(ctx):
    """some channels inline, others from the dict passed to write; also a dict replacing inline data"""
    rows = 2
    arrs = arrays(ctx, rows)
    a2 = ctx.array('z', '<f4', (rows,))
    perm = ctx.choice('perm', PERMS)
    df = S.new_file(ctx)
    lf, o = S.add_lf(df)
    chs = [lf.add_channel('A', data=arrs[0]), lf.add_channel('B'), lf.add_channel('C', data=arrs[2])]
    lf.add_frame('F', channels=[chs[i] for i in perm])
    case = ctx.choice('case', ['add', 'replace'])
    d = {'B': arrs[1]}
    if case == 'replace':
        d = {'C': a2, 'B': arrs[1]}
    r = ctx.write_ok(df, data=d)
    ctx.observe('file', r.data)
    arrs = [arrs[0], arrs[1], a2 if case == 'replace' else arrs[2]]
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    D.check_frame(ctx, rd, lfs[0], b'F', [arrs[i] for i in perm])


def scenarios(tier):
    q = tier == 'quick'
    K = ('dict', 'struct', 'h5')
    out = [Scenario(f'sources-{k}', sources(k), 3) for k in K]
    out += [Scenario(f'swapped-{k}', swapped(k), 1) for k in ('inline',) + K]
    out += [Scenario(f'window-{k}', window(k, 3), 2) for k in ('inline',) + K]
    out += [Scenario(f'window-index-{k}', window_index(k), 2) for k in ('inline',) + K]
    out += [Scenario(f'two-frames-{k}', two_frames(k), 1) for k in ('inline',) + K]
    out += [Scenario('exact-struct', exact_struct, 2), Scenario('mixed', mixed, 1), Scenario('rewritten', rewritten, 2)]
    if not q:
        out += [Scenario(f'window-index4-{k}', window_index(k, 4), 3) for k in ('inline',) + K]
        out += [Scenario(f'window-reorder-{k}', window(k, 4, True), 3) for k in ('inline',) + K]
    return out

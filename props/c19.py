"""C19 Writing never alters the caller's data."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D

BOUNDS = ('every cell an unconstrained bit pattern; inline arrays, dict values, structured arrays and HDF5 files; eight '
          'dtypes x two byte orders x C/F/strided/reversed/view layouts, with and without casts, windows and input chunks '
          '1..4 (2-4 rows); successful writes, writes repeated, and writes that fail before or during the data rows '
          '(row-count mismatch, window out of range, missing dataset, invalid metadata)')
OUTSIDE = 'memory outside the arrays\' own cells other than the base buffers of views'


class Watch:
    """the caller's objects and what they were"""

    def __init__(self, ctx):
        self.ctx, self.items, self.dicts, self.files = ctx, [], [], []

    def array(self, what, a, *bases):
        self.items.append((what, a, self.ctx.snapshot(a)))
        for k, b in enumerate(bases):
            self.items.append((f'{what} (base {k})', b, self.ctx.snapshot(b)))

    def dict_(self, d):
        self.dicts.append((d, list(d.items())))

    def h5(self, p):
        self.files.append((p, {k: self.ctx.snapshot(a) for k, a in self.ctx.h5_content(p).items()}, self.ctx.h5_raw(p)))

    def check(self, when):
        ctx = self.ctx
        for what, a, s in self.items:
            ctx.require(a.dtype == s.dtype and a.shape == s.shape, f'{when}: {what}: other type or shape')
            ctx.require(ctx.arrays_same(a, s), f'{when}: {what} has been altered')
        for d, it in self.dicts:
            ctx.require(list(d.keys()) == [k for k, _ in it], f'{when}: keys of the dict have changed')
            ctx.require(all(d[k] is v for k, v in it), f'{when}: values of the dict have been replaced')
        for p, s, raw in self.files:
            now = ctx.h5_content(p)
            ctx.require(sorted(now) == sorted(s), f'{when}: datasets of the HDF5 file have changed')
            for k in s:
                ctx.require(ctx.arrays_same(now[k], s[k]), f'{when}: HDF5 dataset {k} altered')
            ctx.require(ctx.h5_raw(p) == raw, f'{when}: HDF5 file altered')
        ctx.reached('checked')


KW = [{}, {'input_chunk_size': 1}, {'input_chunk_size': 2, 'from_idx': 1}, {'to_idx': 1}]


def inline(dts, layouts, w=0, casts=(None, 'f4')):
    def fn(ctx):
        dt = ctx.choice('order', D.ORDERS) + ctx.choice('dt', dts)
        rows = 3
        a = ctx.array('a', dt, (rows, w) if w else (rows,), layout=ctx.choice('layout', layouts))
        b = ctx.array('b', '>u2', (rows,))
        cast = ctx.choice('cast', casts)
        kw = ctx.choice('kw', KW)
        df = S.new_file(ctx)
        lf, _ = S.add_lf(df)
        wt = Watch(ctx)
        wt.array('inline array', a)
        wt.array('index array', b)
        c0 = lf.add_channel('I', data=b)
        c = lf.add_channel('A', data=a, cast_dtype=None if cast is None else np.dtype(cast).type)
        lf.add_frame('F', channels=[c0, c])
        ctx.write_ok(df, **kw)
        wt.check('after the write')
        ctx.write_ok(df, 'b.dlis', **kw)
        wt.check('after two writes')
    return fn


def indexed(ctx):
    """index metadata derived from the data (min, max, differences)"""
    rows = 3
    i = ctx.array('i', ctx.choice('dt', ['<i4', '>i2', '<u1']), (rows,), kind='int', lo=0, hi=9,
                  layout=ctx.choice('layout', ['C', 'neg', 'view']))
    index_source(ctx, i)


def indexed_floats(ctx):
    """index data which are not numbers, infinite, or out of order"""
    dt = ctx.choice('dt', ['<f8', '<f4', '>f8'])
    i = ctx.array('i', dt, (3,), kind='real', lo=-9, hi=9, den=2)
    special = ctx.choice('special', [None, float('nan'), float('inf'), -0.0])
    if special is not None:
        ctx.set_cell(i, ctx.choice('at', [0, 1, 2]), special)
    index_source(ctx, i)


def index_source(ctx, i):
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    wt = Watch(ctx)
    kw = {}
    how = ctx.choice('how', ['inline', 'dict', 'struct', 'window'])
    if how == 'struct':
        i = ctx.structured([('I', i)])
    wt.array('index array', i)
    if how in ('dict', 'struct'):
        kw['data'] = {'I': i} if how == 'dict' else i
    if how == 'window':
        kw['from_idx'] = 1
    c = lf.add_channel('I', units='m', **({} if 'data' in kw else {'data': i}))
    lf.add_frame('F', channels=[c], index_type='BOREHOLE-DEPTH')
    ctx.write(df, **kw)
    wt.check('after the write')
    ctx.write(df, 'b.dlis', **kw)
    wt.check('after two writes')


def source(kind, orders):
    def fn(ctx):
        rows = 3
        o = ctx.choice('order', orders)
        a = ctx.array('a', o[0] + 'f4', (rows,))
        b = ctx.array('b', o[1] + 'i2', (rows, 2))
        cast = ctx.choice('cast', [None, 'f8'])
        kw = dict(ctx.choice('kw', KW))
        df = S.new_file(ctx)
        lf, _ = S.add_lf(df)
        exact = ctx.bool('exact')       # fields exactly those of the frame
        chs = [lf.add_channel('A'), lf.add_channel('B', cast_dtype=None if cast is None else np.float64)]
        lf.add_frame('F', channels=chs if exact else chs[::-1])
        wt = Watch(ctx)
        fields = [('A', a), ('B', b)] + ([] if exact else [('X', a)])
        if kind == 'dict':
            d = dict(fields)
            if not exact:
                d['n'] = np.arange(5)
            kw['data'] = d
            wt.dict_(d)
            wt.array('array A', a)
            wt.array('array B', b)
        elif kind == 'struct':
            s = ctx.structured(fields, ctx.choice('layout', ['C', 'strided', 'readonly']))
            kw['data'] = s
            wt.array('structured array', s)
        else:
            p = ctx.h5('d.h5', fields)
            kw['data'] = p
            wt.h5(p)
        ctx.write_ok(df, **kw)
        wt.check('after the write')
        ctx.write_ok(df, 'b.dlis', **kw)
        wt.check('after two writes')
    return fn


def failing(kind):
    """writes that fail, before or while the rows are written"""
    def fn(ctx):
        rows = 3
        a = ctx.array('a', ctx.choice('dt', ['<f4', '>i4']), (rows,))
        b = ctx.array('b', '>u2', (rows, 2))
        case = ctx.choice('case', ['rows', 'window', 'missing', 'meta', 'late', 'chunk', 'none'])
        df = S.new_file(ctx)
        lf, _ = S.add_lf(df)
        z = np.arange(rows + 1, dtype='u1') if case == 'rows' else np.arange(rows, dtype='u1')
        data = {'A': a, 'B': b, 'Z': z}
        names = ['A', 'B', 'Z']
        cast = ctx.choice('cast', [None, 'f8'])
        chs = [lf.add_channel(n, cast_dtype=np.float64 if cast and n == 'A' else None,
                              **({'data': data[n]} if kind == 'inline' else {})) for n in names]
        if case == 'missing':
            chs.append(lf.add_channel('Q'))
        lf.add_frame('F', channels=chs)
        if case == 'late':      # fails when the last frame's rows are reached
            c2 = lf.add_channel('L1', data=np.arange(2, dtype='u1')) if kind != 'struct' else None
            if c2 is not None:
                c3 = lf.add_channel('L2', data=np.arange(3, dtype='u1'))
                lf.add_frame('G', channels=[c2, c3])
        if case == 'meta':
            lf.add_calibration_coefficient('CC', coefficients=[1, 2], references=[1])
        wt = Watch(ctx)
        for n in names:
            wt.array('array ' + n, data[n])
        kw = {'input_chunk_size': ctx.choice('ck', [None, 2])}
        if case == 'chunk':
            kw['output_chunk_size'] = 3
        if case == 'window':
            kw['from_idx'], kw['to_idx'] = ctx.choice('win', [(0, 9), (3, None), (2, 1)])
        if kind == 'dict':
            kw['data'] = data
            wt.dict_(data)
        elif kind == 'struct':
            if case in ('rows',):
                return
            kw['data'] = ctx.structured([(n, data[n]) for n in names if n != 'Z'])
            lf.frames[0].channels.value = [c for c in chs if c.name != 'Z']
            wt.array('structured array', kw['data'])
        r = ctx.write(df, **kw)
        ctx.reached('failed' if r.exc is not None else 'succeeded')
        wt.check('after a failing write' if r.exc is not None else 'after the write')
    return fn


def override(ctx):
    """dict replacing or completing inline data; two logical files; two frames over one array"""
    rows = 2
    a, b, c = ctx.array('a', '<f4', (rows,)), ctx.array('b', '>f4', (rows,)), ctx.array('c', '>u2', (rows, 2))
    df = S.new_file(ctx)
    wt = Watch(ctx)
    d = {'A': b, 'C': c}
    for k, x in (('a', a), ('b', b), ('c', c)):
        wt.array('array ' + k, x)
    wt.dict_(d)
    for i in range(ctx.choice('files', [1, 2])):
        lf = df.add_logical_file(fh_id=f'H{i}')
        lf.add_origin('O', file_set_number=i + 1, creation_time=S.T0, set_name=f'S{i}')
        chs = [lf.add_channel('A', data=a, set_name=f'S{i}'), lf.add_channel('C', set_name=f'S{i}')]
        lf.add_frame('F', channels=chs, set_name=f'S{i}')
        lf.add_frame('G', channels=chs[:1], set_name=f'S{i}')
    ctx.write_ok(df, data=d)
    wt.check('after the write')


def scenarios(tier):
    q = tier == 'quick'
    OR = [('<', '<'), ('<', '>'), ('>', '<'), ('>', '>')]
    more = [] if q else [Scenario('inline-scalar-all', inline(D.DTYPES, D.LAYOUTS1), 3),
                         Scenario('inline-2d-all', inline(D.DTYPES, ['C', 'F', 'colslice'], 2), 3)]
    return more + [
        Scenario('inline-scalar', inline(['f8', 'u2', 'i4', 'u1'], ['C', 'strided', 'view']), 2),
        Scenario('inline-2d', inline(['f4', 'i2'], ['C', 'F', 'colslice'], 2), 2),
        Scenario('indexed', indexed, 1),
        Scenario('indexed-floats', indexed_floats, 2),
        Scenario('dict', source('dict', OR), 1),
        Scenario('struct', source('struct', OR), 2),
        Scenario('h5', source('h5', OR[1:2] + OR[3:]), 1),
        Scenario('failing-inline', failing('inline'), 1),
        Scenario('failing-dict', failing('dict'), 1),
        Scenario('failing-struct', failing('struct'), 1),
        Scenario('override', override, 1),
    ]

"""C12 Fail-closed: a write either raises or yields a faithful, well-formed file."""
import datetime
import decimal
import fractions
import math
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D
from . import objs as O

REQ = ('phys', 'seg', 'eflr', 'iflr')
BOUNDS = ('frames of one to three channels with every combination of 0-4 rows, 14 unsupported dtypes, 0 to 4 dimensions '
          '(widths 0-3), missing, misplaced and malformed datasets, inline / dictionary / structured / HDF5, with casts, windows '
          'and chunks; names, set names, units and every textual attribute of all object types of up to 300 characters and with '
          'any character; every integer attribute, origin reference, header and label number over -2^40..2^40; 40 degenerate '
          'values for every attribute of every type (empty, nested, ragged, NaN, huge, other Python and numpy types); missing '
          'origins, channels, frames; dangling references; 254-258 objects of the same name; symbolic content elsewhere')
OUTSIDE = 'texts longer than 20000 characters; several faults at once; failures of the operating system'
UTC = datetime.timezone.utc


class No(Exception):
    """the call is not to be judged"""


def judge(ctx, build, bad, check, what, **kw):
    """build -> (file, further arguments of write); bad: condition under which a file must not come out"""
    r = ctx.call(build)
    if r.exc is not None:
        return ctx.reached('rejected')
    df, more = r.value if isinstance(r.value, tuple) else (r.value, {})
    w = ctx.write(df, **{**kw, **more})
    if w.exc is not None:
        return ctx.reached('refused')
    ctx.require(ctx.not_(bad() if callable(bad) else bad), f'{what}: a file is written')
    ctx.observe('file', w.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, w.data, REQ, what)
    if check:
        check(rd, sul, lfs)
    ctx.reached('written')


def base(ctx, **kw):
    df = S.new_file(ctx, **kw)
    lf = df.add_logical_file()
    o = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=5)
    return df, lf, o


# ---- data of frames -----------------------------------------------------------------------------------------------


def arr(ctx, name, dt, shape):
    n = 1
    for s in shape:
        n *= s
    return ctx.array(name, dt, shape) if n else np.zeros(shape, dtype=dt)


def put(ctx, lf, route, cols, casts=None, index=False, fname='F', pre=''):
    """channels and a frame over the columns; -> data argument of write"""
    chs = []
    d = {}
    for i, a in enumerate(cols):
        n = f'{pre}C{i}'
        kw = {}
        if casts and casts[i] is not None:
            kw['cast_dtype'] = casts[i]
        if route == 'inline':
            chs.append(lf.add_channel(n, data=a, **kw))
        else:
            chs.append(lf.add_channel(n, **kw))
            d[n] = a
    fr = lf.add_frame(fname, channels=chs, index_type='BOREHOLE-DEPTH' if index else None)
    return d, chs, fr


def source(ctx, route, d):
    if route == 'inline':
        return {}
    if route == 'dict':
        return {'data': d}
    if route == 'h5':
        return {'data': ctx.h5('in.h5', list(d.items()))}
    raise AssertionError(route)


def rows(route, three=False, two_frames=False):
    """channels with different numbers of rows"""
    def fn(ctx):
        ns = [ctx.choice('n0', [0, 1, 2, 3]), ctx.choice('n1', [0, 1, 2, 3, 4])]
        if three:
            ns.append(ctx.choice('n2', [1, 3]))
        dts = ['<f4', '>i2', '<u1']
        wide = ctx.bool('wide')
        cols = [arr(ctx, f'a{i}', dts[i], (n, 2) if wide and i == len(ns) - 1 else (n,)) for i, n in enumerate(ns)]
        chunk = ctx.choice('chunk', [None, 1, 2])
        win = ctx.choice('window', [(0, None), (0, 1), (1, 2)])
        bad = len(set(ns)) > 1
        stop = min(ns) if win[1] is None else min(win[1], min(ns))
        st = {}

        def build():
            df, lf, o = base(ctx)
            d, chs, fr = put(ctx, lf, route, cols)
            if two_frames:
                g = np.arange(3) + 0.5
                if route == 'inline':
                    c = lf.add_channel('G', data=g)
                else:
                    c = lf.add_channel('G')
                    d['G'] = g
                lf.add_frame('FG', channels=[c])
            kw = source(ctx, route, d)
            if win != (0, None):
                kw['from_idx'], kw['to_idx'] = win
            if chunk:
                kw['input_chunk_size'] = chunk
            return df, kw

        def check(rd, sul, lfs):
            D.check_frame(ctx, rd, lfs[0], b'F', cols, rows=range(win[0], max(stop, win[0])))
        judge(ctx, build, bad, check, f'{ns} rows')
    return fn


def struct_rows(ctx):
    """structured arrays have one length; other things in their place do not"""
    how = ctx.choice('how', ['ok', 'zero', '2d', 'missing', 'plain', 'record', '0d', 'complex', 'i8', 'deep', 'nested', 'zero-width'])
    n = ctx.choice('n', [1, 2])
    a, b = ctx.array('a', '<f4', (n,)), ctx.array('b', '>u2', (n, 2))
    s = ctx.structured([('C0', a), ('C1', b)])

    def build():
        df, lf, o = base(ctx)
        put(ctx, lf, 'struct', [a, b])
        x = s
        if how == 'zero':
            x = np.zeros(0, dtype=[('C0', '<f4'), ('C1', '>u2', (2,))])
        elif how == '2d':
            x = np.zeros((n, 2), dtype=[('C0', '<f4'), ('C1', '>u2', (2,))])
        elif how == '0d':
            x = np.zeros((), dtype=[('C0', '<f4'), ('C1', '>u2', (2,))])
        elif how == 'missing':
            x = np.zeros(n, dtype=[('C0', '<f4'), ('C2', '>u2', (2,))])
        elif how == 'plain':
            x = np.zeros((n, 3), dtype='<f4')
        elif how == 'record':
            x = np.rec.array([(1.5, (2, 3))] * n, dtype=[('C0', '<f4'), ('C1', '>u2', (2,))])
        elif how == 'complex':
            x = np.zeros(n, dtype=[('C0', '<c8'), ('C1', '>u2', (2,))])
        elif how == 'i8':
            x = np.zeros(n, dtype=[('C0', '<i8'), ('C1', '>u2', (2,))])
        elif how == 'deep':
            x = np.zeros(n, dtype=[('C0', '<f4'), ('C1', '>u2', (2, 2))])
        elif how == 'nested':
            x = np.zeros(n, dtype=[('C0', [('x', '<f4')]), ('C1', '>u2', (2,))])
        elif how == 'zero-width':
            x = np.zeros(n, dtype=[('C0', '<f4'), ('C1', '>u2', (0,))])
        return df, {'data': x}

    def check(rd, sul, lfs):
        if how == 'ok':
            D.check_frame(ctx, rd, lfs[0], b'F', [a, b])
        elif how == 'record':
            D.check_frame(ctx, rd, lfs[0], b'F', [np.full(n, 1.5, '<f4'), np.array([[2, 3]] * n, '>u2')])
        elif how == 'zero':
            D.check_frame(ctx, rd, lfs[0], b'F', [np.zeros(0, '<f4'), np.zeros((0, 2), '>u2')])
        elif how == 'zero-width':
            D.check_frame(ctx, rd, lfs[0], b'F', [np.zeros(n, '<f4'), np.zeros((n, 0), '>u2')])
    judge(ctx, build, how in ('missing', 'plain', '0d', 'complex', 'i8', 'deep', 'nested'), check, f'structured data: {how}')


BADT = ['<c8', '>c16', '<f2', 'longdouble', '<i8', '>i8', '<u8', '?', 'S4', '<U3', 'O', '<M8[s]', '<m8[s]', 'V4']


def bad_array(dt, shape):
    if dt == 'longdouble':
        return np.zeros(shape, dtype=np.longdouble)
    if dt == 'O':
        a = np.empty(shape, dtype=object)
        a[...] = 1.5
        return a
    return np.zeros(shape, dtype=dt)


def dtypes(ctx):
    """dtypes without a representation code"""
    route = ctx.choice('route', ['inline', 'dict', 'h5'])
    dt = ctx.choice('dtype', BADT + ['cast:<i8', 'cast:<c8', 'cast:O', 'cast:?', 'cast:S1', 'cast:<U1', 'cast:<M8[s]', 'cast:f2'])
    pos = ctx.choice('pos', [0, 1])
    shape = ctx.choice('shape', [(2,), (2, 3), (0,)])
    ctx.assume(route != 'h5' or not (dt in ('<U3', 'O', '<M8[s]', '<m8[s]')))
    good = ctx.array('good', '<f4', (shape[0],)) if shape[0] else np.zeros(0, '<f4')
    cast = None
    if dt.startswith('cast:'):
        a = np.zeros(shape, '<f4')
        cast = np.dtype(dt[5:])
    else:
        a = bad_array(dt, shape)
    cols, casts = [a, good], [cast, None]
    if pos:
        cols, casts = cols[::-1], casts[::-1]

    def build():
        df, lf, o = base(ctx)
        d, chs, fr = put(ctx, lf, route, cols, casts)
        return df, source(ctx, route, d)
    judge(ctx, build, True, None, f'dtype {dt}')


def assigned_cast(ctx):
    """casts assigned later; unsupported data cast to supported types"""
    dt = ctx.choice('dtype', ['<i8', '<u8', '?', '<f2', '<i4'])
    cast = ctx.choice('cast', ['<i4', '>f4', '<f8', '<u2', 'i1', '<i8'])
    route = ctx.choice('route', ['inline', 'dict', 'h5'])
    later = ctx.bool('later')
    a = np.array([0, 1, 1], dtype=dt)
    good = ctx.array('good', '<f4', (3,))

    def build():
        df, lf, o = base(ctx)
        d, chs, fr = put(ctx, lf, route, [a, good], None if later else [np.dtype(cast), None])
        if later:
            chs[0].cast_dtype = np.dtype(cast)
        return df, source(ctx, route, d)

    def check(rd, sul, lfs):
        D.check_frame(ctx, rd, lfs[0], b'F', [a.astype(cast), good])
    judge(ctx, build, cast == '<i8', check, f'{dt} cast to {cast}')


SHAPES = [(), (2,), (2, 1), (2, 3), (2, 0), (0,), (0, 2), (2, 2, 2), (2, 1, 1), (2, 2, 1), (1, 2, 2), (2, 2, 2, 2), (0, 2, 2), (2, 0, 2)]


def dims(ctx):
    shape = ctx.choice('shape', SHAPES)
    route, pos, dim, limit = ctx.choice('case', [(r, p, None, False) for r in ('inline', 'dict', 'h5') for p in (0, 1)] + [
        ('dict', len(shape) % 2, d, m) for d in ([1], [2], [3], [2, 2], [0], []) for m in (False, True)])
    dt = '>u2' if pos else '<f4'
    n = shape[0] if shape else 2
    good = arr(ctx, 'good', '<f4', (n,))
    a = arr(ctx, 'a', dt, shape) if shape else np.array(3, dtype=dt)
    cols = [good, a] if pos else [a, good]

    def build():
        df, lf, o = base(ctx)
        d, chs, fr = put(ctx, lf, route, cols)
        if dim is not None:
            chs[pos].dimension.value = dim
            if limit:
                chs[pos].element_limit.value = dim
        return df, source(ctx, route, d)

    def check(rd, sul, lfs):
        D.check_frame(ctx, rd, lfs[0], b'F', cols)
    judge(ctx, build, len(shape) > 2 or len(shape) == 0, check, f'data of shape {shape}')


def missing(ctx):
    """datasets which are not there, or something else in their place"""
    how = ctx.choice('how', ['dict', 'dict-none', 'dict-list', 'dict-tuple', 'dict-scalar', 'dict-str', 'dict-nested', 'inline',
                             'inline-list', 'inline-none', 'h5', 'h5-group', 'h5-file', 'h5-extra', 'h5-absolute', 'h5-case', 'h5-leaf', 'dict-leaf', 'dict-case', 'list', 'int', 'empty-dict',
                             'array', 'dict-extra', 'dict-masked', 'dict-matrix', 'name', 'dict-bytes', 'inline-and-dict', 'generator',
                             'other-frame'])
    which = ctx.choice('which', [0, 1])
    a, b = ctx.array('a', '<f4', (3,)), ctx.array('b', '>u2', (3, 2))
    if how == 'list':                # goes into a message
        a, b = np.arange(3, dtype='<f4'), np.ones((3, 2), '>u2')
    cols = [a, b]
    st = {'want': [a, b]}
    bad = how in ('dict', 'dict-none', 'dict-scalar', 'dict-str', 'inline', 'h5', 'h5-group', 'h5-file', 'h5-case', 'h5-leaf', 'dict-leaf', 'dict-case', 'list', 'int',
                  'empty-dict', 'array', 'name', 'inline-none', 'dict-bytes', 'other-frame')

    def build():
        df, lf, o = base(ctx)
        n = f'C{which}'
        if how.startswith('inline'):
            chs = []
            for i, x in enumerate(cols):
                kw = {'data': x}
                if i == which:
                    kw = {'inline': {}, 'inline-list': {'data': [1.5, 2.5, 3.5]}, 'inline-none': {'data': None},
                          'inline-and-dict': {'data': x}}[how]
                    if how == 'inline-list':
                        st['want'][i] = np.array([1.5, 2.5, 3.5])
                chs.append(lf.add_channel(f'C{i}', **kw))
            lf.add_frame('F', channels=chs)
            if how == 'inline-and-dict':        # which of the two is meant is not said
                st['want'] = None
            return df, ({'data': {'C0': np.zeros(3, '<f4')}} if how == 'inline-and-dict' else {})
        d, chs, fr = put(ctx, lf, 'dict', cols)
        if how == 'dict':
            del d[n]
        elif how == 'dict-none':
            d[n] = None
        elif how == 'dict-list':
            d[n] = [1.5, 2.5, 3.5]
            st['want'][which] = np.array([1.5, 2.5, 3.5])
        elif how == 'dict-tuple':
            d[n] = (1.5, 2.5, 3.5)
            st['want'][which] = np.array([1.5, 2.5, 3.5])
        elif how == 'dict-scalar':
            d[n] = 1.5
        elif how == 'dict-str':
            d[n] = 'abc'
        elif how == 'dict-bytes':
            d[n] = b'abc'
        elif how == 'dict-nested':
            d = {'x': d}
            for c in chs:
                c.dataset_name = 'x/' + c.name
        elif how == 'dict-extra':
            d['other'] = np.zeros(5, dtype=complex)
        elif how == 'dict-masked':
            d[n] = np.ma.masked_array(np.array([1.5, 2.5, 3.5], '<f4'), mask=[0, 1, 0])
            st['want'] = None
        elif how == 'dict-matrix':
            d[n] = np.matrix([[1.5], [2.5], [3.5]])
            st['want'][which] = np.array([[1.5], [2.5], [3.5]])
        elif how == 'name':
            chs[which].dataset_name = 'nothing'
        elif how == 'empty-dict':
            d = {}
        elif how == 'list':
            return df, {'data': [a, b]}
        elif how == 'array':
            return df, {'data': np.zeros((3, 3))}
        elif how == 'int':
            return df, {'data': 5}
        elif how == 'generator':
            return df, {'data': iter([1])}
        elif how == 'other-frame':
            lf.add_frame('G', channels=[lf.add_channel('X', dataset_name='C9')])
        elif how == 'h5':
            del d[n]
            return df, {'data': ctx.h5('in.h5', list(d.items()))}
        elif how == 'h5-group':
            d[n + '/sub'] = d.pop(n)
            return df, {'data': ctx.h5('in.h5', list(d.items()))}
        elif how == 'h5-case':
            d['c%d' % which] = d.pop(n)
            return df, {'data': ctx.h5('in.h5', list(d.items()))}
        elif how == 'h5-leaf':
            chs[which].dataset_name = 'grp/' + n
            return df, {'data': ctx.h5('in.h5', list(d.items()))}
        elif how == 'dict-leaf':
            chs[which].dataset_name = 'grp/' + n
        elif how == 'dict-case':
            d[n.lower()] = d.pop(n)
        elif how == 'h5-absolute':
            chs[which].dataset_name = '/' + n
            return df, {'data': ctx.h5('in.h5', list(d.items()))}
        elif how == 'h5-extra':
            d['x/y'] = np.zeros((2, 2, 2))
            return df, {'data': ctx.h5('in.h5', list(d.items()))}
        elif how == 'h5-file':
            return df, {'data': ctx.path('nothing.h5')}
        return df, {'data': d}

    def check(rd, sul, lfs):
        if st['want'] is not None:
            D.check_frame(ctx, rd, lfs[0], b'F', st['want'])
    judge(ctx, build, bad, check, f'data: {how}')


def refs_to_data(ctx):
    """a channel twice in a frame, in two frames, in none; data of a channel changed or of another length in the second file"""
    how = ctx.choice('how', ['twice', 'two frames', 'same dataset', 'same dataset cast', 'unused bad', 'other lf', 'no channels', 'none channels'])
    a, b = ctx.array('a', '<f4', (2,)), ctx.array('b', '>u2', (2,))

    def build():
        df, lf, o = base(ctx)
        c, e = lf.add_channel('C', data=a), lf.add_channel('E', data=b)
        f = lf.add_frame('F', channels=[c, e])
        if how == 'twice':
            f.channels.value = [c, e, c]
        elif how == 'two frames':
            lf.add_frame('G', channels=[e])
        elif how == 'unused bad':
            lf.add_channel('X', data=np.zeros((3, 2, 2), dtype=complex))
        elif how == 'other lf':
            l2 = df.add_logical_file()
            l2.add_origin('O2', file_set_number=8, creation_time=S.T0, set_name='2')
            l2.add_frame('F2', channels=[c], set_name='2')
        elif how == 'no channels':
            f.channels.value = []
        elif how == 'none channels':
            f.channels.value = None
        return df

    def check(rd, sul, lfs):
        D.check_frame(ctx, rd, lfs[0], b'F', [a, b, a] if how == 'twice' else [a, b])
        if how == 'two frames':
            D.check_frame(ctx, rd, lfs[0], b'G', [b])
    judge(ctx, build, how in ('other lf', 'no channels', 'none channels'), check, f'channels: {how}')


def window(ctx):
    """row windows and chunk sizes outside the data"""
    a = ctx.array('a', '<f4', (3,))
    I, J = [-4, -3, -1, 0, 1, 2, 3, 4, 1.5, None, 'x'], [-4, -1, 0, 1, 2, 3, 4, 10, 2.0, None, 'x']
    i, j, k, oc = ctx.choice('case', [(i, j, None, None) for i in I for j in J] + [
        (i, j, k, None) for k in (-1, 0, 1, 2, 1.5) for i, j in ((0, None), (1, None), (0, 2), (3, None), (1, 1))] + [
        (0, None, None, oc) for oc in (-1, 0, 1, 500, 8192.5, 10000, '9000')])

    def build():
        df, lf, o = base(ctx)
        lf.add_frame('F', channels=[lf.add_channel('C', data=a)])
        kw = {'from_idx': i, 'to_idx': j, 'input_chunk_size': k}
        if oc is not None:
            kw['output_chunk_size'] = oc
        return df, kw
    ok = type(i) is int and (j is None or type(j) is int) and 0 <= i < 3 and (j is None or i < j <= 3)

    def check(rd, sul, lfs):
        # negative positions count from the end, as in Python
        n = list(range(3))
        try:
            n = n[i:j]
        except TypeError:
            return
        if ok:
            D.check_frame(ctx, rd, lfs[0], b'F', [a], rows=n)
        else:
            g = D.rows_of(ctx, rd, lfs[0], D.frame_obj(ctx, lfs[0], b'F'))
            ctx.require(all(x == q + 1 for q, (x, d) in enumerate(g)), 'numbers of the rows')
            ctx.require(len(g) <= 3, 'more rows than there are')
            if type(i) is int and (j is None or type(j) is int):
                ctx.require(len(g) in (len(n), 0), f'{len(g)} rows of window {i}:{j}')
                D.check_frame(ctx, rd, lfs[0], b'F', [a], rows=n[:len(g)])
    judge(ctx, build, False, check, f'window {i}:{j}')


# ---- texts --------------------------------------------------------------------------------------------------------

LONG = ['', 'x' * 125, 'x' * 252, 'x' * 298]


def sized(ctx, tag, longs, any_=True):
    """text of symbolic length and content around the limits"""
    p = ctx.choice(tag + '.p', longs)
    if not p:
        return ctx.string(tag, 0, 2, 'any' if any_ else 'yes')
    return p + ctx.string(tag, 2, 5)


def names(types):
    """names of objects and of sets"""
    def fn(ctx):
        t = ctx.choice('type', types)
        where = ctx.choice('where', ['name', 'rename', 'set'])
        s = sized(ctx, 's', LONG if where != 'rename' else ['', 'x' * 252])
        if where != 'set':
            ctx.assume(ctx.slen(s) > 0)
        if t in ('channel', 'frame'):
            s = ctx.choice('cs', ['A', 'x' * 255, 'x' * 256, 'caf\xe9', '\x7f', 'x\x00', '\u0416', ' '])

        def build():
            df, lf, o = base(ctx)
            w = O.World.__new__(O.World)
            kw = {}
            if t == 'channel':
                kw['data'] = np.arange(2.)
                kw['dataset_name'] = 'data'
            if t == 'frame':
                kw['channels'] = [lf.add_channel('C', data=np.arange(2.))]
            if t == 'origin':
                kw.update(file_set_number=9, creation_time=S.T0)
            if where == 'set':
                kw['set_name'] = s
            x = getattr(lf, 'add_' + t)(s if where == 'name' else 'OBJ', **kw)
            if where == 'rename':
                x.name = s
            if t == 'channel':
                lf.add_frame('FF', channels=[x])
            S.simple_frame(lf, 2)
            if t == 'no_format':
                lf.add_no_format_frame_data(x, b'abc')
            return df

        def check(rd, sul, lfs):
            ty = O.TABLE[t][0]
            e = s.encode('ascii')
            if where == 'set':
                ss = [q for q in lfs[0].sets if q.type == ty and len(q.objects) and bool(q.objects[0].ob.name == b'OBJ')]
                if t == 'origin' and len(s) == 0:
                    return
                ctx.require(len(ss) == 1, 'the set is not there')
                if len(e) == 0:
                    ctx.require(ss[0].name is None or len(ss[0].name) == 0, 'other name of the set')
                else:
                    ctx.require(ss[0].name is not None and len(ss[0].name) == len(e), 'length of the name of the set')
                    ctx.require(ss[0].name == e, 'other name of the set')
            else:
                m = [x for x in lfs[0].of_type(ty) if len(x.ob.name) == len(e) and bool(x.ob.name == e)]
                ctx.require(len(m) >= 1, 'no object of the name')
        judge(ctx, build, lambda: ctx.or_(ctx.slen(s) > 255, ctx.not_(ctx.isascii(s))), check, f'{t} {where}')
    return fn


def world(ctx, **kw):
    w = O.World(ctx)
    return w


def make(ctx, w, t, kw):
    """an object of a type; -> item"""
    kw = dict(kw)
    if t == 'frame':
        kw.setdefault('channels', [w.lf.add_channel('FC', data=np.arange(2) + 0.5)])
    if t == 'channel':
        o = w.lf.add_channel('OBJ', data=np.arange(2, dtype=np.int16), **kw)
        w.lf.add_frame('CHF', channels=[o])
        return o
    if t == 'origin':
        kw.setdefault('file_set_number', 9)
        kw.setdefault('creation_time', S.T0)
    return getattr(w.lf, 'add_' + t)('OBJ', **kw)


def assign(ctx, w, t, a, v, route, units=None):
    """give the attribute a value by one of the routes"""
    if t == 'group' and a.name == 'object_type':
        route = 'later'
    if route == 'kw':
        return make(ctx, w, t, {a.kw: v})
    if route == 'dict':
        return make(ctx, w, t, {a.kw: {'value': v, 'units': units} if units else {'value': v}})
    o = make(ctx, w, t, {})
    getattr(o, a.name).value = v
    return o


def readback(ctx, w, t, o, a, want, units):
    def check(rd, sul, lfs):
        x = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(o()), t)
        O.check_attr(ctx, rd, x, a.label, want, units, t)
    return check


TEXTS = [(t, a.name) for t in O.TABLE for a in O.TABLE[t][1] if a.kind in ('text', 'ident', 'lname', 'unit', 'any') or
         a.kind.startswith('soft:')]
UNITED = [(t, a.name) for t in O.TABLE for a in O.TABLE[t][1] if a.units]


def texts(picks):
    def fn(ctx):
        t, an = ctx.choice('attr', picks)
        a = O.attr(t, an)
        limit = 255 if a.kind in ('ident', 'unit') or a.kind.startswith('soft:') else 1 << 29
        soft = a.kind.startswith('soft:') or a.kind == 'unit'
        z = (len(t) + len(an)) % 3
        p = ctx.choice('p', ['', 'x' * 252] if limit == 255 else ['', 'x' * 125, 'x' * 16382])
        if soft and not p:
            s = ctx.choice('s', ['', 'caf\xe9', '\u0416', 'x\x7f'])
        elif p:
            s = p + ctx.string('s', 2, 5)
        else:
            s = ctx.string('s', 0, 2, 'any')
        route = ['kw', 'dict', 'later'][z]
        n = ctx.choice('n', [1, 2]) if a.mult else 0
        st = {}

        def build():
            w = O.World(ctx)
            v = s if not n else [s] if n == 1 else ['first', s]
            st['o'] = assign(ctx, w, t, a, v, route)
            w.finish()
            return w.df

        def check(rd, sul, lfs):
            x = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(st['o']), t)
            k = 'str' if a.kind == 'any' else 'ident' if limit == 255 else 'text'
            if a.kind == 'any' and len(s) == 0:
                return
            got = x.get(a.label)
            if got is not None and got.values is None and len(s) == 0:
                return              # rejected as a value: absent
            O.check_attr(ctx, rd, x, a.label, [O.X(k, y) for y in (['first', s] if n == 2 else [s])], None, t)
        # numeric-looking texts in coordinates and values stand for numbers
        if a.kind == 'any':
            if p == '' :
                ctx.assume(ctx.matches(s, '[^0-9 +.a-zA-Z_-]*'))
        judge(ctx, build, lambda: ctx.or_(ctx.slen(s) > limit, ctx.not_(ctx.isascii(s))), check, f'{t} {an}')
    return fn


def units(picks):
    def fn(ctx):
        t, an = ctx.choice('attr', picks)
        a = O.attr(t, an)
        p = ctx.choice('p', ['', 'x' * 252])
        s = p + (ctx.string('u', 2, 5) if p else ctx.choice('u0', ['', 'caf\xe9', '\u0416', 'x\x7f', ' ', 'm']))
        later = ctx.bool('later')
        st = {}

        def build():
            w = O.World(ctx)
            v, st['x'] = O.value(ctx, w, a, False, 'two' if a.mult else None)
            o = st['o'] = assign(ctx, w, t, a, v, 'kw' if later else 'dict', s)
            if later:
                getattr(o, a.name).units = s
            w.finish()
            return w.df

        def check(rd, sul, lfs):
            x = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(st['o']), t)
            if a.kind not in ('dt', 'dtn', 'flag'):
                O.check_attr(ctx, rd, x, a.label, st['x'], s, t)
            else:
                g = x.get(a.label)
                ctx.require(g.units == s.encode('ascii') or len(s) == 0, 'other units')
        judge(ctx, build, lambda: ctx.or_(ctx.slen(s) > 255, ctx.not_(ctx.isascii(s))), check, f'units of {t} {an}')
    return fn


def header(ctx):
    """numbers and texts of the label and the file header"""
    how = ctx.choice('how', ['sid', 'sulseq', 'vrl', 'vrl-later', 'fhid', 'fhid-later', 'fhseq', 'fhseq-later', 'fhident',
                             'fhident-later', 'sid-later', 'sulseq-later', 'odd', 'sulseq-odd', 'fhseq-odd'])
    odd = {'odd': [8192.0, 8192.5, '8192', None, True, np.int64(8192), np.float64(100), [8192]],
           'sulseq-odd': [1.0, 1.5, '1', 'x', None, True, np.int64(2), [1], -0.0, '\xe9'],
           'fhseq-odd': [1.0, 1.5, '1', 'x', None, True, np.int64(2), [1]]}
    st = {}
    v = w = None
    if how in odd:
        v = ctx.choice('odd', odd[how])
    elif how.startswith('sid'):
        w = 'x' * ctx.choice('p', [0, 57]) + ctx.string('s', 0, 5, 'any')
    elif how.startswith('fhid-') or how == 'fhid':
        w = 'x' * ctx.choice('p', [0, 62]) + ctx.string('s', 0, 5, 'any')
    elif how.startswith('fhident'):
        w = ctx.string('s', 1 if 'later' in how else 0, 2, 'any')
    elif how.startswith('vrl'):
        v = ctx.int('v', -100, 70000)
        ctx.assume(ctx.or_(v < 20, v > 4090))
    else:
        v = ctx.int('v', -2 ** 40, 2 ** 40)
    kw, lk = {}, {}
    name = {'sid': 'set_identifier', 'sulseq': 'sul_sequence_number', 'vrl': 'max_record_length', 'odd': 'max_record_length',
            'sulseq-odd': 'sul_sequence_number', 'fhid': 'fh_id', 'fhseq': 'fh_sequence_number', 'fhident': 'fh_identifier',
            'fhseq-odd': 'fh_sequence_number'}.get(how)
    x = v if w is None else w
    if how in ('sid', 'sulseq', 'vrl', 'odd', 'sulseq-odd'):
        kw = {name: x}
    elif name:
        lk = {name: x}

    def build():
        df = S.new_file(ctx, **kw)
        lf = df.add_logical_file(**lk)
        sul, fh = df.storage_unit_label, lf.file_header
        if how.endswith('-later'):
            o, n = {'vrl': (sul, 'max_record_length'), 'fhid': (fh, 'header_id'), 'fhseq': (fh, 'sequence_number'),
                    'fhident': (fh, 'name'), 'sid': (sul, 'set_identifier'), 'sulseq': (sul, 'sequence_number')}[how[:-6]]
            setattr(o, n, x)
        lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=5)
        S.simple_frame(lf, 2)
        return df
    h = how.split('-')[0]
    if how in odd:
        bad = False
    elif h == 'sid':
        bad = ctx.or_(ctx.slen(x) > 60, ctx.not_(ctx.isascii(x)))
    elif h == 'fhid':
        bad = ctx.or_(ctx.slen(x) > 65, ctx.not_(ctx.isascii(x)))
    elif h == 'fhident':
        bad = ctx.or_(ctx.slen(x) != 1, ctx.not_(ctx.isascii(x))) if how == 'fhident' else ctx.not_(ctx.isascii(x))
    elif h == 'vrl':
        bad = ctx.or_(x < 20, x > 16384, x % 2 != 0)
    elif h == 'fhseq':
        bad = ctx.or_(x < 1, x >= 10 ** 10)
    else:
        bad = ctx.or_(x < 1, x > 9999)

    def check(rd, sul, lfs):
        fh = lfs[0].records[0].set.objects[0]

        def number(field, n, width, what):
            t = str(int(n)).encode('ascii')
            ctx.require(len(t) <= width, what)
            ctx.require(ctx.or_(field == b' ' * (width - len(t)) + t, field == b'0' * (width - len(t)) + t), what)
        if h == 'sid':
            e = x.encode('ascii')
            ctx.require(sul.setid == e + b' ' * (60 - len(e)), 'set identifier')
        elif h == 'sulseq':
            number(sul.seq, x, 4, f'sequence number of the storage unit')
            ctx.require(x == int(x), 'sequence number which is not an integer')
        elif h in ('vrl', 'odd'):
            number(sul.maxlen_f, x, 5, 'maximum record length')
            ctx.require(x == int(x), 'record length which is not an integer')
        elif h == 'fhid':
            e = x.encode('ascii')
            ctx.require(fh.get(b'ID').values[0] == e + b' ' * (65 - len(e)), 'identifier')
        elif h == 'fhseq':
            number(fh.get(b'SEQUENCE-NUMBER').values[0], x, 10, 'sequence number')
            ctx.require(x == int(x), 'sequence number which is not an integer')
        elif h == 'fhident':
            ctx.require(fh.ob.name == x.encode('ascii'), 'header object')
    judge(ctx, build, bad, check, how)


# ---- numbers ------------------------------------------------------------------------------------------------------

INTS = [(t, a.name) for t in O.TABLE for a in O.TABLE[t][1] if a.kind in ('int', 'uvari', 'unorm', 'dim')]
NUMS = [(t, a.name) for t in O.TABLE for a in O.TABLE[t][1] if a.kind in ('num', 'fd', 'any', 'dtn')]
HI = {'uvari': (0, 2 ** 30 - 1), 'unorm': (0, 65535), 'dim': (0, 2 ** 30 - 1), 'int': (-2 ** 31, 2 ** 32 - 1)}


def ints(picks):
    """integers of any size in integer and number attributes"""
    def fn(ctx):
        t, an = ctx.choice('attr', picks)
        a = O.attr(t, an)
        v = ctx.int('v', -2 ** 40, 2 ** 40)
        n = ctx.choice('n', [1, 2]) if a.mult else 0
        second = ctx.choice('second', [3, 2.5, -1]) if n == 2 and a.kind in ('num', 'any') else 3
        route = ['kw', 'dict', 'later'][(len(an) + len(t)) % 3]
        st = {}

        def build():
            w = O.World(ctx)
            x = v if not n else [v] if n == 1 else [second, v]
            st['o'] = assign(ctx, w, t, a, x, route)
            w.finish()
            return w.df

        def check(rd, sul, lfs):
            x = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(st['o']), t)
            if t == 'channel' and an == 'dimension':
                return
            O.check_attr(ctx, rd, x, a.label, [O.X('num', y) for y in ([second, v] if n == 2 else [v])], None, t)
        r = HI.get(a.kind)
        judge(ctx, build, ctx.or_(v < r[0], v > r[1]) if r else False, check, f'{t} {an}')
    return fn


def origin_refs(ctx):
    """origin references, of the origin and of objects"""
    v = ctx.int('v', -2 ** 40, 2 ** 40)
    how = ctx.choice('how', ['origin', 'object', 'origin-later', 'object-later', 'all'])

    def build():
        df = S.new_file(ctx)
        lf = df.add_logical_file()
        o = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, **(
            {'origin_reference': v} if how in ('origin', 'all') else {}))
        z = lf.add_zone('Z', **({'origin_reference': v} if how == 'object' else {}))
        S.simple_frame(lf, 2)
        if how == 'origin-later':
            o.origin_reference = v
        if how == 'object-later':
            z.origin_reference = v
        return df

    def check(rd, sul, lfs):
        if how.startswith('origin') or how == 'all':
            ctx.require(lfs[0].of_type(b'ORIGIN')[0].ob.origin == v, 'origin reference')
        else:
            # the only origin
            ctx.require(lfs[0].of_type(b'ZONE')[0].ob.origin == v, 'origin reference')
            ctx.require(v == lfs[0].of_type(b'ORIGIN')[0].ob.origin, 'reference to no origin')
    judge(ctx, build, ctx.or_(v < 0, v >= 2 ** 30), check, f'origin reference ({how})')


def copies(ctx):
    """more objects of one name than copy numbers"""
    n = ctx.choice('n', [255, 256, 257])
    t = ctx.choice('type', ['zone', 'comment'])
    s = ctx.string('s', 2, 2)

    def build():
        df, lf, o = base(ctx)
        st = [getattr(lf, 'add_' + t)(s) for i in range(n)]
        S.simple_frame(lf, 2)
        return df

    def check(rd, sul, lfs):
        x = lfs[0].of_type(O.TABLE[t][0])
        ctx.require(len(x) == n, 'number of objects')
        ctx.require(len({int(y.ob.copy) for y in x}) == n, 'objects which cannot be told apart')
    judge(ctx, build, n > 256, check, f'{n} objects of the same name')


# ---- degenerate values --------------------------------------------------------------------------------------------

NAN = float('nan')
def fringe_values():
    return [
    ('empty list', []), ('empty tuple', ()), ('nested empty', [[]]), ('nested empties', [[], []]), ('none in list', [None]),
    ('none after', 'OK+None'), ('ragged', 'OK ragged'), ('deep', 'OK deep'), ('empty string', ''), ('blank', '  '), ('nan', NAN),
    ('inf', math.inf), ('minus zero', -0.0), ('tiny', 5e-324), ('huge', 1e308), ('list of nan', [NAN, 1.5]), ('2**31', 2 ** 31),
    ('2**63', 2 ** 63), ('2**64', 2 ** 64), ('10**400', 10 ** 400), ('-2**31-1', -2 ** 31 - 1), ('true', True), ('bool list', [True, 2]),
    ('int float', [1, 2.5]), ('float int', [2.5, 1]), ('int big', [1, 2 ** 40]), ('fraction', fractions.Fraction(1, 3)),
    ('decimal', decimal.Decimal('1.25')), ('complex', 1 + 2j), ('np f4', np.float32(0.1)), ('np f2', np.float16(0.5)),
    ('np i8', np.int64(2 ** 40)), ('np u8', np.uint8(200)), ('np bool', np.bool_(True)), ('np str', np.str_('abc')),
    ('np array', np.array([1.5, 2.5])), ('np ints', np.array([1, 2])), ('np 2d', np.array([[1, 2], [3, 4]])),
    ('np 0d', np.array(3)), ('np empty', np.zeros(0)), ('np strs', np.array(['a', 'b'])), ('bytes', b'abc'), ('bytearray', bytearray(b'ab')),
    ('set', {1.5}), ('dict', {}), ('dict value', {'value': [], 'units': 'm'}), ('range', range(3)), ('date', datetime.date(2020, 1, 2)),
    ('datetime', datetime.datetime(2020, 1, 2, 3, 4, 5)), ('old', datetime.datetime(1899, 12, 31, 23, 59, 59, 999999, tzinfo=UTC)),
    ('far', datetime.datetime(2156, 1, 1, tzinfo=UTC)), ('time', datetime.time(1, 2)), ('delta', datetime.timedelta(1)),
    ('np datetime', np.datetime64('2020-01-02T03:04:05')), ('mixed', ['a', 1]), ('mixed2', [1, 'a']), ('class', int), ('surrogate', '\ud800'),
    ('long', 'y' * 256), ('nested mixed', [[1, 2], 3]), ('nested strings', [['a'], ['b', 'c']]), ('type name', 'CHANNEL'),
    ('none', None), ('list of none', [None, None]), ('obj', 'REF'), ('obj list', ['REF']), ('obj mix', ['REF', 1]),
    ]


NAMES = (
    'empty list, empty tuple, nested empty, nested empties, none in list, none after, ragged, deep, empty string, '
    'blank, nan, inf, minus zero, tiny, huge, list of nan, 2**31, 2**63, 2**64, 10**400, -2**31-1, true, bool list, '
    'int float, float int, int big, fraction, decimal, complex, np f4, np f2, np i8, np u8, np bool, np str, np '
    'array, np ints, np 2d, np 0d, np empty, np strs, bytes, bytearray, set, dict, dict value, range, date, '
    'datetime, old, far, time, delta, np datetime, mixed, mixed2, class, surrogate, long, nested mixed, nested '
    'strings, type name, none, list of none, obj, obj list, obj mix').split(', ')


def flat(v):
    if isinstance(v, np.ndarray):
        return flat(v.tolist()) if v.ndim else [v.item()]
    if isinstance(v, (list, tuple, set, range)):
        return [x for y in v for x in flat(y)]
    return [v]


def number(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    return float(x)


def expect(kind, v):
    """natural content of a value: list of X, or None when there is no natural reading"""
    xs = flat(v)
    out = []
    for x in xs:
        if x is None:
            return None
        if isinstance(x, str):
            out.append(O.X('str', str(x)))
        elif isinstance(x, (bytes, bytearray)):
            return None
        elif isinstance(x, datetime.datetime):
            out.append(O.X('dt', x))
        elif isinstance(x, (bool, int, float, np.number, np.bool_, fractions.Fraction, decimal.Decimal)):
            if isinstance(x, np.complexfloating):
                return None
            try:
                out.append(O.X('status' if kind == 'status' else 'num', number(x)))
            except (OverflowError, TypeError):
                return None
        elif hasattr(x, 'origin_reference'):
            out.append(O.X('objref', x))
        else:
            return None
    return out


def must(kind, name, xs):
    """values no attribute of the kind can represent"""
    if name in ('complex', 'class', 'old', 'far', 'surrogate', 'delta', 'time', '10**400', 'none in list', 'list of none'):
        return True
    if kind in ('ident', 'prop', 'unit', 'flag', 'status') or kind.startswith(('soft:', 'enum:')):
        return name == 'long'
    return False


def fringe_picks(every):
    """every value for every kind of attribute; in the quick tier each for a third of the attributes of the kind"""
    seen = {}
    out = []
    for t in O.TABLE:
        for a in O.TABLE[t][1]:
            k = (a.kind, a.mult)
            j = seen[k] = seen.get(k, -1) + 1
            out += [(t, a.name, n) for i, n in enumerate(NAMES) if every or (i + j) % 3 == 0 or j == 0]
    return out


def fringe(picks):
    def fn(ctx):
        t, an, name = ctx.choice('pick', picks)
        a = O.attr(t, an)
        v = dict(fringe_values())[name]
        z = len(t) + len(an) + len(name)
        route = ['kw', 'dict', 'later'][z % 3]
        other = ctx.string('other', 3, 3)
        st = {}

        def build():
            w = O.World(ctx)
            x = v
            if isinstance(v, str) and v.startswith('OK'):
                g, e = O.value(ctx, w, a, False, 'two' if a.mult else None)
                x = {'OK+None': [g[0], None], 'OK ragged': [[g[0]], [g[1], g[1]]], 'OK deep': [[[g[0]], [g[1]]]]}[v] if a.mult else [g]
            elif isinstance(v, str) and v == 'REF' or isinstance(v, list) and v and type(v[0]) is str and v[0] == 'REF':
                q = w.lf.add_zone('Q') if not a.kind.startswith('ref:') else w.target(a.kind[4:])
                x = q if v == 'REF' else [q] + v[1:]
            st['v'] = x
            st['o'] = assign(ctx, w, t, a, x, route)
            w.lf.add_zone('OTHER', description=other)
            w.finish()
            return w.df

        def check(rd, sul, lfs):
            o = O.find(ctx, lfs[0], b'ZONE', O.R.ObName(5, 0, b'OTHER'), 'other object')
            O.check_attr(ctx, rd, o, b'DESCRIPTION', [O.X('text', other)], None, 'other object')
            x = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(st['o']), t)
            if t in ('frame', 'channel') and an in ('channels', 'dimension', 'element_limit', 'index_min', 'index_max', 'spacing', 'direction'):
                return              # judged by the rows
            val = st['v']
            if isinstance(val, dict):
                val = val.get('value', [])
            got = x.get(a.label)
            ctx.require(got is not None, 'not in the template')
            if val is None:
                if a.label in O.DEFAULTS.get(t, ()):
                    return
                ctx.require(got.values is None or len(got.values) == 0, f'{name}: a value')
                return
            xs = expect(a.kind, val)
            ctx.require(xs is not None or name in ('bytes', 'bytearray', 'date', 'np datetime', 'set'), f'{t} {an}: {name} is written')
            if xs is None:
                return
            if not xs or xs == [] or (isinstance(val, str) and val == '' and got.values is None):
                ctx.require(got.values is None or len(got.values) == 0 or a.label in O.DEFAULTS.get(t, ()), f'{t} {an}: values for {name}')
                return
            ctx.require(got.values is not None, f'{t} {an}: {name} is dropped')
            ctx.require(len(got.values) == len(xs), f'{t} {an}: {len(got.values)} values for {name}')
            for g, e in zip(got.values, xs):
                same_leaf(ctx, rd, got.rc, g, e, a.kind, f'{t} {an}: {name}')
        judge(ctx, build, must(a.kind, name, None), check, f'{t} {an}: {name}')
    return fn


def same_leaf(ctx, rd, rc, g, e, kind, what):
    """decoded value against the natural reading"""
    if kind == 'lname' and e.kind == 'str' or e.kind == 'str':
        if rc == R.DTIME:
            return
        ctx.require(rc in O.CODES['str'], f'{what}: a text written as code {rc}')
        ctx.require(g == e.v.encode('ascii'), f'{what}: another text')
    elif e.kind in ('num', 'status'):
        if rc in O.CODES['str']:
            ctx.require(g == str(e.v).encode(), f'{what}: a number written as another text')
        elif rc == R.STATUS:
            ctx.require(g == e.v, f'{what}: another status')
        else:
            ctx.require(rc in O.NUMERIC, f'{what}: a number written as code {rc}')
            if rc in O.INTS:
                ctx.require(g == e.v and e.v == int(e.v) if e.v == e.v else False, f'{what}: another number')
            elif rc == R.FDOUBL:
                ctx.require(g == ctx.f64_bytes(float(e.v)), f'{what}: another number')
            else:
                ctx.require(g == ctx.f32_bytes(e.v), f'{what}: another number')
    elif e.kind == 'dt':
        ctx.require(rc == R.DTIME, f'{what}: a time written as code {rc}')
        O.check_leaf(ctx, rd, rc, g, e, what)
    else:
        O.check_leaf(ctx, rd, rc, g, e, what)


# ---- completeness, references -------------------------------------------------------------------------------------


def complete(ctx):
    """something essential is missing from one of the logical files"""
    what = ctx.choice('what', ['nothing', 'file', 'origin', 'channels', 'frames', 'frame channels', 'own frame', 'origin set', 'only no-format',
                               'file id', 'file id later', 'header'])
    at = ctx.choice('at', [0, 1])
    n = ctx.choice('n', [1, 2])
    ctx.assume(at < n)
    hid = ctx.string('hid', 2, 2)
    a = ctx.array('a', '<f4', (2,))
    st = {}

    def build():
        df = S.new_file(ctx)
        if what == 'file':
            return df
        for i in range(n):
            f = i == at
            sn = None if i == 0 else 'S'
            lf = df.add_logical_file(fh_id=hid)
            if not (f and what == 'origin'):
                o = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, set_name=sn)
                if f and what == 'file id':
                    o.file_id.value = hid + 'x'
            lf.add_zone('Z', set_name=sn)
            nf = lf.add_no_format('N', set_name=sn)
            lf.add_no_format_frame_data(nf, b'abc')
            if not (f and what in ('channels', 'only no-format', 'own frame')):
                c = st['c'] = lf.add_channel('C', data=a, set_name=sn)
            if not (f and what in ('frames', 'channels', 'only no-format')):
                lf.add_frame('F', channels=[st.get('c')] if not (f and what == 'frame channels') else [], set_name=sn)
            if f and what == 'file id later':
                lf.file_header.header_id = hid + 'y'
        return df

    def check(rd, sul, lfs):
        ctx.require(len(lfs) == n, 'number of logical files')
        for x in lfs:
            D.check_frame(ctx, rd, x, b'F', [a])
            ctx.require(x.records[0].set.objects[0].get(b'ID').values[0].rstrip() == x.of_type(b'ORIGIN')[0].get(b'FILE-ID').values[0].rstrip()
                        if what.startswith('file id') else True, 'identifier')
    judge(ctx, build, what in ('file', 'origin', 'channels', 'frames', 'frame channels', 'own frame', 'only no-format'), check, f'no {what}')


def dangling(ctx):
    """references to what is not in the logical file"""
    t, an = ctx.choice('attr', [(t, a.name) for t in O.TABLE for a in O.TABLE[t][1] if a.kind.startswith('ref:') or a.kind in ('objref', 'lname')])
    a = O.attr(t, an)
    how = ctx.choice('how', ['other file', 'other lf', 'removed', 'direct'])
    ctx.assume(not (t == 'frame' and how == 'direct'))
    s = ctx.string('s', 3, 3)
    st = {}

    def build():
        w = O.World(ctx)
        k = {'objref': 'zone', 'lname': 'long_name'}.get(a.kind) or a.kind[4:]
        k = 'process' if k == 'any' else k
        if how == 'other file':
            w2 = O.World(ctx)
            v = w2.target(k)
        elif how == 'other lf':
            w2 = O.World.__new__(O.World)
            w2.__dict__.update(w.__dict__)
            w2.lf, w2.made = w.df.add_logical_file(), {}
            w2.lf.add_origin('O2', file_set_number=8, creation_time=S.T0, origin_reference=5, set_name='2')
            c2 = w2.lf.add_channel('C2', data=np.arange(2.), set_name='2')
            f2 = w2.lf.add_frame('F2', channels=[c2], set_name='2')
            v = c2 if k == 'channel' else f2 if k == 'frame' else getattr(w2.lf, 'add_' + k)('T', set_name='2', **(
                {'values': [1.5]} if k == 'parameter' else {}))
        elif how == 'removed':
            v = w.target(k)
            v.parent._eflr_item_list.remove(v)
        else:
            cls = {'zone': ctx.dw.eflr_types.ZoneSet}.get(k)
            if cls is None:
                raise No()
            v = ctx.dw.eflr_types.ZoneItem('T', parent=cls())
        kw = {}
        n = 2 if t == 'splice' and a.mult else 0
        val = [v] if a.mult else v
        if t == 'frame':
            val = [w.lf.add_channel('C1', data=np.arange(2.)), v]
        if t in ('computation', 'parameter') and an == 'zones':
            st['o'] = make(ctx, w, t, {'zones': val, 'values': [1.5]})
        elif t == 'splice' and a.mult:
            x = w.target('zone' if an == 'input_channels' else 'channel')
            st['o'] = make(ctx, w, t, {an: val, ('zones' if an == 'input_channels' else 'input_channels'): [x]})
        else:
            st['o'] = make(ctx, w, t, {a.kw: val})
        w.lf.add_zone('OTHER', description=s)
        w.finish()
        return w.df
    judge(ctx, build, True, None, f'{t} {an} refers to an object not in the logical file ({how})')


def payloads(ctx):
    """data of no-format objects"""
    how = ctx.choice('how', ['bytes', 'str', 'bytearray', 'memoryview', 'int', 'none', 'list', 'empty', 'empty str', 'array', 'float', 'np bytes',
                             'np str', 'foreign', 'not item', 'zone', 'none item', 'obj'])
    s = ctx.string('s', 0, 3, 'any')
    b = ctx.payload('b', 0, 3)
    st = {}

    def build():
        df, lf, o = base(ctx)
        n = lf.add_no_format('N')
        S.simple_frame(lf, 2)
        t = n
        d = {'bytes': b, 'str': s, 'bytearray': bytearray(b'abc'), 'memoryview': memoryview(b'abc'), 'int': 5, 'none': None, 'list': [1, 2],
             'empty': b'', 'empty str': '', 'array': np.arange(3), 'float': 1.5, 'np bytes': np.bytes_(b'abc'), 'np str': np.str_('abc'), 'obj': object()}
        if how == 'foreign':
            t = S.new_file(ctx).add_logical_file().add_no_format('N')
        elif how == 'not item':
            t = 'N'
        elif how == 'zone':
            t = lf.add_zone('N')
        elif how == 'none item':
            t = None
        lf.add_no_format_frame_data(t, d.get(how, b))
        return df

    def check(rd, sul, lfs):
        rs = [r for r in lfs[0].iflrs() if r.type == 1]
        ctx.require(len(rs) == 1, f'{len(rs)} records')
        ob, st_ = R.iflr_ref(rd, rs[0])
        want = {'bytes': b, 'bytearray': b'abc', 'memoryview': b'abc', 'empty': b'', 'empty str': b'', 'np bytes': b'abc', 'np str': b'abc'}.get(how)
        if how == 'str':
            want = s.encode('ascii')
        ctx.require(want is not None, 'data which is neither bytes nor text')
        ctx.require(len(st_.d) == len(want), 'other data')
        ctx.require(st_.d == want, 'other data')
    judge(ctx, build, lambda: ctx.or_(how in ('int', 'none', 'list', 'float', 'foreign', 'not item', 'zone', 'none item', 'obj', 'array'),
                                      how == 'str' and ctx.not_(ctx.isascii(s))), check, f'no-format data: {how}')


def part(xs, k, i):
    return xs[i::k]


def scenarios(tier):
    q = tier == 'quick'
    T = list(O.TABLE)
    FP = fringe_picks(not q)
    k = 4
    return [Scenario('rows-dict', rows('dict', True), 2), Scenario('rows-inline', rows('inline', two_frames=True), 2),
            Scenario('rows-h5', rows('h5'), 2), Scenario('struct', struct_rows), Scenario('dtypes', dtypes, 2),
            Scenario('casts', assigned_cast), Scenario('dims', dims, 3), Scenario('missing', missing, 2),
            Scenario('channels', refs_to_data), Scenario('window', window, 2),
            Scenario('names', names(T), 6)] + [
        Scenario(f'texts-{i}', texts(part(TEXTS, 3, i)), 5) for i in range(3)] + [
        Scenario('units', units(UNITED[::3] if q else UNITED), 4), Scenario('header', header, 3),
        Scenario('ints', ints(INTS), 3), Scenario('nums', ints(NUMS[::3] if q else NUMS), 4),
        Scenario('origin-refs', origin_refs, 2), Scenario('copies', copies, 3)] + [
        Scenario(f'fringe-{i}', fringe(part(FP, k, i)), 6) for i in range(k)] + [
        Scenario('complete', complete, 2), Scenario('dangling', dangling, 3), Scenario('payloads', payloads, 2)]

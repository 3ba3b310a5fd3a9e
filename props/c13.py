"""C13 Frame index metadata reflects exactly the rows written."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D

REQ = ()
BOUNDS = ('index channels of 1..4 (thorough 5) rows with symbolic values: the whole range of the six integer dtypes, '
          'float32/float64 on dyadic grids (|v| <= 2^12, steps 1/4; |v| <= 2^-20, steps 2^-40), NaN at any position; every row window of them; '
          'casts; each of INDEX-MIN/INDEX-MAX/SPACING/DIRECTION supplied or not by the user; sequences of two writes '
          'with other windows, other data, index type added or removed, frame number-indexed frames of 1..300 rows')
OUTSIDE = ('inputs within 10% of the tolerance threshold of uniformity; float index values off the grid (rounding of '
           'differences); INDEX-MIN/MAX of data holding NaN (only decodability is checked)')
ASSUMPTIONS = ['numpy min/max/diff/unique/median are modelled by their definitions over exact values']


def same_num(ctx, a, v):
    """attribute holds exactly the number v (int, float or symbolic)"""
    if a.values is None or len(a.values) != 1:
        return False
    x = a.values[0]
    if a.rc == R.FDOUBL:
        return x == ctx.f64_bytes(v)
    if a.rc == R.FSINGL:
        return x == ctx.f32_bytes(v)
    if a.rc in D.SIZE or a.rc == R.UVARI:
        return x == v
    return False


def num_of(ctx, obj, label):
    a = obj.get(label)
    return a if a is not None and a.values is not None else None


def order(ctx, cells):
    """min and max of symbolic numbers"""
    mn = mx = cells[0]
    for c in cells[1:]:
        if c < mn:
            mn = c
        if c > mx:
            mx = c
    return mn, mx


def check(ctx, r, cells, nan=False, user=None, name=b'F', what='', dirs=(b'INCREASING', b'DECREASING'), spacing=True,
          observe=True):
    """metadata of an indexed frame over the given index cells (exact numbers) of the rows written"""
    user = user or {}
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    if observe:
        ctx.observe('file', r.data)
    fr = D.frame_obj(ctx, lfs[0], name)
    ctx.require(len(D.rows_of(ctx, rd, lfs[0], fr)) == len(cells), what + 'number of rows')
    mn, mx = (None, None) if nan else order(ctx, cells)
    for lab, v, k in ((b'INDEX-MIN', mn, 'index_min'), (b'INDEX-MAX', mx, 'index_max')):
        a = num_of(ctx, fr, lab)
        if k in user:
            ctx.require(a is not None and same_num(ctx, a, user[k]), f'{what}{k} given by the user is not written')
        elif nan:
            continue
        else:
            ctx.require(a is not None, f'{what}{lab.decode()} is absent')
            ctx.require(same_num(ctx, a, v), f'{what}{lab.decode()} is not that of the rows written')
    sp, dr = num_of(ctx, fr, b'SPACING'), num_of(ctx, fr, b'DIRECTION')
    if 'direction' in user:
        ctx.require(dr is not None and ctx.eq(dr.values[0], user['direction']), what + 'direction given by the user')
    if 'spacing' in user:
        ctx.require(sp is not None and same_num(ctx, sp, user['spacing']), what + 'spacing given by the user')
    if nan or len(cells) < 2:
        if 'spacing' not in user:
            ctx.require(sp is None, what + 'SPACING of a single row or undefined differences')
        if 'direction' not in user and len(cells) < 2:
            ctx.require(dr is None, what + 'DIRECTION of a single row')
        ctx.reached('undefined')
        return
    ds = [b - a for a, b in zip(cells, cells[1:])]
    inc = ctx.and_(*[d >= 0 for d in ds], ctx.or_(*[d > 0 for d in ds]))
    dec = ctx.and_(*[d <= 0 for d in ds], ctx.or_(*[d < 0 for d in ds]))
    equal = ctx.and_(*[d == ds[0] for d in ds[1:]])
    if equal:
        if 'spacing' not in user:
            if ds[0] == 0:
                ctx.require(sp is None or same_num(ctx, sp, 0), what + 'SPACING of a constant index')
            else:
                ctx.require(sp is not None, what + 'uniform differences, but no SPACING')
                ctx.require(same_num(ctx, sp, ds[0]), what + 'SPACING is not the difference')
        if 'direction' not in user and dr is not None:
            ctx.require(ctx.or_(ctx.and_(ds[0] > 0, ctx.eq(dr.values[0], dirs[0])),
                                ctx.and_(ds[0] < 0, ctx.eq(dr.values[0], dirs[1]))), what + 'DIRECTION is wrong')
        ctx.reached('uniform')
        return
    u = near(ctx, ds)
    if u is None:
        ctx.assume(False)
    if u:
        ctx.reached('nearly uniform')
        if 'spacing' not in user:
            lo, hi = order(ctx, ds)
            ctx.require(sp is not None, what + 'nearly uniform differences, but no SPACING')
            ctx.require(within(ctx, sp, lo, hi), what + 'SPACING outside of the range of differences')
        return
    if 'spacing' not in user:
        ctx.require(sp is None, what + 'SPACING although the differences are not uniform')
    if 'direction' not in user:
        if inc:
            ctx.require(dr is not None and ctx.eq(dr.values[0], dirs[0]), what + 'DIRECTION of an increasing index')
            ctx.reached('increasing')
        elif dec:
            ctx.require(dr is not None and ctx.eq(dr.values[0], dirs[1]), what + 'DIRECTION of a decreasing index')
            ctx.reached('decreasing')
        else:
            ctx.require(dr is None, what + 'DIRECTION of an index that is not monotonic')
            ctx.reached('not monotonic')


def median(ctx, ds):
    """twice the median"""
    s = list(ds)
    for i in range(len(s)):        # selection sort: forks on the order
        for j in range(i + 1, len(s)):
            if s[j] < s[i]:
                s[i], s[j] = s[j], s[i]
    n = len(s)
    return 2 * s[n // 2] if n % 2 else s[n // 2 - 1] + s[n // 2]


def near(ctx, ds):
    """True: within tolerance, False: certainly not, None: too close to the threshold"""
    m2 = median(ctx, ds)
    if m2 == 0:
        return False
    ok = True
    for d in ds:
        x = m2 - 2 * d           # (1 - d/median)^2 < 0.001
        ax = x if x >= 0 else -x
        am = m2 if m2 >= 0 else -m2
        if ax * 1000 < am * 28:          # 0.028^2 = 0.00078
            continue
        if ax * 1000 > am * 35:          # 0.035^2 = 0.0012
            ok = False
            continue
        return None
    return ok


def within(ctx, a, lo, hi):
    if a.rc == R.FDOUBL:
        # the value as a number: median of the differences, or their extremes
        x = a.values[0]
        return ctx.or_(*[x == ctx.f64_bytes(v) for v in (lo, hi)], between(ctx, x, lo, hi))
    return ctx.and_(a.values[0] >= lo, a.values[0] <= hi)


def between(ctx, x, lo, hi):
    v = ctx.f64_value(x)
    return ctx.and_(v >= lo, v <= hi)


def mk(ctx, a, user=None, later=False, cast=None, itype='BOREHOLE-DEPTH', inline=True, units='m', extra=False):
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    c = lf.add_channel('I', units=units, cast_dtype=cast, **({'data': a} if inline else {}))
    chs = [c]
    user = user or {}
    kw = {} if later else dict(user)
    fr = lf.add_frame('F', channels=chs, **({'index_type': itype} if itype else {}), **kw)
    if later:
        for k, v in user.items():
            getattr(fr, k).value = v
    return df, fr


RANGE = {'i1': (-128, 127), 'i2': (-2 ** 15, 2 ** 15 - 1), 'i4': (-2 ** 31, 2 ** 31 - 1), 'u1': (0, 255),
         'u2': (0, 2 ** 16 - 1), 'u4': (0, 2 ** 32 - 1)}


def idx(ctx, dt, n, name='i', layout='C', span=None, den=4):
    k = D.key(dt)
    if k in RANGE:
        lo, hi = span or RANGE[k]
        return ctx.array(name, dt, (n,), kind='int', lo=lo, hi=hi, layout=layout)
    lo, hi = span or (-2 ** 14, 2 ** 14)
    return ctx.array(name, dt, (n,), kind='real', lo=lo, hi=hi, den=den, layout=layout)


def cells_of(ctx, a, rows=None):
    return [ctx.cell(a, i) for i in (rows if rows is not None else range(len(a)))]


def values(dts, rows, span=None, layouts=('C',), den=4):
    def fn(ctx):
        dt = ctx.choice('dt', dts)
        n = ctx.choice('n', rows)
        a = idx(ctx, dt, n, span=span, layout=ctx.choice('layout', layouts), den=den)
        df, fr = mk(ctx, a)
        r = ctx.write_ok(df)
        check(ctx, r, cells_of(ctx, a))
    return fn


def nan(ctx):
    dt = ctx.choice('dt', ['<f8', '>f4'])
    n = ctx.choice('n', [1, 2, 3])
    a = idx(ctx, dt, n)
    k = ctx.choice('k', list(range(n)))
    ctx.set_cell(a, k, float('nan'))
    df, fr = mk(ctx, a)
    r = ctx.write(df)
    if r.exc is None:
        check(ctx, r, [0] * n, nan=True)


def windows(kind, dts, n):
    def fn(ctx):
        a = idx(ctx, ctx.choice('dt', dts), n)
        f = ctx.choice('from', [0, 1, 2, 3][:n])
        t = ctx.choice('to', [None, 1, 2, 3][:n])
        if (t or n) <= f:
            ctx.assume(False)
        df, fr = mk(ctx, a, inline=kind == 'inline')
        kw = {}
        if kind == 'dict':
            kw['data'] = {'I': a, 'unused': np.arange(2)}
        elif kind == 'struct':
            kw['data'] = ctx.structured([('I', a)])
        elif kind == 'h5':
            kw['data'] = ctx.h5('d.h5', [('I', a)])
        r = ctx.write_ok(df, from_idx=f, to_idx=t, input_chunk_size=ctx.choice('ick', [None, 2]), **kw)
        check(ctx, r, cells_of(ctx, a, range(f, t or n)))
    return fn


KEYS = ['index_min', 'index_max', 'spacing', 'direction']


def user(ctx):
    """values given by the user"""
    n = ctx.choice('n', [1, 3])
    a = idx(ctx, '<i2', n, span=(-40, 40))
    which = ctx.choice('which', [KEYS[:1], KEYS[1:2], KEYS[2:3], KEYS[3:], KEYS[:2], KEYS])
    iv = ctx.bool('int')
    u = {}
    for k in which:
        if k == 'direction':
            u[k] = b'DECREASING'
        else:
            u[k] = ctx.int(k, -1000, 1000) if iv else ctx.real(k, -1000, 1000, 8)
    ku = {k: v.decode() if isinstance(v, bytes) else v for k, v in u.items()}
    df, fr = mk(ctx, a, ku, later=ctx.bool('later'))
    r = ctx.write_ok(df)
    check(ctx, r, cells_of(ctx, a), user=u)
    r = ctx.write_ok(df, 'b.dlis', to_idx=1)
    check(ctx, r, cells_of(ctx, a, [0]), user=u, what='second write: ')


def cast(ctx):
    src, to = ctx.choice('cast', [('<i4', np.float64), ('<f8', np.int32), ('<f8', np.float32), ('>u2', np.int32),
                                  ('<i2', np.float32), ('<u1', np.int8), ('<i2', np.uint8)])
    n = ctx.choice('n', [1, 3])
    span = (-120, 120) if np.dtype(src).kind != 'u' else (0, 240)
    a = idx(ctx, src, n, span=span)
    df, fr = mk(ctx, a, cast=to)
    r = ctx.write_ok(df)
    cs = cells_of(ctx, a)
    k = np.dtype(to)
    if k.kind in 'iu':
        w = 1 << (8 * k.itemsize)
        h = w // 2 if k.kind == 'i' else 0
        if np.dtype(src).kind == 'f':
            cs = [int(c) for c in cs]
        if k.kind == 'u' and np.dtype(src).kind == 'f':
            ctx.assume(ctx.and_(*[c >= 0 for c in cs]))
        cs = [(c + h) % w - h for c in cs]
    check(ctx, r, cs)


def histories(ctx):
    """two writes of one specification with other windows or data"""
    n = 3
    a = idx(ctx, '<i4', n, 'a', span=(-30, 30))
    b = idx(ctx, '<f8', 2, 'b', span=(-60, 60))
    steps = ctx.choice('steps', [('a', 'b'), ('b', 'a'), ('a1', 'a'), ('a', 'a1'), ('none', 'a')])
    df, fr = mk(ctx, a, inline=ctx.bool('inline'), itype=None if steps[0] == 'none' else 'BOREHOLE-DEPTH')
    for k, s in enumerate(steps):
        if s == 'none':
            r = ctx.write_ok(df, f'{k}.dlis', data={'I': a})
            number(ctx, r, n)
            fr.index_type.value = 'BOREHOLE-DEPTH'
            continue
        src = a if s[0] == 'a' else b
        f = 1 if s == 'a1' else 0
        r = ctx.write_ok(df, f'{k}.dlis', data={'I': src}, from_idx=f)
        check(ctx, r, cells_of(ctx, src, range(f, len(src))), what=f'write {k}: ')


def number(ctx, r, n, user=None, name=b'F', observe=True):
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    if observe:
        ctx.observe('file', r.data)
    fr = D.frame_obj(ctx, lfs[0], name)
    ctx.require(len(D.rows_of(ctx, rd, lfs[0], fr)) == n, 'number of rows')
    user = user or {}
    for lab, v, k in ((b'INDEX-MIN', 1, 'index_min'), (b'INDEX-MAX', n, 'index_max')):
        a = num_of(ctx, fr, lab)
        ctx.require(a is not None, f'{lab.decode()} is absent')
        ctx.require(same_num(ctx, a, user.get(k, v)), f'{lab.decode()} of a frame without index type')
    sp, dr = num_of(ctx, fr, b'SPACING'), num_of(ctx, fr, b'DIRECTION')
    if 'spacing' in user:
        ctx.require(sp is not None and same_num(ctx, sp, user['spacing']), 'spacing given by the user')
    else:
        ctx.require(sp is None or same_num(ctx, sp, 1), 'SPACING of a frame without index type')
    if 'direction' in user:
        ctx.require(dr is not None and ctx.eq(dr.values[0], user['direction']), 'direction given by the user')
    ctx.require(num_of(ctx, fr, b'INDEX-TYPE') is None, 'INDEX-TYPE never set')
    ctx.reached('number index')


def unindexed(ctx):
    n = ctx.choice('n', [1, 2, 5])
    dt = ctx.choice('dt', ['<f8', '<i2', '>u1'])
    a = ctx.array('i', dt, (n,) if ctx.bool('scalar') else (n, 2))
    which = ctx.choice('which', [[], KEYS[:1], KEYS[1:2], KEYS[2:3], KEYS])
    u = {k: (b'INCREASING' if k == 'direction' else ctx.int(k, -500, 500)) for k in which}
    df, fr = mk(ctx, a, {k: v.decode() if isinstance(v, bytes) else v for k, v in u.items()}, later=ctx.bool('later'),
                itype=None)
    f = ctx.choice('from', list(range(n)))
    r = ctx.write_ok(df, from_idx=f)
    number(ctx, r, n - f, u)
    r = ctx.write_ok(df, 'b.dlis')
    number(ctx, r, n, u)


def many(ctx):
    n = ctx.choice('n', [127, 128, 300])
    a = np.arange(n, dtype='>i2') * ctx.choice('step', [1, -3, 100])
    ind = ctx.bool('indexed')
    df, fr = mk(ctx, a, itype='TIME' if ind else None)
    r = ctx.write_ok(df)
    if ind:
        check(ctx, r, [int(x) for x in a])
    else:
        number(ctx, r, n)


def two_frames(ctx):
    """index metadata of each frame from its own index channel; a frame sharing a channel with another index type"""
    a = idx(ctx, '<i2', 3, 'a', span=(-20, 20))
    b = idx(ctx, '<f4', 2, 'b', span=(-20, 20))
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    ca, cb, cx = lf.add_channel('A', data=a), lf.add_channel('B', data=b), lf.add_channel('X', data=np.arange(2.))
    lf.add_frame('F', channels=[ca], index_type='TIME')
    lf.add_frame('G', channels=[cb, cx], index_type=ctx.choice('t', ['BOREHOLE-DEPTH', 'VERTICAL-DEPTH', 'TIME']))
    lf.add_frame('H', channels=[cx])
    r = ctx.write_ok(df)
    check(ctx, r, cells_of(ctx, a), name=b'F')
    check(ctx, r, cells_of(ctx, b), name=b'G', observe=False)
    number(ctx, r, 2, name=b'H', observe=False)


INTS = ['<i1', '<u1', '>i2', '<u2', '<i4', '>u4']


def scenarios(tier):
    q = tier == 'quick'
    more = [] if q else [
        Scenario('int-5', values(INTS, [5]), 8),
        Scenario('float-4', values(['<f8', '>f4'], [4]), 8),
        Scenario('float-2-wide', values(['<f8'], [2, 3], (-2 ** 30, 2 ** 30)), 3),
        Scenario('near-4', values(['<i4'], [4, 5], (0, 400)), 4),
        Scenario('windows-all', windows('inline', INTS, 4), 5),
    ]
    return more + [
        Scenario('int-1', values(INTS, [1, 2], None, ('C', 'neg', 'strided')), 2),
        Scenario('int-3', values(INTS, [3]), 3),
        Scenario('int-4', values(['<i1', '>u4', '<i4'], [4]), 5),
        Scenario('near-3', values(['<i2'], [3], (0, 4000)), 2),
        Scenario('float-2', values(['<f8', '>f4'], [1, 2, 3]), 3),
        Scenario('float-fine', values(['<f8'], [2, 3], (-2 ** 20, 2 ** 20), den=2 ** 40), 2),
        Scenario('nan', nan, 1),
        Scenario('windows-inline', windows('inline', ['<u1'], 3), 3),
        Scenario('windows-dict', windows('dict', ['>i2'], 3), 3),
        Scenario('windows-struct', windows('struct', ['<i4'], 3), 3),
        Scenario('windows-h5', windows('h5', ['<u2'], 3), 3),
        Scenario('user', user, 3),
        Scenario('cast', cast, 3),
        Scenario('histories', histories, 4),
        Scenario('unindexed', unindexed, 2),
        Scenario('many', many, 1),
        Scenario('two-frames', two_frames, 2),
    ]

"""C06 Primitive encodings follow RP66 and unrepresentable values are refused."""
import datetime
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import objs as O

REQ = ()
BOUNDS = ('the dispatch write_struct on every code used: integers over [-2^70, 2^70], every 64-bit float pattern, IDENT of '
          'any length 0..600 and ASCII 0..40000 (any content, ASCII or not), date-times of every day of the years '
          '1890..2170 with any time of day, microsecond and offset of -14..14 h in minutes, naive ones (local zone UTC), '
          'OBNAME/OBJREF with origins [-2^33, 2^33], names 0..20 of any content and 254..257 (thorough 0..300), copy numbers '
          '0..300; the same values through attributes, names, set names and units of written files; two encodings in '
          'succession in one process, of values of equal or other types')
OUTSIDE = ('offsets of a fraction of a minute; local zones other than UTC; texts longer than 40000 characters; '
           'FSINGL: values on a grid of 1/8 within +-2^20 (others are rounded as the host does)')
ASSUMPTIONS = ['struct.pack rejects what a format cannot hold (its model is validated by replaying witnesses)']


def api(ctx):
    """internal dispatch; the file-level scenarios decide if its interface has changed"""
    try:
        sw = ctx.dw.utils.internal.struct_writer
        rc = ctx.dw.utils.internal.internal_enums.RepresentationCode
        return sw.write_struct, rc
    except AttributeError:
        ctx.assume(False)


def emit(ctx, code, v):
    f, rc = api(ctx)
    r = ctx.call(f, getattr(rc, code), v)
    if r.exc is not None and isinstance(r.exc, NameError):
        ctx.assume(False)
    return r


def be(ctx, v, n):
    """n-byte big-endian unsigned"""
    out = b''
    for i in range(n):
        out = out + byte(ctx, (v // (1 << (8 * (n - 1 - i)))) % 256)
    return out


def byte(ctx, v):
    return ctx.u8(v)


INTS = {'SSHORT': (-128, 127, 1), 'SNORM': (-32768, 32767, 2), 'SLONG': (-2 ** 31, 2 ** 31 - 1, 4),
        'USHORT': (0, 255, 1), 'UNORM': (0, 65535, 2), 'ULONG': (0, 2 ** 32 - 1, 4)}


def ints(ctx):
    code = ctx.choice('code', list(INTS))
    lo, hi, n = INTS[code]
    v = ctx.int('v', -2 ** 70, 2 ** 70)
    r = emit(ctx, code, v)
    if r.exc is not None:
        ctx.require(ctx.or_(v < lo, v > hi), f'{code}: value within the range is refused')
        ctx.reached('refused')
        return
    ctx.require(ctx.and_(v >= lo, v <= hi), f'{code}: value outside of the range is encoded')
    ctx.require(len(r.value) == n, f'{code}: size')
    u = ctx.uint(r.value)
    ctx.require(ctx.or_(u == v, u == v + (1 << (8 * n))), f'{code}: other value')
    if lo == 0:
        ctx.require(u == v, f'{code}: other value')
    ctx.reached(code)


def uvari(ctx):
    v = ctx.int('v', -2 ** 70, 2 ** 70)
    r = emit(ctx, 'UVARI', v)
    uv(ctx, r, v)


def uv(ctx, r, v, rest=None):
    if r.exc is not None:
        ctx.require(ctx.or_(v < 0, v > 2 ** 30 - 1), 'UVARI: representable value is refused')
        return
    ctx.require(ctx.and_(v >= 0, v <= 2 ** 30 - 1), 'UVARI: unrepresentable value is encoded')
    b = r.value
    n = len(b)
    ctx.require(n == 1 or n == 2 or n == 4, 'UVARI: size')
    u = ctx.uint(b)
    if n == 1:
        ctx.require(ctx.and_(u == v, u < 128), 'UVARI: 1 byte')
    elif n == 2:
        ctx.require(ctx.and_(u - 0x8000 == v, u >= 0x8000, u < 0xC000), 'UVARI: 2 bytes')
        ctx.require(v >= 128, 'UVARI: not the shortest form')
    else:
        ctx.require(ctx.and_(u - 0xC0000000 == v, u >= 0xC0000000), 'UVARI: 4 bytes')
        ctx.require(v >= 16384, 'UVARI: not the shortest form')
    ctx.reached('uvari%d' % n)


def text(code, top, fixed=None):
    def fn(ctx):
        s = ctx.string('s', *(fixed or (0, top)), ascii_='any')
        r = emit(ctx, code, s)
        n = ctx.slen(s)
        if r.exc is not None:
            if code == 'IDENT':
                ctx.require(ctx.or_(n > 255, ctx.not_(ctx.isascii(s))), 'IDENT: representable text is refused')
            else:
                ctx.require(ctx.not_(ctx.isascii(s)), 'ASCII: representable text is refused')
            ctx.reached('refused')
            return
        ctx.require(ctx.isascii(s), f'{code}: text which is not ASCII is encoded')
        if code == 'IDENT':
            ctx.require(n <= 255, 'IDENT: too long a text is encoded')
        st = R.Stream(R.Rd(ctx, ('x',), code), r.value, 'x', code)
        t = st.value(R.IDENT if code == 'IDENT' else R.ASCII)
        ctx.require(len(st.d) == 0, f'{code}: bytes left over')
        ctx.require(len(t) == n, f'{code}: length')
        ctx.require(t == s.encode('ascii'), f'{code}: other text')
        ctx.reached('encoded')
    return fn


def floats(ctx):
    code = ctx.choice('code', ['FDOUBL', 'FSINGL'])
    v = ctx.flt('v') if code == 'FDOUBL' or ctx.bool('any') else ctx.real('v', -2 ** 23, 2 ** 23, 8)
    r = emit(ctx, code, v)
    try:
        ctx.f64_bytes(v) if code == 'FDOUBL' else ctx.f32_bytes(v)
    except OverflowError:
        ctx.require(r.exc is not None, f'{code}: a value out of range is encoded')
        ctx.reached('refused')
        return
    ctx.require(r.exc is None, f'{code}: representable value is refused')
    ctx.require(len(r.value) == (8 if code == 'FDOUBL' else 4), f'{code}: size')
    ctx.require(r.value == (ctx.f64_bytes(v) if code == 'FDOUBL' else ctx.f32_bytes(v)), f'{code}: other bits')
    ctx.reached(code)


def status(ctx):
    v = ctx.int('v', -2 ** 40, 2 ** 40)
    r = emit(ctx, 'STATUS', v)
    if r.exc is not None:
        ctx.require(ctx.or_(v < 0, v > 1), 'STATUS: 0 or 1 is refused')
        return
    ctx.require(ctx.and_(v >= 0, v <= 1), 'STATUS: something else than 0 or 1 is encoded')
    ctx.require(len(r.value) == 1, 'STATUS: size')
    ctx.require(ctx.uint(r.value) == v, 'STATUS: other value')


def same_instant(ctx, b, v):
    """an encoded DTIME is the instant of a date-time, to the millisecond (the month byte is concrete)"""
    ctx.require(len(b) == 8, 'DTIME: size')
    y, m = ctx.uint(b[0:1]) + 1900, int(b[1])
    ctx.require(m // 16 == 2, 'DTIME: time zone code is not the one of UTC')
    m = m % 16
    ctx.require(1 <= m <= 12, 'DTIME: month')
    d, h, mi, s, ms = ctx.uint(b[2:3]), ctx.uint(b[3:4]), ctx.uint(b[4:5]), ctx.uint(b[5:6]), ctx.uint(b[6:8])
    ctx.require(ctx.and_(h <= 23, mi <= 59, s <= 59, ms <= 999, d >= 1), 'DTIME: field out of its range')
    lp = ctx.and_(y % 4 == 0, ctx.or_(y % 100 != 0, y % 400 == 0))
    last = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]
    ctx.require(ctx.or_(d <= last, ctx.and_(m == 2, lp, d == 29)), 'DTIME: no such day')
    ey, em, ed, eus = ctx.dtime_utc(v)
    tod = ((h * 60 + mi) * 60 + s) * 1000000 + ms * 1000
    if m == em and bool(ctx.and_(y == ey, d == ed)):
        ctx.require(ctx.and_(tod - eus <= 1000, tod - eus >= -1000), 'DTIME: another instant')
        return
    n = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)[m - 1] + d
    if m > 2:
        n = n + ctx.ite(lp, 1, 0)
    y1 = y - 1
    days = y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + n - datetime.date(1900, 1, 1).toordinal()
    diff = days * 86400000000 + tod - ctx.dtime_us(v)
    ctx.require(ctx.and_(diff <= 1000, diff >= -1000), 'DTIME: another instant')


def dtimes(years, tzs, months=tuple(range(1, 13))):
    def fn(ctx):
        mo = ctx.choice('month', list(months))
        v = ctx.dtime('v', date=('sym', mo) + years, tz=ctx.choice('tz', tzs))
        r = emit(ctx, 'DTIME', v)
        us = ctx.dtime_us(v)
        top = (datetime.date(2156, 1, 1) - datetime.date(1900, 1, 1)).days * 86400 * 1000000
        if r.exc is not None:
            # rounding to the millisecond may reach the next year
            ctx.require(ctx.or_(us < 0, us >= top - 1000), 'DTIME: representable instant is refused')
            ctx.reached('refused')
            return
        ctx.require(ctx.and_(us >= 0, us < top), 'DTIME: instant outside of 1900..2155 is encoded')
        same_instant(ctx, r.value, v)
        ctx.reached('encoded')
    return fn


ZONES = ['XXX-05:30', 'XXX9:30', 'XXX-14', 'XXX12']
DST = ['EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3']


def dtime_zones(ctx):
    """date-times without an offset are of the local time zone of the process, whatever that is (daylight saving too)"""
    if ctx.choice('dst', [False, True]):
        ctx.timezone(ctx.choice('zone', DST))
        # winter, summer, the days of the changes in both zones
        date = ctx.choice('date', [(2021, 1, 15), (2021, 7, 15), (2021, 3, 14), (2021, 11, 7), (2021, 3, 28), (2021, 10, 31),
                                   (2021, 12, 31), (2020, 2, 29)])
    else:
        ctx.timezone(ctx.choice('zone', ZONES))
        date = ('sym', ctx.choice('month', [1, 2, 3, 12]), 1901, 2154)
    v = ctx.dtime('v', date=date, tz=ctx.choice('tz', ['naive', 'utc']))
    r = emit(ctx, 'DTIME', v)
    ctx.require(r.exc is None, 'DTIME: representable instant is refused')
    same_instant(ctx, r.value, v)
    ctx.reached('encoded')


def item(ctx, name, oref, copies=0):
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    lf.add_origin('O', file_set_number=1, creation_time=S.T0)
    for i in range(copies):
        lf.add_axis(name, origin_reference=oref)
    r = ctx.call(lf.add_axis, name, origin_reference=oref)
    return df, lf, r


def obname(lo, hi, asc):
    return lambda ctx: obname_(ctx, lo, hi, asc)


def obname_(ctx, lo, hi, asc):
    code = ctx.choice('code', ['OBNAME', 'OBJREF'])
    name = ctx.string('name', lo, hi, ascii_=asc)
    oref = ctx.int('oref', -2 ** 33, 2 ** 33)
    cp = ctx.int('copy', 0, 300)
    df, lf, r0 = item(ctx, name, oref)
    ctx.assume(r0.exc is None)
    it = r0.value
    try:
        it._copy_number = cp
    except Exception:
        ctx.assume(False)
    ctx.assume(it.copy_number == cp)
    r = emit(ctx, code, it)
    bad = ctx.or_(oref < 0, oref > 2 ** 30 - 1, cp > 255, ctx.slen(name) > 255, ctx.not_(ctx.isascii(name)))
    if r.exc is not None:
        ctx.require(bad, f'{code}: representable reference is refused')
        ctx.reached('refused')
        return
    ctx.require(ctx.not_(bad), f'{code}: unrepresentable reference is encoded')
    st = R.Stream(R.Rd(ctx, ('x',), code), r.value, 'x', code)
    if code == 'OBJREF':
        v = st.value(R.OBJREF)
        ctx.require(v.type == b'AXIS', 'OBJREF: type')
        v = v.ob
    else:
        v = st.value(R.OBNAME)
    ctx.require(len(st.d) == 0, f'{code}: bytes left over')
    ctx.require(ctx.and_(v.origin == oref, v.copy == cp), f'{code}: other origin or copy')
    ctx.require(v.name == name.encode('ascii'), f'{code}: other name')
    ctx.reached('encoded')


def write1(ctx, fill, what, good, decode):
    """through a file: `good` says whether the value is representable; decode(lf) checks it"""
    df = S.new_file(ctx)
    lf, o = S.add_lf(df)
    S.simple_frame(lf, 1)
    r0 = ctx.call(fill, lf)
    r = r0 if r0.exc is not None else ctx.write(df)
    if r.exc is not None:
        ctx.require(ctx.not_(good), f'{what}: representable value is refused')
        ctx.reached('refused')
        return
    ctx.require(good, f'{what}: unrepresentable value is written')
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    decode(rd, lfs[0], r0.value)
    ctx.reached('written')


NUMS = {'file_number': ('origin', 0, 2 ** 30 - 1), 'descent_number': ('origin', 0, 65535),
        'run_number': ('origin', 0, 65535), 'producer_code': ('origin', 0, 65535),
        'name_space_version': ('origin', 0, 2 ** 30 - 1), 'sample_count': ('calibration_measurement', -2 ** 31, 2 ** 31 - 1),
        'coordinates': ('axis', -2 ** 31, 2 ** 31 - 1), 'values': ('parameter', -2 ** 31, 2 ** 31 - 1),
        'dimension': ('parameter', 0, 2 ** 30 - 1), 'encrypted': ('frame', 0, 1), 'status': ('tool', 0, 1),
        'file_set_number': ('origin', 0, 2 ** 30 - 1)}


def numbers(ctx):
    an = ctx.choice('attr', list(NUMS))
    t, lo, hi = NUMS[an]
    v = ctx.int('v', -2 ** 40, 2 ** 40)
    a = O.attr(t, an)

    def fill(lf):
        val = [v] if a.mult else v
        kw = {an: val}
        if t == 'origin':
            kw.setdefault('file_set_number', 3)
            return lf.add_origin('OBJ', creation_time=S.T0, **kw)
        if t == 'frame':
            return lf.add_frame('OBJ', channels=[lf.add_channel('CH', data=np.arange(2.))], **kw)
        return getattr(lf, 'add_' + t)('OBJ', **kw)

    def dec(rd, lf, o):
        obj = O.find(ctx, lf, O.TABLE[t][0], O.ident_of(o))
        at = obj.get(a.label)
        ctx.require(at.values is not None and len(at.values) == 1, f'{an} is absent')
        ctx.require(at.values[0] == v, f'{an}: other value')
    write1(ctx, fill, an, ctx.and_(v >= lo, v <= hi), dec)


TEXTS = ['object', 'set', 'units', 'ident', 'text', 'channel', 'frame', 'origin', 'noformat']


def pairs(ctx):
    """encodings one after another in one process: the second as if there had been no first"""
    k1 = ctx.choice('k1', ['float', 'int', 'bool', 'real'])
    k2 = ctx.choice('k2', ['float', 'int', 'bool', 'real'])
    code = ctx.choice('code', ['FDOUBL', 'SLONG', 'USHORT', 'UVARI', 'STATUS', 'ULONG'])

    def mk(k, n):
        if k == 'float':
            return ctx.flt(n)
        if k == 'int':
            return ctx.int(n, -3, 2 ** 14 + 3)
        if k == 'bool':
            return ctx.bool(n)
        return ctx.real(n, -8, 8, 2)
    v1, v2 = mk(k1, 'v1'), mk(k2, 'v2')
    emit(ctx, code, v1)
    r = emit(ctx, code, v2)
    if code == 'FDOUBL':
        ctx.require(r.exc is None, 'FDOUBL: representable value is refused')
        ctx.require(r.value == ctx.f64_bytes(v2 if k2 in ('float', 'real') else v2 * 1.0), 'FDOUBL: other bits')
        return ctx.reached(code)
    if k2 in ('float', 'real'):
        return              # integer codes of floats: what is done with them is C12's subject
    v2 = v2 if k2 == 'int' else ctx.ite(v2, 1, 0)
    if code == 'UVARI':
        return uv(ctx, r, v2)
    lo, hi, n = INTS.get(code, (0, 1, 1))
    if r.exc is not None:
        return ctx.require(ctx.or_(v2 < lo, v2 > hi), f'{code}: value within the range is refused')
    ctx.require(ctx.and_(v2 >= lo, v2 <= hi), f'{code}: value outside of the range is encoded')
    ctx.require(len(r.value) == n, f'{code}: size')
    u = ctx.uint(r.value)
    ctx.require(ctx.or_(u == v2, u == v2 + (1 << (8 * n))), f'{code}: other value')
    ctx.reached(code)


def text_pairs(ctx):
    """texts one after another; the second may be longer, or not ASCII"""
    code = ctx.choice('code', ['IDENT', 'ASCII'])
    s = [ctx.string('s0', 0, 3), ctx.string('s1', 0, 3, ascii_='any')]
    emit(ctx, ctx.choice('code0', ['IDENT', 'ASCII']), s[0])
    r = emit(ctx, code, s[1])
    if r.exc is not None:
        return ctx.require(ctx.not_(ctx.isascii(s[1])), f'{code}: representable text is refused')
    ctx.require(ctx.isascii(s[1]), f'{code}: text which is not ASCII is encoded')
    st = R.Stream(R.Rd(ctx, ('x',), code), r.value, 'x', code)
    ctx.require(st.value(R.IDENT if code == 'IDENT' else R.ASCII) == s[1].encode('ascii'), f'{code}: other text')
    ctx.require(len(st.d) == 0, f'{code}: bytes left over')
    ctx.reached('encoded')


def obname_pairs(ctx):
    """references to one object encoded, its identity changed, encoded again; to two objects of equal names or types"""
    code = ctx.choice('code', ['OBNAME', 'OBJREF'])
    how = ctx.choice('how', ['origin', 'name', 'other type', 'other origin', 'copy'])
    n1, n2 = ctx.string('n1', 1, 2), ctx.string('n2', 1, 2)
    e1, e2 = ctx.int('e1', 0, 20000), ctx.int('e2', 0, 20000)
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    lf.add_origin('O', file_set_number=1, creation_time=S.T0)
    x = lf.add_axis(n1, origin_reference=e1)
    emit(ctx, code, x)
    want = (b'AXIS', n1, e1, 0)
    if how == 'origin':
        x.origin_reference = e2
        want = (b'AXIS', n1, e2, 0)
    elif how == 'name':
        x.name = n2
        want = (b'AXIS', n2, e1, 0)
    elif how == 'other type':
        x = lf.add_zone(n1, origin_reference=e1)
        want = (b'ZONE', n1, e1, 0)
    elif how == 'other origin':
        x = lf.add_axis(n2, origin_reference=e2, set_name='S')
        want = (b'AXIS', n2, e2, None)
    else:
        x = lf.add_axis(n1, origin_reference=e1)
        want = (b'AXIS', n1, e1, 1)
    r = emit(ctx, code, x)
    ctx.require(r.exc is None, f'{code}: representable reference is refused')
    st = R.Stream(R.Rd(ctx, ('x',), code), r.value, 'x', code)
    if code == 'OBJREF':
        v = st.value(R.OBJREF)
        ctx.require(v.type == want[0], 'OBJREF: type')
        v = v.ob
    else:
        v = st.value(R.OBNAME)
    ctx.require(len(st.d) == 0, f'{code}: bytes left over')
    ctx.require(v.origin == want[2], f'{code}: other origin')
    ctx.require(v.name == want[1].encode('ascii'), f'{code}: other name')
    ctx.require(want[3] is None or v.copy == want[3], f'{code}: other copy number')
    ctx.reached('encoded')


def dtime_pairs(ctx):
    """two date-times one after another, naive or with an offset, of the same or other days"""
    d1 = (2020, 2, 29)
    d2 = ctx.choice('d2', [(2020, 2, 29), (2020, 3, 1)])
    v1 = ctx.dtime('v1', date=d1, tz=ctx.choice('tz1', ['naive', 'any']))
    v2 = ctx.dtime('v2', date=d2, tz=ctx.choice('tz2', ['naive', 'any']))
    emit(ctx, 'DTIME', v1)
    r = emit(ctx, 'DTIME', v2)
    ctx.require(r.exc is None, 'DTIME: representable instant is refused')
    same_instant(ctx, r.value, v2)
    ctx.reached('encoded')


def texts(ctx, ks=TEXTS):
    """names, set names, units, labels and texts through a file"""
    k = ctx.choice('k', ks)
    lo, hi = ctx.choice('n', [(1, 1), (6, 6), (250, 260)] + ([(16380, 16390)] if k == 'text' else []))
    # names of channels become names of fields of numpy types: taken from a list
    s = ctx.string('s', lo, hi, ascii_='any') if k != 'channel' else \
        ctx.choice('s', ['A', 'N' * 254, 'N' * 255, 'N' * 256, 'N' * 300, '\u00c9T\u00c9', 'a b', '\n'])

    def fill(lf):
        if k == 'object':
            return lf.add_zone(s, description='d')
        if k == 'set':
            return lf.add_zone('Z', description='d', set_name=s)
        if k == 'units':
            return lf.add_equipment('E', height={'value': 1.0, 'units': s})
        if k == 'ident':
            return lf.add_message('M', message_type=s)
        if k == 'text':
            return lf.add_zone('Z', description=s)
        if k == 'channel':
            c = lf.add_channel(s, data=np.arange(2.))
            lf.add_frame('FF', channels=[c])
            return c
        if k == 'frame':
            return lf.add_frame(s, channels=[lf.add_channel('CC', data=np.arange(2.))])
        if k == 'origin':
            return lf.add_origin(s, file_set_number=3, creation_time=S.T0)
        n = lf.add_no_format(s)
        lf.add_no_format_frame_data(n, b'x')
        return n
    good = ctx.isascii(s)
    if k != 'text':
        good = ctx.and_(good, ctx.slen(s) <= 255)

    def dec(rd, lf, o):
        e = s.encode('ascii')
        if k == 'set':
            ctx.require([x for x in lf.sets if x.type == b'ZONE'][0].name == e, 'set name')
        elif k == 'units':
            ctx.require(lf.of_type(b'EQUIPMENT')[0].get(b'HEIGHT').units == e, 'units')
        elif k == 'ident':
            ctx.require(lf.of_type(b'MESSAGE')[0].get(b'TYPE').values[0] == e, 'type')
        elif k == 'text':
            ctx.require(lf.of_type(b'ZONE')[0].get(b'DESCRIPTION').values[0] == e, 'text')
        else:
            t = {'object': b'ZONE', 'channel': b'CHANNEL', 'frame': b'FRAME', 'origin': b'ORIGIN',
                 'noformat': b'NO-FORMAT'}[k]
            ctx.require(lf.of_type(t)[-1].ob.name == e, f'name of the {k}')
    write1(ctx, fill, k, good, dec)


def copies(ctx):
    """many objects of one name: copy numbers to 255, not further"""
    n = ctx.choice('n', [255, 256, 257])
    oref = ctx.int('oref', 0, 20000)
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    lf.add_origin('O', file_set_number=1, creation_time=S.T0)
    S.simple_frame(lf, 1)
    ok = True
    for i in range(n):
        r = ctx.call(lf.add_zone, 'ZZ', origin_reference=oref)
        ok = ok and r.exc is None
    ctx.must(lf.add_origin, 'O2', file_set_number=2, creation_time=S.T0, origin_reference=oref)
    r = ctx.write(df)
    if not ok or r.exc is not None:
        ctx.require(n > 256, 'copy numbers up to 255 are refused')
        ctx.reached('refused')
        return
    ctx.require(n <= 256, 'a copy number above 255 is written')
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    zs = lfs[0].of_type(b'ZONE')
    ctx.require([int(z.ob.copy) for z in zs] == list(range(n)), 'copy numbers')
    for z in zs[::50]:
        ctx.require(z.ob.origin == oref, 'origin')
    ctx.reached('written')


def dtime_file(ctx):
    """date-times through attributes (time zones, microseconds, the ends of the range)"""
    date = ctx.choice('date', [(1900, 1, 1), (2155, 12, 31), (2000, 2, 29), (1899, 12, 31), (2156, 1, 1), (2024, 12, 31)])
    v = ctx.dtime('v', date=date, tz=ctx.choice('tz', ['naive', 'any']))
    us = ctx.dtime_us(v)
    top = (datetime.date(2156, 1, 1) - datetime.date(1900, 1, 1)).days * 86400 * 1000000
    which = ctx.choice('which', ['creation_time', 'zone', 'message'])

    def fill(lf):
        if which == 'creation_time':
            return lf.add_origin('OBJ', file_set_number=3, creation_time=v)
        if which == 'zone':
            return lf.add_zone('OBJ', minimum=v, maximum=v)
        return lf.add_message('OBJ', time=v)

    def dec(rd, lf, o):
        t, lb = {'creation_time': (b'ORIGIN', b'CREATION-TIME'), 'zone': (b'ZONE', b'MINIMUM'),
                 'message': (b'MESSAGE', b'TIME')}[which]
        at = lf.of_type(t)[-1].get(lb)
        ctx.require(at.rc == R.DTIME and len(at.values) == 1, 'DTIME attribute')
        same_instant(ctx, at.values[0].raw, v)
    ctx.assume(ctx.or_(us < top - 1000, us >= top))
    write1(ctx, fill, which, ctx.and_(us >= 0, us < top), dec)


def scenarios(tier):
    q = tier == 'quick'
    return [
        Scenario('ints', ints, 2), Scenario('uvari', uvari, 1), Scenario('floats', floats, 1), Scenario('status', status, 1),
        Scenario('ident', text('IDENT', 600), 2), Scenario('ascii', text('ASCII', 40000), 2),
        Scenario('dtime-naive', dtimes((1890, 2170), ['naive', 'utc']), 3),
    ] + [Scenario(f'dtime-{m}', dtimes((1890, 2170), ['any'], (m,)), 3) for m in (range(1, 13) if not q else (1, 2, 3, 6, 12))] + [
        Scenario('obname', obname(0, 20, 'any'), 3), Scenario('obname-long', obname(254, 257, 'yes'), 3), Scenario('numbers', numbers, 3), ] + [
        Scenario(f'texts-{i}', (lambda ctx, i=i: texts(ctx, TEXTS[i::4])), 4) for i in range(4)] + [
        Scenario('pairs', pairs, 4), Scenario('text-pairs', text_pairs, 1), Scenario('obname-pairs', obname_pairs, 2),
        Scenario('dtime-pairs', dtime_pairs, 3), Scenario('dtime-zones', dtime_zones, 3),
        Scenario('copies', copies, 3), Scenario('dtime-file', dtime_file, 3),
    ] + ([] if q else [Scenario('obname-any', obname(0, 300, 'any'), 3)])

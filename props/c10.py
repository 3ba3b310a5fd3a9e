"""C10 Chunk sizes are invisible in the output, which replaces what was at the path and grows by whole records."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import phys as P

BOUNDS = ('output_chunk_size: every integer from the record length to beyond the file size (symbolic), as int and as '
          'integral float, and the default; record length symbolic (even 64..400) or fixed, with one record of '
          'symbolic length; input_chunk_size 1..rows+2 and None (symbolic) for 1..7 rows, one and two frames, inline, '
          'dict, structured and HDF5 data; prior content of the path: absent, empty, 0..3000 arbitrary bytes; '
          'writer-level: up to 5 records of symbolic length')
OUTSIDE = 'operating-system level write failures; files over 4 GiB'
REQ = ()


def bounds_of(ctx, data):
    """end positions of visible records of the (final) file"""
    rest = data[80:]
    pos = 80
    out = [pos]
    while len(rest) > 0:
        ctx.assume(len(rest) >= 4)
        n = ctx.uint(rest[:2])
        ctx.require(ctx.and_(n >= 4, n <= len(rest)), 'the file is not a sequence of visible records')
        rest = rest[n:]
        pos = pos + n
        out.append(pos)
    return out


def check(ctx, r, ref, what):
    """result r of a write against the reference bytes"""
    ctx.require(r.data is not None, what + ': no file')
    ctx.require(len(r.data) == len(ref), what + ': other file size')
    ctx.require(r.data == ref, what + ': other bytes')
    t = ctx.reported_total()
    if t is not None:
        ctx.require(t == len(r.data), what + ': reported total is not the file size')
        ctx.reached('total')
    b = bounds_of(ctx, r.data)
    n = 0
    for s in r.snaps or []:
        if s is None:
            continue
        ctx.require(len(s) <= len(ref), what + ': on-disk content after a flush is longer than the file')
        ctx.require(s == ref[:len(s)], what + ': on-disk content after a flush is not a prefix of the file')
        on = len(s) == 0
        for x in b:
            on = ctx.or_(on, len(s) == x)
        ctx.require(on, what + ': on-disk content after a flush does not end on a record boundary')
        n += 1
    if n > 2:
        ctx.reached('flushes')
    ctx.reached('identical')


def with_payload(v, lo, hi, dmax, prior=False, as_float=False, rel=False):
    """records of fixed and one of symbolic size; symbolic buffer size"""
    def fn(ctx):
        ctx.want_snaps = True
        w = v if isinstance(v, int) else ctx.int('vrl', v[0], v[1], even=True)
        df, d = P.public_payload(ctx, w, lo, hi)
        ref = ctx.write_ok(df, 'ref.dlis', output_chunk_size=1 << 20).data
        ctx.observe('ref', ref)
        ck = w + ctx.int('extra', 0, dmax)
        if as_float:
            ck = float(ck)
        if prior:
            ctx.put_file(ctx.path('out.dlis'), ctx.payload('prior', 0, 3000))
        r = ctx.write_ok(df, output_chunk_size=ck)
        check(ctx, r, ref, 'chunked')
    return fn


def near_total(ctx):
    """buffer exactly the size of the records, one more, one less"""
    ctx.want_snaps = True
    df, d = P.public_payload(ctx, 128, 0, 300)
    ref = ctx.write_ok(df, 'ref.dlis', output_chunk_size=1 << 20).data
    ck = len(ref) - 80 + ctx.choice('d', [0, 1, -1, 80, 79, 2, -2, -128])
    r = ctx.write_ok(df, output_chunk_size=ck)
    check(ctx, r, ref, 'chunked')


def kinds(ctx):
    """ways to give the size"""
    ctx.want_snaps = True
    df, d = P.public_payload(ctx, 256, 5, 5)
    ref = ctx.write_ok(df, 'ref.dlis', output_chunk_size=1 << 20).data
    ck = ctx.choice('ck', [None, 256, 256.0, 258, 300.0, 1000, 4096, 1e6, 2.0 ** 31])
    if ck is None:
        r = ctx.write_ok(df, output_chunk_size=None, input_chunk_size=None)
    else:
        r = ctx.write_ok(df, output_chunk_size=ck)
    check(ctx, r, ref, 'chunked')


def prior(ctx):
    """whatever was at the path is replaced, also when smaller or larger than the new file"""
    ctx.want_snaps = True
    df = S.minimal(ctx, vrl=512)[0]
    ref = ctx.write_ok(df, 'ref.dlis').data
    k = ctx.choice('kind', ['none', 'empty', 'any', 'same', 'longer', 'twice'])
    p = ctx.path('out.dlis')
    if k == 'empty':
        ctx.put_file(p, b'')
    elif k == 'any':
        ctx.put_file(p, ctx.payload('prior', 1, 5000))
    elif k == 'same':
        ctx.put_file(p, ref)
    elif k == 'longer':
        ctx.put_file(p, ref + ref[80:])
    elif k == 'twice':
        ctx.write_ok(df, output_chunk_size=512)
    ck = ctx.choice('ck', [512, 700, 1 << 16])
    r = ctx.write_ok(df, output_chunk_size=ck)
    check(ctx, r, ref, 'over prior content')


def inputs(kind, rows, frames, out):
    def fn(ctx):
        ctx.want_snaps = True
        n = rows if isinstance(rows, int) else ctx.choice('rows', rows)
        a = ctx.array('a', '<f8', (n,))
        b = ctx.array('b', '>i2', (n, 2))
        df = S.new_file(ctx, max_record_length=128)
        lf, _ = S.add_lf(df)
        inl = kind == 'inline'
        cs = [lf.add_channel('A', **({'data': a} if inl else {})), lf.add_channel('B', **({'data': b} if inl else {}))]
        lf.add_frame('F', channels=cs)
        if frames > 1:
            m = 3
            c = ctx.array('c', '<u4', (m,))
            cc = lf.add_channel('C', data=c)
            lf.add_frame('G', channels=[cc])
        kw = {}
        if kind == 'dict':
            kw['data'] = {'A': a, 'B': b}
        elif kind == 'struct':
            kw['data'] = ctx.structured([('B', b), ('A', a)])
        elif kind == 'fit':
            kw['data'] = ctx.structured([('A', a), ('B', b)])
        elif kind == 'h5':
            kw['data'] = ctx.h5('d.h5', [('A', a), ('B', b)])
        ref = ctx.write_ok(df, 'ref.dlis', output_chunk_size=1 << 20, **kw).data
        ctx.observe('ref', ref)
        ck = None if ctx.bool('none') else ctx.int('ick', 1, n + 2)
        r = ctx.write_ok(df, input_chunk_size=ck, output_chunk_size=128 + ctx.int('extra', 0, 400) if out else 1 << 20,
                         **kw)
        check(ctx, r, ref, 'chunked input')
    return fn


def windowed(ctx):
    """chunks of a window of the rows"""
    n = 6
    a = ctx.array('a', '>f4', (n,))
    df = S.new_file(ctx, max_record_length=128)
    lf, _ = S.add_lf(df)
    lf.add_frame('F', channels=[lf.add_channel('A', data=a)])
    f = ctx.int('from', 0, n - 1)
    t = ctx.int('to', 1, n)
    ctx.assume(f < t)
    ref = ctx.write_ok(df, 'ref.dlis', from_idx=f, to_idx=t).data
    ck = ctx.int('ick', 1, n + 1)
    r = ctx.write_ok(df, from_idx=f, to_idx=t, input_chunk_size=ck)
    check(ctx, r, ref, 'chunked window')


def writer_level(n, vrl, hi, chunk):
    """records handed to the file writer, buffer size symbolic"""
    def fn(ctx):
        ctx.want_snaps = True
        p = ctx.path('w.dlis')
        s0 = ctx.snap_count(p)
        r, recs, v = P.writer_level(ctx, n, vrl, hi, caps=2, chunk=chunk)
        ctx.assume(r.exc is None)
        # reference: concatenation, in order, of what a writer with one big buffer writes
        DW = ctx.dw.file.writer.DLISWriter
        q = ctx.path('ref.dlis')
        w = ctx.must(DW, q, visible_record_length=v)
        SUL = ctx.dw.logical_record.misc.StorageUnitLabel
        LRB = ctx.dw.logical_record.core.logical_record.LogicalRecordBytes
        mk = lambda b, t, e: LRB(b, lr_type_struct=t, is_eflr=e)
        ctx.must(w.write_storage_unit_label, ctx.must(SUL, 'SET', 1, v))
        ctx.must(w.write_logical_records, [P.LR(mk, *x) for x in recs], 1 << 20)
        r.snaps = ctx.snap_since(p, s0)
        check(ctx, r, ctx.read_file(q), 'writer')
    return fn


def lfs(ctx):
    """two logical files, several frames, windows of buffer sizes"""
    ctx.want_snaps = True
    df = S.new_file(ctx, max_record_length=128)
    for i in range(2):
        lf = df.add_logical_file(fh_id=f'H{i}')
        lf.add_origin('O', file_set_number=i + 1, creation_time=S.T0, set_name=f'S{i}')
        for j in range(2):
            a = ctx.array(f'a{i}{j}', '<u2', (2 + j,))
            c = lf.add_channel(f'C{j}', data=a, set_name=f'S{i}')
            lf.add_frame(f'F{j}', channels=[c], set_name=f'S{i}')
        nf = lf.add_no_format('N', set_name=f'S{i}')
        lf.add_no_format_frame_data(nf, ctx.payload(f'p{i}', 150, 150))
    ref = ctx.write_ok(df, 'ref.dlis').data
    ick = ctx.choice('ick', [None, 1, 2])
    r = ctx.write_ok(df, output_chunk_size=128 + ctx.int('extra', 0, 3000), input_chunk_size=ick)
    check(ctx, r, ref, 'chunked')


def scenarios(tier):
    q = tier == 'quick'
    more = [] if q else [
        Scenario('payload-sym-vrl-wide', with_payload((64, 1200), 0, 900, 6000), 8),
        Scenario('payload-8192-wide', with_payload(8192, 0, 30000, 40000), 6),
        Scenario('writer-6', writer_level(6, (20, 400), 500, 1000), 8),
        Scenario('inputs-inline-rows', inputs('inline', [1, 2, 3, 5, 8, 12], 2, True), 5),
    ]
    return more + [
        Scenario('payload-128', with_payload(128, 0, 300, 3000), 5),
        Scenario('payload-sym-vrl', with_payload((64, 400), 20, 20, 2500), 4),
        Scenario('payload-8192', with_payload(8192, 0, 9000, 12000), 3),
        Scenario('float', with_payload(128, 10, 10, 1600, as_float=True), 2),
        Scenario('prior-payload', with_payload(200, 0, 60, 900, prior=True), 3),
        Scenario('near-total', near_total, 2),
        Scenario('kinds', kinds, 1),
        Scenario('prior', prior, 2),
        Scenario('inputs-inline', inputs('inline', [1, 4, 7], 2, False), 2),
        Scenario('inputs-dict', inputs('dict', [1, 4, 5], 1, False), 1),
        Scenario('inputs-struct', inputs('struct', [3, 4], 1, False), 1),
        Scenario('inputs-fit', inputs('fit', [3, 4], 1, False), 1),
        Scenario('inputs-h5', inputs('h5', [3, 4], 1, False), 1),
        Scenario('both', inputs('inline', 4, 1, True), 3),
        Scenario('windowed', windowed, 2),
        Scenario('logical-files', lfs, 2),
        Scenario('writer-4', writer_level(4, (20, 200), 120, 300), 4),
    ]

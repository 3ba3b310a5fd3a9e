"""Scenario builders shared by the layout properties (C01, C02, C15): record sizes against record capacity."""
import numpy as np
from . import reader as R
from . import spec as S

SMALL = [20, 22, 24, 26, 28, 30, 32, 34, 36, 40, 44, 48, 56, 64]


class LR:
    """a logical record with a given body, as the writer takes it"""

    def __init__(self, make, body, type_, eflr):
        self.make, self.body, self.type, self.eflr = make, body, type_, eflr

    def represent_as_bytes(self):
        return self.make(self.body, bytes([self.type]), self.eflr)


def writer_level(ctx, n, vrl, hi, caps=4, chunk=None, types=((0, True), (1, False), (127, False), (5, True))):
    """records of symbolic length, handed to the file writer -> (result, [(body, type, eflr)], vrl, sul)"""
    v = ctx.int('vrl', vrl[0], vrl[1], even=True)
    dw = ctx.dw
    try:
        W = dw.file.writer.DLISWriter
        LRB = dw.logical_record.core.logical_record.LogicalRecordBytes
        SUL = dw.logical_record.misc.StorageUnitLabel
    except AttributeError:
        ctx.assume(False)
    mk = lambda b, t, e: LRB(b, lr_type_struct=t, is_eflr=e)
    recs = []
    for i in range(n):
        b = ctx.payload(f'r{i}', 1, hi)
        if caps:
            ctx.assume(len(b) <= caps * (v - 8))
        t, e = types[i % len(types)]
        recs.append((b, t, e))
    p = ctx.path('w.dlis')
    w = ctx.must(W, p, visible_record_length=v)
    sul = ctx.must(SUL, 'SET', 1, v)
    ctx.must(w.write_storage_unit_label, sul)
    ck = ctx.int('chunk', 0, chunk) + v if chunk is not None else 1 << 18
    r = ctx.call(w.write_logical_records, [LR(mk, *x) for x in recs], ck)
    if r.exc is not None and type(r.exc).__name__ in ('AttributeError', 'TypeError', 'NameError'):
        ctx.assume(False)       # internal interface changed: the public-API scenarios decide
    r.data = ctx.read_file(p)
    return r, recs, v


def public_payload(ctx, v, lo, hi, caps2=0):
    """valid specification with one no-format payload of symbolic length -> (df, payload)"""
    df = S.new_file(ctx, max_record_length=v)
    lf, o = S.add_lf(df)
    S.simple_frame(lf, 1)
    nf = lf.add_no_format('N')
    d = ctx.payload('p', lo, hi)
    if caps2:
        ctx.assume(2 * len(d) <= caps2 * v)
    lf.add_no_format_frame_data(nf, d)
    return df, d


def public_names(ctx, v, lo, hi, rows=2, width=0):
    """valid specification whose frame/channel name has symbolic length (all record lengths follow it)"""
    df = S.new_file(ctx, max_record_length=v)
    lf, o = S.add_lf(df)
    nm = ctx.string('name', lo, hi)
    ctx.assume(ctx.not_(nm == 'C'))
    a = np.arange(rows * max(width, 1), dtype=np.uint8).reshape((rows, width) if width else (rows,)) + 3
    c = lf.add_channel('C', data=a)
    fr = ctx.must(lf.add_frame, nm, channels=[c])
    return df, nm, a


def widths(ctx, v, ws, rows=2):
    """frame of one byte channel of several widths: row sizes from one byte upward"""
    df = S.new_file(ctx, max_record_length=v)
    lf, o = S.add_lf(df)
    w = ctx.choice('w', ws)
    a = ctx.array('a', 'u1', (rows, w) if w > 1 else (rows,))
    c = lf.add_channel('C', data=a)
    lf.add_frame('F', channels=[c])
    return df, a


def seg_layer(ctx, data, req, maxlen, what='file'):
    rd = R.Rd(ctx, req, what)
    sul, segs, recs = R.read_records(rd, data, maxlen)
    return rd, sul, segs, recs

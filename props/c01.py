"""C01 Physical layout: label, visible records and segments are well-formed."""
from .base import Scenario
from . import reader as R
from . import spec as S
from . import phys as P

REQ = ('phys',)
BOUNDS = ('writer level: 1-3 records with symbolic bodies of 1..4 record capacities at every even maximum record length '
          '20..16384, output chunk anywhere in [length, length+70]; public API: every even length 128..300 with a payload '
          'of 0..500 bytes, every even length 1024..16384 with a payload of up to 3.5 lengths, lengths 20..64 with payloads '
          '0..70, symbolic frame names of 1..255 characters, frame rows of 1..40 bytes; label: every sequence number '
          '1..9999, set identifier of 0..70 characters (non-ASCII included), every accepted maximum length; the label changed in '
          'place between two writes')
OUTSIDE = 'records of more than five segments with a symbolic record length; more than three symbolic records at once'


def layout(ctx, r, v):
    if r.exc is not None:
        ctx.assume(False)       # C15's subject
    ctx.observe('file', r.data)
    rd, sul, segs, recs = P.seg_layer(ctx, r.data, REQ, v)
    field(ctx, sul.maxlen_f, v, 5, 'label: maximum record length')
    ctx.reached('file')
    return rd, sul, segs, recs


def field(ctx, f, n, w, what):
    """right-justified decimal number, blanks or zeros before it"""
    t = str(n).encode('ascii')
    k = w - len(t)
    ctx.require(ctx.or_(f == b' ' * k + t, f == b'0' * k + t), what)


def writer(n, vrl, hi, caps=4, chunk=None):
    def fn(ctx):
        r, given, v = P.writer_level(ctx, n, vrl, hi, caps, chunk)
        rd, sul, segs, recs = layout(ctx, r, v)
        pads(ctx, segs)
    return fn


def pads(ctx, segs):
    pass


def payload(vrl, hi, caps2=0, lo=0):
    def fn(ctx):
        v = ctx.choice('vrl', vrl) if isinstance(vrl, list) else ctx.int('vrl', vrl[0], vrl[1], even=True)
        df, d = P.public_payload(ctx, v, lo, hi, caps2)
        layout(ctx, ctx.write(df), v)
    return fn


def names(vrls, rows, width=0):
    def fn(ctx):
        v = ctx.choice('vrl', vrls)
        df, nm, a = P.public_names(ctx, v, 1, 255, rows, width)
        layout(ctx, ctx.write(df), v)
    return fn


def widths(vrls):
    def fn(ctx):
        v = ctx.choice('vrl', vrls)
        df, a = P.widths(ctx, v, list(range(1, 41)))
        layout(ctx, ctx.write(df), v)
    return fn


def label(ctx):
    v = ctx.int('vrl', 20, 16384, even=True)
    n = ctx.int('seq', 1, 9999)
    sid = ctx.string('sid', 0, 70, ascii_='any')
    r0 = ctx.call(ctx.dw.DLISFile, set_identifier=sid, sul_sequence_number=n, max_record_length=v)
    ctx.assume(r0.exc is None)
    df = r0.value
    ctx.assume(v >= 2048)
    lf, o = S.add_lf(df)
    S.simple_frame(lf, 1)
    r = ctx.write(df)
    if r.exc is not None:
        ctx.require(ctx.or_(ctx.slen(sid) > 60, ctx.not_(ctx.isascii(sid))), 'valid label refused')
        return
    rd, sul, segs, recs = layout(ctx, r, v)
    ctx.require(len(sid) <= 60, 'set identifier longer than 60 characters accepted')
    ctx.require(sul.setid == sid.encode('ascii') + b' ' * (60 - len(sid)), 'label: set identifier')
    field(ctx, sul.seq, n, 4, 'label: sequence number')
    ctx.reached('label')


def label_object(ctx):
    """the label given as an object; record length taken from it"""
    SUL = ctx.dw.logical_record.misc.StorageUnitLabel
    v = ctx.int('vrl', 4096, 16384, even=True)
    sid = ctx.string('sid', 0, 60)
    n = ctx.int('seq', 1, 9999)
    sul0 = ctx.must(SUL, sid, n, v)
    df = ctx.must(ctx.dw.DLISFile, storage_unit_label=sul0)
    lf, o = S.add_lf(df)
    S.simple_frame(lf, 1)
    nf = lf.add_no_format('N')
    d = ctx.payload('p', 0, 9000)
    lf.add_no_format_frame_data(nf, d)
    rd, sul, segs, recs = layout(ctx, ctx.write(df), v)
    ctx.require(sul.setid == sid.encode('ascii') + b' ' * (60 - len(sid)), 'label: set identifier')
    field(ctx, sul.seq, n, 4, 'label: sequence number')


def relabel(vrl, small):
    def fn(ctx):
        """the label is changed after a first write; the second file follows the new one"""
        v0 = ctx.choice('v0', [16384, 128, 8192])
        v = ctx.int('vrl', vrl[0], vrl[1], even=True)
        df = S.new_file(ctx, max_record_length=v0, set_identifier='OLD', sul_sequence_number=7)
        lf, o = S.add_lf(df)
        S.simple_frame(lf, 1)
        lf.add_no_format_frame_data(lf.add_no_format('N'), bytes(range(250)) if small else b'abc')
        layout(ctx, ctx.write_ok(df, 'first.dlis'), v0)
        sul0 = df.storage_unit_label
        what = ctx.choice('what', ['length', 'all'])
        n, sid = 7, 'OLD'
        new = [('max_record_length', v)]
        if what == 'all':
            n, sid = ctx.int('seq', 1, 9999), ctx.string('sid', 0, 60)
            new += [('sequence_number', n), ('set_identifier', sid)]
        for k, x in new:
            ctx.assume(ctx.call(setattr, sul0, k, x).exc is None)
        rd, sul, segs, recs = layout(ctx, ctx.write_ok(df, 'second.dlis'), v)
        field(ctx, sul.seq, n, 4, 'label: sequence number')
        ctx.require(sul.setid == sid.encode('ascii') + b' ' * (60 - len(sid)), 'label: set identifier')
    return fn


def scenarios(tier):
    q = tier == 'quick'
    return [
        Scenario('writer-1', writer(1, (20, 16384), 70000), 1),
        Scenario('writer-2', writer(2, (20, 16384), 30000, 2), 2),
        Scenario('writer-2-chunk', writer(2, (20, 16384), 33000, 2, 70), 2),
        Scenario('writer-small', writer(3, (20, 64), 60, 0), 2),
        Scenario('payload-128-300', payload((128, 300), 500), 2),
        Scenario('payload-caps', payload((1024, 16384), 60000, 7), 1),
        Scenario('payload-small', payload(P.SMALL, 70), 4),
        Scenario('names', names([8192, 256, 128], 2), 2),
        Scenario('widths', widths([8192, 26, 36]), 2),
        Scenario('label', label, 2),
        Scenario('label-object', label_object, 1),
        Scenario('relabel', relabel((2048, 16384), False), 2),
        Scenario('relabel-small', relabel((128, 300), True), 2),
    ] + ([] if q else [
        Scenario('writer-4', writer(4, (20, 16384), 60000, 6, 300), 3),
        Scenario('payload-wide', payload((64, 16384), 40000), 3),
        Scenario('payload-small-all', payload(list(range(20, 128, 2)), 200), 3),
        Scenario('names-small', names(list(range(20, 128, 6)), 3, 5), 3),
    ])

"""C02 Segmentation is lossless, ordered and correctly bracketed."""
from .base import Scenario
from . import reader as R
from . import spec as S
from . import phys as P

REQ = ('seg',)
BOUNDS = ('writer level: 1-3 records with symbolic bodies of 1..4 record capacities, every even maximum record length '
          '20..16384, output chunk in [length, length+70]; public API: the same specification (symbolic payload, symbolic '
          'frame name) written with a small maximum record length (20..300) and with 16384 holds the same records, also when '
          'one file object is written twice and its record length changed in between')
OUTSIDE = 'records of more than five segments with a symbolic record length; more than three symbolic records at once'


def same_records(ctx, recs, given, what):
    ctx.require(len(recs) == len(given), f'{what}: {len(recs)} records instead of {len(given)}')
    for i, (x, (b, t, e)) in enumerate(zip(recs, given)):
        ctx.require(ctx.eq(x.type, t), f'{what}: record {i} has another type')
        ctx.require(x.eflr == e, f'{what}: record {i} has another explicit/indirect flag')
        ctx.require(len(x.body) == len(b), f'{what}: record {i} has another length')
        ctx.require(x.body == b, f'{what}: record {i} has another body')
    ctx.reached('records')


def writer(n, vrl, hi, caps=4, chunk=None):
    def fn(ctx):
        r, given, v = P.writer_level(ctx, n, vrl, hi, caps, chunk)
        ctx.assume(r.exc is None)
        ctx.observe('file', r.data)
        rd, sul, segs, recs = P.seg_layer(ctx, r.data, REQ, v)
        same_records(ctx, recs, given, 'writer')
    return fn


def two_sizes(build, vrl):
    def fn(ctx):
        v = ctx.choice('vrl', vrl) if isinstance(vrl, list) else ctx.int('vrl', vrl[0], vrl[1], even=True)
        outs = []
        for vv, nm in ((16384, 'big.dlis'), (v, 'small.dlis')):
            df = build(ctx, vv)
            r = ctx.write(df, nm)
            ctx.assume(r.exc is None)
            rd, sul, segs, recs = P.seg_layer(ctx, r.data, REQ, vv)
            ctx.observe(nm, r.data)
            outs.append(recs)
        given = [(x.body, x.type, x.eflr) for x in outs[0]]
        same_records(ctx, outs[1], given, f'small record length')
    return fn


def rewrite(ctx):
    """one file object written, its record length changed, written again"""
    df = None
    outs = []
    how = ctx.choice('how', ['shrink', 'grow'])
    v = ctx.int('vrl', 128, 300, even=True)
    for vv, nm in ((16384, 'a.dlis'), (v, 'b.dlis')) if how == 'shrink' else ((v, 'a.dlis'), (16384, 'b.dlis')):
        if df is None:
            df, d = P.public_payload(ctx, vv, 0, 500)
        else:
            ctx.assume(ctx.call(setattr, df.storage_unit_label, 'max_record_length', vv).exc is None)
        r = ctx.write(df, nm)
        ctx.assume(r.exc is None)
        rd, sul, segs, recs = P.seg_layer(ctx, r.data, REQ, vv)
        ctx.observe(nm, r.data)
        outs.append(recs)
    same_records(ctx, outs[1], [(x.body, x.type, x.eflr) for x in outs[0]], 'second write')


def scenarios(tier):
    q = tier == 'quick'
    pay = lambda hi, caps=0: (lambda ctx, v: P.public_payload(ctx, v, 0, hi, caps)[0])
    nam = lambda rows, w=0: (lambda ctx, v: P.public_names(ctx, v, 1, 255, rows, w)[0])
    wid = lambda ctx, v: P.widths(ctx, v, list(range(1, 41)))[0]
    return [
        Scenario('writer-1', writer(1, (20, 16384), 70000), 1),
        Scenario('writer-2', writer(2, (20, 16384), 33000, 2), 2),
        Scenario('writer-2-chunk', writer(2, (20, 16384), 33000, 2, 70), 2),
        Scenario('writer-small', writer(3, (20, 64), 60, 0), 2),
        Scenario('payload-128-300', two_sizes(pay(500), (128, 300)), 2),
        Scenario('payload-small', two_sizes(pay(70), P.SMALL), 4),
        Scenario('names', two_sizes(nam(2), [256, 128, 60]), 2),
        Scenario('widths', two_sizes(wid, [20, 26, 36]), 2),
        Scenario('rewrite', rewrite, 2),
    ] + ([] if q else [
        Scenario('writer-4', writer(4, (20, 16384), 60000, 6, 300), 3),
        Scenario('payload-wide', two_sizes(pay(40000, 9), (64, 16384)), 3),
        Scenario('payload-small-all', two_sizes(pay(200), list(range(20, 128, 2))), 3),
        Scenario('names-small', two_sizes(nam(3, 5), list(range(20, 128, 6))), 3),
    ])

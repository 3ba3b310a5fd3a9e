"""C15 Writability never hinges on byte-size coincidences."""
from .base import Scenario
from . import reader as R
from . import spec as S
from . import phys as P

REQ = ('phys', 'seg')
BOUNDS = ('writer level: 1-3 records with symbolic bodies of 1..4 record capacities at every even maximum record length '
          '20..16384; public API: every even length 128..300 with payloads of 0..500 bytes, 1024..16384 with payloads up '
          'to 3.5 lengths, 20..64 with payloads of 0..70 bytes, names of 1..255 characters, rows of 1..40 bytes')
OUTSIDE = 'records of more than five segments with a symbolic record length; more than three symbolic records at once'


def written(ctx, r, v):
    if r.exc is not None:
        ctx.require(False, f'write of a valid specification raised {type(r.exc).__name__}: {ctx.exc_text(r.exc)}')
    ctx.observe('file', r.data)
    P.seg_layer(ctx, r.data, REQ, v)
    ctx.reached('written')


def writer(n, vrl, hi, caps=4):
    def fn(ctx):
        r, given, v = P.writer_level(ctx, n, vrl, hi, caps)
        written(ctx, r, v)
    return fn


def mk(ctx, v):
    r = ctx.call(ctx.dw.DLISFile, max_record_length=v)
    ctx.require(r.exc is None, 'maximum record length (even, 20..16384) refused')


def payload(vrl, hi, caps2=0):
    def fn(ctx):
        v = ctx.choice('vrl', vrl) if isinstance(vrl, list) else ctx.int('vrl', vrl[0], vrl[1], even=True)
        mk(ctx, v)
        df, d = P.public_payload(ctx, v, 0, hi, caps2)
        written(ctx, ctx.write(df), v)
    return fn


def names(vrls, rows, width=0):
    def fn(ctx):
        v = ctx.choice('vrl', vrls)
        df, nm, a = P.public_names(ctx, v, 1, 255, rows, width)
        written(ctx, ctx.write(df), v)
    return fn


def widths(vrls):
    def fn(ctx):
        v = ctx.choice('vrl', vrls)
        df, a = P.widths(ctx, v, list(range(1, 41)))
        written(ctx, ctx.write(df), v)
    return fn


def scenarios(tier):
    q = tier == 'quick'
    return [
        Scenario('writer-1', writer(1, (20, 16384), 70000), 1),
        Scenario('writer-2', writer(2, (20, 16384), 33000, 2), 2),
        Scenario('writer-small', writer(3, (20, 64), 60, 0), 2),
        Scenario('payload-128-300', payload((128, 300), 500), 2),
        Scenario('payload-caps', payload((1024, 16384), 60000, 7), 1),
        Scenario('payload-small', payload(P.SMALL, 70), 4),
        Scenario('names', names([8192, 256, 128, 60], 2), 2),
        Scenario('widths', widths([8192, 20, 26, 36]), 2),
    ] + ([] if q else [
        Scenario('writer-4', writer(4, (20, 16384), 60000, 6), 3),
        Scenario('payload-wide', payload((64, 16384), 40000), 3),
        Scenario('payload-small-all', payload(list(range(20, 128, 2)), 200), 3),
        Scenario('names-small', names(list(range(20, 128, 6)), 3, 5), 3),
    ])

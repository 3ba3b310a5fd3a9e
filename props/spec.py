"""Building specifications through the public API (shared by the harnesses)."""
import datetime
import numpy as np

UTC = datetime.timezone.utc
T0 = datetime.datetime(2020, 1, 2, 3, 4, 5, 678000, tzinfo=UTC)


def new_file(ctx, dw=None, **kw):
    return (dw or ctx.dw).DLISFile(**kw)


def add_lf(df, fsn=7, origin=True, oname='ORIGIN', **kw):
    lf = df.add_logical_file(**kw)
    o = None
    if origin:
        o = lf.add_origin(oname, file_set_number=fsn, creation_time=T0)
    return lf, o


def simple_frame(lf, rows=2, name='FR', index=False, set_suffix=None, **kw):
    a = np.arange(rows, dtype=np.float64) * 0.5
    b = np.arange(rows, dtype=np.int16) + 3
    c1 = lf.add_channel(name + '-C1', data=a, **kw)
    c2 = lf.add_channel(name + '-C2', data=b, **kw)
    fr = lf.add_frame(name, channels=[c1, c2], **kw)
    return fr, (c1, c2), (a, b)


def minimal(ctx, dw=None, vrl=8192, rows=2, **kw):
    """one logical file with origin and a frame"""
    df = new_file(ctx, dw, max_record_length=vrl)
    lf, o = add_lf(df, **kw)
    fr, chs, data = simple_frame(lf, rows)
    return df, lf, o, fr, chs

"""C14 Output is free of process and object history."""
import datetime
import numpy as np
from .base import Scenario
from . import spec as S

BOUNDS = ('histories of up to four operations (build, write, rename, change of origin reference / values / units / data / '
          'mode, failing write) over one to three DLISFile objects in one process, with symbolic values (numbers, text, '
          'date-times, names, cells) on both sides, compared with one freshly loaded instance of the library executing '
          'only the final specification; equal texts, payloads and nearly equal ones (case, blanks, bytes or text)')
OUTSIDE = ('state of other libraries (numpy, h5py, logging); histories of more than four operations; names and texts '
           'longer than 12 characters')
ASSUMPTIONS = ['a second, independently loaded instance of the package stands for a fresh process']


def same(ctx, r, ref, what):
    ctx.require((r.exc is None) == (ref.exc is None),
                what + ': ' + ('accepted only with this history' if r.exc is None else 'refused because of the history'))
    if ref.exc is not None:
        ctx.reached('refused')
        return
    ctx.require(len(r.data) == len(ref.data), what + ': size depends on the history')
    ctx.require(r.data == ref.data, what + ': bytes depend on the history')
    ctx.reached('same')


def values(ctx, lf, kind, v):
    """an object holding a value of a given kind"""
    if kind == 'param':
        lf.add_parameter('P', values=[v])
    elif kind == 'coord':
        lf.add_axis('P', coordinates=[v, v])
    elif kind == 'num':
        lf.add_equipment('P', height=v, length=3)
    elif kind == 'meas':
        lf.add_calibration_measurement('P', measurement=[v, 1], sample_count=1)
    elif kind == 'uint':
        lf.add_well_reference_point('P', permanent_datum_elevation=v)
    elif kind == 'dim':
        lf.add_parameter('P', dimension=[v], values=[1])
    elif kind == 'zone':
        lf.add_zone('P', domain='TIME', minimum=v, maximum=v)
    elif kind == 'text':
        lf.add_comment('P', text=[v, 'x'])
    elif kind == 'ident':
        lf.add_axis('P', axis_id=v)
    elif kind == 'desc':
        lf.add_zone('P', description=v)
    elif kind == 'unit':
        lf.add_equipment('P', height={'value': 1.0, 'units': v})
    elif kind == 'name':
        lf.add_zone(v, description='D')
    elif kind == 'status':
        lf.add_tool('P', status=v)
    elif kind == 'payload':
        lf.add_no_format_frame_data(lf.add_no_format('P'), v)
    elif kind == 'several':
        n = lf.add_no_format('P')
        for x in (v, 'between', v):
            lf.add_no_format_frame_data(n, x)


def spec1(ctx, dw, kind, v, **kw):
    df = S.new_file(ctx, dw)
    lf, o = S.add_lf(df, **kw)
    S.simple_frame(lf, 1)
    values(ctx, lf, kind, v)
    return df


def value(ctx, name, typ):
    if typ == 'int':
        return ctx.int(name, -300, 300)
    if typ == 'pos':
        return ctx.int(name, 0, 20000)
    if typ == 'flt':
        return ctx.flt(name)
    if typ == 'real':
        return ctx.real(name, -300, 300, 2)
    if typ == 'str':
        return ctx.string(name, 3, 3)
    if typ == 'bool':
        return ctx.bool(name)
    if typ == 'dt':
        return ctx.dtime(name, tz='utc')
    if typ == 'dtn':
        return ctx.dtime(name, tz='naive')
    if typ == 'dta':
        return ctx.dtime(name, tz='any')
    if typ == '0.0':
        return 0.0
    if typ == '-0.0':
        return -0.0
    return typ


def cached(pairs):
    """two files in one process, holding values of two kinds: the second as in a fresh process"""
    def fn(ctx):
        (k1, t1), (k2, t2) = ctx.choice('pair', pairs)
        v1, v2 = value(ctx, 'v1', t1), value(ctx, 'v2', t2)
        r0 = ctx.call(spec1, ctx, ctx.dw, k1, v1)
        if r0.exc is None:
            ctx.write(r0.value, 'a.dlis')
        a = ctx.call(spec1, ctx, ctx.dw, k2, v2)
        b = ctx.call(spec1, ctx, ctx.fresh(), k2, v2)
        ctx.require((a.exc is None) == (b.exc is None), 'construction depends on the history')
        if a.exc is not None:
            ctx.reached('rejected')
            return
        r = ctx.write(a.value, 'b.dlis')
        ctx.observe('file', r.data)
        same(ctx, r, ctx.write(b.value, 'c.dlis'), f'{k2}={t2} after {k1}={t1}')
    return fn


NUMK = ['param', 'coord', 'num', 'meas', 'uint']
NUMT = ['int', 'real', 'flt', 'bool']


def num_pairs(full):
    out = []
    for i, k1 in enumerate(NUMK):
        for j, k2 in enumerate(NUMK):
            for a, t1 in enumerate(NUMT):
                for b, t2 in enumerate(NUMT):
                    if full or (i + j + a + b) % 4 == 1 and t1 != t2:
                        out.append(((k1, t1), (k2, t2)))
    return out


TXT = ['text', 'ident', 'desc', 'unit', 'name', 'param', 'payload']
SPECIAL = [(('num', '0.0'), ('num', '-0.0')), (('num', '-0.0'), ('param', '0.0')), (('num', 'int'), ('dim', 'pos')),
           (('dim', 'pos'), ('num', 'real')), (('dim', 'pos'), ('dim', 'pos')), (('status', 1), ('status', True)),
           (('status', 1), ('dim', True)), (('dim', True), ('dim', 1)), (('num', True), ('num', 1)),
           (('num', 1), ('num', True)), (('param', 1), ('param', 1.0)), (('param', 1.0), ('param', 1)),
           (('param', '1'), ('param', 1)), (('coord', 1), ('coord', True)), (('coord', 1.0), ('coord', 1)),
           (('param', 2 ** 40), ('param', 1)), (('dim', -1), ('dim', 1))] + [
               ((k, a), (k, b)) for k in ('payload', 'several', 'text', 'name', 'unit', 'desc')
               for a, b in (('abc', 'ABC'), ('abc', 'abc '), ('a  b', 'a b'))] + [
               (('payload', b'abc'), ('payload', 'abc')), (('payload', 'abc'), ('payload', b'abc')),
               (('several', 'abc'), ('payload', b'ABC'))]
DTS = [(('zone', a), ('zone', b)) for a in ('dt', 'dtn', 'dta') for b in ('dt', 'dtn', 'dta')]
DTQ = [('dt', 'dt'), ('dtn', 'dt'), ('dt', 'dta')]


# ---- one file object through operations ---------------------------------------------------------------------------


class Model:
    """the current specification: enough to build it from nothing"""

    def __init__(self):
        self.zone, self.desc, self.val, self.unit = 'ZONE', 'first', 1.5, 'm'
        self.chname, self.units = 'I', 'm'
        self.oref = 3
        self.zref = None        # explicit origin reference of the zone
        self.data = 'a'
        self.idx = True
        self.fh = 'HEADER'
        self.frname = 'F'
        self.extra = 0
        self.dimv = None
        self.cast = self.ds0 = self.dset = None
        self.nch, self.second = 1, False

    def build(self, ctx, dw, arrays, inline=True):
        df = S.new_file(ctx, dw)
        lf = df.add_logical_file(fh_id=self.fh)
        x = {}
        x['o'] = lf.add_origin('O', file_set_number=1, creation_time=S.T0, origin_reference=self.oref)
        x['o2'] = lf.add_origin('O2', file_set_number=2, creation_time=S.T0, origin_reference=77)
        x['z'] = lf.add_zone(self.zone, description=self.desc,
                             **({} if self.zref is None else {'origin_reference': self.zref}))
        x['p'] = lf.add_parameter('P', zones=[x['z']], values=[self.val])
        x['e'] = lf.add_equipment('E', height={'value': self.val, 'units': self.unit})
        x['c'] = lf.add_channel(self.chname, units=self.units, cast_dtype=self.cast,
                                **({'dataset_name': self.ds0} if self.ds0 else {}),
                                **({'data': arrays[self.data]} if inline else {}))
        x['c2'] = lf.add_channel('SECOND', data=np.array([7, 8, 9], 'u1')) if self.second else None
        if self.dset:
            x['c'].dataset_name = self.dset
        if self.dimv is not None:
            x['c'].dimension.value = self.dimv
        x['f'] = lf.add_frame(self.frname, channels=[x['c'], x['c2']][:self.nch],
                              **({'index_type': 'BOREHOLE-DEPTH'} if self.idx else {}))
        x['n'] = lf.add_no_format('N')
        lf.add_no_format_frame_data(x['n'], b'payload')
        for i in range(self.extra):
            lf.add_zone('EXTRA', description='e%d' % i)
        x['lf'], x['df'] = lf, df
        return x


def op(ctx, m, x, name, arrays):
    """apply an operation both to the model and to the objects"""
    if name == 'rename':
        m.zone = ctx.string('zone', 2, 2)
        x['z'].name = m.zone
    elif name == 'rename back':
        m.zone = 'ZONE'
        x['z'].name = m.zone
    elif name == 'rename frame':
        m.frname = ctx.string('frname', 2, 2)
        x['f'].name = m.frname
    elif name == 'desc':
        m.desc = ctx.string('desc', 5, 5)
        x['z'].description.value = m.desc
    elif name == 'value':
        m.val = ctx.flt('val')
        x['p'].values.value = [m.val]
        x['e'].height.value = m.val
    elif name == 'int value':
        m.val = ctx.int('ival', -5, 5)
        x['p'].values.value = [m.val]
        x['e'].height.value = m.val
    elif name == 'units':
        m.unit, m.units = ctx.choice('unit', ['ft', 's']), 'ft'
        x['e'].height.units = m.unit
        x['c'].units.value = m.units
    elif name == 'zref':
        m.zref = 77
        x['z'].origin_reference = 77
    elif name == 'extra':
        m.extra += 1
        x['lf'].add_zone('EXTRA', description='e%d' % (m.extra - 1))
    elif name == 'index':
        m.idx = True
        x['f'].index_type.value = 'BOREHOLE-DEPTH'
    elif name == 'dimension':
        m.dimv = [1]
        x['c'].dimension.value = [1]
    elif name == 'cast':
        m.cast = np.float64
        x['c'].cast_dtype = np.float64
    elif name == 'cast off':
        m.cast = None
        x['c'].cast_dtype = None
    elif name == 'channel name':
        m.ds0 = m.ds0 or m.chname
        m.chname = x['c'].name = 'OTHER'
    elif name in ('dataset', 'more channels', 'fewer channels'):
        if not m.second:
            m.second = True
            x['c2'] = x['lf'].add_channel('SECOND', data=np.array([7, 8, 9], 'u1'))
        if name == 'dataset':
            m.dset = x['c'].dataset_name = 'SECOND'
        else:
            m.nch = 2 if name == 'more channels' else 1
            x['f'].channels.value = [x['c'], x['c2']][:m.nch]
    elif name == 'fail':
        ctx.write(x['df'], 'f.dlis', from_idx=1, to_idx=99)
    elif name == 'fail late':
        ctx.write(x['df'], 'f.dlis', data={m.chname: np.zeros((2, 2, 2))})
    elif name == 'write':
        ctx.write(x['df'], 'w.dlis')
    elif name == 'write window':
        ctx.write(x['df'], 'w.dlis', from_idx=1, input_chunk_size=1)
    elif name == 'write other data':
        ctx.write(x['df'], 'w.dlis', data={m.chname: arrays['b']})
    elif name == 'write 2d data':
        ctx.write(x['df'], 'w.dlis', data={m.chname: arrays['c']})
    elif name == 'look':
        str(x['z'])
        x['z'].obname
        x['lf'].frames, x['lf'].channels, x['lf'].origins, x['lf'].default_origin_reference
    elif name == 'mode':
        hc = ctx.dw.high_compatibility_mode
        with hc():
            ctx.call(lambda: ctx.write(x['df'], 'w.dlis'))
    elif name == 'mode raises':
        def g():
            with ctx.dw.high_compatibility_mode():
                x['lf'].add_zone('not allowed name')
        ctx.call(g)
    elif name == 'other file':
        y = Model()
        y.zone, y.oref, y.val = m.zone, 9, m.val
        y.desc = m.zone
        z = y.build(ctx, ctx.dw, arrays)
        ctx.write(z['df'], 'o.dlis')
    else:
        raise AssertionError(name)


def history(seqs, idx=True, inline=True):
    def fn(ctx):
        arrays = {'a': ctx.array('a', '<i2', (3,), kind='int', lo=-9, hi=9) if idx else ctx.array('a', '>f4', (3,), kind='real', lo=-9, hi=9, den=2),
                  'b': np.array([1.5, 2.5]), 'c': np.arange(6, dtype='u1').reshape(3, 2)}
        m = Model()
        m.idx = idx
        x = m.build(ctx, ctx.dw, arrays)
        for s in ctx.choice('seq', seqs):
            op(ctx, m, x, s, arrays)
        r = ctx.write(x['df'], 'final.dlis')
        ctx.observe('file', r.data)
        y = m.build(ctx, ctx.fresh(), arrays)
        same(ctx, r, ctx.write(y['df'], 'ref.dlis'), 'final write')
        again = ctx.write(x['df'], 'again.dlis')
        same(ctx, again, r, 'written again')
    return fn


CHANGES = ['rename', 'rename frame', 'desc', 'value', 'int value', 'units', 'zref', 'extra', 'dimension', 'cast', 'dataset',
           'channel name', 'more channels']
WRITES = ['write', 'write window', 'write other data', 'write 2d data', 'fail', 'fail late', 'look', 'mode',
          'mode raises', 'other file']


def seqs(full):
    out = [(w,) for w in WRITES] + [(w, c) for w in ('write', 'look') for c in CHANGES]
    out += [('write', 'rename', 'write', 'rename back'), ('write', 'zref', 'write', 'rename'),
            ('write', 'extra', 'write', 'extra'), ('other file', 'rename', 'other file'),
            ('write other data', 'fail', 'write 2d data'), ('mode raises', 'extra'), ('mode', 'units'),
            ('value', 'write', 'int value'), ('int value', 'write', 'value'), ('cast', 'write', 'cast off'),
            ('more channels', 'write', 'fewer channels')]
    if full:
        out += [(w, c, v) for w in WRITES for c in CHANGES for v in WRITES[:4]]
    return out


def order(ctx):
    """the order in which other files were built does not matter; interleaved construction of two files"""
    n1, n2 = ctx.string('n1', 2, 2), ctx.string('n2', 2, 2)
    dw = ctx.dw
    a, b = S.new_file(ctx, dw), S.new_file(ctx, dw)
    la, lb = a.add_logical_file(fh_id='A'), b.add_logical_file(fh_id='B')
    if ctx.bool('first'):
        lb.add_zone(n2, description='b')
    la.add_zone(n1, description='a')
    lb.add_origin('O', file_set_number=2, creation_time=S.T0, origin_reference=5)
    lb.add_zone(n1, description='b1')
    la.add_origin('O', file_set_number=1, creation_time=S.T0)
    la.add_zone(n2, description='a2')
    S.simple_frame(lb, 1)
    S.simple_frame(la, 1)
    if ctx.bool('write b'):
        ctx.write(b, 'b.dlis')
    r = ctx.write(a, 'a.dlis')
    ctx.observe('file', r.data)
    c = S.new_file(ctx, ctx.fresh())
    lc = c.add_logical_file(fh_id='A')
    lc.add_zone(n1, description='a')
    lc.add_origin('O', file_set_number=1, creation_time=S.T0)
    lc.add_zone(n2, description='a2')
    S.simple_frame(lc, 1)
    same(ctx, r, ctx.write(c, 'c.dlis'), 'first file')


def reuse_dict(ctx):
    """data dictionaries of earlier writes are not remembered"""
    a, b = ctx.array('a', '<f4', (2,)), ctx.array('b', '<f4', (2,))
    inl = ctx.bool('inline')

    def mk(dw):
        df = S.new_file(ctx, dw)
        lf, _ = S.add_lf(df)
        c1 = lf.add_channel('A', **({'data': a} if inl else {}))
        c2 = lf.add_channel('B')
        lf.add_frame('F', channels=[c1, c2])
        return df
    df = mk(ctx.dw)
    first = ctx.choice('first', [{'A': b, 'B': b}, {'B': a}, {'A': b}, {}, {'A': np.arange(3.), 'B': np.arange(3.)}])
    ctx.write(df, 'x.dlis', data=dict(first))
    second = ctx.choice('second', [{'B': b}, {'A': a, 'B': b}, {'A': b}, None])
    kw = {} if second is None else {'data': dict(second)}
    r = ctx.write(df, 'y.dlis', **kw)
    ctx.observe('file', r.data)
    same(ctx, r, ctx.write(mk(ctx.fresh()), 'z.dlis', **kw), 'second write')


def attr_types(ctx):
    """an attribute given values of other types one after another"""
    dw = ctx.dw
    seq = ctx.choice('seq', [(1, 1.5), (1.5, 1), (1, 'a'), ('a', 1.0), (S.T0, 1), (1, S.T0), ([1, 2], [1.5, 2]),
                             ([1], ['b']), (2 ** 35, 1), (None, 1), (0, False)])

    def mk(dw, vals, w):
        df = S.new_file(ctx, dw)
        lf, _ = S.add_lf(df)
        S.simple_frame(lf, 1)
        p = lf.add_parameter('P')
        z = lf.add_message('M')
        for i, v in enumerate(vals):
            s = ctx.call(setattr, p.values, 'value', v)
            t = ctx.call(setattr, z.time, 'value', v) if not isinstance(v, list) else None
            if w and i == 0:
                ctx.write(df, 'w.dlis')
        return df, s.exc is None and (t is None or t.exc is None)
    df, ok = mk(dw, seq, True)
    dg, ok2 = mk(ctx.fresh(), seq[1:], False)
    ctx.require(ok == ok2, 'assignment depends on the history')
    if not ok:
        return
    r = ctx.write(df, 'a.dlis')
    ctx.observe('file', r.data)
    same(ctx, r, ctx.write(dg, 'b.dlis'), 'after assigning another type')


def scenarios(tier):
    q = tier == 'quick'
    return ([] if q else [
        Scenario('numbers-all', cached(num_pairs(True)), 5),
        Scenario('times-all', cached(DTS), 3),
        Scenario('history-all', history(seqs(True)), 6),
        Scenario('history-all-number', history(seqs(True), idx=False), 4),
    ]) + [
        Scenario('numbers', cached(num_pairs(False)), 4),
        Scenario('special', cached(SPECIAL), 2),
        Scenario('texts', cached([((a, 'str'), (b, 'str')) for a in TXT for b in TXT]), 3),
        Scenario('times', cached([(('zone', a), ('zone', b)) for a, b in DTQ]), 2),
        Scenario('history', history(seqs(False)), 5),
        Scenario('history-number', history(seqs(False), idx=False), 3),
        Scenario('order', order, 1),
        Scenario('reuse-dict', reuse_dict, 2),
        Scenario('attr-types', attr_types, 1),
    ]

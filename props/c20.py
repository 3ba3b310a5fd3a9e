"""C20 A rejected call leaves no trace in later files."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import objs as O

REQ = ()
BOUNDS = ('every object type x every attribute x several kinds of invalid values (wrong type, outside an enumeration, invalid '
          'reference, bad units, unknown parts, bad names and origin references), rejected before, between or after valid calls '
          'in the same or another set with symbolic names which may coincide; channels, frames, origins and logical files '
          'rejected in 30 ways; assignments; 24 causes of failing writes (before or during the encoding) removed afterwards; '
          'compared with a freshly loaded instance of the library that never saw the rejected calls')
OUTSIDE = 'more than three rejected calls in one history; failures injected by the operating system'
ASSUMPTIONS = ['a second, independently loaded instance of the package stands for a fresh specification']


# ---- comparing two files ------------------------------------------------------------------------------------------


def same_value(ctx, a, b):
    if isinstance(a, R.ObName):
        return a.same(ctx, b)
    if isinstance(a, R.ObjRef):
        return ctx.and_(a.type == b.type, a.ob.same(ctx, b.ob))
    if isinstance(a, R.Dt):
        return a.raw == b.raw
    return a == b


def same_attr(ctx, a, b):
    c = ctx.and_(a.label == b.label, a.rc == b.rc, a.units == b.units)
    if a.values is None or b.values is None:
        return ctx.and_(c, a.values is None and b.values is None)
    if len(a.values) != len(b.values):
        return False
    return ctx.and_(c, *[same_value(ctx, x, y) for x, y in zip(a.values, b.values)])


def same_lf(ctx, A, B, what):
    """the same objects in the same sets with the same values; the same data records"""
    req = ctx.require
    sa, sb = A.sets, B.sets
    req(len(sa) == len(sb), f'{what}: {len(sa)} sets instead of {len(sb)}')
    for s in sb:
        m = [t for t in sa if t.type == s.type and (t.name or None) == (s.name or None)]
        req(len(m) == 1, f'{what}: {len(m)} sets {s.type}')
        t = m[0]
        req(len(t.objects) == len(s.objects), f'{what}: {s.type}: {len(t.objects)} objects instead of {len(s.objects)}')
        for x, y in zip(t.objects, s.objects):
            req(x.ob.same(ctx, y.ob), f'{what}: {s.type}: identity of an object')
            for p, q in zip(x.attrs, y.attrs):
                req(same_attr(ctx, p, q), f'{what}: {s.type}: {q.label}')
    ia, ib = A.iflrs(), B.iflrs()
    req(len(ia) == len(ib), f'{what}: number of data records')
    for x, y in zip(ia, ib):
        req(x.type == y.type and len(x.body) == len(y.body), f'{what}: data record')
        req(x.body == y.body, f'{what}: data record')


def same_file(ctx, r, ref, what):
    """r: file of the specification with rejected calls; ref: of a fresh one without"""
    ctx.require((r.exc is None) == (ref.exc is None), what + ': ' + (
        'written' if r.exc is None else f'refused with {ctx.exc_text(r.exc)}') + ' because of a rejected call')
    if ref.exc is not None:
        return ctx.reached('refused')
    ctx.reached('written')
    if len(r.data) == len(ref.data) and bool(r.data == ref.data):
        return
    x = R.read_all(ctx, r.data, REQ)[-1]
    y = R.read_all(ctx, ref.data, REQ)[-1]
    ctx.require(len(x) == len(y), what + ': number of logical files')
    for i, (a, b) in enumerate(zip(x, y)):
        same_lf(ctx, a, b, what)


class Rejected(Exception):
    pass


class H:
    """a history, executed with (real=True) or without its rejected calls"""

    def __init__(self, ctx, dw, real):
        self.ctx, self.dw, self.real = ctx, dw, real
        self.df = S.new_file(ctx, dw)

    def bad(self, f, *a, **k):
        """a call expected to raise; when it does not, the history is not this property's subject"""
        if self.real:
            r = self.ctx.call(f, *a, **k)
            self.ctx.assume(r.exc is not None)

    def setbad(self, o, name, v):
        self.bad(setattr, o, name, v)


def both(ctx, history, what, **kw):
    """run a history in the library with, in a fresh instance without the rejected calls; compare the files"""
    h = H(ctx, ctx.dw, True)
    history(h)
    r = ctx.write(h.df, 'a.dlis', **kw)
    g = H(ctx, ctx.fresh(), False)
    history(g)
    ref = ctx.write(g.df, 'b.dlis', **kw)
    if r.exc is None:
        ctx.observe('file', r.data)
    same_file(ctx, r, ref, what)
    return h, g


# ---- rejected objects of every type -------------------------------------------------------------------------------

BAD = {
    'text': [5, ['a', 3], ('a',)], 'ident': [5, 1.5], 'num': ['x', [1, 'y'], object], 'fd': ['x', 'nan?'], 'any': [object, [1, 'x']],
    'int': [1.5, 'x'], 'dim': ['x', [1, 'y'], 1.5], 'flag': ['maybe', 2], 'status': [2, 'maybe'], 'dt': ['yesterday', 5],
    'dtn': ['yesterday', object], 'uvari': ['x', object], 'unorm': ['x', object], 'unit': [5, 1.5], 'prop': ['nonsense', ['AVERAGED', 'x']],
    'lname': [5, 'zone'], 'objref': ['x', 5],
}
WHOLE = ['units', 'part', 'name', 'origin', 'later-attr']


def bad_value(kind, i):
    k = kind
    if kind.startswith('enum:') or kind.startswith('soft:'):
        k = 'enum'
    elif kind.startswith('ref:'):
        k = 'ref'
    vs = {'enum': ['nonsense', 5], 'ref': ['x', 'other', ['ok', 'x']]}.get(k) or BAD[k]
    return vs[i % len(vs)]


def good_kw(h, t, lf, i=0):
    """valid arguments a type needs"""
    if t == 'frame':
        return {'channels': [lf.add_channel(f'FC{i}', data=np.arange(2) + 0.5)]}
    if t == 'channel':
        return {'data': np.arange(2) + 0.5}
    if t == 'origin':
        return {'file_set_number': 7 + i, 'creation_time': S.T0}
    if t == 'splice':
        return {}
    return {}


def picks(full):
    out = []
    n = 0
    for t in O.TABLE:
        for a in O.TABLE[t][1]:
            vs = 3 if full else 1
            for i in range(vs):
                out.append((t, a.name, i + n))
            n += 1
        for w in WHOLE:
            out.append((t, None, w))
    return out


def objects(picks_, full):
    def fn(ctx):
        t, an, b = ctx.choice('pick', picks_)
        n = [ctx.string('n0', 1, 1), ctx.string('n1', 1, 1)] if t != 'channel' else ['A', ctx.choice('nc', ['A', 'B'])]
        P, Q = ['first', 'between', 'last', 'before-origin'], [None, 'S']
        z = len(t) + len(an or b)
        pos, sn = ctx.choice('pos', [(x, y) for x in P for y in Q] if full else [(P[z % 4], Q[z // 4 % 2]),
                                                                            (P[(z + 1) % 4], Q[1 - z // 4 % 2])])

        def rejected(h, lf):
            if not h.real:
                return
            dw = h.dw
            kw = {}
            nm = n[1]
            if t == 'frame':
                kw['channels'] = [lf.channels[0]]
            if t == 'origin':
                kw.update(file_set_number=9, creation_time=S.T0)
            if an is not None:
                a = O.attr(t, an)
                v = bad_value(a.kind, b)
                if v is object:
                    v = object()
                if v == 'zone' or v == 'other':
                    v = lf.zones_[0] if not (a.kind == 'ref:zone') else lf.axes_[0]
                if v == ['ok', 'x']:
                    v = ['x', 5]
                kw[a.kw] = v
            elif b == 'units':
                a = [x for x in O.TABLE[t][1]][-1]
                kw[a.kw] = {'units': 5}
            elif b == 'part':
                a = O.TABLE[t][1][-1]
                kw[a.kw] = {'nonsense': 5}
            elif b == 'name':
                nm = 5
            elif b == 'origin':
                kw['origin_reference'] = 'x'
            else:
                # a valid value for the first attribute, an invalid one for the last
                a0, a1 = O.TABLE[t][1][0], O.TABLE[t][1][-1]
                if a0.kind in ('text', 'ident'):
                    kw[a0.kw] = 'leak'
                kw[a1.kw] = {'value': None, 'units': 3.5}
            if t == 'channel':
                kw['data'] = np.arange(3) + 7.5
            h.bad(getattr(lf, 'add_' + t), nm, set_name=sn, **kw)

        def history(h):
            lf = h.df.add_logical_file()
            lf.zones_, lf.axes_ = [], []
            if pos == 'before-origin':
                lf.zones_.append(lf.add_zone('ZZ'))
                lf.axes_.append(lf.add_axis('AA'))
                S.simple_frame(lf, 2)
                rejected(h, lf)
                lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
            else:
                lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
                lf.zones_.append(lf.add_zone('ZZ'))
                lf.axes_.append(lf.add_axis('AA'))
                S.simple_frame(lf, 2)
            if pos == 'first':
                rejected(h, lf)
            add = getattr(lf, 'add_' + t)
            o1 = add(n[0], **good_kw(h, t, lf))
            if t == 'channel':
                lf.add_frame('F1', channels=[o1])
            if pos == 'between':
                rejected(h, lf)
            o2 = add(n[1], **good_kw(h, t, lf, 1), set_name=sn)
            if t == 'channel':
                lf.add_frame('F2', channels=[o2])
            if pos == 'last':
                rejected(h, lf)
            lf.add_group('G', object_list=[o1, o2])
            h.names = [getattr(o, 'dataset_name', None) for o in (o1, o2)]
        h, g = both(ctx, history, f'add_{t}')
        if t == 'channel':
            ctx.require(h.names == g.names, 'dataset names after a rejected add_channel')
    return fn


# ---- channels, frames, origins, logical files ---------------------------------------------------------------------


def channels(ctx):
    """rejected add_channel calls; dataset names, data and copy numbers of later ones"""
    how = ctx.choice('how', ['list', 'cast', 'cast2', 'dsname', 'dtype', 'unit', 'props', 'axis', 'lname', 'min', 'scalar', 'dim', 'dsname-type'])
    n1 = ctx.choice('n1', ['A', 'B'])
    pos = ctx.choice('pos', [0, 1, 2])
    sn = ctx.choice('set', [None, 'S'])
    data = ctx.choice('data', ['inline', 'dict'])
    a, b, c = ctx.array('a', '<f4', (2,)), ctx.array('b', '<f8', (2,)), ctx.array('c', '<f4', (3,))
    names = {}

    def bad(h, lf):
        kw = {'list': {'data': [1.5, 2.5]}, 'cast': {'cast_dtype': 'float32', 'data': c}, 'cast2': {'cast_dtype': int, 'data': c},
              'dsname': {'dataset_name': 'ZDS', 'data': c}, 'dtype': {'data': (1, 2)}, 'unit': {'units': 5, 'data': c},
              'props': {'properties': ['x'], 'data': c}, 'axis': {'axis': 5, 'data': c}, 'lname': {'long_name': 5, 'data': c},
              'min': {'minimum_value': 'x', 'data': c}, 'scalar': {'data': 5.5}, 'dim': {'dimension': 'x', 'data': c},
              'dsname-type': {'dataset_name': 'B', 'units': 3, 'data': c}}[how]
        h.bad(lf.add_channel, n1, set_name=sn, **kw)

    def history(h):
        lf = h.df.add_logical_file()
        lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
        k = (lambda x: {'data': x}) if data == 'inline' else (lambda x: {})
        z = lf.add_channel('Z', dataset_name='ZDS', **k(a))
        if pos == 0:
            bad(h, lf)
        x = lf.add_channel('A', **k(a))
        if pos == 1:
            bad(h, lf)
        y = lf.add_channel(n1, set_name=sn, **k(b))
        if pos == 2:
            bad(h, lf)
        w = lf.add_channel('A', **k(b))
        lf.add_frame('F', channels=[z, x, w])
        lf.add_frame('G', channels=[y])
        names[h.real] = [q.dataset_name for q in (z, x, y, w)]
    kw = {'data': {'ZDS': a, 'A': a, 'B': b, 'A__1': b, 'A__2': b}} if data == 'dict' else {}
    both(ctx, history, 'add_channel', **kw)
    ctx.require(names[True] == names[False], 'dataset names after a rejected add_channel')


def frames(ctx):
    """rejected add_frame calls; their channels used in other frames afterwards"""
    how = ctx.choice('how', ['empty', 'type', 'item', 'twice', 'index', 'encrypted', 'spacing', 'name', 'one', 'none', 'desc', 'same names'])
    pos = ctx.choice('pos', [0, 1, 2])
    sn = ctx.choice('set', [None, 'S'])
    a = ctx.array('a', '<f4', (2,), kind='real', lo=-100, hi=100, den=4)
    nm = ctx.string('nm', 1, 1)

    def bad(h, lf, cs):
        if not h.real:
            return
        kw = {'channels': [cs[1]]}
        if how == 'empty':
            kw = {'channels': []}
        elif how == 'type':
            kw = {'channels': {'a': cs[1]}}
        elif how == 'item':
            kw = {'channels': [cs[1], lf.origins[0]]}
        elif how == 'twice':
            kw = {'channels': [cs[1], cs[1]]}
        elif how == 'same names':
            kw = {'channels': [cs[0], cs[2]]}
        elif how == 'one':
            kw = {'channels': cs[1]}
        elif how == 'none':
            kw = {'channels': None}
        elif how == 'index':
            kw['index_type'] = 5
        elif how == 'encrypted':
            kw['encrypted'] = 'maybe'
        elif how == 'spacing':
            kw['spacing'] = 'x'
        elif how == 'desc':
            kw['description'] = 5
        h.bad(lf.add_frame, 5 if how == 'name' else nm, set_name=sn, **kw)

    def history(h):
        lf = h.df.add_logical_file()
        lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
        cs = [lf.add_channel(n, data=a) for n in ('A', 'B', 'A')]
        if pos == 0:
            bad(h, lf, cs)
        lf.add_frame('F', channels=[cs[0]])
        if pos == 1:
            bad(h, lf, cs)
        lf.add_frame('F', channels=[cs[1]], index_type='BOREHOLE-DEPTH', set_name=sn)
        if pos == 2:
            bad(h, lf, cs)
        lf.add_frame(nm, channels=[cs[2]])
    both(ctx, history, 'add_frame')


def origins(ctx):
    """rejected add_origin calls: references, the defining origin, origins of the objects"""
    how = ctx.choice('how', ['taken', 'number', 'time', 'name', 'ref', 'text', 'units'])
    pos = ctx.choice('pos', [0, 1, 2, 3])
    sn = ctx.choice('set', [None, 'S'])
    s2 = ctx.choice('set2', [None, 'S'])
    e = ctx.int('e', 0, 300)

    def bad(h, lf):
        kw = {'file_set_number': 9, 'creation_time': S.T0}
        if how == 'taken':
            if not lf.origins:
                kw['file_set_number'] = 'x'
            kw['origin_reference'] = e
        kw.update({'number': {'file_set_number': 'x'}, 'time': {'creation_time': 'x'}, 'ref': {'origin_reference': 'x'},
                   'text': {'well_name': 5}, 'units': {'file_number': {'value': 3, 'units': 5}}}.get(how, {}))
        h.bad(lf.add_origin, 5 if how == 'name' else 'O', set_name=sn, **kw)

    def history(h):
        lf = h.df.add_logical_file()
        lf.add_zone('Z')
        if pos == 0:
            bad(h, lf)
        lf.add_axis('X')
        o = lf.add_origin('O', file_set_number=7, creation_time=S.T0, **({'origin_reference': e} if how == 'taken' else {}))
        if pos == 1:
            bad(h, lf)
        lf.add_zone('Z')
        lf.add_origin('O', file_set_number=8, creation_time=S.T0, set_name=s2)
        if pos == 2:
            bad(h, lf)
        S.simple_frame(lf, 2)
        lf.add_origin('O', file_set_number=8, creation_time=S.T0, set_name=sn)
        if pos == 3:
            bad(h, lf)
        lf.add_comment('C', text=['x'])
    both(ctx, history, 'add_origin')


def logical_files(ctx):
    """rejected add_logical_file and calls rejected in one of two logical files"""
    how = ctx.choice('how', ['id', 'id2', 'seq', 'seq2', 'ident', 'zone', 'zone-set', 'origin', 'channel', 'frame', 'noformat', 'axis-moved'])
    pos = ctx.choice('pos', [0, 1, 2])
    hid = ctx.string('hid', 1, 3)
    big = ctx.int('big', -3, 0)

    def bad(h, ls):
        if not h.real:
            return
        add = h.df.add_logical_file
        if how == 'id':
            return h.bad(add, fh_id=5)
        if how == 'id2':
            return h.bad(add, fh_id=hid * 66)
        if how == 'seq':
            return h.bad(add, fh_sequence_number=big)
        if how == 'seq2':
            return h.bad(add, fh_sequence_number='1')
        if how == 'ident':
            return h.bad(add, fh_identifier='12')
        lf = ls[-1]
        # in the set the other logical file uses
        o = None if len(ls) == 2 else 'S'
        if how == 'zone':
            h.bad(lf.add_zone, 'Z', domain='nonsense', set_name=o)
        elif how == 'zone-set':
            h.bad(lf.add_zone, 'Z', domain='nonsense', set_name='T')
        elif how == 'origin':
            h.bad(lf.add_origin, 'O', file_set_number='x', set_name=o)
        elif how == 'channel':
            h.bad(lf.add_channel, 'FR-C1', data=np.arange(2) + 0.5, units=5, set_name=o)
        elif how == 'frame':
            h.bad(lf.add_frame, 'FR', channels=[], set_name=o)
        elif how == 'noformat':
            h.bad(lf.add_no_format, 'N', description=5, set_name=o)
        elif how == 'axis-moved':
            h.bad(lf.add_axis, 'A', spacing='x', set_name='Q')

    def history(h):
        ls = []
        for i in range(2):
            sn = None if i == 0 else 'S'
            lf = h.df.add_logical_file(fh_id=hid)
            ls.append(lf)
            if pos == 2 * i and i == 0 or pos == 1 and i == 1:
                bad(h, ls)
            lf.add_origin('O', file_set_number=7, creation_time=S.T0, set_name=sn)
            lf.add_zone('Z', set_name=sn)
            lf.add_no_format('N', set_name=sn)
            S.simple_frame(lf, 2, set_name=sn)
        if pos == 2:
            bad(h, ls)
        ls[0].add_axis('A', set_name='Q')
        ls[0].add_zone('Z', set_name='T')
    both(ctx, history, 'add in a logical file')


# ---- assignments --------------------------------------------------------------------------------------------------


def assign_picks(full):
    out = []
    n = 0
    for t in O.TABLE:
        for a in O.TABLE[t][1]:
            out += [(t, a.name, i) for i in ([n, n + 1, n + 2] if full else [n])]
            if a.units and (full or n % 3 == 0):
                out.append((t, a.name, 'units'))
            n += 1
        out += [(t, None, x) for x in ('origin', 'overwrite')]
    return out


def assignments(picks_):
    def fn(ctx):
        t, an, b = ctx.choice('pick', picks_)
        had = ctx.bool('had')        # a valid value is there before

        def history(h):
            lf = h.df.add_logical_file()
            og = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=5)
            w = O.World.__new__(O.World)
            w.ctx, w.dw, w.df, w.lf, w.o, w.made, w.n = ctx, h.dw, h.df, lf, og, {}, 0
            w.chdata = np.arange(2) + 0.5
            kw = good_kw(h, t, lf)
            if an is not None and had:
                a = O.attr(t, an)
                if not (t == 'frame' and an == 'channels') and a.kind != 'dim' and not (
                        t == 'group' and an == 'object_type') and not (t in ('splice', 'computation') and an in (
                            'zones', 'input_channels')) and not (an == 'axis') and not (t == 'parameter' and an == 'zones'):
                    v, x = O.value(ctx, w, a, False, 'two', False)
                    kw[a.kw] = v
            o = getattr(lf, 'add_' + t)('OBJ', **kw)
            if t == 'channel':
                lf.add_frame('F1', channels=[o])
            S.simple_frame(lf, 2)
            if not h.real:
                return
            if an is None:
                if b == 'origin':
                    h.setbad(o, 'origin_reference', 'x')
                else:
                    h.setbad(o, O.TABLE[t][1][0].name, 'x')
            elif b == 'units':
                h.setbad(getattr(o, an), 'units', 5)
            else:
                v = bad_value(O.attr(t, an).kind, b)
                if v is object:
                    v = object()
                if v in ('zone', 'other'):
                    v = og
                h.setbad(getattr(o, an), 'value', v)
        both(ctx, history, f'{t} assignment')
    return fn


# ---- writes that fail ---------------------------------------------------------------------------------------------

CAUSES = ['no origin', 'no frame', 'no channels', 'missing data', 'rows', 'dtype', 'dims', 'file id', 'foreign', 'origin ref',
          'directory', 'payload', 'text', 'name', 'units', 'dimension', 'coordinates', 'chunk', 'from', 'data type', 'non ascii desc',
          'splice', 'vrl', 'twice', 'late frame', 'hc']


def writes(causes):
    def fn(ctx):
        cause = ctx.choice('cause', causes)
        again = ctx.choice('again', [1, 2])
        idx = ctx.bool('index')
        a = np.array([2.5, 1.5, 0.5], '<f4') if idx and again == 1 else \
            ctx.array('a', '<f4', (3,), kind='real', lo=0, hi=100, den=4)
        if idx and again == 2:
            ctx.assume(ctx.and_(ctx.cell(a, 0) < ctx.cell(a, 1), ctx.cell(a, 1) < ctx.cell(a, 2)))
        b = ctx.array('b', '>u2', (3, 2))
        txt = ctx.string('txt', 2, 2)

        def history(h):
            real = h.real
            df = h.df
            lf = df.add_logical_file(fh_id='HH')
            inline = cause not in ('missing data', 'rows', 'dtype', 'dims', 'data type')
            if cause != 'no origin':
                o = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
            z = lf.add_zone('Z', description=txt)
            if cause not in ('no channels',):
                c1 = lf.add_channel('A', **({'data': a} if inline else {}))
                c2 = lf.add_channel('B', **({'data': b} if inline else {}))
            if cause not in ('no frame', 'no channels'):
                f = lf.add_frame('F', channels=[c1, c2], index_type='BOREHOLE-DEPTH' if idx else None)
            good = {} if inline else {'data': {'A': a, 'B': b}}
            fail = dict(good)
            fix = None
            n = lf.add_no_format('N')
            lf.add_parameter('P', values=[1.5, 2.5], zones=[z, lf.add_zone('Z')])
            name = 'f.dlis'
            if cause == 'missing data':
                fail = {'data': {'A': a}}
            elif cause == 'rows':
                fail = {'data': {'A': a, 'B': b[:2]}}
            elif cause == 'dtype':
                fail = {'data': {'A': a, 'B': np.zeros((3, 2), dtype=np.complex128)}}
            elif cause == 'dims':
                fail = {'data': {'A': a, 'B': np.zeros((3, 2, 2, 2), dtype=object)}}
            elif cause == 'data type':
                fail = {'data': [1, 2, 3]}
            elif cause == 'file id' and real:
                o.file_id.value = 'other'
                fix = lambda: setattr(o.file_id, 'value', 'HH')
            elif cause == 'foreign' and real:
                p = lf.add_parameter('Q', values=[1.5])
                df2 = S.new_file(ctx, h.dw)
                l2, o2 = S.add_lf(df2)
                old = z
                p.zones.value = [l2.add_zone('Z')]
                fix = lambda: setattr(p.zones, 'value', [old])
            elif cause == 'foreign':
                lf.add_parameter('Q', values=[1.5], zones=[z])
            elif cause == 'origin ref' and real:
                z.origin_reference = 77
                fix = lambda: setattr(z, 'origin_reference', o.origin_reference)
            elif cause == 'directory':
                name = 'nowhere/f.dlis'
            elif cause == 'payload':
                d = lf.add_no_format_frame_data(n, 'caf\xe9' if real else 'cafe')
                fix = lambda: setattr(d, 'data', 'cafe')
            elif cause == 'text':
                cm = lf.add_comment('C', text=['ab'])
                if real:
                    cm.text.value = ['caf\xe9']
                fix = lambda: setattr(cm.text, 'value', ['ab'])
            elif cause == 'non ascii desc':
                if real:
                    z.description.value = 'caf\xe9'
                fix = lambda: setattr(z.description, 'value', txt)
            elif cause == 'name':
                if real:
                    z.name = 'N' * 300
                fix = lambda: setattr(z, 'name', 'Z')
            elif cause == 'units':
                e = lf.add_equipment('E', height=2.5)
                if real:
                    e.height.units = 'u' * 300
                fix = lambda: setattr(e.height, 'units', None)
            elif cause == 'dimension':
                if real:
                    c2.dimension.value = [5]
                fix = lambda: setattr(c2.dimension, 'value', [2])
                if not real:
                    c2.dimension.value = [2]
            elif cause == 'coordinates':
                ax = lf.add_axis('X', coordinates=[1.5, 2.5, 3.5] if real else [1.5, 2.5])
                c2.axis.value = [ax]
                fix = lambda: setattr(ax.coordinates, 'value', [1.5, 2.5])
            elif cause == 'chunk':
                fail = {'output_chunk_size': 1}
            elif cause == 'from':
                fail = {'from_idx': 10}
            elif cause == 'splice':
                sp = lf.add_splice('S', input_channels=[c1, c2], zones=[z] if real else [z, z])
                fix = lambda: setattr(sp.zones, 'value', [z, z])
            elif cause == 'vrl':
                if real:
                    df.storage_unit_label.max_record_length = 12
                fix = lambda: setattr(df.storage_unit_label, 'max_record_length', 8192)
            elif cause == 'twice' and real:
                y = lf.add_zone('Y')
                y.name = 'Z'
                fix = lambda: setattr(y, 'name', 'Y')
            elif cause == 'twice':
                lf.add_zone('Y')
            elif cause == 'no origin':
                fix = lambda: lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
            elif cause == 'no frame':
                fix = lambda: lf.add_frame('F', channels=[c1, c2])
            elif cause == 'no channels':
                fix = lambda: lf.add_frame('F', channels=[lf.add_channel('A', data=a)])
            elif cause == 'late frame':
                # the second frame's data are missing: the first one has been set up already
                c3 = lf.add_channel('C')
                lf.add_frame('G', channels=[c3])
                good = {'data': {'C': a}}
                fail = {}
            if real:
                if cause == 'hc':
                    z.name = 'z z'
                    with h.dw.high_compatibility_mode():
                        c4 = ctx.call(lf.add_zone, 'bad name')
                        ctx.assume(c4.exc is not None)
                        r = ctx.write(df, name)
                else:
                    for i in range(again):
                        r = ctx.write(df, name, **fail)
                        ctx.assume(r.exc is not None)
            elif cause == 'hc':
                z.name = 'z z'
            if fix is not None and (real or cause in ('no origin', 'no frame', 'no channels')):
                fix()
            h.kw = good
        h = H(ctx, ctx.dw, True)
        history(h)
        r = ctx.write(h.df, 'f.dlis', **h.kw)
        g = H(ctx, ctx.fresh(), False)
        history(g)
        ref = ctx.write(g.df, 'b.dlis', **g.kw)
        ctx.require(ref.exc is None, 'reference refused')
        ctx.observe('file', r.data)
        same_file(ctx, r, ref, f'after a write that failed ({cause})')
        ctx.reached(cause)
    return fn


def mixed(ctx):
    """several rejected calls, failing and successful writes in one history"""
    seq = ctx.choice('seq', [('zone', 'write', 'origin'), ('channel', 'frame', 'zone'), ('write', 'channel', 'write'),
                             ('origin', 'origin', 'zone'), ('frame', 'write', 'frame'), ('ok', 'zone', 'channel'),
                             ('channel', 'ok', 'write')])
    n = ctx.string('n', 1, 1)
    a = ctx.array('a', '<f4', (2,))
    sn = ctx.choice('set', [None, 'S'])

    def do(h, lf, what):
        if not h.real:
            return
        if what == 'zone':
            h.bad(lf.add_zone, n, domain='x', set_name=sn)
        elif what == 'origin':
            h.bad(lf.add_origin, n, creation_time='x', set_name=sn)
        elif what == 'channel':
            h.bad(lf.add_channel, 'A', data=a, units=5, set_name=sn)
        elif what == 'frame':
            h.bad(lf.add_frame, n, channels=[], set_name=sn)
        elif what == 'write':
            h.bad(lambda: raise_(ctx.write(h.df, 'no/x.dlis')))
        elif what == 'ok':
            ctx.write(h.df, 'y.dlis')

    def history(h):
        lf = h.df.add_logical_file()
        do(h, lf, seq[0])
        lf.add_origin('O', file_set_number=7, creation_time=S.T0)
        c = lf.add_channel('A', data=a)
        do(h, lf, seq[1])
        lf.add_frame('F', channels=[c])
        lf.add_zone('Z', set_name=sn)
        do(h, lf, seq[2])
        lf.add_zone('Z')
        d = lf.add_channel('A', data=a)
        lf.add_frame('F', channels=[d], set_name=sn)
    both(ctx, history, 'mixed history')


def raise_(r):
    if r.exc is not None:
        raise Rejected()
    return r


def scenarios(tier):
    q = tier == 'quick'
    P, A = picks(not q), assign_picks(not q)
    k = 4
    return [Scenario(f'objects-{i}', objects(P[i::k], not q), 6) for i in range(k)] + [
        Scenario(f'assign-{i}', assignments(A[i::2]), 4) for i in range(2)] + [
        Scenario('channels', channels, 4), Scenario('frames', frames, 3), Scenario('origins', origins, 3),
        Scenario('logical-files', logical_files, 3), Scenario('mixed', mixed, 2),
        Scenario('writes-0', writes(CAUSES[::2]), 3), Scenario('writes-1', writes(CAUSES[1::2]), 3)]

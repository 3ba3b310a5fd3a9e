"""C04 Every explicitly formatted record decodes under the component grammar."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import objs as O

REQ = ('eflr',)
BOUNDS = ('all 22 object types: no attribute, one, all but one, all assigned (in the quick tier: rotating); multiplicities '
          'unset, scalar, empty lists and nests, 1, 2, 127-129, thorough 16383/16384 values, nested lists, tuples; units or '
          'none, also without a value; named and unnamed sets; one to three objects with other attributes assigned each; '
          'symbolic text content and lengths, symbolic numbers')
OUTSIDE = 'arbitrary subsets of attributes other than those named; more than three objects with different subsets'
MULTS = {'1': lambda v: [v], '2': lambda v: [v, v], '127': lambda v: [v] * 127, '128': lambda v: [v] * 128,
         '129': lambda v: [v] * 129, '16383': lambda v: [v] * 16383, '16384': lambda v: [v] * 16384,
         'scalar': lambda v: v, 'tuple': lambda v: (v, v), 'empty': lambda v: [], 'empty tuple': lambda v: (),
         'nested': lambda v: [[v, v], [v, v]], 'nested empty': lambda v: [[]], 'nested empties': lambda v: [[], []],
         'ragged': lambda v: [[v], [v, v]], 'mixed': lambda v: [v, [v]], 'deep': lambda v: [[[v, v], [v, v]], [[v, v], [v, v]]],
         'nested tuple': lambda v: ((v,), (v,))}
PLAIN = ['1', '2', 'scalar', 'tuple']


def decode(ctx, r, w, objs, strict=True):
    """strict parsing of the whole file, and the inventory of the objects in question"""
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    ctx.require(len(lfs) == 1, 'number of logical files')
    for s in lfs[0].sets:
        ctx.require(len(s.objects) > 0, f'set {s.type} without objects')
        for o in s.objects:
            ctx.require(len(o.attrs) <= len(s.template), 'more attributes than in the template')
    for t, o, sn, exp in objs:
        st = O.TABLE[t][0]
        ss = [s for s in lfs[0].sets if s.type == st and (s.name == sn if sn is not None else s.name is None)]
        ctx.require(len(ss) == 1, f'{len(ss)} sets of type {st} and this name')
        m = [x for x in ss[0].objects if bool(x.ob.same(ctx, O.ident_of(o)))]
        ctx.require(len(m) == 1, f'{len(m)} object components for a defined {t}')
        for lb, n in exp.items():
            a = m[0].get(lb)
            ctx.require(a is not None, f'{t}: {lb} is not in the template')
            if n is None:
                ctx.require(a.values is None, f'{t} {lb}: value though there is none')
            else:
                ctx.require((0 if a.values is None else len(a.values)) == n, f'{t} {lb}: number of values')
    want = {}
    for t, o, sn, exp in objs:
        want[(t, sn)] = want.get((t, sn), 0) + 1
    ctx.reached('decoded')
    return lfs[0]


def size(v):
    if isinstance(v, (list, tuple)):
        return sum(size(x) for x in v)
    return 1


def attrs_of(ctx, w, t, which, mult, wide, tag=''):
    """assignments of the attributes `which` (indices): -> kw, later, {label: number of values}"""
    kw, later, exp = {}, [], {}
    at = O.TABLE[t][1]
    for i, a in enumerate(at):
        if t == 'frame' and a.name == 'channels':
            continue
        if i not in which:
            if a.label not in O.DEFAULTS.get(t, ()):
                exp[a.label] = None
            continue
        if t == 'channel' and a.name in ('dimension', 'element_limit'):
            v = [1]
        else:
            v, _ = O.leaf(ctx, w, a, 0, wide == a.name and a.kind in ('text', 'ident', 'num', 'any', 'uvari'))
            if a.mult:
                v = MULTS[mult](v)
        if a.mult and size(v) == 0:
            exp[a.label] = 0
        elif v is not None:
            exp[a.label] = size(v)
        if t == 'group' and a.name == 'object_type':
            later.append((a.name, 'value', v))
        elif i % 3 == 0 and a.units:
            kw[a.kw] = {'value': v, 'units': 'm'}
        else:
            kw[a.kw] = v
    return kw, later, exp


def make(ctx, w, t, name, kw, later, sn, i=0):
    kw = dict(kw)
    if sn is not None:
        kw['set_name'] = sn
    if t == 'frame':
        kw['channels'] = [w.lf.add_channel(f'FC{i}', data=np.arange(2) + 0.5)]
    if t == 'channel':
        o = w.lf.add_channel(name, data=np.arange(2, dtype=np.int16), dataset_name=f'data{i}', **kw)
        w.lf.add_frame(f'CHF{i}', channels=[o])
    else:
        o = ctx.must(getattr(w.lf, 'add_' + t), name, **kw)
    for an, part, v in later:
        setattr(getattr(o, an), part, v)
    return o


def consistent(t, which):
    """drop what only other attributes make admissible"""
    n = [a.name for a in O.TABLE[t][1]]
    which = set(which)

    def drop(x):
        which.discard(n.index(x))
    if t in ('parameter', 'computation', 'calibration_measurement') and n.index('dimension') in which and len(which) > 1:
        drop('dimension')
    if t == 'origin':
        which |= {n.index('file_set_number'), n.index('creation_time')}
    if t == 'zone' and n.index('domain') in which and len(which & {n.index('maximum'), n.index('minimum')}):
        drop('domain')
    if t == 'channel' and n.index('axis') in which:
        pass
    return which


def subset(k, i, t):
    n = len(O.TABLE[t][1])
    return consistent(t, {'none': (), 'all': range(n), 'only': (i,), 'but': [j for j in range(n) if j != i]}[k])


def one(t, pats, mults, wide=True):
    """one object"""
    def fn(ctx):
        k, i = ctx.choice('pattern', pats)
        which = subset(k, i, t)
        w = O.World(ctx)
        mult = ctx.choice('mult', mults) if any(O.TABLE[t][1][j].mult for j in which) else '1'
        if t == 'channel' and mult in ('2', 'tuple'):
            mult = '1'
        sn = ctx.choice('set', [None, 'SET'])
        kw, later, exp = attrs_of(ctx, w, t, which, mult, O.TABLE[t][1][i].name if wide else None)
        o = make(ctx, w, t, 'OBJ', kw, later, sn)
        w.finish()
        r = ctx.write(w.df)
        if r.exc is not None:
            ctx.reached('rejected')
            return
        ctx.observe('file', r.data)
        decode(ctx, r, w, [(t, o, None if sn is None else sn.encode(), exp)])
    return fn


def several(t):
    """objects with other attributes assigned, in one set or two"""
    def fn(ctx):
        n = len(O.TABLE[t][1])
        ev, od = list(range(0, n, 2)), list(range(1, n, 2))
        pats = ctx.choice('pats', [((), range(n)), (range(n), ()), (ev, od, range(n)), (od, (), ev), ((), ())])
        w = O.World(ctx)
        sn = ctx.choice('sets', [(None, None, None), ('A', 'A', 'A'), ('A', None, 'B'), (None, '', None)])
        nm = ctx.choice('names', [('X', 'X', 'X'), ('X', 'Y', 'ZZ')])
        s = ctx.string('s', 0, 4)
        os = []
        for i, p in enumerate(pats):
            which = consistent(t, p)
            kw, later, exp = attrs_of(ctx, w, t, which, '1', None)
            for a in O.TABLE[t][1]:
                if a.kind == 'text' and not a.mult and a.kw in kw:
                    kw[a.kw] = s
                    break
            o = make(ctx, w, t, nm[i], kw, later, sn[i], i)
            os.append((t, o, sn[i].encode() if sn[i] else None, exp))
        w.finish()
        r = ctx.write(w.df)
        if r.exc is not None:
            ctx.reached('rejected')
            return
        ctx.observe('file', r.data)
        decode(ctx, r, w, os)
    return fn


def mults(ts, ms):
    """every multivalued attribute alone, with every multiplicity"""
    def fn(ctx):
        t, i = ctx.choice('attr', [(t, i) for t in ts for i, a in enumerate(O.TABLE[t][1]) if a.mult])
        a = O.TABLE[t][1][i]
        m = ctx.choice('mult', ms)
        w = O.World(ctx)
        route = ctx.choice('route', ['kw', 'later', 'units'])
        v, _ = O.leaf(ctx, w, a, 0, a.kind in ('text', 'num'))
        if t == 'frame':
            o = w.lf.add_frame('OBJ', channels=[w.lf.add_channel('C', data=np.arange(2.))])
        elif t == 'channel':
            o = w.lf.add_channel('OBJ', data=np.arange(2.))
            w.lf.add_frame('F', channels=[o])
        else:
            o = None
        v = MULTS[m](v)
        fixed = {'file_set_number': 3, 'creation_time': S.T0} if t == 'origin' else {}
        if route == 'kw':
            o = ctx.must(setattr, getattr(o, a.name), 'value', v) if o is not None else \
                ctx.must(getattr(w.lf, 'add_' + t), 'OBJ', **{a.kw: v}, **fixed)
            o = o or [x for x in w.lf.frames + w.lf.channels if x.name == 'OBJ'][0]
        else:
            o = o or ctx.must(getattr(w.lf, 'add_' + t), 'OBJ', **fixed)
            ctx.must(setattr, getattr(o, a.name), 'value', v)
            if route == 'units':
                ctx.must(setattr, getattr(o, a.name), 'units', 'm')
        w.finish()
        r = ctx.write(w.df)
        if r.exc is not None:
            ctx.reached('rejected')
            return
        ctx.observe('file', r.data)
        decode(ctx, r, w, [(t, o, None, {} if size(v) == 0 and a.label in O.DEFAULTS.get(t, ()) else {a.label: size(v)})])
    return fn


def units_only(ctx):
    """units on attributes without a value; unusual units"""
    t, i = ctx.choice('attr', [(t, i) for t in O.TABLE for i, a in enumerate(O.TABLE[t][1]) if a.units])
    a = O.TABLE[t][1][i]
    w = O.World(ctx)
    u = ctx.choice('u', ['m', '', 'x' * 255, 'x' * 256])
    kw = {}
    if t == 'frame':
        kw['channels'] = [w.lf.add_channel('C', data=np.arange(2.))]
    if t == 'channel':
        o = w.lf.add_channel('OBJ', data=np.arange(2.))
        w.lf.add_frame('F', channels=[o])
    elif t == 'origin':
        o = w.lf.add_origin('OBJ', file_set_number=3, creation_time=S.T0)
    else:
        o = getattr(w.lf, 'add_' + t)('OBJ', **kw)
    getattr(o, a.name).units = u
    w.finish()
    r = ctx.write(w.df)
    if r.exc is not None:
        ctx.reached('rejected')
        return
    ctx.observe('file', r.data)
    lab = a.label in O.DEFAULTS.get(t, ()) or t == 'origin'
    decode(ctx, r, w, [(t, o, None, {} if lab else {a.label: None})])


def names(ctx):
    """lengths of the names of objects and sets"""
    w = O.World(ctx)
    lo, hi = ctx.choice('n', [(1, 40), (120, 140), (250, 260)])
    which = ctx.choice('which', ['name', 'set', 'type'])
    s = ctx.string('s', lo, hi)
    if which == 'name':
        r0 = ctx.call(w.lf.add_zone, s, description='d')
    elif which == 'set':
        r0 = ctx.call(w.lf.add_zone, 'Z', description='d', set_name=s)
    else:
        r0 = ctx.call(w.lf.add_axis, 'A', axis_id=s)
    if r0.exc is not None:
        return
    w.finish()
    r = ctx.write(w.df)
    if r.exc is not None:
        ctx.reached('rejected')
        return
    ctx.observe('file', r.data)
    decode(ctx, r, w, [('axis' if which == 'type' else 'zone', r0.value,
                        s.encode('ascii') if which == 'set' else None, {})])


def spoiled(ctx):
    """attributes changed between writes, values withdrawn, wrong combinations of values and codes"""
    w = O.World(ctx)
    k = ctx.choice('k', ['none after value', 'empty after value', 'bools', 'mixed numbers', 'dt and text', 'text and number',
                         'np ints', 'big ints', 'nested none', 'none in list', 'empty text', 'tuple in list'])
    p = w.lf.add_axis('OBJ', coordinates=[1.0, 2.0], spacing=1)
    e = w.lf.add_equipment('E', height=1, trademark_name='t')
    f = ctx.flt('f')
    sets = {'none after value': [(e.height, None), (p.spacing, None)], 'empty after value': [(p.coordinates, [])],
            'bools': [(p.coordinates, [True, False])], 'mixed numbers': [(p.coordinates, [1, f])],
            'dt and text': [(p.coordinates, [S.T0, 'a'])], 'text and number': [(p.coordinates, ['a', 1])],
            'np ints': [(p.coordinates, [np.float32(1), np.float64(2)])], 'big ints': [(p.coordinates, [2 ** 40, 1])],
            'nested none': [(p.coordinates, [[None]])], 'none in list': [(p.coordinates, [None, f])],
            'empty text': [(e.trademark_name, ''), (p.axis_id, ''), (p.coordinates, ['', ''])],
            'tuple in list': [(p.coordinates, [(1, 2), (3, 4)])]}[k]
    if ctx.bool('write first'):
        w.finish()
        ctx.write(w.df, 'first.dlis')
    for a, v in sets:
        ctx.call(setattr, a, 'value', v)
    w.finish()
    r = ctx.write(w.df)
    if r.exc is not None:
        ctx.reached('rejected')
        return
    ctx.observe('file', r.data)
    decode(ctx, r, w, [('axis', p, None, {}), ('equipment', e, None, {})])


def pats(t, full):
    n = len(O.TABLE[t][1])
    out = [('none', 0), ('all', 0)]
    for i in range(n):
        out += [('only', i), ('but', i)] if full else [(('only', 'but')[i % 2], i)]
        if full or i % 4 == 0:
            out.append(('all', i))
    return out


def scenarios(tier):
    q = tier == 'quick'
    out = []
    T = list(O.TABLE)
    for t in T:
        out.append(Scenario(t, one(t, pats(t, not q), PLAIN if not q else ['1', '2']), len(O.TABLE[t][1])))
    nq = ['1', '2', 'scalar', '128', 'empty', 'nested', 'nested empty', 'mixed', 'deep', 'ragged']
    for k in range(3):
        out.append(Scenario(f'mult-{k}', mults(T[k::3], nq if q else [m for m in MULTS if m[:2] != '16']), 8))
    out += [Scenario(f'several-{t}', several(t), 2) for t in (T[::5] if q else T)]
    out += [Scenario('units-only', units_only, 3), Scenario('names', names, 2), Scenario('spoiled', spoiled, 2)]
    if not q:
        out.append(Scenario('huge', mults(['comment', 'calibration_coefficient', 'process', 'long_name'],
                                          ['16383', '16384']), 3))
    return out

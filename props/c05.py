"""C05 Metadata values and units decode to what the user assigned."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import objs as O

REQ = ()
BOUNDS = ('all 21 object types (the file header: C09), every attribute in turn with symbolic content (text up to 12, '
          'thorough 300, one scenario to 20000 characters; every 64-bit pattern for floats; integers over the whole range '
          'of the code; date-times at any microsecond of a day in any UTC offset; references among same-named objects; '
          'enumeration members), the others assigned or not; scalar, one, two, 130 values, tuples, nested lists; units as '
          'strings, members, free strings or none; assigned by keyword, dict, AttrSetup, later; every pair of attributes of every '
          'type set together, every attribute left out alone, none set; nested values up to three levels deep; '
          'every attribute changed to another value and other, no or the same units, before or after a first write')
OUTSIDE = ('combinations of three and more attributes other than the complete set; date-times: the day is one of few (the calendar part: C06); '
           'units without a value; texts that look like numbers in attributes of any type')
ROUTES = ['kw', 'dict', 'setup', 'later']


def assign(ctx, dw, kw, later, a, v, u, route):
    """give a value (and units) by a route"""
    if route == 'kw' and u is not None:
        later.append((a.name, 'units', u))
    if route == 'kw':
        kw[a.kw] = v
    elif route == 'dict':
        kw[a.kw] = {'value': v} if u is None else {'units': u, 'value': v}
    elif route == 'setup':
        kw[a.kw] = dw.AttrSetup(v) if u is None else dw.AttrSetup(value=v, units=u)
    else:
        later.append((a.name, 'value', v))
        if u is not None:
            later.append((a.name, 'units', u))


def shape(v):
    """the lengths of nested lists"""
    out = []
    while isinstance(v, (list, tuple, np.ndarray)):
        out.append(len(v))
        v = v[0] if len(v) else None
    return out


def specify(ctx, w, t, wide, route, pattern, mult, full, un):
    """assignments for an object of type t: -> kw, later, {label: (X list, units)}"""
    dw = w.dw
    attrs = O.TABLE[t][1]
    kw, later, exp = {}, [], {}
    g = O.GROUPS.get(t, ())
    for i, a in enumerate(attrs):
        me = a.name == wide
        if pattern == 'only' and not me:
            if not (a.name in g and wide in g and t in ('computation', 'parameter') and wide == 'values'):
                if not (t == 'frame' and a.name == 'channels') and not (t == 'origin' and a.name in (
                        'file_set_number', 'creation_time')):
                    continue
        if not me:
            # keep the specification consistent
            if a.name == 'dimension' and t != 'channel' or a.name == 'values' and wide in ('dimension', 'zones'):
                continue
            if a.name in ('axis', 'zones') and wide in ('dimension',):
                continue
            if a.name == 'index_type' and t == 'frame' and wide in ('index_min', 'index_max'):
                pass
            if t == 'calibration_measurement' and wide == 'dimension' and a.name in g:
                continue
        m = mult if me or (a.name in g and wide in g) else 'list'
        if not me and m == 'nested2':
            m = 'nested2' if a.mult == 2 else 'two'
        if not me and m in ('nested', 'deep'):
            m = m if a.mult == 2 else 'two'
        if t == 'frame' and a.name == 'channels':
            continue
        if t == 'channel' and a.name in ('dimension', 'element_limit'):
            v, x = [3], [O.X('int', 3)]
            if me:
                v = ctx.choice('dimv', [3, [3], (3,)] + ([[4], 2 ** 14] if a.name == 'element_limit' else []))
                x = [O.X('int', v if isinstance(v, int) else v[0])]      # the limit may exceed the dimension
        elif t == 'zone' and not me and a.kind == 'dtn' and wide in ('maximum', 'minimum'):
            continue
        elif t == 'zone' and a.name == 'domain' and wide in ('maximum', 'minimum'):
            continue
        elif t == 'zone' and a.kind == 'dtn' and not me:
            v, x = 2.5, [O.X('num', 2.5)]
        else:
            v, x = O.value(ctx, w, a, me, m, full)
        r = route if me or route != 'later' else ROUTES[i % 4]
        if t == 'group' and a.name == 'object_type':
            r = 'later'
        if t == 'origin' and a.name == 'file_set_number' and r == 'later':
            r = 'kw'
        if t == 'frame' and a.name == 'index_type' and wide != 'index_type':
            r = 'kw'
        ua, ue = (un if me else (('m', 'm') if i % 2 else (None, None))) if a.units else (None, None)
        if a.kind == 'dtn' and not me:
            ua, ue = None, None
        assign(ctx, dw, kw, later, a, v, ua, r)
        exp[a.label] = (x, ue)
        exp['shape', a.label] = shape(v)
    return kw, later, exp


def create(ctx, w, t, name, kw):
    if t == 'channel':
        c = w.lf.add_channel(name, data=np.arange(6, dtype=np.int16).reshape(2, 3), **kw)
        w.lf.add_frame('CH-FRAME', channels=[c])
        return c
    return getattr(w.lf, 'add_' + t)(name, **kw)


def type_(t, picks, full, mults1, mults2):
    def fn(ctx):
        wide, route, pattern = ctx.choice('pick', picks)
        a = O.attr(t, wide)
        mult = 'list'
        if a.mult:
            ms = mults1 if a.mult == 1 else mults2
            if t == 'channel' and a.name == 'axis':
                ms = ['scalar', 'list']
            if t in ('channel', 'frame') and a.name in ('dimension', 'element_limit', 'channels'):
                ms = ['list', 'two'] if t == 'frame' else ['list']
            mult = ctx.choice('mult', ms)
        ctx.timezone('XXX5:30')          # date-times without an offset are local
        w = O.World(ctx, vrl=8192)
        q = ROUTES.index(route) + len(wide) + (pattern == 'only')
        un = O.unit(ctx, w.dw, ctx.choice('unit', O.UNIT if full else [O.UNIT[q % 4], O.UNIT[(q + 1) % 4]])) \
            if a.units else (None, None)
        kw, later, exp = specify(ctx, w, t, wide, route, pattern, mult, full, un)
        if t == 'frame':
            n = ctx.choice('nch', [1, 3]) if wide == 'channels' else 1
            chs = [w.lf.add_channel(f'FC{i}', data=np.arange(2) + 0.5) for i in range(n)]
            kw['channels'] = chs if route != 'dict' else tuple(chs)
            exp[b'CHANNELS'] = ([O.X('ref', c) for c in chs], None)
        o = ctx.ok(f'add_{t}', create, ctx, w, t, 'OBJ', kw)
        for an, part, v in later:
            ctx.ok(f'{t}.{an}.{part} = ...', setattr, getattr(o, an), part, v)
        w.finish()
        r = ctx.write_ok(w.df)
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        ctx.require(len(lfs) == 1, 'number of logical files')
        obj = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(o), t)
        check(ctx, rd, w, t, o, obj, exp, route)
        ctx.reached('decoded')
    return fn


def check(ctx, rd, w, t, o, obj, exp, what=''):
    labels = {a.label for a in obj.attrs}
    for at in O.TABLE[t][1]:
        ctx.require(at.label in labels, f'{t}: attribute {at.label.decode()} is missing')
    for at in obj.attrs:
        lb = at.label
        if lb in exp:
            x, u = exp[lb]
            if t == 'frame' and lb in (b'INDEX-MIN', b'INDEX-MAX', b'SPACING') and u is None:
                u = at.units.decode() or None      # units of the index channel may be filled in
            O.check_attr(ctx, rd, obj, lb, x, u, t)
        elif lb in O.DEFAULTS.get(t, ()):
            default(ctx, rd, t, lb, at, o, obj, exp)
        else:
            O.check_attr(ctx, rd, obj, lb, None, None, t)


def default(ctx, rd, t, lb, at, o, obj, exp):
    """the documented write-time defaults"""
    if t == 'origin':
        if lb == b'FIELD-NAME':
            O.check_attr(ctx, rd, obj, lb, [O.X('text', 'WILDCAT')], None, t)
    elif t == 'channel':
        if lb == b'LONG-NAME':
            O.check_attr(ctx, rd, obj, lb, [O.X('text', o.name)], None, t)
        elif lb == b'REPRESENTATION-CODE':
            ctx.require(at.values is not None and len(at.values) == 1, 'channel without representation code')
            ctx.require(at.values[0] == R.SNORM, 'representation code is not the one of the data')
        else:
            O.check_attr(ctx, rd, obj, lb, [O.X('int', 3)], None, t)
    elif lb == b'DIMENSION':
        v = exp.get(b'VALUES') or exp.get(b'STANDARD') or exp.get(b'PLUS-TOLERANCE')
        ctx.require(at.values is None or b'VALUES' in exp or t == 'calibration_measurement',
                    f'{t}: DIMENSION though there are no values')
        sh = exp.get(('shape', b'VALUES'))
        if sh and t in ('parameter', 'computation'):
            # the shape of one value, in the order of the indices
            d = sh[1:] or [1]
            ctx.require(at.values is not None and len(at.values) == len(d), f'{t}: DIMENSION is not the shape of a value')
            for g, e in zip(at.values, d):
                ctx.require(g == e, f'{t}: DIMENSION is not the shape of a value')


def picks(t, full):
    out = []
    for i, a in enumerate(O.TABLE[t][1]):
        for j, r in enumerate(ROUTES):
            for k, p in enumerate(['all', 'only']):
                if full or (i + j) % 4 == k * 2 or (i + j) % 4 == k * 2 + 1 and a.mult == 0 and a.units:
                    out.append((a.name, r, p))
    return out


def long_text(ctx):
    """texts over the boundaries of their length prefix and of the records"""
    w = O.World(ctx, vrl=ctx.choice('vrl', [8192, 16384]))
    s = ctx.string('s', 0, 20000)
    t = ctx.choice('t', ['comment', 'zone', 'tool'])
    if t == 'comment':
        o = w.lf.add_comment('OBJ', text=[s, 'end'])
        exp = {b'TEXT': ([O.X('text', s), O.X('text', 'end')], None)}
    else:
        o = getattr(w.lf, 'add_' + t)('OBJ', description=s)
        exp = {b'DESCRIPTION': ([O.X('text', s)], None)}
    w.finish()
    r = ctx.write_ok(w.df)
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    obj = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(o), t)
    check(ctx, rd, w, t, o, obj, exp)


def reassign(ctx):
    """the last assignment counts; values and units are independent of one another"""
    w = O.World(ctx)
    wr = ctx.choice('written', [False, True])        # the changes follow a first write
    v1, v2 = ctx.flt('v1'), ctx.flt('v2')
    how = ctx.choice('how', ['value', 'units', 'both', 'units first', 'list', 'tuple kept', 'in place'])
    e = w.lf.add_equipment('OBJ', height={'value': v1, 'units': 'm'})
    m = w.lf.add_calibration_coefficient('C', coefficients=[v1])
    u = 'm'
    lst = [v1, v2]
    mexp = [v1]
    if wr:
        w.finish()
        ctx.write_ok(w.df, 'first.dlis')
    if how in ('value', 'both'):
        e.height.value = v2
    if how in ('units', 'both'):
        e.height.units = u = 'ft'
    if how == 'units first':
        e.height.units = u = 's'
        e.height.value = v2
    if how in ('list', 'tuple kept'):
        m.coefficients.value = lst if how == 'list' else tuple(lst)
        mexp = list(lst)
    if how == 'value':
        e.serial_number.value = 'SN'
    if how == 'in place':
        m.coefficients.value.append(v2)
        mexp = [v1, v2]
    if not wr:
        w.finish()
    r = ctx.write_ok(w.df)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    obj = O.find(ctx, lfs[0], b'EQUIPMENT', O.ident_of(e))
    hexp = [O.X('num', v1 if how in ('units', 'list', 'tuple kept', 'in place') else v2)]
    O.check_attr(ctx, rd, obj, b'HEIGHT', hexp, u, 'equipment')
    O.check_attr(ctx, rd, obj, b'SERIAL-NUMBER', [O.X('ident', 'SN')] if how == 'value' else None, None, 'equipment')
    obj = O.find(ctx, lfs[0], b'CALIBRATION-COEFFICIENT', O.ident_of(m))
    O.check_attr(ctx, rd, obj, b'COEFFICIENTS', [O.X('num', x) for x in mexp], None, 'coefficient')


def several(ctx):
    """several objects of a type with other sets of attributes, in one set or more"""
    w = O.World(ctx)
    d = [ctx.string(f'd{i}', 3, 3) for i in range(3)]
    sn = ctx.choice('set', [(None, None, None), ('A', 'A', 'A'), (None, 'A', None), ('A', None, 'B')])
    pat = ctx.choice('pat', [(1, 0, 1), (0, 1, 0), (1, 1, 0), (0, 0, 1), (0, 0, 0)])
    os = []
    for i in range(3):
        kw = {'description': d[i]} if pat[i] else {'maximum': float(i)}
        os.append((w.lf.add_zone('Z', set_name=sn[i], **kw), i, pat[i]))
    w.finish()
    r = ctx.write_ok(w.df)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    for o, i, p in os:
        obj = O.find(ctx, lfs[0], b'ZONE', O.ident_of(o))
        O.check_attr(ctx, rd, obj, b'DESCRIPTION', [O.X('text', d[i])] if p else None, None, 'zone')
        O.check_attr(ctx, rd, obj, b'MAXIMUM', [O.X('num', float(i))] if not p else None, None, 'zone')
        O.check_attr(ctx, rd, obj, b'MINIMUM', None, None, 'zone')
        s = [x for x in lfs[0].sets if obj in x.objects]
        ctx.require(len(s) == 1 and s[0].name == (None if sn[i] is None else sn[i].encode()), 'object in another set')


def simple_value(ctx, w, a, i, tag='', first=0):
    """a value of one leaf (two for lists), symbolic where that costs nothing -> (value, [X])"""
    def one(j):
        if a.kind in ('text', 'ident'):
            v = ctx.string(f'{tag}{a.name}.{j}', 3, 3)
            return v, O.X(a.kind, v)
        if a.kind in ('num', 'fd', 'any'):
            v = ctx.flt(f'{tag}{a.name}.{j}')
            return v, O.X('num', v)
        return O.leaf(ctx, w, a, first + j, False)
    n = 2 if a.mult and a.kind != 'dim' and i % 2 else 1
    vs = [one(j) for j in range(n)]
    xs = [x for _, x in vs]
    if not a.mult:
        return vs[0][0], xs
    return [v for v, _ in vs], xs


def combos(types):
    """every pair of attributes set together, and every attribute left out alone"""
    opts = []
    for t in types:
        ns = [a.name for a in O.TABLE[t][1]]
        opts += [(t, 'two', a, b) for k, a in enumerate(ns) for b in ns[:k]]
        opts += [(t, 'without', a, None) for a in ns] + [(t, 'without', None, None), (t, 'two', None, None)]

    def fn(ctx):
        t, how, a1, a2 = ctx.choice('pair', opts)
        w = O.World(ctx)
        exp, kw, later = {}, {}, []
        for i, a in enumerate(O.TABLE[t][1]):
            need = t == 'frame' and a.name == 'channels' or t == 'origin' and a.name in ('file_set_number', 'creation_time')
            if not need and (a.name not in (a1, a2) if how == 'two' else a.name == a1):
                continue
            if t == 'frame' and a.name == 'channels':
                v, x = [w.lf.add_channel('FC', data=np.arange(2) + 0.5)], None
                x = [O.X('ref', v[0])]
            elif t == 'channel' and a.name in ('dimension', 'element_limit'):
                v = [3] if a.name == 'dimension' else [ctx.int('limit', 3, 2 ** 30 - 1)]
                x = [O.X('int', v[0])]
            elif t == 'zone' and a.kind == 'dtn' and (how == 'without' and a1 != 'domain' or 'domain' in (a1, a2)):
                v = ctx.flt(a.name)
                x = [O.X('num', v)]
            elif t in ('computation', 'parameter', 'calibration_measurement') and a.name in ('dimension', 'axis', 'zones'):
                v, x = O.leaf(ctx, w, a, 0, False) if a.name != 'dimension' else (1, O.X('int', 1))
                v, x = [v], [x]
            else:
                v, x = simple_value(ctx, w, a, 0 if t in ('computation', 'parameter', 'calibration_measurement',
                                                          'calibration_coefficient', 'splice') else i)
            if (i + len(a1 or '')) % 3 and not need and not (t == 'frame' and a.name == 'index_type') or a.name == 'object_type':
                later.append((a.name, v))
            else:
                kw[a.kw] = v
            exp[a.label] = (x, None)
            exp['shape', a.label] = shape(v)
        c = ctx.call(create, ctx, w, t, 'OBJ', kw)
        ctx.assume(c.exc is None)
        o = c.value
        for an, v in later:
            c = ctx.call(setattr, getattr(o, an), 'value', v)
            ctx.assume(c.exc is None)
        w.finish()
        r = ctx.write(w.df)
        ctx.assume(r.exc is None)      # that valid specifications are not refused is the subject of other scenarios
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        obj = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(o), t)
        check(ctx, rd, w, t, o, obj, exp, 'pair')
        ctx.reached(t)
    return fn


def changed(types):
    """every attribute given another value and other units, before or after a first write"""
    opts = [(t, a.name) for t in types for a in O.TABLE[t][1] if not (t == 'frame' and a.name == 'channels')
            and not (t == 'origin' and a.name in ('file_set_number', 'creation_time'))
            and not (t == 'channel' and a.name in ('dimension', 'element_limit'))]

    def fn(ctx):
        t, an = ctx.choice('attr', opts)
        a = O.attr(t, an)
        wr = ctx.choice('written', [False, True])
        u = ctx.choice('units', ['same', 'other', 'none', 'never', 'late']) if a.units else 'never'
        w = O.World(ctx)
        kw = {}
        if t == 'frame':
            kw['channels'] = [w.lf.add_channel('FC', data=np.arange(2) + 0.5)]
        alone = t in ('computation', 'parameter', 'calibration_measurement') and an in ('dimension', 'axis', 'zones')
        vals = []
        for k in range(2):
            if alone:
                v, x = (1 + k, O.X('int', 1 + k)) if an == 'dimension' else O.leaf(ctx, w, a, k, False)
                v, x = [v], [x]
            else:
                v, x = simple_value(ctx, w, a, 0 if t in ('computation', 'parameter', 'calibration_measurement',
                                                          'calibration_coefficient', 'splice') else k, f'{k}.', k)
            vals.append((v, x))
        if u in ('same', 'other', 'none'):
            kw[a.kw] = {'value': vals[0][0], 'units': 'm'}
        elif an != 'object_type':
            kw[a.kw] = vals[0][0]
        c = ctx.call(create, ctx, w, t, 'OBJ', kw)
        ctx.assume(c.exc is None)
        o = c.value
        if wr:
            w.finish()
            ctx.assume(ctx.write(w.df, 'first.dlis').exc is None)
        at = getattr(o, an)
        c = ctx.call(setattr, at, 'value', vals[1][0])
        ctx.assume(c.exc is None)
        if u in ('other', 'none', 'late'):
            c = ctx.call(setattr, at, 'units', None if u == 'none' else 'ft')
            ctx.assume(c.exc is None)
        if not wr:
            w.finish()
        r = ctx.write(w.df)
        ctx.assume(r.exc is None)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        obj = O.find(ctx, lfs[0], O.TABLE[t][0], O.ident_of(o), t)
        exp = {a.label: (vals[1][1], {'same': 'm', 'other': 'ft', 'late': 'ft'}.get(u)),
               ('shape', a.label): shape(vals[1][0])}
        if t == 'frame':
            exp[b'CHANNELS'] = ([O.X('ref', kw['channels'][0])], None)
        check(ctx, rd, w, t, o, obj, exp, 'changed')
        ctx.reached(t)
    return fn


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for t in O.TABLE:
        out.append(Scenario(t, type_(t, picks(t, not q), not q, O.MULT1 if not q else ['scalar', 'two', 'many'],
                                     O.MULT2 if not q else ['scalar', 'two', 'nested', 'deep', 'many']), len(O.TABLE[t][1])))
    ts = list(O.TABLE)
    for i in range(3):
        out.append(Scenario(f'pairs-{i}', combos(ts[i::3]), 20, 4))
        out.append(Scenario(f'changed-{i}', changed(ts[i::3]), 12, 4))
    return out + [Scenario('long-text', long_text, 3), Scenario('reassign', reassign, 1), Scenario('several', several, 2)]

"""C17 High-compatibility mode enforces its restrictions and never leaks."""
import contextlib
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D
from . import objs as O
from . import std
from .c13 import near, idx, cells_of

REQ = ()
PAT = '[A-Z0-9_-]+'
BOUNDS = ('names of objects of all 20 types, header id and set identifier: every string of up to 12 characters (60 in the thorough '
          'tier), given at creation, through ready-made objects or assigned later; units of channels and of attributes of every '
          'type, index types, equipment types and locations: every string up to 17 characters; 8 data types x casts x four kinds '
          'of sources, as scalar or array channels of any frame; every assignment of three channels to two frames, also in the '
          'second logical file; index channels of 1..4 rows with symbolic values, NaN, row windows; histories of up to three '
          'origins; every combination of five breaches at once; one value given up to three times, in '
          'and outside of the mode, to the same or another object; every sequence of up to 4 (thorough 5) steps (3, 4 with other forms of the context) of entering, '
          'leaving, raising, decorated calls and failing additions or writes, starting in either mode; each in and outside of '
          'the mode')
OUTSIDE = ('index channels within 10% of the tolerance of uniformity; objects made outside of the mode (with other names) and '
           'written inside; file-set numbers given by the user; threads')
ASSUMPTIONS = ['the sets of allowed units, index types, equipment types and locations are those listed in props/std.py']


def reset(ctx, v=False):
    """the mode before anything happens (the flag is global)"""
    c = getattr(getattr(ctx.dw, 'configuration', None), 'global_config', None)
    if c is None or not hasattr(c, 'high_compat_mode'):
        return False
    c.high_compat_mode = v
    return True


def mode(ctx, on):
    return ctx.dw.high_compatibility_mode() if on else contextlib.nullcontext()


def verdict(ctx, on, r, breach, what, w0=None):
    """in the mode a breach raises; outside it is accepted with a warning. True if the call was accepted."""
    if on:
        if r.exc is None:
            ctx.require(ctx.not_(breach), f'{what}: accepted in the high-compatibility mode')
            ctx.reached('accepted in the mode')
            return True
        ctx.reached('refused in the mode')
        return False
    if r.exc is not None:
        ctx.require(False, f'{what}: {ctx.exc_text(r.exc)} outside of the high-compatibility mode')
    if w0 is not None:
        n = ctx.warning_count() - w0
        ctx.require(ctx.or_(ctx.not_(breach), n > 0), f'{what}: accepted without a warning')
    ctx.reached('accepted outside')
    return True


def file_ok(ctx, r, what, on=True, known=(), observe=True):
    """decode; in the mode all names have to be safe"""
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    if observe:
        ctx.observe('file', r.data)
    if on:
        for lf in lfs:
            for s in lf.sets:
                for o in s.objects:
                    n = o.ob.name
                    ok = ctx.concrete(n) and ctx.matches(n.decode('ascii'), PAT)
                    if not ok:
                        ok = ctx.or_(*[ctx.and_(len(n) == ctx.slen(k), n == k.encode('ascii'), ctx.matches(k, PAT))
                                       for k in known])
                    ctx.require(ok, f'{what}: an unsafe name in the file')
    return rd, sul, lfs


# ---- names --------------------------------------------------------------------------------------------------------

TYPES = list(O.TABLE)


def make(w, t, name):
    kw = {}
    if t == 'channel':
        kw = {'data': w.chdata}
    elif t == 'frame':
        kw = {'channels': [w.lf.add_channel('T-FC', data=w.chdata)]}
    elif t == 'parameter':
        kw = {'values': [1.5]}
    elif t == 'origin':
        kw = {'file_set_number': 9, 'creation_time': S.T0}
    r = w.ctx.call(getattr(w.lf, 'add_' + t), name, **kw)
    if r.exc is None and t == 'channel':
        w.lf.add_frame('T-FR', channels=[r.value])
    return r


def names(types, hi, later=False):
    def fn(ctx):
        reset(ctx)
        on = ctx.bool('mode')
        t = ctx.choice('type', types)
        if t == 'channel':           # channel names are keys of dictionaries
            s = ctx.choice('name', ['A', 'A-0_Z9', 'a', 'Depth', 'A B', 'A.', ' A', 'A\n', '\u00c9', '\u0661', 'Aa'] + (
                [''] if on else []))
        else:
            s = ctx.string('name', 0 if on else 1, hi, 'any' if on else 'yes')
        if not on:
            ctx.assume(ctx.isascii(s))
        breach = ctx.not_(ctx.matches(s, PAT))
        with mode(ctx, on):
            w = O.World(ctx)
            if later:
                r = make(w, t, 'N')
                ctx.require(r.exc is None, f'{t}: refused')
                item = r.value
                w0 = ctx.warning_count()
                r = ctx.call(setattr, item, 'name', s)
            else:
                w0 = ctx.warning_count()
                r = make(w, t, s)
                item = r.value
            if later and on and r.exc is None and breach:
                finish(w)
                r = ctx.write(w.df)       # refused at the latest now
                verdict(ctx, on, r, breach, f'{t}: name assigned')
                return
            if not verdict(ctx, on, r, breach, f'{t}: name', w0):
                return
            finish(w)
            r = ctx.write_ok(w.df)
        rd, sul, lfs = file_ok(ctx, r, t, on, [s])
        e = s.encode('ascii')
        m = [o for o in lfs[0].of_type(O.TABLE[t][0]) if len(o.ob.name) == len(e) and bool(o.ob.name == e)]
        ctx.require(len(m) >= 1, f'{t}: no object of this name')
    return fn


def labels(which, hi):
    """header id and set identifier"""
    def fn(ctx):
        reset(ctx)
        on = ctx.bool('mode')
        how = ctx.choice('how', ['kw', 'object', 'later'])
        s = ctx.string('s', 0 if on else 1, hi, 'any' if on else 'yes')
        if not on:
            ctx.assume(ctx.isascii(s))
        breach = ctx.not_(ctx.matches(s, PAT))
        dw = ctx.dw
        hid = 'FILE-HEADER'

        def build():
            if which == 'set':
                if how == 'kw':
                    df = dw.DLISFile(set_identifier=s)
                elif how == 'object':
                    df = dw.DLISFile(storage_unit_label=dw.StorageUnitLabel(s))
                else:
                    df = dw.DLISFile()
                    df.storage_unit_label.set_identifier = s
                lf = df.add_logical_file()
            else:
                df = dw.DLISFile()
                if how == 'kw':
                    lf = df.add_logical_file(fh_id=s)
                elif how == 'object':
                    p = dw.eflr_types.FileHeaderSet()
                    lf = df.add_logical_file(file_header=dw.eflr_types.FileHeaderItem(s, parent=p))
                else:
                    lf = df.add_logical_file()
                    lf.file_header.header_id = s
            return df, lf

        with mode(ctx, on):
            w0 = ctx.warning_count()
            r = ctx.call(build)
            if how == 'later' and on and r.exc is None and breach:
                df, lf = r.value
                lf.add_origin('ORIGIN', file_set_number=1, creation_time=S.T0)
                S2(lf)
                verdict(ctx, on, ctx.write(df), breach, f'{which} id assigned')
                return
            if not verdict(ctx, on, r, breach, f'{which} id', w0):
                return
            df, lf = r.value
            lf.add_origin('ORIGIN', file_set_number=1, creation_time=S.T0)
            S2(lf)
            r = ctx.write_ok(df)
        rd, sul, lfs = file_ok(ctx, r, which, on)
        e = s.encode('ascii')
        got = sul.setid if which == 'set' else lfs[0].records[0].body
        if which == 'set':
            ctx.require(got[:len(e)] == e, 'set identifier in the label')
            ctx.require(got[len(e):] == b' ' * (60 - len(e)), 'set identifier in the label')
        else:
            v = lfs[0].of_type(b'FILE-HEADER')[0].get(b'ID').values[0]
            ctx.require(v[:len(e)] == e, 'id in the header')
            ctx.require(v[len(e):] == b' ' * (65 - len(e)), 'id in the header')
    return fn


def finish(w):
    if not w.lf.frames:
        S2(w.lf)


def S2(lf, **kw):
    """a frame breaching nothing"""
    c = lf.add_channel('CH', data=np.arange(2, dtype=np.float64), **kw)
    return lf.add_frame('FR', channels=[c], **kw)


# ---- enumerated attributes ----------------------------------------------------------------------------------------

SETS = {'units': std.UNITS, 'index': std.INDEX_TYPES, 'eqtype': std.EQUIPMENT_TYPES, 'eqloc': std.EQUIPMENT_LOCATIONS}
UNITTED = [('axis', 'spacing'), ('axis', 'coordinates'), ('calibration_coefficient', 'references'),
           ('calibration_measurement', 'duration'), ('calibration_measurement', 'begin_time'), ('computation', 'values'),
           ('equipment', 'weight'), ('message', 'vertical_depth'), ('message', 'time'), ('parameter', 'values'), ('path', 'time'),
           ('well_reference_point', 'coordinate_1_value'), ('zone', 'maximum'), ('frame', 'spacing'),
           ('frame', 'index_min'), ('channel', 'minimum_value'), ('process', None), ('origin', 'run_number')]


def soft(which, how, hi):
    def fn(ctx):
        reset(ctx)
        on = ctx.bool('mode')
        allowed = SETS[which]
        k = ctx.choice('kind', ['any', 'member'])
        if k == 'member':
            e = ctx.choice('member', allowed[:2] + allowed[-1:] if len(allowed) > 6 else allowed)
            v = ctx.choice('form', ['str', 'enum', 'upper', 'lower', 'space', 'name', 'dash'])
            cls = {'units': 'Unit', 'index': 'FrameIndexType', 'eqtype': 'EquipmentType', 'eqloc': 'EquipmentLocation'}[which]
            mem = getattr(ctx.dw.enums, cls)(e)
            s = {'str': e, 'upper': e.upper(), 'lower': e.lower(), 'space': e + ' ', 'name': mem.name, 'enum': e,
                 'dash': e.replace('-', ' ')}[v]
            given = mem if v == 'enum' else s
        else:
            s = given = ctx.string('s', 0, hi, 'yes')
        breach = ctx.not_(ctx.or_(*[s == x for x in allowed]))
        dw = ctx.dw
        with mode(ctx, on):
            w = O.World(ctx)
            lf = w.lf
            fkw = {}
            if which == 'units' and how == 'attr':
                t, a = ctx.choice('attr', [x for x in UNITTED if x[1]])
                by = ctx.choice('by', ['setup', 'dict', 'later'])
                val = [1.5] if a in ('coordinates', 'references', 'values', 'minimum_value') else 1 if a == 'run_number' else 2.5
                kw = {'setup': {a: dw.AttrSetup(val, given)}, 'dict': {a: {'value': val, 'units': given}},
                      'later': {a: val}}[by]
                if t == 'frame':
                    kw['channels'] = [lf.add_channel('FC', data=w.chdata)]
                    if a == 'index_min':
                        kw['index_type'] = 'BOREHOLE-DEPTH'
                if t == 'channel':
                    kw['data'] = w.chdata
                if t == 'origin':
                    kw.update(file_set_number=9, creation_time=S.T0)

                def op():
                    it = getattr(lf, 'add_' + t)('OBJ', **kw)
                    if by == 'later':
                        getattr(it, a).units = given
                    return it
                type_, label = O.TABLE[t][0], O.attr(t, a).label
            elif which == 'units':
                by = ctx.choice('by', ['kw', 'later', 'setup'])

                def op():
                    it = lf.add_channel('OBJ', data=w.chdata, **({'units': given if by == 'kw' else dw.AttrSetup(given)}
                                                                 if by != 'later' else {}))
                    if by == 'later':
                        it.units.value = given
                    return it
                t, a, type_, label = 'channel', 'units', b'CHANNEL', b'UNITS'
            elif which == 'index':
                by = ctx.choice('by', ['kw', 'later'])

                def op():
                    it = lf.add_frame('OBJ', channels=[lf.add_channel('FC', data=w.chdata)], **(
                        {'index_type': given} if by == 'kw' else {}))
                    if by == 'later':
                        it.index_type.value = given
                    return it
                t, a, type_, label = 'frame', 'index_type', b'FRAME', b'INDEX-TYPE'
            else:
                by = ctx.choice('by', ['kw', 'later'])
                kwn, a = ('eq_type', '_type') if which == 'eqtype' else ('location', 'location')

                def op():
                    it = lf.add_equipment('OBJ', **({kwn: given} if by == 'kw' else {}))
                    if by == 'later':
                        getattr(it, a).value = given
                    return it
                t, type_, label = 'equipment', b'EQUIPMENT', b'TYPE' if which == 'eqtype' else b'LOCATION'
            w0 = ctx.warning_count()
            r = ctx.call(op)
            if not verdict(ctx, on, r, breach, f'{t}.{a} ({by})', w0):
                return
            if t == 'channel':
                lf.add_frame('OF', channels=[r.value])
            finish(w)
            r = ctx.write(w.df)
            if r.exc is not None:
                ctx.reached('not written')
                return
        rd, sul, lfs = file_ok(ctx, r, t, on)
        o = [o for o in lfs[0].of_type(type_) if bytes(o.ob.name) == b'OBJ']
        ctx.require(len(o) == 1, 'the object is not in the file')
        at = o[0].get(label)
        if on or not (which != 'units' and len(s) == 0):
            e = s.encode('ascii')
            if which == 'units' and how == 'attr':
                got = at.units
            else:
                ctx.require(at is not None and at.values is not None, f'{t}.{a} is absent')
                got = at.values[0]
            ctx.require(len(got) == len(e), f'{t}.{a}: written otherwise')
            ctx.require(got == e, f'{t}.{a}: written otherwise')
        ctx.reached('written in the mode' if on else 'written outside')
    return fn


def again(ctx):
    """one value given to the same or another object several times, in and outside of the mode"""
    reset(ctx)
    which = ctx.choice('which', ['units-channel', 'units', 'index', 'eqtype', 'eqloc', 'name', 'header', 'set'])
    ons = ctx.choice('modes', [(False, True), (True, False, True), (False, True, True), (True, True), (False, False, True)])
    same = ctx.bool('same object')
    s = ctx.choice('fixed', ['OTHER VALUE', 'lower', None])
    if s is None:
        s = ctx.string('s', 4, 5)
    w = O.World(ctx)
    its = []

    def give(i):
        if which == 'set':
            ctx.dw.DLISFile(set_identifier=s)
            return
        if which == 'header':
            if same:
                w.lf.file_header.header_id = s
            else:
                S.new_file(ctx).add_logical_file(fh_id=s)
            return
        if not same or not its:
            its.append({'units-channel': lambda: w.lf.add_channel(f'C{i}', data=w.chdata),
                        'index': lambda: w.lf.add_frame(f'F{i}', channels=[w.lf.add_channel(f'FC{i}', data=w.chdata)]),
                        }.get(which, lambda: w.lf.add_equipment(f'E{i}', height=1.5))())
        it = its[-1]
        if which == 'units-channel':
            it.units.value = s
        elif which == 'units':
            it.height.units = s
        elif which == 'index':
            it.index_type.value = s
        elif which == 'eqtype':
            it._type.value = s
        elif which == 'eqloc':
            it.location.value = s
        else:
            it.name = s
    allowed = SETS[{'units-channel': 'units'}.get(which, which)] if which not in ('name', 'header', 'set') else None
    breach = ctx.not_(ctx.matches(s, PAT)) if allowed is None else ctx.not_(ctx.or_(*[s == x for x in allowed]))
    for i, on in enumerate(ons):
        with mode(ctx, on):
            verdict(ctx, on, ctx.call(give, i), breach, f'{which}, time {i + 1}')


# ---- file-set numbers ---------------------------------------------------------------------------------------------


def numbers(steps):
    """default file-set numbers are the positions in the set of origins; the mode may be entered in between"""
    def fn(ctx):
        reset(ctx)
        df = S.new_file(ctx)
        lf = df.add_logical_file()
        two = ctx.bool('two logical files')
        lfs = [lf] + ([df.add_logical_file()] if two else [])
        rnd = False
        made = {}                                         # (logical file, set name) -> [expected number or None]
        for k in range(steps):
            i = ctx.choice(f'lf{k}', list(range(len(lfs)))) if two else 0
            op = ctx.choice(f'op{k}', ['default', 'given', 'named', 'rejected', 'outside'])
            name = 'S' if op == 'named' else None
            if i == 1:
                name = 'L2' if name is None else 'L2S'
            lst = made.setdefault((i, name), [])
            kw = {'creation_time': S.T0, 'set_name': name}
            if op == 'outside':
                o = lfs[i].add_origin(f'O{k}', **kw)
                lst.append((o, None))
                rnd = True                                # a random number
                continue
            with ctx.dw.high_compatibility_mode():
                if op == 'given':
                    o = lfs[i].add_origin(f'O{k}', file_set_number=40, **kw)
                    lst.append((o, 40))
                elif op == 'rejected':
                    r = ctx.call(lfs[i].add_origin, f'O{k}', run_number='x', **kw)
                    ctx.require(r.exc is not None, 'invalid run number accepted')
                else:
                    o = ctx.ok('add_origin', lfs[i].add_origin, f'O{k}', **kw)
                    lst.append((o, len(lst) + 1))
        for i, x in enumerate(lfs):
            if not any(made.get((j, n)) for j, n in made if j == i):
                with ctx.dw.high_compatibility_mode():
                    o = x.add_origin('LAST', creation_time=S.T0, set_name='L2' if i else None)
                made.setdefault((i, 'L2' if i else None), []).append((o, 1))
            S2(x, set_name='L2' if i else None)
        with mode(ctx, ctx.bool('mode')):
            r = ctx.write_ok(df)
        rd, sul, lx = file_ok(ctx, r, 'origins', observe=not rnd)
        for (i, name), lst in made.items():
            for o, want in lst:
                ob = O.find(ctx, lx[i], b'ORIGIN', O.ident_of(o), 'origin')
                v = ob.get(b'FILE-SET-NUMBER')
                ctx.require(v is not None and v.values is not None and len(v.values) == 1, 'no file-set number')
                if want is not None:
                    ctx.require(v.values[0] == want, 'file-set number is not the position of the origin in its set')
                else:
                    ctx.require(ctx.and_(v.values[0] >= 1, v.values[0] < 2 ** 30), 'file-set number out of range')
        ctx.reached('numbers')
    return fn


# ---- data ---------------------------------------------------------------------------------------------------------

CASTS = {'i1': [None, np.uint8, np.float32], 'i2': [None, np.uint16, np.int32], 'i4': [None, np.float64, np.int8],
         'u1': [None, np.int16], 'u2': [None, np.int16, np.uint32], 'u4': [None, np.int32],
         'f4': [None, np.int16, np.float64], 'f8': [None, np.int32, np.uint16]}


def signed(kinds, sources, second=False):
    def fn(ctx):
        reset(ctx)
        on = ctx.bool('mode')
        src = ctx.choice('source', sources)
        k = ctx.choice('dt', kinds)
        cast = ctx.choice('cast', CASTS[k])
        o = '<' if src == 'h5' else ctx.choice('order', ['<', '>'])
        wide = ctx.bool('wide')
        shape = (2, 2) if wide else (2,)
        if cast is not None:
            lo, hi = (0, 100)
            a = ctx.array('a', o + k, shape, kind='real' if k[0] == 'f' else 'int', lo=lo, hi=hi,
                          **({'den': 1} if k[0] == 'f' else {}))
        else:
            a = ctx.array('a', o + k, shape)
        b = ctx.array('b', '<f8', (2,))
        pos = ctx.choice('pos', [0, 1, 3, 17] if src == 'inline' and not wide and o == '<' and cast is None else [0, 1, 3])        # the channel in question among those of its frame
        breach = np.dtype(cast or k).kind == 'i'
        with mode(ctx, on):
            df = S.new_file(ctx)
            lf, _ = S.add_lf(df)
            kw = {}
            if second:
                S2(lf)
                lf, _ = None, None
                lf = df.add_logical_file()
                lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, set_name='L2')
                kw = {'set_name': 'L2'}
            inl = src == 'inline'
            A = lf.add_channel('A', cast_dtype=cast, **({'data': a} if inl else {}), **kw)
            B = lf.add_channel('B', **({'data': b} if inl else {}), **kw)
            us = [ctx.array(f'u{i}', t, (2,)) for i, t in enumerate(('<u1', '<f4'))]
            us += [np.arange(2.) + i if src != 'h5' and src != 'struct' else us[i % 2] for i in range(pos - 3)]
            more = [lf.add_channel(f'U{i}', **({'data': u} if inl else {}), **kw) for i, u in enumerate(us)] if pos >= 3 else []
            lf.add_frame('F', channels=([B] + more + [A]) if pos else [A, B], **kw)
            wk = {}
            fs = [('A', a), ('B', b)] + [(f'U{i}', u) for i, u in enumerate(us)][:len(more)]
            if src == 'dict':
                wk['data'] = dict(fs)
            elif src == 'struct':
                wk['data'] = ctx.structured(fs)
            elif src == 'h5':
                wk['data'] = ctx.h5('d.h5', fs)
            w0 = ctx.warning_count()
            r = ctx.write(df, **wk)
        if not verdict(ctx, on, r, breach, 'signed integers', w0):
            return
        rd, sul, lfs = file_ok(ctx, r, 'data')
        arr, cs = ([b] + us[:len(more)] + [a], [None] * (1 + len(more)) + [cast]) if pos else ([a, b], [cast, None])
        fr = D.check_frame(ctx, rd, lfs[-1], b'F', arr, cs)
        if on:
            for ch, rc, dim in D.descr(ctx, lfs[-1], fr):
                ctx.require(rc not in (R.SSHORT, R.SNORM, R.SLONG), 'signed integers in the file')
    return fn


def members(second):
    """every assignment of three channels to two frames"""
    def fn(ctx):
        reset(ctx)
        on = ctx.bool('mode')
        how = ctx.choice('how', ['kw', 'assigned'])
        m = [ctx.choice(f'c{i}', [0, 1, 2, 3]) for i in range(3)]
        f1 = [i for i in range(3) if m[i] & 1]
        f2 = [i for i in range(3) if m[i] & 2]
        if not f1 and not f2:
            ctx.assume(False)
        breach = any(x in (0, 3) for x in m)
        arrs = [np.arange(2, dtype=np.float64) + 10 * i for i in range(3)]
        names = ctx.choice('names', [('C0', 'C1', 'C2'), ('C0', 'C1', 'C1'), ('C0', 'C0', 'C2')])
        ctx.assume(not any(names[i] == names[j] for f in (f1, f2) for i in f for j in f if i < j))
        with mode(ctx, on):
            df = S.new_file(ctx)
            lf, _ = S.add_lf(df)
            kw = {}
            if second:
                S2(lf)
                lf = df.add_logical_file()
                lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, set_name='L2')
                kw = {'set_name': 'L2'}
            ch = [lf.add_channel(names[i], data=arrs[i], **kw) for i in range(3)]
            for n, f in (('F1', f1), ('F2', f2)):
                if not f:
                    continue
                l = [ch[i] for i in f]
                if how == 'kw':
                    lf.add_frame(n, channels=l, **kw)
                else:
                    fr = lf.add_frame(n, channels=ch[:1], **kw)
                    fr.channels.value = l
            w0 = ctx.warning_count()
            r = ctx.write(df)
        if not verdict(ctx, on, r, breach, 'channels in no or several frames', w0):
            return
        rd, sul, lfs = file_ok(ctx, r, 'frames')
        for n, f in ((b'F1', f1), (b'F2', f2)):
            if f:
                D.check_frame(ctx, rd, lfs[-1], n, [arrs[i] for i in f])
        if on:
            refs = [x for fr in lfs[-1].of_type(b'FRAME') for x in fr.get(b'CHANNELS').values]
            for c in lfs[-1].of_type(b'CHANNEL'):
                ctx.require(sum(1 for x in refs if bool(x.same(ctx, c.ob))) == 1, 'a channel is not in exactly one frame')
    return fn


def uniform(dts, rows, extra, span=None):
    def fn(ctx):
        reset(ctx)
        on = ctx.bool('mode')
        n = ctx.choice('n', rows)
        a = idx(ctx, ctx.choice('dt', dts), n, span=span)
        if extra == 'nan':
            ctx.set_cell(a, ctx.choice('nan', list(range(n))), float('nan'))
        f, t = 0, None
        if extra == 'window':
            f = ctx.choice('from', [0, 1, 2])
            t = ctx.choice('to', [None, n - 1])
        cells = cells_of(ctx, a, range(f, t or n)) if extra != 'nan' else []
        src = ctx.choice('source', ['inline', 'dict']) if extra == 'window' else 'inline'
        with mode(ctx, on):
            df = S.new_file(ctx)
            lf, _ = S.add_lf(df)
            I = lf.add_channel('I', units='m', **({'data': a} if src == 'inline' else {}))
            kw = {'spacing': 2.5, 'direction': 'INCREASING'} if extra == 'user' else {}
            fr = lf.add_frame('F', channels=[I], **({} if extra == 'late' else {'index_type': 'BOREHOLE-DEPTH'}), **kw)
            if extra == 'late':
                fr.index_type.value = ctx.dw.enums.FrameIndexType.BOREHOLE_DEPTH
            w0 = ctx.warning_count()
            r = ctx.write(df, from_idx=f, to_idx=t, **({'data': {'I': a}} if src == 'dict' else {}))
        if extra == 'nan':
            u = n < 2 or None
            if n > 1:
                u = False
        elif len(cells) < 2:
            u = True
        else:
            ds = [y - x for x, y in zip(cells, cells[1:])]
            if ctx.and_(*[d == ds[0] for d in ds[1:]]):
                u = True
            else:
                u = near(ctx, ds)
                if u is None:
                    ctx.assume(False)
        if not np.issubdtype(np.dtype(a.dtype), np.signedinteger):
            ok = verdict(ctx, on, r, not u, 'index that is not uniform', w0)
        else:
            if on:
                ctx.require(r.exc is not None, 'signed index accepted in the mode')
                return
            ok = verdict(ctx, on, r, True, 'index', w0)
        if not ok:
            if u:
                ctx.reached('uniform but refused')
            return
        rd, sul, lfs = file_ok(ctx, r, 'index', observe=extra != 'nan')
        if extra != 'nan':
            D.check_frame(ctx, rd, lfs[0], b'F', [a], rows=range(f, t or n))
        ctx.reached('uniform' if u else 'not uniform')
    return fn


# ---- several restrictions at once ---------------------------------------------------------------------------------


def together(ctx):
    """each of the restrictions kept or breached: the accepted files satisfy all of them"""
    reset(ctx)
    on = ctx.bool('mode')
    b = {k: ctx.bool(k) for k in ('name', 'units', 'signed', 'unassigned', 'spacing', 'twice', 'eq')}
    x = ctx.array('x', '<f8', (2,))

    def build():
        df = S.new_file(ctx)
        lf = df.add_logical_file()
        lf.add_origin('ORIGIN', creation_time=S.T0)
        i = lf.add_channel('I', data=np.array([0., 1., 5.]) if b['spacing'] else np.array([0., 1., 2.]), units='m')
        y = lf.add_channel('Y', data=np.arange(3, dtype=np.int32 if b['signed'] else np.uint32),
                           units='metres' if b['units'] else 'ft')
        z = lf.add_channel('Z z' if b['name'] else 'Z', data=np.arange(3, dtype=np.float32))
        lf.add_frame('F', channels=[i, y] + ([] if b['unassigned'] else [z]), index_type='BOREHOLE-DEPTH')
        q = lf.add_channel('X', data=x)
        lf.add_frame('G', channels=[q])
        if b['twice']:
            lf.add_frame('H', channels=[q])
        lf.add_equipment('E', eq_type='Spaceship' if b['eq'] else 'Tool')
        return df

    with mode(ctx, on):
        w0 = ctx.warning_count()
        r = ctx.call(build)
        if r.exc is None:
            r = ctx.write(r.value)
    breaches = sum(1 for v in b.values() if v)
    if not verdict(ctx, on, r, breaches > 0, 'breaches: ' + ' '.join(k for k in b if b[k]), w0):
        if not breaches:
            ctx.reached('no breach but refused')
        return
    if not on:
        ctx.require(ctx.warning_count() - w0 >= breaches, 'fewer warnings than breaches')
    rd, sul, lfs = file_ok(ctx, r, 'together', on=on, observe=on)
    D.check_frame(ctx, rd, lfs[0], b'G', [x])


# ---- the flag -----------------------------------------------------------------------------------------------------


class Boom(Exception):
    pass


class Modes:
    """an arbitrary program of blocks, decorated calls and exceptions, with the mode that has to be in force"""

    def __init__(self, ctx, steps, ops, kinds):
        self.ctx, self.left, self.ops, self.kinds, self.k = ctx, steps, ops, kinds, 0
        self.flag = reset(ctx)
        self.df, self.lf, self.o, self.fr, self.chs = S.minimal(ctx)      # signed data: cannot be written in the mode
        self.n = 0

    def check(self, on, what):
        ctx = self.ctx
        r = ctx.call(ctx.dw.StorageUnitLabel, 'not safe')
        ctx.require((r.exc is not None) == on, f'{what}: the mode is {"off" if on else "on"}')
        c = getattr(getattr(ctx.dw, 'configuration', None), 'global_config', None)
        if c is not None and hasattr(c, 'high_compat_mode'):
            ctx.require(bool(c.high_compat_mode) == on, f'{what}: the flag')

    def op(self):
        self.left -= 1
        self.k += 1
        return self.ctx.choice(f'op{self.k}', self.ops)

    def boom(self):
        k = self.ctx.choice(f'exc{self.k}', self.kinds) if len(self.kinds) > 1 else self.kinds[0]
        raise k('x')

    def run(self, on, depth=0):
        """the body of a block"""
        ctx, dw = self.ctx, self.ctx.dw
        while self.left > 0:
            op = self.op()
            if op in ('enter', 'deco', 'reuse', 'stack'):
                try:
                    if op == 'enter':
                        with dw.high_compatibility_mode():
                            self.check(True, 'entered')
                            self.run(True, depth + 1)
                    elif op == 'stack':
                        with contextlib.ExitStack() as st:
                            st.enter_context(dw.high_compatibility_mode())
                            self.check(True, 'entered')
                            self.run(True, depth + 1)
                    elif op == 'reuse':
                        @dw.high_compatibility_mode()
                        def f():
                            self.check(True, 'decorated')
                            self.run(True, depth + 1)
                        f()
                    else:
                        @dw.high_compatibility_mode_decorator
                        def g(x, *, y):
                            ctx.require(x == 1 and y == 2, 'arguments of the decorated function')
                            self.check(True, 'decorated')
                            self.run(True, depth + 1)
                        self.check(on, 'decorating')
                        g(1, y=2)
                except tuple(self.kinds) as e:
                    ctx.reached('raised through')
                except RuntimeError as e:
                    if StopIteration not in self.kinds:
                        raise
                self.check(on, 'left')
            elif op == 'leave':
                if depth:
                    return
                ctx.assume(False)
            elif op == 'raise':
                if depth:
                    self.boom()
                ctx.assume(False)
            elif op == 'add':                     # refused in the mode; the exception leaves the block
                self.n += 1
                if depth:
                    r = ctx.call(self.lf.add_zone, f'zone {self.n}')
                    ctx.require((r.exc is not None) == on, 'adding a zone')
                    if r.exc is not None:
                        raise self.kinds[0]('add')
                else:
                    ctx.require(ctx.call(self.lf.add_zone, f'zone {self.n}').exc is None or on, 'adding a zone')
            elif op == 'write':
                r = ctx.write(self.df, f'{self.k}.dlis')
                ctx.require((r.exc is not None) == on, 'writing signed integers')
                if r.exc is None:
                    R.read_all(ctx, r.data, REQ)
                    ctx.reached('written')
                elif depth:
                    raise self.kinds[0]('write')
            self.check(on, op)


def modes(steps, ops, kinds=(Boom,), start=(False, True)):
    def fn(ctx):
        m = Modes(ctx, steps, ops, kinds)
        s = ctx.choice('start', start)
        if s:
            if not m.flag:
                ctx.assume(False)
            reset(ctx, True)
        try:
            m.run(s)
            m.check(s, 'end')
        finally:
            reset(ctx)
        ctx.reached('done')
    return fn


def writes(steps):
    """one specification written again and again, in and outside of the mode"""
    def fn(ctx):
        reset(ctx)
        b = ctx.choice('breach', ['none', 'signed', 'unassigned', 'spacing', 'data'])
        x = ctx.array('x', '<f8', (2,))
        df = S.new_file(ctx)
        lf, _ = S.add_lf(df)
        i = lf.add_channel('I', data=np.array([0., 1., 5.]) if b == 'spacing' else np.array([0., 1., 2.]), units='m')
        if b == 'unassigned':
            lf.add_channel('U', data=np.arange(3, dtype=np.float64))
        y = lf.add_channel('Y', data=np.arange(3, dtype=np.int32 if b == 'signed' else np.uint32))
        lf.add_frame('F', channels=[i, y], index_type='BOREHOLE-DEPTH')
        lf.add_frame('G', channels=[lf.add_channel('X', data=x)])
        for k in range(steps):
            on = ctx.bool(f'mode{k}')
            bad = b not in ('none', 'data')
            kw = {}
            if b == 'data':                       # the breach comes with the data of this write
                bad = ctx.bool(f'bad{k}')
                kw = {'data': {'Y': np.arange(3, dtype=np.int16 if bad else np.uint16)}}
            w0 = ctx.warning_count()
            box = []

            def go():
                with mode(ctx, on):
                    box.append(ctx.write(df, f'{k}.dlis', **kw))
                    if box[0].exc is not None:
                        raise box[0].exc
            ctx.call(go)
            r = box[0]
            if not verdict(ctx, on, r, bad, f'write {k} ({b})', w0):
                ctx.require(bad, f'write {k}: refused because of the writes before') if k else None
                continue
            rd, sul, lfs = file_ok(ctx, r, f'write {k}')
            D.check_frame(ctx, rd, lfs[0], b'G', [x])
        q = ctx.call(ctx.dw.StorageUnitLabel, 'not safe')
        ctx.require(q.exc is None, 'the mode is still on')
    return fn




def scenarios(tier):
    t = tier == 'thorough'
    hi = 60 if t else 12
    g = [TYPES[i::4] for i in range(4)]
    I, F = ['i1', 'i2', 'i4'], ['u1', 'u2', 'u4', 'f4', 'f8']
    ops = ['enter', 'leave', 'raise', 'deco', 'add', 'write']
    n = 5 if t else 4
    U8 = ['<u1', '>u2', '<u4']
    return [
        *[Scenario(f'names-{i}', names(x, hi), 2) for i, x in enumerate(g)],
        Scenario('names-later', names(TYPES, hi, True), 2),
        Scenario('set-identifier', labels('set', hi), 1),
        Scenario('header-id', labels('header', hi), 1),
        Scenario('units-channel', soft('units', 'value', 17), 1),
        Scenario('units-attributes', soft('units', 'attr', 17), 4),
        Scenario('index-type', soft('index', '', 17), 1),
        Scenario('equipment-type', soft('eqtype', '', 17), 1),
        Scenario('equipment-location', soft('eqloc', '', 17), 1),
        Scenario('again', again, 1),
        Scenario('file-set-numbers', numbers(3), 3),
        Scenario('signed', signed(I, ['inline', 'dict', 'struct', 'h5']), 2),
        Scenario('unsigned', signed(F, ['inline', 'dict', 'struct', 'h5']), 2),
        Scenario('signed-second', signed(I + ['u2'], ['inline', 'dict'], True), 1),
        Scenario('members', members(False), 1),
        Scenario('members-second', members(True), 1),
        Scenario('uniform-unsigned', uniform(U8, [1, 2, 3], ''), 2),
        Scenario('uniform-float', uniform(['<f8', '>f4'], [1, 2, 3], ''), 2),
        Scenario('uniform-4', uniform(['<u2', '<f8'], [4], '', (0, 400)), 4),
        Scenario('uniform-signed', uniform(['<i4'], [2, 3], ''), 1),
        Scenario('uniform-nan', uniform(['<f8', '<f4'], [1, 2, 3], 'nan'), 1),
        Scenario('uniform-window', uniform(['<u2', '<f8'], [4], 'window', (0, 400)), 4),
        Scenario('uniform-user', uniform(['<u2', '<f8'], [3], 'user'), 1),
        Scenario('uniform-late', uniform(['<f8'], [3], 'late'), 1),
        Scenario('together', together, 2),
        Scenario('modes', modes(n, ops), 2),
        Scenario('modes-forms', modes(n - 1, ['enter', 'leave', 'raise', 'deco', 'reuse', 'stack']), 2),
        Scenario('modes-exceptions', modes(3, ['enter', 'raise', 'deco'],
                                           (Boom, KeyboardInterrupt, StopIteration, SystemExit)), 1),
        Scenario('writes', writes(3 if t else 2), 2),
    ]

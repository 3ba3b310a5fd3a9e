"""C07 Object identity is unique and every reference resolves in its logical file."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import objs as O

REQ = ()
BOUNDS = ('every reference attribute of every type to any of 2-3 same-named objects in two sets with two origins of any '
          'references (0..2^30-1, symbolic), decoys of the same name in other types; names of 1-2 symbolic characters of three '
          'or four objects; explicit, default and reassigned origin references; renaming before and after a write; '
          'self and mutual references; lists changed in place; frame and no-format references of same-named objects; two '
          'logical files with references into one another; 255-257 objects of one name; names of '
          '1..255 characters with all kinds of references; names of the types str, numpy.str_ and a subclass, and names which '
          'differ in case or blanks only')
OUTSIDE = 'more than three origins; graphs of more than six objects with symbolic names at once'

MARK = {
    'axis': ('spacing', b'SPACING', float), 'calibration': ('method', b'METHOD', str),
    'calibration_coefficient': ('label', b'LABEL', str), 'calibration_measurement': ('measurement_type', b'TYPE', str),
    'channel': ('long_name', b'LONG-NAME', str), 'comment': ('text', b'TEXT', str),
    'computation': ('long_name', b'LONG-NAME', str), 'equipment': ('serial_number', b'SERIAL-NUMBER', str),
    'frame': ('description', b'DESCRIPTION', str), 'group': ('description', b'DESCRIPTION', str),
    'long_name': ('quantity', b'QUANTITY', str), 'message': ('message_type', b'TYPE', str),
    'no_format': ('description', b'DESCRIPTION', str), 'parameter': ('long_name', b'LONG-NAME', str),
    'path': ('time', b'TIME', float), 'process': ('description', b'DESCRIPTION', str),
    'tool': ('description', b'DESCRIPTION', str), 'well_reference_point': ('vertical_zero', b'VERTICAL-ZERO', str),
    'zone': ('description', b'DESCRIPTION', str),
}
TYPE_OF = {O.TABLE[t][0]: t for t in O.TABLE}


def links():
    """{(set type, label): set type referred to, or None for references of any type}"""
    out = {}
    for t in O.TABLE:
        for a in O.TABLE[t][1]:
            if a.kind == 'lname':
                out[O.TABLE[t][0], a.label] = b'LONG-NAME'
            elif a.kind.startswith('ref:'):
                k = a.kind[4:]
                out[O.TABLE[t][0], a.label] = None if k == 'any' else O.TABLE[k][0]
            elif a.kind == 'objref':
                out[O.TABLE[t][0], a.label] = None
    return out


LINKS = links()


def mark(t, i):
    kw, label, f = MARK[t]
    return {kw: f'MK{i}' if f is str else 100.5 + i}


def unique(ctx, lf, literal=True, what=''):
    """identities, copy numbers, origins"""
    orig = [o.ob.origin for o in lf.of_type(b'ORIGIN')]
    # an origin's own reference is its origin field
    by = {}
    for s in lf.sets:
        by.setdefault(bytes(s.type), []).extend(s.objects)
    for t, os in by.items():
        for i, a in enumerate(os):
            ctx.require(ctx.or_(*[a.ob.origin == o for o in orig]),
                        f'{what}{t.decode()}: origin of an object is not that of an ORIGIN')
            for b in os[:i]:
                ctx.require(ctx.not_(a.ob.same(ctx, b.ob)), f'{what}two {t.decode()} objects of the same identity')
                if literal:
                    ctx.require(ctx.or_(ctx.not_(a.ob.name == b.ob.name), ctx.not_(a.ob.copy == b.ob.copy)),
                                f'{what}same-named {t.decode()} objects of the same copy number')
    return by


def resolve(ctx, rd, lf, by, what=''):
    """every reference in the file denotes exactly one object of the right type; in records, a preceding one"""
    n = 0
    for t, os in by.items():
        for o in os:
            for a in o.attrs:
                if a.rc not in (R.OBNAME, R.OBJREF) or a.values is None:
                    continue
                for v in a.values:
                    w = f'{what}{t.decode()} {a.label.decode()}'
                    if a.rc == R.OBJREF:
                        tt, ob = bytes(v.type), v.ob
                        want = LINKS.get((t, bytes(a.label)))
                        ctx.require(want is None or tt == want, f'{w}: reference to a {tt}')
                        cand = by.get(tt, [])
                    else:
                        ob = v
                        tt = LINKS.get((t, bytes(a.label)), 'none')
                        ctx.require(tt != 'none', f'{w}: unexpected reference')
                        cand = by.get(tt, []) if tt else [x for l in by.values() for x in l]
                    ctx.require(sum(ctx.ite(ob.same(ctx, c.ob), 1, 0) for c in cand) == 1,
                                f'{w}: the reference does not denote exactly one object')
                    n += 1
    seen = {b'FRAME': [], b'NO-FORMAT': []}
    for r in lf.records:
        if r.eflr:
            if bytes(r.set.type) in seen:
                seen[bytes(r.set.type)].extend(r.set.objects)
            continue
        ob, st = R.iflr_ref(rd, r, layer='')
        ctx.require(sum(ctx.ite(ob.same(ctx, c.ob), 1, 0) for c in seen[b'FRAME' if r.type == 0 else b'NO-FORMAT']) == 1,
                    f'{what}data record: the reference does not denote exactly one object defined before')
    return n


def marked(ctx, by, t, i):
    """the decoded object with a marker"""
    kw, label, f = MARK[t]
    v = mark(t, i)[kw]
    e = v.encode() if f is str else ctx.f64_bytes(v)
    hits = [o for o in by.get(O.TABLE[t][0], []) if o.get(label).values is not None and o.get(label).values[0] == e]
    ctx.require(len(hits) == 1, f'{t}: object {i} is not in the file once')
    return hits[0]


def refs_of(ctx, obj, label, what):
    a = obj.get(label)
    ctx.require(a.values is not None, f'{what} {label.decode()} is absent')
    return [(None, v) if a.rc == R.OBNAME else (bytes(v.type), v.ob) for v in a.values]


def decode(ctx, r, n=1):
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    ctx.require(len(lfs) == n, 'number of logical files')
    return rd, lfs


def make(lf, t, name, i, n=0, **kw):
    """an object with marker i"""
    kw.update(mark(t, i))
    if t == 'channel':
        kw['data'] = np.arange(2) + 0.5
    if t == 'frame':
        kw['channels'] = [lf.add_channel(f'CH-OF-{i}', data=np.arange(2) + 0.5)]
    return getattr(lf, 'add_' + t)(name, **kw)


def placed(lf, chs):
    """all channels in a frame of their own"""
    for i, c in enumerate(chs):
        lf.add_frame(f'FR-OF-{i}', channels=[c])


# ---- every reference attribute ------------------------------------------------------------------------------------

PICKS = [(t, a.name) for t in O.TABLE for a in O.TABLE[t][1] if a.kind == 'lname' or a.kind.startswith(('ref:', 'objref'))]
SPREAD = [('none', (None, None, None), (0, 0, 0)), ('sets', (None, 'S', None), (0, 0, 0)),
          ('origins', (None, None, None), (0, 1, 1)), ('both', ('S', None, 'S'), (1, 0, 1)),
          ('both2', ('', 'S', 'R'), (None, 1, None))]


def attribute(picks, objtypes, full):
    def fn(ctx):
        t, an = ctx.choice('pick', picks)
        a = O.attr(t, an)
        k = a.kind
        if k == 'lname':
            tt = 'long_name'
        elif k in ('objref', 'ref:any'):
            tt = ctx.choice('target', objtypes)
        else:
            tt = k[4:]
        if full:
            sp, sets, ors = ctx.choice('spread', SPREAD)
            j = ctx.choice('j', [0, 1, 2])
            early = ctx.bool('early')        # targets made before the origins
        else:
            (sp, sets, ors), j, early = ctx.choice('how', [(SPREAD[(q + z) % 5], (q + z) % 3, bool((q + z // 2) % 2))
                                                           for z, q in enumerate([PICKS.index((t, an))] * 4)])
        r0, r1 = ctx.int('r0', 0, 127), ctx.int('r1', 0, 2 ** 30 - 1 if full else 200)
        ctx.assume(ctx.not_(r0 == r1))
        df = S.new_file(ctx)
        lf = df.add_logical_file()

        def origins():
            lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=r0)
            lf.add_origin('ORIGIN', file_set_number=8, creation_time=S.T0, origin_reference=r1)
        ts = []

        def targets():
            for i in range(3):
                kw = {}
                if ors[i] is not None:
                    kw['origin_reference'] = [r0, r1][ors[i]]
                elif not early and i == 2:
                    kw['origin_reference'] = None
                ts.append(make(lf, tt, 'T', i, set_name=sets[i], **kw))
        if early:
            targets()
            lf.add_zone('T', description='decoy')
            origins()
        else:
            origins()
            lf.add_zone('T', description='decoy')
            targets()
        lf.add_axis('T', spacing=0.125)
        if tt == 'channel':
            placed(lf, ts)
        v = ts[j] if not a.mult else ([ts[j]] if j else [ts[0], ts[2]])
        want = [j] if not a.mult or j else [0, 2]
        kw = mark(t, 9) if t in MARK and MARK[t][0] != a.kw else {}
        if t == 'channel':
            kw['data'] = np.arange(4).reshape(2, 2) + 0.5 if an == 'axis' and len(want) == 1 else (
                np.arange(8).reshape(2, 2, 2) + 0.5 if an == 'axis' else np.arange(2) + 0.5)
            if an == 'axis' and len(want) == 2:
                v, want = [ts[0]], [0]
                kw['data'] = np.arange(4).reshape(2, 2) + 0.5
        if t == 'frame':
            v, want = [ts[j]], [j]
        if t == 'splice' and an in ('input_channels', 'zones'):
            other = 'zones' if an == 'input_channels' else 'input_channels'
            if other == 'zones':
                kw['zones'] = [lf.add_zone(f'OZ{i}') for i in range(len(want))]
            else:
                kw['input_channels'] = [lf.add_channel(f'OC{i}', data=np.arange(2) + 0.5) for i in range(len(want))]
                lf.add_frame('OF', channels=kw['input_channels'])
        if t in ('computation', 'parameter') and an == 'zones':
            kw['values'] = [1.5] * len(want)
        if t == 'frame' and tt == 'channel':
            # the channels are in the frame itself
            pass
        kw[a.kw] = v
        o = getattr(lf, 'add_' + t)('OBJ', **kw)
        if t == 'channel':
            lf.add_frame('OBJ-FRAME', channels=[o])
        if not lf.frames:
            S.simple_frame(lf, 2)
        rd, lfs = decode(ctx, ctx.write_ok(df))
        by = unique(ctx, lfs[0])
        resolve(ctx, rd, lfs[0], by)
        hits = [x for x in by[O.TABLE[t][0]] if x.ob.name == b'OBJ']
        ctx.require(len(hits) == 1, 'referring object is not in the file once')
        rf = refs_of(ctx, hits[0], a.label, t)
        ctx.require(len(rf) == len(want), f'{t} {an}: number of references')
        for (typ, ob), i in zip(rf, want):
            m = marked(ctx, by, tt, i)
            ctx.require(typ is None or typ == O.TABLE[tt][0], f'{t} {an}: reference to another type')
            ctx.require(ob.same(ctx, m.ob), f'{t} {an}: reference to another object')
            e = [r0, r1][ors[i]] if ors[i] is not None else r0
            ctx.require(m.ob.origin == e, f'{tt}: another origin')
        ctx.reached(t)
    return fn


# ---- names and copy numbers ---------------------------------------------------------------------------------------


def names(n, maxlen):
    """objects with symbolic names in one set or several; made between other objects"""
    def fn(ctx):
        t = ctx.choice('t', ['zone', 'process', 'axis', 'channel'])
        nm = [ctx.string(f'n{i}', 1, maxlen) if i < 2 else ctx.string(f'n{i}', 1, 1) for i in range(n)]
        sets = ctx.choice('sets', [(None,) * 4, (None, 'S', 'S', None), ('S', 'R', None, 'S')])
        df = S.new_file(ctx)
        lf, o = S.add_lf(df)
        if t == 'channel':
            nm = [ctx.choice(f'nc{i}', ['A', 'B']) for i in range(n)]
        os = [make(lf, t, nm[i], i, set_name=sets[i]) for i in range(n)]
        ref = {'zone': ('add_splice', 'zones'), 'process': ('add_group', 'object_list'), 'axis': ('add_group', 'object_list'),
               'channel': ('add_tool', 'channels')}[t]
        order = ctx.choice('order', [list(range(n)), list(range(n))[::-1]])
        kw = {ref[1]: [os[i] for i in order]}
        if t == 'zone':
            kw['input_channels'] = [lf.add_channel(f'IN{i}', data=np.arange(2) + 0.5) for i in range(n)]
            lf.add_frame('INF', channels=kw['input_channels'])
        getattr(lf, ref[0])('REF', **kw)
        if t == 'channel':
            placed(lf, os)
        elif not lf.frames:
            S.simple_frame(lf, 2)
        rd, lfs = decode(ctx, ctx.write_ok(df))
        by = unique(ctx, lfs[0])
        resolve(ctx, rd, lfs[0], by)
        st = {'add_splice': b'SPLICE', 'add_group': b'GROUP', 'add_tool': b'TOOL'}[ref[0]]
        rf = refs_of(ctx, by[st][0], ref[1].upper().replace('_', '-').encode(), 'list')
        ctx.require(len(rf) == n, 'number of references')
        for (typ, ob), i in zip(rf, order):
            m = marked(ctx, by, t, i)
            ctx.require(m.ob.name == nm[i].encode('ascii'), 'object of another name')
            ctx.require(ob.same(ctx, m.ob), 'reference to another object')
    return fn


def many(ctx):
    """copy numbers up to 255"""
    n = ctx.choice('n', [130, 256, 257])
    df = S.new_file(ctx)
    lf, o = S.add_lf(df)
    os = [lf.add_zone('Z', set_name='S' if i % 2 else None) for i in range(n)]
    lf.add_group('G', object_list=[os[n - 1], os[0], os[n // 2]])
    S.simple_frame(lf, 1)
    r = ctx.write(df)
    if not r.ok:
        ctx.require(n > 256, 'refused')
        return ctx.reached('refused')
    ctx.require(n <= 256, 'more than 256 objects of a name written')
    rd, lfs = decode(ctx, r)
    zs = lfs[0].of_type(b'ZONE')
    ctx.require(len(zs) == n, 'number of objects')
    ctx.require(len({int(z.ob.copy) for z in zs}) == n, 'copy numbers are not distinct')
    rf = refs_of(ctx, lfs[0].of_type(b'GROUP')[0], b'OBJECT-LIST', 'group')
    c = [int(x[1].copy) for x in rf]
    exp = [int(x.copy_number) for x in (os[n - 1], os[0], os[n // 2])]
    ctx.require(c == exp, 'reference to another object')


# ---- origins ------------------------------------------------------------------------------------------------------


def origins(full):
    return lambda ctx: origins_(ctx, full)


def origins_(ctx, full):
    """explicit, default and reassigned origin references; references to nothing are refused"""
    n = ctx.choice('n', [1, 2, 3])
    rg = [(0, 2 ** 30 - 1)] * 3 if full else [(0, 127), (100, 300), (16000, 2 ** 30 - 1)]
    rs = [ctx.int(f'r{i}', *rg[i]) for i in range(n)]
    for i in range(n):
        for k in range(i):
            ctx.assume(ctx.not_(rs[i] == rs[k]))
    e = ctx.int('e', 0, 2 ** 30 - 1)
    how = ctx.choice('how', ['explicit', 'reassign', 'none', 'channel', 'frame', 'no_format', 'between'])
    when = ctx.choice('when', ['before', 'after', 'mid'] if full or n == 2 else ['before', 'after'])
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    kw = {} if how in ('none', 'reassign') else {'origin_reference': e}
    st = {}

    def org(i):
        lf.add_origin(f'O{i}', file_set_number=7, creation_time=S.T0, origin_reference=rs[i])

    def objs():
        k = kw if how in ('explicit', 'reassign', 'none', 'between') else {}
        st['z'] = lf.add_zone('Z', description='MK0', **k)
        st['y'] = lf.add_zone('Z', description='MK1')
        st['c'] = lf.add_channel('C', data=np.arange(2) + 0.5, **(kw if how == 'channel' else {}))
        st['f'] = lf.add_frame('F', channels=[st['c']], **(kw if how == 'frame' else {}))
        st['n'] = lf.add_no_format('N', **(kw if how == 'no_format' else {}))
        lf.add_no_format_frame_data(st['n'], b'abc')
        st['p'] = lf.add_parameter('P', zones=[st['y'], st['z']], values=[1.5, 2.5])
    if when == 'before':
        objs()
    org(0)
    if when == 'mid':
        objs()
    for i in range(1, n):
        org(i)
    if when == 'after':
        objs()
    if how == 'reassign':
        st['z'].origin_reference = e
    r = ctx.write(df)
    good = ctx.or_(*[e == x for x in rs]) if how != 'none' else True
    if not r.ok:
        ctx.require(ctx.not_(good), f'a file with valid origin references has been refused: {ctx.exc_text(r.exc)}')
        return ctx.reached('refused')
    ctx.require(good, 'an origin reference to nothing has been written')
    rd, lfs = decode(ctx, r)
    by = unique(ctx, lfs[0])
    resolve(ctx, rd, lfs[0], by)
    for i, o in enumerate(by[b'ORIGIN']):
        ctx.require(o.ob.origin == rs[i], 'another reference of an origin')
    z, y = marked(ctx, by, 'zone', 0), marked(ctx, by, 'zone', 1)
    own = {'explicit': z, 'reassign': z, 'between': z, 'channel': by[b'CHANNEL'][0], 'frame': by[b'FRAME'][0],
           'no_format': by[b'NO-FORMAT'][0]}.get(how)
    for t, os in by.items():
        if t == b'ORIGIN':
            continue
        for o in os:
            ctx.require(o.ob.origin == (e if o is own else rs[0]), f'{t}: another origin')
    p = by[b'PARAMETER'][0]
    a, b = refs_of(ctx, p, b'ZONES', 'parameter')
    ctx.require(ctx.and_(a[1].same(ctx, y.ob), b[1].same(ctx, z.ob)), 'reference to another object')
    c = refs_of(ctx, by[b'FRAME'][0], b'CHANNELS', 'frame')
    ctx.require(c[0][1].same(ctx, by[b'CHANNEL'][0].ob), 'reference to another channel')


class Name(str):
    """a kind of text"""


def name_types(ctx):
    """equal and nearly equal names, of several kinds of text: one identity each, references reach the right one"""
    opts = [('str', 'A'), ('np', 'A'), ('sub', 'A'), ('str', 'a'), ('str', 'A '), ('str', ' A')]
    t = ctx.choice('t', ['zone', 'axis', 'frame'])
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    made = []
    later = ctx.bool('renamed')
    sets = ctx.choice('sets', [(None, None, None), ('A', None, 'B')])
    for i in range(3):
        k, n = ctx.choice(f'n{i}', opts)
        n = {'str': str, 'np': np.str_, 'sub': Name}[k](n)
        first = f'T{i}' if later else n
        if t == 'frame':
            o = lf.add_frame(first, channels=[lf.add_channel(f'C{i}', data=np.array([i], dtype=np.uint8))], description=f'MK{i}',
                             set_name=sets[i])
        elif t == 'axis':
            o = lf.add_axis(first, set_name=sets[i], **mark('axis', i))
        else:
            o = lf.add_zone(first, description=f'MK{i}', set_name=sets[i])
        if later:
            o.name = n
        made.append((o, n))
    g = lf.add_group('G', object_list=[o for o, _ in made], description='MK0')
    if t != 'frame':
        S.simple_frame(lf, 2)
    r = ctx.write(df)
    ctx.assume(r.exc is None or not later)         # renaming to a name which is in use may be refused
    ctx.require(r.exc is None, 'equal names are refused')
    rd, lfs = decode(ctx, r)
    by = unique(ctx, lfs[0])
    resolve(ctx, rd, lfs[0], by)
    rf = refs_of(ctx, marked(ctx, by, 'group', 0), b'OBJECT-LIST', 'group')
    ctx.require(len(rf) == 3, 'number of references')
    for i, (_, ob) in enumerate(rf):
        w = marked(ctx, by, t, i)
        ctx.require(w.ob.name == made[i][1].encode(), 'another name')
        ctx.require(ob.same(ctx, w.ob), 'reference to another object')


def default_origins(ctx):
    """origins without given references: distinct ones, the first for the objects"""
    n = ctx.choice('n', [1, 2, 3])
    g = ctx.choice('given', [(), (0,), (1,), (2,), (0, 1), (1, 2)])
    e = [ctx.int(f'e{i}', 0, 4) for i in range(len(g))]
    os = []
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    z = lf.add_zone('Z')
    sets = ctx.choice('sets', [(None, None, None), ('A', None, 'A')])
    for i in range(n):
        r = ctx.call(lf.add_origin, f'O{i}', file_set_number=7, creation_time=S.T0, set_name=sets[i],
                     **({'origin_reference': e[g.index(i)]} if i in g else {}))
        if r.ok:
            os.append(r.value)
        else:
            ctx.require(i in g and i > 0, 'an origin has been refused')
    S.simple_frame(lf, 2)
    ctx.assume(len(os) > 0)
    rd, lfs = decode(ctx, ctx.write_ok(df))
    by = unique(ctx, lfs[0])
    resolve(ctx, rd, lfs[0], by)
    o = by[b'ORIGIN']
    ctx.require(len(o) == len(os), 'number of origins')
    for i, a in enumerate(o):
        for b in o[:i]:
            ctx.require(ctx.not_(a.ob.origin == b.ob.origin), 'two origins of the same reference')
    first = [x for x in o if x.ob.name == os[0].name.encode()][0]
    for t in (b'ZONE', b'CHANNEL', b'FRAME', b'FILE-HEADER'):
        for x in by[t]:
            ctx.require(x.ob.origin == first.ob.origin, f'{t}: origin is not the defining one')


# ---- changes after the references were made -----------------------------------------------------------------------


def rename(ctx):
    """identity changed after being referred to, before or after a write; the references follow or the write is refused"""
    new = ctx.string('new', 1, 2)
    e = ctx.int('e', 0, 2 ** 30 - 1)
    what = ctx.choice('what', ['zone', 'frame', 'no_format', 'channel', 'origin-ref'])
    twice = ctx.choice('twice', ['no', 'write', 'obname'])
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    o0 = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=3)
    lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=4)
    sn = ctx.choice('sets', [(None, None, None), (None, 'B', 'B'), ('A', None, 'C')]) if what in ('zone', 'origin-ref') else (None,) * 3
    z = [lf.add_zone(n, description=f'MK{i}', set_name=s) for i, (n, s) in enumerate(zip('ZAZ', sn))]
    c = lf.add_channel('C', data=np.arange(2) + 0.5)
    f = lf.add_frame('F', channels=[c])
    nf = lf.add_no_format('N')
    lf.add_no_format_frame_data(nf, b'abc')
    lf.add_parameter('P', zones=[z[2], z[0], z[1]], values=[1.5, 2.5, 3.5])
    lf.add_group('G', object_list=[f, nf, c])
    if twice == 'write':
        ctx.write_ok(df, 'first.dlis')
    elif twice == 'obname':
        z[0].obname, f.obname, c.obname, nf.obname
    tgt = {'zone': z[0], 'frame': f, 'no_format': nf, 'channel': c, 'origin-ref': z[0]}[what]
    if what == 'origin-ref':
        tgt.origin_reference = e
    elif what == 'channel':
        tgt.name = ctx.choice('cname', ['A', 'CC'])
    else:
        tgt.name = new
    r = ctx.write(df)
    if not r.ok:
        if what == 'origin-ref':
            ctx.require(ctx.not_(ctx.or_(e == 3, e == 4)), 'refused')
        else:
            ctx.require(what == 'zone', 'refused')
            ctx.require(ctx.or_(new == 'A', new == 'Z'), 'refused though the names are distinct')
        return ctx.reached('refused')
    rd, lfs = decode(ctx, r)
    by = unique(ctx, lfs[0], literal=False)
    resolve(ctx, rd, lfs[0], by)
    m = [marked(ctx, by, 'zone', i) for i in range(3)]
    rf = refs_of(ctx, by[b'PARAMETER'][0], b'ZONES', 'parameter')
    for (t, ob), i in zip(rf, (2, 0, 1)):
        ctx.require(ob.same(ctx, m[i].ob), 'reference to another zone')
    rf = refs_of(ctx, by[b'GROUP'][0], b'OBJECT-LIST', 'group')
    for (t, ob), tt in zip(rf, (b'FRAME', b'NO-FORMAT', b'CHANNEL')):
        ctx.require(t == tt and ob.same(ctx, by[tt][0].ob), 'reference to another object')
    if what == 'zone':
        ctx.require(m[0].ob.name == new.encode('ascii'), 'not renamed')
    if what == 'origin-ref':
        ctx.require(m[0].ob.origin == e, 'another origin')


def lists(ctx):
    """lists of references changed in place or reassigned; self and mutual references; shared targets"""
    how = ctx.choice('how', ['append', 'replace', 'reassign', 'remove', 'caller list', 'tuple', 'self', 'mutual', 'shared',
                             'repeat'])
    a, b = ctx.string('a', 1, 1), ctx.string('b', 1, 1)
    df = S.new_file(ctx)
    lf, o = S.add_lf(df)
    z = [lf.add_zone(n, description=f'MK{i}') for i, n in enumerate([a, b, 'Z'])]
    g = [lf.add_group(n, description=f'MK{i}') for i, n in enumerate([a, b])]
    lst = [z[1], z[0]]
    p = lf.add_computation('P', zones=lst)
    q = lf.add_parameter('Q', zones=(z[2], z[1]), values=[1.5, 2.5])
    wp, wq = [1, 0], [2, 1]
    if how == 'append':
        p.zones.value.append(z[2])
        wp = [1, 0, 2]
    elif how == 'replace':
        p.zones.value[0] = z[2]
        wp = [2, 0]
    elif how == 'reassign':
        p.zones.value = [z[2], z[0]]
        wp = [2, 0]
    elif how == 'remove':
        del p.zones.value[0]
        wp = [0]
    elif how == 'caller list':
        lst[0] = z[2]           # either taken over or not; never something else
    elif how == 'tuple':
        p.zones.value = tuple([z[0], z[2]])
        wp = [0, 2]
    elif how == 'repeat':
        p.zones.value = [z[0], z[0], z[1]]
        wp = [0, 0, 1]
    if how == 'self':
        g[0].group_list.value = [g[0]]
        g[0].object_list.value = [g[0], g[1]]
    elif how == 'mutual':
        g[0].group_list.value = [g[1]]
        g[1].group_list.value = [g[0]]
    elif how == 'shared':
        g[0].object_list.value = g[1].object_list.value = [z[0], g[0], z[0]]
    S.simple_frame(lf, 2)
    rd, lfs = decode(ctx, ctx.write_ok(df))
    by = unique(ctx, lfs[0])
    resolve(ctx, rd, lfs[0], by)
    zs = [marked(ctx, by, 'zone', i) for i in range(3)]
    gs = [marked(ctx, by, 'group', i) for i in range(2)]

    def same(obj, label, want, what):
        rf = refs_of(ctx, obj, label, what)
        ctx.require(len(rf) == len(want), f'{what}: number of references')
        for (t, ob), w in zip(rf, want):
            ctx.require(ob.same(ctx, w.ob), f'{what}: reference to another object')
    if how == 'caller list':
        rf = refs_of(ctx, by[b'COMPUTATION'][0], b'ZONES', 'computation')
        ctx.require(len(rf) == 2, 'number of references')
        ctx.require(rf[1][1].same(ctx, zs[0].ob), 'reference to another object')
    else:
        same(by[b'COMPUTATION'][0], b'ZONES', [zs[i] for i in wp], 'computation')
    same(by[b'PARAMETER'][0], b'ZONES', [zs[i] for i in wq], 'parameter')
    if how == 'self':
        same(gs[0], b'GROUP-LIST', [gs[0]], 'group')
        same(gs[0], b'OBJECT-LIST', [gs[0], gs[1]], 'group')
    elif how == 'mutual':
        same(gs[0], b'GROUP-LIST', [gs[1]], 'group')
        same(gs[1], b'GROUP-LIST', [gs[0]], 'group')
    elif how == 'shared':
        for g_ in gs:
            same(g_, b'OBJECT-LIST', [zs[0], gs[0], zs[0]], 'group')


# ---- references opening data records ------------------------------------------------------------------------------


def data_records(full):
    return lambda ctx: data_records_(ctx, full)


def data_records_(ctx, full):
    """same-named frames and no-format objects in sets and with origins; the records refer to the right ones"""
    m = 2 ** 30 - 1
    r = [ctx.int('r0', 0, m if full else 127), ctx.int('r1', 0 if full else 100, m if full else 300)]
    ctx.assume(ctx.not_(r[0] == r[1]))
    sets = ctx.choice('sets', [(None, None, None), (None, 'S', None), ('S', None, 'S')])
    ors = ctx.choice('ors', [(0, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)])
    nm = [ctx.string('n0', 1, 1), ctx.string('n1', 1, 1)]
    early = ctx.bool('early')
    order = ctx.choice('order', [(0, 1, 2), (2, 0, 1), (1, 2, 0)] if full else [(2, 0, 1)])
    df = S.new_file(ctx)
    lf = df.add_logical_file()

    def org():
        lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=r[0])
        lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=r[1], set_name='S')
    if not early:
        org()
    nf = [lf.add_no_format((nm + nm)[i], description=f'MK{i}', set_name=sets[i], origin_reference=r[ors[i]]) for i in range(3)]
    for i in order:
        lf.add_no_format_frame_data(nf[i], b'payload%d' % i)
    for i in range(3):
        c = lf.add_channel('C%d' % i, data=np.array([i, i + 10], dtype=np.uint8), origin_reference=r[1 - ors[i]])
        lf.add_frame((nm + nm)[i], channels=[c], description=f'MK{i}', set_name=sets[i], origin_reference=r[ors[i]])
    if early:
        org()
    rd, lfs = decode(ctx, ctx.write_ok(df))
    by = unique(ctx, lfs[0])
    resolve(ctx, rd, lfs[0], by)
    got = []
    for rec in lfs[0].iflrs():
        ob, st = R.iflr_ref(rd, rec)
        if rec.type == 0:
            st.uvari()
            i = int(st.d[0]) % 10
            m = marked(ctx, by, 'frame', i)
            cn = refs_of(ctx, m, b'CHANNELS', 'frame')[0][1]
            ch = [x for x in by[b'CHANNEL'] if x.ob.name == b'C%d' % i][0]
            ctx.require(cn.same(ctx, ch.ob), 'frame refers to another channel')
            ctx.require(ch.ob.origin == r[1 - ors[i]], 'another origin of a channel')
        else:
            i = int(st.d[-1]) - 48
            m = marked(ctx, by, 'no_format', i)
            got.append(i)
        ctx.require(ob.same(ctx, m.ob), 'data record refers to another object')
        ctx.require(m.ob.origin == r[ors[i]], 'another origin')
    ctx.require(tuple(got) == order, 'order of the no-format records')


def long_names(ctx):
    """names up to the longest, origin references of one to four bytes: fields and references of any size"""
    n = ctx.string('n', 1, 255)
    e = ctx.int('e', 0, 2 ** 30 - 1)
    t = ctx.choice('t', ['frame', 'no_format', 'zone', 'long_name', 'axis', 'group', 'channel'])
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=e)
    if t == 'channel':
        n = 'C' * ctx.choice('k', [1, 127, 128, 254, 255])
    c = lf.add_channel(n if t == 'channel' else 'C', data=np.array([1, 2], dtype=np.uint8))
    kw = {'long_name': lf.add_long_name('LN')} if t == 'channel' else {}
    c2 = lf.add_channel(n if t == 'channel' else 'D', data=np.array([3, 4], dtype=np.uint8), **kw)
    f = [lf.add_frame(n if t == 'frame' else 'F', channels=[c], description='MK0'),
         lf.add_frame(n if t == 'frame' else 'G', channels=[c2], description='MK1')]
    nf = [lf.add_no_format(n if t == 'no_format' else 'N', description=f'MK{i}') for i in range(2)]
    for i in (1, 0, 1):
        lf.add_no_format_frame_data(nf[i], b'payload%d' % i)
    ln = lf.add_long_name(n if t == 'long_name' else 'L', quantity='MK0')
    z = [lf.add_zone(n if t == 'zone' else 'Z', description=f'MK{i}') for i in range(2)]
    ax = lf.add_axis(n if t == 'axis' else 'A', spacing=100.5)
    g = lf.add_group(n if t == 'group' else 'G', object_list=[f[1], z[0], nf[1]], description='MK0')
    lf.add_parameter('P', zones=[z[1], z[0]], long_name=ln, values=[1.5, 2.5], axis=ax)
    lf.add_computation('Q', source=f[1], long_name=ln, zones=[z[0]], values=[1.5])
    lf.add_group('GG', group_list=[g], object_list=[g, ln, c2], description='MK1')
    lf.add_process('PR', input_channels=[c2])
    rd, lfs = decode(ctx, ctx.write_ok(df))
    by = unique(ctx, lfs[0])
    resolve(ctx, rd, lfs[0], by)
    fr = [marked(ctx, by, 'frame', i) for i in range(2)]
    nn = [marked(ctx, by, 'no_format', i) for i in range(2)]
    zz = [marked(ctx, by, 'zone', i) for i in range(2)]
    gg = [marked(ctx, by, 'group', i) for i in range(2)]
    ll = marked(ctx, by, 'long_name', 0)
    cc = by[b'CHANNEL']

    def same(obj, label, want, what):
        rf = refs_of(ctx, obj, label, what)
        ctx.require(len(rf) == len(want), f'{what}: number of references')
        for (_, ob), w in zip(rf, want):
            ctx.require(ob.same(ctx, w.ob), f'{what}: reference to another object')
    p, q = by[b'PARAMETER'][0], by[b'COMPUTATION'][0]
    same(fr[0], b'CHANNELS', [cc[0]], 'frame')
    same(fr[1], b'CHANNELS', [cc[1]], 'frame')
    same(gg[0], b'OBJECT-LIST', [fr[1], zz[0], nn[1]], 'group')
    same(gg[1], b'OBJECT-LIST', [gg[0], ll, cc[1]], 'group')
    same(gg[1], b'GROUP-LIST', [gg[0]], 'group')
    same(p, b'ZONES', [zz[1], zz[0]], 'parameter')
    same(p, b'LONG-NAME', [ll], 'parameter')
    same(p, b'AXIS', [marked(ctx, by, 'axis', 0)], 'parameter')
    same(q, b'SOURCE', [fr[1]], 'computation')
    same(by[b'PROCESS'][0], b'INPUT-CHANNELS', [cc[1]], 'process')
    if t != 'channel':
        o = {'frame': fr[0], 'no_format': nn[0], 'zone': zz[0], 'long_name': ll, 'axis': by[b'AXIS'][0], 'group': gg[0]}[t]
        ctx.require(o.ob.name == n.encode('ascii'), f'{t}: another name')
    i = 0
    for rec in lfs[0].iflrs():
        ob, st = R.iflr_ref(rd, rec)
        if rec.type == 0:
            st.uvari()
            w = fr[0 if int(st.d[0]) < 3 else 1]
        else:
            w = nn[int(st.d[-1]) - 48]
        ctx.require(ob.same(ctx, w.ob), 'data record refers to another object')
        i += 1
    ctx.require(i == 7, 'number of data records')


def logical_files(ctx):
    """objects of equal names in two logical files; references into the other one are refused"""
    how = ctx.choice('how', ['own', 'zone', 'channel', 'nodata', 'long_name', 'group', 'late', 'origin'])
    n = ctx.string('n', 1, 1)
    e = ctx.int('e', 0, 3)
    il = ctx.bool('interleave')
    df = S.new_file(ctx)
    L = []
    for i in range(2):
        lf = df.add_logical_file()
        L.append({'lf': lf, 's': None if i == 0 else 'S', 'i': i})

    def s1(d):
        d['o'] = d['lf'].add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, set_name=d['s'],
                                    origin_reference=1 + d['i'])

    def s2(d):
        d['z'] = d['lf'].add_zone(n, description=f"MK{d['i']}", set_name=d['s'])
        d['l'] = d['lf'].add_long_name(n, quantity=f"MK{d['i']}", set_name=d['s'])
        d['c'] = d['lf'].add_channel('C', data=np.arange(2) + 0.5, set_name=d['s'])
        d['n'] = d['lf'].add_no_format(n, set_name=d['s'])

    def s3(d):
        x = L[0] if d['i'] == 1 and how != 'own' else d
        pick = lambda k, h: (x if how == h else d)[k]
        d['f'] = d['lf'].add_frame('F', channels=[pick('c', 'channel')], set_name=d['s'])
        if how == 'channel' and d['i'] == 1:
            d['lf'].add_frame('F2', channels=[d['c']], set_name=d['s'])
        d['p'] = d['lf'].add_parameter('P', zones=[pick('z', 'zone')], long_name=pick('l', 'long_name'), values=[1.5],
                                       set_name=d['s'])
        d['g'] = d['lf'].add_group('G', object_list=[d['z'], pick('f', 'group')], set_name=d['s'])
        if how == 'late' and d['i'] == 1:
            d['p'].zones.value = [d['z'], L[0]['z']]
        d['lf'].add_no_format_frame_data(pick('n', 'nodata'), b'abc')
        if how == 'origin' and d['i'] == 1:
            d['z'].origin_reference = e
    if il:
        for s in (s1, s2, s3):
            for d in L:
                s(d)
    else:
        for d in L:
            for s in (s2, s1, s3):
                s(d)
    r = ctx.write(df)
    if not r.ok:
        if how == 'origin':
            ctx.require(ctx.not_(e == 2), 'refused')
        else:
            ctx.require(how != 'own', 'refused')
        return ctx.reached('refused')
    ctx.require(how in ('own', 'origin'), 'a reference into another logical file has been written')
    rd, lfs = decode(ctx, r, 2)
    for d, lf in zip(L, lfs):
        w = f"file {d['i']}: "
        by = unique(ctx, lf, what=w)
        resolve(ctx, rd, lf, by, w)
        z = marked(ctx, by, 'zone', d['i'])
        rf = refs_of(ctx, by[b'PARAMETER'][0], b'ZONES', 'parameter')
        ctx.require(rf[0][1].same(ctx, z.ob), w + 'reference to another zone')


def scenarios(tier):
    q = tier == 'quick'
    ot = ['channel', 'zone', 'group'] if q else list(MARK)
    h = len(PICKS) // 3
    out = [Scenario(f'attributes-{i}', attribute(PICKS[i::4], ot, not q), 8) for i in range(4)]
    return out + [Scenario('names', names(3, 1 if q else 2), 4), Scenario('origins', origins(not q), 5),
                  Scenario('default-origins', default_origins, 2), Scenario('name-types', name_types, 2), Scenario('rename', rename, 3),
                  Scenario('lists', lists, 3), Scenario('data-records', data_records(not q), 5),
                  Scenario('logical-files', logical_files, 3), Scenario('long-names', long_names, 5), Scenario('many', many, 1)] + (
        [] if q else [Scenario('names-4', names(4, 1), 5)])

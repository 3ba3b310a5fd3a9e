"""C16 No-format payloads come back exactly, in order, under their object."""
from .base import Scenario
from . import reader as R
from . import spec as S

LEVEL = 'other'
BOUNDS = ('payload bytes/bytearray/ASCII text with every byte symbolic and symbolic length: one payload of 0..500 bytes '
          'at every even maximum record length 128..300; one payload of 0..3.5 record capacities at every even maximum '
          'record length 1024..16384; three payloads over two NO-FORMAT objects (0..9000 bytes, record length 8192; '
          '0..130 bytes, record length 128); four payloads of 0..13 bytes in eight orders over three objects (of one or of '
          'several names, sets and origins), the same Python object given twice; one to three logical files written twice with '
          'additions, new data or renames in between; 3..301 payloads of 0..100 bytes at record lengths 20, 64, 8192; text with '
          'any characters; name of the object 1..255 characters')
OUTSIDE = 'more than four payloads of symbolic content, payloads spanning more than five visible records'
REQ = ('phys', 'seg', 'iflr')


def payloads(n_objs, kinds, vrl, hi, caps=0):
    def fn(ctx):
        v = vrl if isinstance(vrl, int) else ctx.int('vrl', vrl[0], vrl[1], even=True)
        df = S.new_file(ctx, max_record_length=v)
        lf, o = S.add_lf(df)
        S.simple_frame(lf, 1)
        nfs = [lf.add_no_format(f'NF{i}') for i in range(n_objs)]
        exp = []
        for i, k in enumerate(kinds):
            if k == 's':
                d = ctx.string(f'p{i}', 0, hi)
                e = d.encode('ascii')
            else:
                d = ctx.payload(f'p{i}', 0, hi)
                e = d
                if k == 'a':
                    d = bytearray(d)
            if caps:
                ctx.assume(2 * len(e) <= 7 * v)
            ob = i % n_objs
            ctx.ok('add_no_format_frame_data', lf.add_no_format_frame_data, nfs[ob], d)
            exp.append((ob, e))
        check(ctx, df, v, exp)
    return fn


def check(ctx, df, v, exp, lfi=0):
    r = ctx.write_ok(df)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ, maxlen=v)
    ctx.observe('file', r.data)
    nf = [x for x in lfs[lfi].iflrs() if x.type == 1]
    ctx.require(len(nf) == len(exp), f'{len(nf)} no-format records for {len(exp)} payloads')
    for (ob, e), x in zip(exp, nf):
        ref, st = R.iflr_ref(rd, x)
        ctx.require(ref.name == b'NF' + str(ob).encode(), 'no-format record refers to another object')
        ctx.require(len(st.d) == len(e), 'payload length differs')
        ctx.require(st.d == e, 'payload bytes differ')
        ctx.reached('payload')


def interleaved(ctx):
    """payloads over two logical files and objects, interleaved with frames; one more after a first write"""
    df = S.new_file(ctx, max_record_length=8192)
    l1, _ = S.add_lf(df, fsn=1, fh_id='A')
    n0 = l1.add_no_format('NF0')
    p0 = ctx.payload('p0', 0, 40)
    ctx.ok('add', l1.add_no_format_frame_data, n0, p0)
    S.simple_frame(l1, 2)
    n1 = l1.add_no_format('NF1')
    p1 = ctx.string('p1', 0, 40)
    ctx.ok('add', l1.add_no_format_frame_data, n1, p1)
    exp = [(0, p0), (1, p1.encode('ascii'))]
    check(ctx, df, 8192, exp)
    p2 = ctx.payload('p2', 0, 40)
    ctx.ok('add', l1.add_no_format_frame_data, n0, p2)
    check(ctx, df, 8192, exp + [(0, p2)])


def owners_ok(ctx, rd, lf, exp):
    """exp: [(description of the object, bytes)]; the objects are told apart by their descriptions"""
    obs = [o for s in lf.sets if s.type == b'NO-FORMAT' for o in s.objects]
    nf = [x for x in lf.iflrs() if x.type == 1]
    ctx.require(len(nf) == len(exp), f'{len(nf)} no-format records for {len(exp)} payloads')
    for (ds, e), x in zip(exp, nf):
        ref, st = R.iflr_ref(rd, x)
        hits = [o for o in obs if bool(ref.same(ctx, o.ob))]
        ctx.require(len(hits) == 1, 'the reference of a no-format record is not that of one object')
        ctx.require(hits[0].get(b'DESCRIPTION').values[0] == ds.encode(), 'no-format record refers to another object')
        ctx.require(len(st.d) == len(e), 'payload length differs')
        ctx.require(st.d == e, 'payload bytes differ')
        ctx.reached('payload')


def items(ctx, n, kinds, lens, tag=''):
    """n payloads of given kinds and lengths -> [(given, expected)]"""
    out = []
    for i in range(n):
        k, m = kinds[i % len(kinds)], lens[i % len(lens)]
        if k == 's':
            d = ctx.string(f'p{tag}{i}', m, m)
            out.append((d, d.encode('ascii')))
        else:
            d = ctx.payload(f'p{tag}{i}', m, m)
            out.append((bytearray(d) if k == 'a' else d, d))
    return out


WHO = ['0000', '0101', '0120', '2100', '1102', '0012', '1111', '2021']
SETS = [(None, None, None), ('S', None, 'S'), ('A', 'B', 'C'), (None, 'S', None)]


def sequences(names, which):
    def fn(ctx):
        """any order of owners, kinds and (equal) contents; objects of one or of several names, sets and origins"""
        who = ctx.choice('who', WHO)
        kinds = ctx.choice('kinds', ['bbbb', 'ssss', 'sbab', 'absa'] if which == 'contents' else ['sbab'])
        lens = ctx.choice('lens', [[2], [1, 0, 2, 0], [0, 0, 3, 1], [12, 11, 13, 12]] if which == 'contents' else [[2]])
        sets = ctx.choice('sets', SETS if which == 'owners' else SETS[:1])
        ors = ctx.bool('origins') if which == 'owners' else False
        twice = ctx.choice('same', [None, (0, 1), (1, 3), (0, 2)] if which == 'contents' else [None, (0, 1)])     # one Python object given twice
        df = S.new_file(ctx, max_record_length=8192)
        lf, o = S.add_lf(df)
        o2 = lf.add_origin('O2', file_set_number=9, creation_time=S.T0)
        S.simple_frame(lf, 2)
        obs = [lf.add_no_format(names[i], description=f'D{i}', set_name=sets[i],
                                **({'origin_reference': o2.origin_reference} if ors and i == 1 else {})) for i in range(3)]
        ps = items(ctx, 4, kinds, lens)
        if twice:
            ps[twice[1]] = ps[twice[0]]
        exp = []
        for w, (d, e) in zip(who, ps):
            ctx.ok('add', lf.add_no_format_frame_data, obs[int(w)], d)
            exp.append((f'D{w}', e))
        r = ctx.write_ok(df)
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ, maxlen=8192)
        owners_ok(ctx, rd, lfs[0], exp)
    return fn


def logical_files(ctx):
    """payloads of several logical files, added in any order; written twice, with more payloads or other data in between"""
    n = ctx.choice('files', [1, 2, 3])
    pat = ctx.choice('order', ['012', '0011', '2100', '1210', '001122'])
    more = ctx.choice('more', ['none', 'first', 'last', 'new object', 'new data', 'renamed'])
    df = S.new_file(ctx, max_record_length=8192)
    lfs_, nf = [], []
    for i in range(n):
        sn = f'L{i}' if i else None
        lf = df.add_logical_file(fh_id=f'F{i}')
        lf.add_origin('ORIGIN', file_set_number=7 + i, creation_time=S.T0, set_name=sn)
        S.simple_frame(lf, 1, set_name=sn)
        nf.append([lf.add_no_format('N', description=f'D{i}', set_name=sn)])
        lfs_.append(lf)
    exp = [[] for i in range(n)]
    recs_ = []

    def add(i, tag, k):
        (d, e), = items(ctx, 1, k, [3], tag)
        r = ctx.ok('add', lfs_[i].add_no_format_frame_data, nf[i][-1], d)
        recs_.append((r, i, len(exp[i])))
        exp[i].append((f'D{i}' + ('x' if len(nf[i]) > 1 else ''), e))

    def verify():
        r = ctx.write_ok(df)
        ctx.observe('file', r.data)
        rd, sul, segs, recs, out = R.read_all(ctx, r.data, REQ, maxlen=8192)
        ctx.require(len(out) == n, 'number of logical files')
        for x, e in zip(out, exp):
            owners_ok(ctx, rd, x, e)
    for j, c in enumerate(pat):
        add(int(c) % n, f'a{j}', 'sb'[j % 2])
    verify()
    if more in ('first', 'last'):
        add(0 if more == 'first' else n - 1, 'm', 'b')
    elif more == 'new object':
        nf[-1].append(lfs_[-1].add_no_format('N', description=f'D{n - 1}x', set_name=f'L{n - 1}' if n > 1 else None))
        add(n - 1, 'm', 's')
    elif more == 'new data':
        r, i, k = recs_[0]
        if not hasattr(r, 'data'):
            return
        d = ctx.string('new', 5, 5)
        r.data = d
        exp[i][k] = (exp[i][k][0], d.encode('ascii'))
    elif more == 'renamed':
        nf[0][0].name = ctx.string('renamed', 3, 3)
    verify()


def any_text(ctx):
    """text which is not ASCII is refused, or nothing of it is altered"""
    n = ctx.choice('n', [1, 2, 7])
    df = S.new_file(ctx, max_record_length=8192)
    lf, o = S.add_lf(df)
    S.simple_frame(lf, 1)
    obs = [lf.add_no_format('N', description=f'D{i}') for i in range(2)]
    t, p = ctx.string('t', n, n, ascii_='any'), ctx.payload('p', 3, 3)
    first = ctx.bool('first')
    pair = [('D0', t, obs[0]), ('D1', p, obs[1])]
    exp = []
    for ds, d, ob in pair if first else pair[::-1]:
        r = ctx.call(lf.add_no_format_frame_data, ob, d)
        if not r.ok:
            ctx.require(ds == 'D0', 'bytes refused')
            ctx.require(ctx.not_(ctx.isascii(t)), 'ASCII text refused')
            return ctx.reached('refused')
        exp.append((ds, d))
    r = ctx.write(df)
    if not r.ok:
        ctx.require(ctx.not_(ctx.isascii(t)), 'ASCII text refused')
        return ctx.reached('refused')
    ctx.require(ctx.isascii(t), 'text which is not ASCII accepted')
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ, maxlen=8192)
    owners_ok(ctx, rd, lfs[0], [(ds, d.encode('ascii') if ds == 'D0' else d) for ds, d in exp])


def many(ctx):
    """hundreds of payloads of all lengths, with frames"""
    n = ctx.choice('n', [3, 127, 128, 300])
    step = ctx.choice('step', [0, 1, 7])
    v = ctx.choice('vrl', [20, 64, 8192])
    k = ctx.choice('kind', ['b', 's', 'a'])
    df = S.new_file(ctx, max_record_length=v)
    lf, o = S.add_lf(df)
    S.simple_frame(lf, 1)
    obs = [lf.add_no_format('N', description=f'D{i}') for i in range(2)]
    exp = []
    for i in range(n):
        e = bytes((i * 5 + j) % 128 if k == 's' else (i + j) % 256 for j in range(i * step % 100))
        d = e.decode('ascii') if k == 's' else bytearray(e) if k == 'a' else e
        ctx.ok('add', lf.add_no_format_frame_data, obs[i % 3 % 2], d)
        exp.append((f'D{i % 3 % 2}', e))
    p = ctx.payload('last', 2, 2)
    ctx.ok('add', lf.add_no_format_frame_data, obs[1], p)
    exp.append(('D1', p))
    r = ctx.write_ok(df)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ, maxlen=v)
    owners_ok(ctx, rd, lfs[0], exp)


def longname(ctx):
    """object name of any length: the reference that opens the record does not disturb the payload"""
    df = S.new_file(ctx, max_record_length=8192)
    lf, _ = S.add_lf(df)
    S.simple_frame(lf, 1)
    nm = ctx.string('name', 1, 255)
    nf = ctx.must(lf.add_no_format, nm)
    p0 = ctx.payload('p0', 0, 40)
    ctx.ok('add', lf.add_no_format_frame_data, nf, p0)
    r = ctx.write_ok(df)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ, maxlen=8192)
    x = [x for x in lfs[0].iflrs() if x.type == 1]
    ctx.require(len(x) == 1, 'number of no-format records')
    ref, st = R.iflr_ref(rd, x[0])
    ctx.require(ref.name == nm.encode('ascii'), 'reference differs')
    ctx.require(st.d == p0, 'payload differs')


def scenarios(tier):
    q = tier == 'quick'
    return [
        Scenario('one-bytes', payloads(1, 'b', (128, 300), 500), 2),
        Scenario('one-str', payloads(1, 's', (128, 300), 500), 2),
        Scenario('one-bytearray-caps', payloads(1, 'a', (1024, 16384), 60000, 1), 2),
        Scenario('one-bytes-caps', payloads(1, 'b', (1024, 16384), 60000, 1), 2),
        Scenario('three-mixed', payloads(2, 'bsa', 8192, 9000), 2),
        Scenario('three-small', payloads(2, 'sab', 128, 130), 2),
        Scenario('interleaved', interleaved, 1),
        Scenario('longname', longname, 1),
        Scenario('sequences', sequences(['A', 'B', 'C'], 'contents'), 3),
        Scenario('sequences-sets', sequences(['A', 'B', 'C'], 'owners'), 2),
        Scenario('sequences-same-names', sequences(['N', 'N', 'N'], 'owners'), 2),
        Scenario('logical-files', logical_files, 2),
        Scenario('many', many, 2), Scenario('any-text', any_text, 1),
    ] + ([] if q else [
        Scenario('wide-bytes', payloads(1, 'b', (128, 16384), 40000), 3),
        Scenario('wide-str', payloads(1, 's', (64, 16384), 40000), 3),
    ])

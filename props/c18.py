"""C18 Frames and logical files are isolated from one another."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S
from . import data as D

REQ = ('iflr',)
BOUNDS = ('2-3 frames with 1-3 rows each (symbolic cells), interleaved creation orders, equal channel/dataset names, windows; '
          '2-3 logical files with symbolic names and values, equal object names in differently named sets, interleaved '
          'creation, empty/symbolic set names (shared sets), frames and no-format data in each; chunk sizes; four channels of '
          'equal names with every mix of explicit and automatic data set names; sequence numbers and set names in any order, equal numbers; '
          'logical files added after a write; one to four frames of one name')
OUTSIDE = 'more than three logical files or frames'


def inventory(lf):
    """[(set type, object)] of a decoded logical file"""
    return [(s.type, o) for s in lf.sets for o in s.objects]


def frames_of(ctx, lf):
    return lf.of_type(b'FRAME')


def frames(n_rows, same_names=False, data='inline', window=False):
    """several frames in one logical file"""
    def fn(ctx):
        n = len(n_rows)
        df = S.new_file(ctx)
        lf, _ = S.add_lf(df)
        arrs, chs = [], []
        order = ctx.choice('create', [list(range(n)), list(range(n))[::-1]])
        ck = ctx.choice('ck', [None, 1, 2])
        dts = [('<f4', '>u2'), ('>f8', '<u1'), ('<i2', '>f4')]
        for i in range(n):
            t = dts[i % 3]
            arrs.append((ctx.array(f'a{i}', t[0], (n_rows[i],)), ctx.array(f'b{i}', t[1], (n_rows[i], 2))))
        made = {}
        lo, hi = ctx.choice('window', [(1, None), (0, 2), (1, 2), (0, 1)]) if window else (0, None)
        mix = ctx.bool('mix')       # all channels first, then the frames (or frame by frame)
        kw = {}

        def channels(i):
            nm = ('X', 'Y') if same_names else (f'X{i}', f'Y{i}')
            kk = [{'data': a} for a in arrs[i]] if data == 'inline' else [{}, {}]
            made[i] = [lf.add_channel(nm[0], **kk[0]), lf.add_channel(nm[1], **kk[1])]

        def frame(i):
            lf.add_frame(f'F{i}', channels=made[i])
        if mix:
            for i in order:
                channels(i)
            for i in reversed(order):
                frame(i)
        else:
            for i in order:
                channels(i)
                frame(i)
        if data == 'dict':
            kw['data'] = {made[i][k].dataset_name: arrs[i][k] for i in reversed(range(n)) for k in (0, 1)}
        r = ctx.write_ok(df, input_chunk_size=ck, **kw, **({'from_idx': lo, 'to_idx': hi} if window else {}))
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        ctx.require(len(lfs) == 1, 'number of logical files')
        ctx.require(len(frames_of(ctx, lfs[0])) == n, 'number of frames')
        tot = 0
        for i in range(n):
            nm = [b'X', b'Y'] if same_names else [b'X%d' % i, b'Y%d' % i]
            D.check_frame(ctx, rd, lfs[0], b'F%d' % i, [a[lo:hi] for a in arrs[i]] if window else list(arrs[i]), names=nm)
            tot += (n_rows[i] if hi is None else hi) - lo
        ctx.require(len(lfs[0].iflrs()) == tot, 'number of data records')
    return fn


def same_frame_name(ctx):
    """frames of one name (copy numbers), in one set or several, with different rows"""
    arrs = [ctx.array(f'a{i}', t, (n,)) for i, (t, n) in enumerate([('<f4', 2), ('>u2', 3), ('<f8', 1), ('<i4', 2)])]
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    sets = ctx.choice('sets', [(None,) * 4, (None, 'S', None, 'S'), ('S', None, 'A', 'S')])
    for i, a in enumerate(arrs):
        lf.add_frame('F', channels=[lf.add_channel(f'C{i}', data=a)], set_name=sets[i])
    r = ctx.write_ok(df, input_chunk_size=ctx.choice('ck', [None, 1]))
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    copies = [f.ob.copy for f in lfs[0].of_type(b'FRAME')]
    ctx.require(len(copies) == 4, 'number of frames')
    for i, a in enumerate(arrs):
        f = [x for x in lfs[0].of_type(b'FRAME') if D.vals(ctx, x, b'CHANNELS')[0].name == b'C%d' % i]
        ctx.require(len(f) == 1 and f[0].ob.name == b'F', 'frame of a channel')
        D.check_frame(ctx, rd, lfs[0], b'F', [a], copy=f[0].ob.copy, names=[b'C%d' % i])


def dataset_names(ctx):
    """channels (of one name or several) with automatic and chosen data set names: each keeps its own data"""
    pool = [('A', None), ('B', None), ('B', 'A'), ('B', 'A__1'), ('A', 'A__2'), ('A__1', None), ('A', 'x')]
    n = 4
    df = S.new_file(ctx)
    lf, _ = S.add_lf(df)
    one = ctx.choice('frames', ['each', 'pairs'])
    made = []
    for i in range(n):
        nm, ds = ctx.choice(f'c{i}', pool)
        a = ctx.array(f'a{i}', ['<f4', '>i2', '<u1', '>f8'][i], (1 + i // 2 if one == 'pairs' else 1 + i % 2,))
        sn = f'S{i}'
        r = ctx.call(lf.add_channel, nm, data=a, dataset_name=ds, set_name=sn if i % 2 else None)
        if r.exc is not None:
            # refused: the name is taken (by another channel's data set); nothing of it may stay behind
            ctx.require(ds is not None, 'no data set name found for a channel')
            continue
        made.append((nm, r.value, a))
    fr = []
    groups = [[m] for m in made] if one == 'each' else [made[:2], made[2:]]
    for g in groups:
        if len({x[2].shape for x in g}) > 1 or len({x[0] for x in g}) < len(g):
            ctx.assume(False)       # different row counts, or one name twice in a frame
        if g:
            fr.append(g)
            lf.add_frame(f'F{len(fr)}', channels=[x[1] for x in g])
    ctx.assume(bool(fr))
    r = ctx.write_ok(df)
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    for i, g in enumerate(fr):
        D.check_frame(ctx, rd, lfs[0], b'F%d' % (i + 1), [x[2] for x in g], names=[x[0].encode() for x in g])


def fill(ctx, lf, i, k, sn, arr):
    """objects of several types, equal names in every logical file, values that tell the files apart"""
    o = lf.add_origin('ORIGIN', file_set_number=7 + i, creation_time=S.T0, set_name=sn, well_name=f'W{i}')
    return o


def build(ctx, n, interleave, names_equal=True, wide=False, first=None, meet=None):
    """n logical files (the `first` ones, then meet(df, specs so far), then the others); -> (df, [spec per file])"""
    df = S.new_file(ctx)
    specs = []
    # sequence numbers and set names in another order than the logical files
    seqs, sets = ctx.choice('numbers', [((1, 2, 3), (None, 'S1', 'S2')), ((9, 5, 5), ('Z', None, 'A'))])
    for i in range(n):
        nm = (lambda s, i=i: s) if names_equal else (lambda s, i=i: f'{s}{i}')
        rows = i + 1
        specs.append({'i': i, 'set': sets[i], 'hid': ctx.string(f'hid{i}', 1 if i == 0 or wide else 4, 8 if i == 0 or wide else 4),
                      'arr': ctx.array(f'a{i}', ['<f4', '>u2', '<f8'][i], (rows,)),
                      'txt': ctx.string(f't{i}', 5, 6 if i == 1 or wide else 5),
                      'pay': ctx.payload(f'p{i}', 0 if i == 0 or wide else 13, 30 if i == 0 or wide else 13),
                      'nm': nm})

    def s_lf(s):
        s['lf'] = df.add_logical_file(fh_id=s['hid'], fh_sequence_number=seqs[s['i']])

    def s_origin(s):
        s['o'] = s['lf'].add_origin(s['nm']('ORIGIN'), file_set_number=7 + s['i'], creation_time=S.T0,
                                    set_name=s['set'], well_name=f"W{s['i']}")

    def s_zone(s):
        s['z'] = s['lf'].add_zone(s['nm']('ZONE'), description=s['txt'], set_name=s['set'])

    def s_param(s):
        s['p'] = s['lf'].add_parameter(s['nm']('PAR'), values=[s['i'] + 0.5], zones=[s['z']], set_name=s['set'])

    def s_frame(s):
        s['c'] = s['lf'].add_channel(s['nm']('CH'), data=s['arr'], set_name=s['set'])
        s['f'] = s['lf'].add_frame(s['nm']('FR'), channels=[s['c']], set_name=s['set'])

    def s_nf(s):
        s['n'] = s['lf'].add_no_format(s['nm']('NF'), description=s['txt'], set_name=s['set'])
        s['lf'].add_no_format_frame_data(s['n'], s['pay'])
    steps = [s_lf, s_origin, s_zone, s_param, s_frame, s_nf]
    if first is not None:
        for st in steps:
            for s in specs[:first]:
                st(s)
        meet(df, specs[:first])
        for st in steps:
            for s in specs[first:]:
                st(s)
    elif interleave == 'files':
        for s in specs:
            for st in steps:
                st(s)
    elif interleave == 'steps':
        for st in steps:
            for s in specs:
                st(s)
    else:
        for k, st in enumerate(steps):
            for s in (specs if k == 0 or k % 2 else specs[::-1]):
                st(s)
    return df, specs


def check(ctx, df, specs, r, what=''):
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    ctx.require(len(lfs) == len(specs), f'{len(lfs)} logical files instead of {len(specs)}')
    for s, lf in zip(specs, lfs):
        i, nm = s['i'], lambda x, s=s: s['nm'](x).encode()
        h = lf.of_type(b'FILE-HEADER')
        ctx.require(len(h) == 1, 'number of headers in a logical file')
        ctx.require(D.vals(ctx, h[0], b'ID')[0][:ctx.slen(s['hid'])] == s['hid'].encode('ascii'),
                    f'logical file {i} opens with another header')
        inv = inventory(lf)
        want = {b'FILE-HEADER': 1, b'ORIGIN': 1, b'ZONE': 1, b'PARAMETER': 1, b'CHANNEL': 1, b'FRAME': 1, b'NO-FORMAT': 1}
        got = {}
        for t, o in inv:
            got[bytes(t)] = got.get(bytes(t), 0) + 1
        ctx.require(got == want, f'logical file {i} holds {got}')
        o = lf.of_type(b'ORIGIN')[0]
        ctx.require(D.vals(ctx, o, b'FILE-SET-NUMBER') == [7 + i], 'origin of another file')
        ctx.require(D.vals(ctx, o, b'WELL-NAME') == [b'W%d' % i], 'origin values of another file')
        for t, ob in inv:
            ctx.require(ob.ob.origin == o.ob.origin, f'{t} object of logical file {i} with the origin of another one')
        z = lf.of_type(b'ZONE')[0]
        ctx.require(D.vals(ctx, z, b'DESCRIPTION')[0] == s['txt'].encode('ascii'), 'zone of another file')
        p = lf.of_type(b'PARAMETER')[0]
        ctx.require(D.vals(ctx, p, b'VALUES') == [ctx.f64_bytes(i + 0.5)], 'parameter of another file')
        ctx.require(D.vals(ctx, p, b'ZONES')[0].same(ctx, z.ob), 'zone reference')
        D.check_frame(ctx, rd, lf, nm('FR'), [s['arr']], names=[nm('CH')])
        nf = [x for x in lf.iflrs() if x.type == 1]
        ctx.require(len(nf) == 1, 'number of no-format records')
        ref, st = R.iflr_ref(rd, nf[0])
        ctx.require(ref.same(ctx, lf.of_type(b'NO-FORMAT')[0].ob), 'no-format reference')
        ctx.require(st.d == s['pay'], 'payload of another file')
        ctx.require(len(lf.iflrs()) == 1 + len(s['arr']), 'data records of a logical file')
    ctx.reached('files')


def several(n, names_equal, wide=False):
    def fn(ctx):
        df, specs = build(ctx, n, ctx.choice('interleave', ['files', 'steps', 'zigzag']), names_equal, wide)
        r = ctx.write_ok(df, input_chunk_size=ctx.choice('ck', [None, 1]))
        ctx.observe('file', r.data)
        check(ctx, df, specs, r)
    return fn


def rewritten(ctx):
    """written, extended by logical files, written again"""
    n, first = ctx.choice('n', [(2, 1), (3, 2), (3, 1), (2, 2)])

    def meet(df, specs):
        check(ctx, df, specs, ctx.write_ok(df))
    df, specs = build(ctx, n, '', ctx.bool('equal names'), first=first, meet=meet)
    r = ctx.write_ok(df)
    check(ctx, df, specs, r)
    ctx.observe('file', r.data)


TYPES = ['zone', 'comment', 'axis', 'message', 'group', 'tool', 'equipment', 'parameter', 'long_name', 'process',
         'no_format', 'well_reference_point', 'calibration_coefficient', 'splice', 'path', 'computation']


def shared_set(ctx):
    """objects of one type from two logical files with symbolic set names: rejected if that would be one set"""
    t = ctx.choice('type', TYPES)
    s0, s1 = ctx.string('s0', 0, 3), ctx.string('s1', 0, 3)
    none0 = ctx.bool('none0')
    df = S.new_file(ctx)
    lfs = []
    for i in (0, 1):
        lf = df.add_logical_file(fh_id=f'H{i}')
        lf.add_origin('O', file_set_number=i + 1, creation_time=S.T0, set_name=f'SET{i}')
        c = lf.add_channel('C', data=np.arange(i + 1, dtype='u1'), set_name=f'SET{i}')
        lf.add_frame('F', channels=[c], set_name=f'SET{i}')
        lfs.append(lf)
    kw = lambda: {'values': [1.5]} if t == 'parameter' else {}      # noqa: E731
    ctx.must(getattr(lfs[0], 'add_' + t), 'OBJ0', set_name=None if none0 else s0, **kw())
    ctx.must(getattr(lfs[1], 'add_' + t), 'OBJ1', set_name=s1, **kw())
    r = ctx.write(df)
    e0 = True if none0 else ctx.eq(s0, '')
    same = ctx.and_(e0, ctx.eq(s1, '')) if none0 else ctx.eq(s0, s1)
    if r.exc is not None:
        ctx.require(same, 'differently named sets refused')
        ctx.reached('refused')
        return
    ctx.require(ctx.not_(same), 'objects of two logical files in one set')
    rd, sul, segs, recs, out = R.read_all(ctx, r.data, REQ)
    ctx.require(len(out) == 2, 'logical files')
    for i in (0, 1):
        obs = [o for _, o in inventory(out[i]) if o.ob.name[:3] == b'OBJ']
        ctx.require(len(obs) == 1, f'{len(obs)} objects in logical file {i}')
        ctx.require(obs[0].ob.name == b'OBJ%d' % i, 'object of another logical file')
    ctx.reached('written')


def shared_header(ctx):
    """one header object, or header set, for two logical files; shared origin sets; cross references"""
    df = S.new_file(ctx)
    case = ctx.choice('case', ['header', 'origin', 'channel', 'frame', 'xref-zone', 'xref-channel', 'xref-nf', 'ok'])
    l0 = df.add_logical_file(fh_id='H0')
    kw = {'file_header': l0.file_header} if case == 'header' else {'fh_id': 'H1'}
    r1 = ctx.call(df.add_logical_file, **kw)
    if r1.exc is not None:
        return
    l1 = r1.value
    made = []

    def part(i, lf):
        sn = lambda t: f'S{i}' if case != t else None       # noqa: E731
        o = lf.add_origin('O', file_set_number=i + 1, creation_time=S.T0, set_name=sn('origin'))
        c = lf.add_channel('C', data=np.arange(i + 1, dtype='u1'), set_name=sn('channel'))
        z = lf.add_zone('Z', set_name=sn('zone'))
        n = lf.add_no_format('N', set_name=sn('nf'))
        made.append((o, c, z, n))
        chs = [made[0][1]] if case == 'xref-channel' else [c]
        lf.add_frame('F', channels=chs, set_name=sn('frame'))
        lf.add_parameter('P', zones=[made[0][2] if case == 'xref-zone' else z], values=[1], set_name=sn('par'))
        lf.add_no_format_frame_data(made[0][3] if case == 'xref-nf' else n, b'x')
    for i, lf in enumerate((l0, l1)):
        q = ctx.call(part, i, lf)
        if q.exc is not None:
            ctx.require(case != 'ok', 'valid specification refused')
            return
    r = ctx.write(df)
    if case == 'ok':
        ctx.require(r.exc is None, 'valid specification refused')
        rd, sul, segs, recs, out = R.read_all(ctx, r.data, REQ)
        ctx.require(len(out) == 2, 'logical files')
        return
    ctx.require(r.exc is not None, f'{case}: shared between logical files, yet written')
    ctx.reached('refused')


def scenarios(tier):
    q = tier == 'quick'
    return [
        Scenario('frames-2', frames([1, 3]), 1),
        Scenario('frames-3', frames([2, 1, 3]), 1),
        Scenario('frames-same-names', frames([2, 3], True), 1),
        Scenario('frames-dict', frames([3, 2], True, 'dict'), 1),
        Scenario('frames-window', frames([3, 2, 4], window=True), 1),
        Scenario('frame-name', same_frame_name, 1),
        Scenario('dataset-names', dataset_names, 2),
        Scenario('files-2', several(2, True), 2),
        Scenario('files-2-names', several(2, False), 2),
        Scenario('files-3', several(3, True), 3),
        Scenario('rewritten', rewritten, 1),
        Scenario('shared-set', shared_set, 3),
        Scenario('shared', shared_header, 1),
    ] + ([] if q else [Scenario('files-2-wide', several(2, True, True), 4), Scenario('files-3-names', several(3, False), 2)])

"""C09 Each logical file has the mandated order: header, origin, sets, then data."""
import numpy as np
from .base import Scenario
from . import reader as R
from . import spec as S

REQ = ()
BOUNDS = ('header: every sequence number in -10..10^11, identifiers of 0-70 characters (any text), 0-2 characters long header '
          'object name, header objects made by the user or by the file, reassigned later; FILE-ID reassigned to any text; every '
          'file set number 0..2^30; 18 orders of adding 12 kinds of objects, in sets named in six ways, with none to three origins '
          'in none to three sets; '
          'rejected calls in between; 1-3 logical files in four interleavings; frames and no-format records; the header changed '
          'after a first write')
OUTSIDE = 'more than three logical files or origins per file; sets of more than four objects'


def check_header(ctx, lf, hid, seq, ident, what='header'):
    req = ctx.require
    req(len(lf.records) > 1, f'{what}: nothing follows the header')
    h = lf.records[0].set
    req(lf.records[0].type == 0, f'{what}: the header record is not of type FHLR')
    req(h.type == b'FILE-HEADER', f'{what}: does not start with a FILE-HEADER')
    req(len(h.objects) == 1, f'{what}: FILE-HEADER with {len(h.objects)} objects')
    o = h.objects[0]
    sn, idd = o.get(b'SEQUENCE-NUMBER'), o.get(b'ID')
    req(sn is not None and sn.values is not None and len(sn.values) == 1, f'{what}: no SEQUENCE-NUMBER')
    req(idd is not None and idd.values is not None and len(idd.values) == 1, f'{what}: no ID')
    req(sn.rc == R.ASCII and idd.rc == R.ASCII, f'{what}: not ASCII')
    s, i = sn.values[0], idd.values[0]
    req(len(s) == 10, f'{what}: SEQUENCE-NUMBER is not 10 characters long')
    req(len(i) == 65, f'{what}: ID is not 65 characters long')
    if seq is not None:
        t = str(seq).encode('ascii')
        req(len(t) <= 10, f'{what}: a sequence number longer than 10 digits has been accepted')
        req(s == b' ' * (10 - len(t)) + t, f'{what}: SEQUENCE-NUMBER is not the number justified to the right')
    e = hid.encode('ascii')
    n = ctx.slen(hid)
    req(n <= 65, f'{what}: an identifier longer than 65 characters has been accepted')
    req(i[:len(e)] == e, f'{what}: ID is not the identifier justified to the left')
    rest = i[len(e):]
    req(rest == b' ' * len(rest), f'{what}: ID is not filled with blanks')
    if ident is not None:
        req(o.ob.name == ident.encode('ascii'), f'{what}: other name of the header object')
    return o


def check_lf(ctx, rd, lf, hid, seq, ident='0', defining=None, origins=None, what='logical file', fileid=True):
    """order of the records; -> set of names"""
    req = ctx.require
    ho = check_header(ctx, lf, hid, seq, ident, what)
    recs = lf.records[1:]
    req(recs[0].eflr and recs[0].set.type == b'ORIGIN', f'{what}: no ORIGIN set after the header')
    phase = 0                       # 0 origins, 1 other sets (and data)
    seen = set()
    defined = {}
    for r in recs:
        if not r.eflr:
            phase = 1
            ob, st = R.iflr_ref(rd, r, layer='')
            hits = [(t, o) for t, o in [(t, o) for t in (b'FRAME', b'NO-FORMAT') for o in defined.get(t, [])]
                    if bool(ob.same(ctx, o.ob))]
            want = b'FRAME' if r.type == 0 else b'NO-FORMAT'
            req(sum(1 for t, o in hits if t == want) == 1, f'{what}: a data record precedes the object it refers to')
            if r.type == 0:
                fr = [o for t, o in hits if t == want][0]
                for c in fr.get(b'CHANNELS').values:
                    req(sum(1 for o in defined.get(b'CHANNEL', []) if bool(c.same(ctx, o.ob))) == 1,
                        f'{what}: a data record precedes a channel of its frame')
            continue
        s = r.set
        if s.type == b'ORIGIN':
            req(phase == 0, f'{what}: an ORIGIN set comes after other records')
        else:
            phase = 1
        req(s.type != b'FILE-HEADER', f'{what}: several headers')
        req(len(s.objects) > 0, f'{what}: empty {s.type} set')
        k = (bytes(s.type), None if s.name is None else bytes(s.name))
        req(k not in seen, f'{what}: set {k} written twice')
        req((k[0], b'') not in seen and (k[0], None) not in seen or k[1] not in (None, b''), f'{what}: set {k} written twice')
        seen.add(k)
        defined.setdefault(k[0], []).extend(s.objects)
    o1 = recs[0].set.objects[0]
    if defining is not None:
        req(o1.ob.same(ctx, R.ObName(defining[0], 0, defining[1])), f'{what}: the first object is not the defining origin')
    if origins is not None:
        req(len(defined[b'ORIGIN']) == origins, f'{what}: number of origins')
    f = o1.get(b'FILE-ID')
    req(f is not None and f.values is not None and len(f.values) == 1, f'{what}: no FILE-ID')
    e = hid.encode('ascii')
    req(len(f.values[0]) == len(e), f'{what}: FILE-ID differs from the header ID')
    req(f.values[0] == e, f'{what}: FILE-ID differs from the header ID')
    n = o1.get(b'FILE-SET-NUMBER')
    req(n is not None and n.values is not None and len(n.values) == 1, f'{what}: no FILE-SET-NUMBER')
    return defined


# ---- the header ---------------------------------------------------------------------------------------------------


def header(how):
    def fn(ctx):
        dw = ctx.dw
        seq, hid, ident = 1, 'FILE-HEADER', '0'
        if how in ('seq', 'seq-later', 'seq-object'):
            seq = ctx.int('seq', -10 if how != 'seq-later' else 1, 10 ** 11)
        if how in ('id', 'id-later', 'id-object'):
            hid = ctx.string('hid', 0, 70, 'any' if how == 'id' else 'yes')
        if how == 'ident':
            ident = ctx.string('ident', 0, 2, 'any')
        bad = ctx.or_(seq < 1, seq >= 10 ** 10, ctx.slen(hid) > 65, ctx.not_(ctx.isascii(hid)),
                      ctx.slen(ident) != 1, ctx.not_(ctx.isascii(ident)))
        df = S.new_file(ctx)

        def make():
            if how.endswith('object'):
                p = dw.eflr_types.FileHeaderSet()
                return df.add_logical_file(file_header=dw.eflr_types.FileHeaderItem(hid, parent=p, sequence_number=seq))
            if how.endswith('later'):
                lf = df.add_logical_file()
                if how == 'seq-later':
                    lf.file_header.sequence_number = seq
                else:
                    lf.file_header.header_id = hid
                return lf
            return df.add_logical_file(fh_id=hid, fh_sequence_number=seq, fh_identifier=ident)
        r = ctx.call(make)
        if not r.ok:
            ctx.require(bad, 'a valid header has been rejected')
            return ctx.reached('rejected')
        lf = r.value
        lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
        S.simple_frame(lf, 2)
        r = ctx.write(df)
        if not r.ok:
            ctx.require(bad, 'a valid header has been rejected by the write')
            return ctx.reached('refused')
        ctx.require(ctx.not_(bad), 'an invalid header has been written')
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        ctx.require(len(lfs) == 1, 'number of logical files')
        check_lf(ctx, rd, lfs[0], hid, seq, ident, (0, b'ORIGIN'), 1)
        ctx.reached('written')
    return fn


def rewritten(ctx):
    """the header changed after a first write"""
    h0, h1 = ctx.string('h0', 0, 4), ctx.string('h1', 0, 8)
    n0, n1 = ctx.int('n0', 1, 10 ** 9), ctx.int('n1', 1, 10 ** 10 - 1)
    what = ctx.choice('what', ['id', 'seq', 'both', 'origin', 'add', 'nothing'])
    df = S.new_file(ctx)
    lf = df.add_logical_file(fh_id=h0, fh_sequence_number=n0)
    o = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0)
    S.simple_frame(lf, 2)
    r = ctx.write_ok(df, 'a.dlis')
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    check_lf(ctx, rd, lfs[0], h0, n0, '0', (0, b'ORIGIN'), 1)
    h, n, e, k = h0, n0, 0, 1
    if what in ('id', 'both'):
        lf.file_header.header_id = h = h1
        o.file_id.value = h1
    if what in ('seq', 'both'):
        lf.file_header.sequence_number = n = n1
    if what == 'origin':
        e = ctx.int('e', 0, 40000)
        ctx.assume(ctx.call(setattr, o, 'origin_reference', e).exc is None)
    if what == 'add':
        lf.add_origin('ORIGIN', file_set_number=8, creation_time=S.T0)
        lf.add_zone('Z', set_name='LATE')
        k = 2
    r = ctx.write(df, 'b.dlis')
    if not r.ok:
        ctx.require(what == 'origin', 'second write refused')
        return ctx.reached('refused')
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    check_lf(ctx, rd, lfs[0], h, n, '0', (e, b'ORIGIN'), k)
    ctx.reached('written')


def file_id(ctx):
    """FILE-ID or the header reassigned: equal in the file, or refused"""
    h0, h1 = ctx.string('h0', 3, 3), ctx.string('h1', 0, 6)
    f = ctx.string('f', 0, 6)
    how = ctx.choice('how', ['header', 'file_id', 'both', 'second origin', 'before', 'first of two', 'all'])
    s1, s2 = ctx.choice('osets', [(None, None), ('A', None), (None, 'A')]) if how in ('second origin', 'first of two', 'all') else (None, None)
    df = S.new_file(ctx)
    lf = df.add_logical_file(fh_id=h0)
    if how == 'before':
        lf.file_header.header_id = h1
    o = lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, set_name=s1)
    S.simple_frame(lf, 2)
    two = how in ('second origin', 'first of two', 'all')
    if two:
        o2 = lf.add_origin('ORIGIN', file_set_number=8, creation_time=S.T0, set_name=s2)
        if how != 'first of two':
            o2.file_id.value = f
    if how in ('header', 'both'):
        lf.file_header.header_id = h1
    if how in ('file_id', 'both', 'first of two', 'all'):
        o.file_id.value = f
    r = ctx.write(df)
    h = h1 if how in ('header', 'both', 'before') else h0
    if not r.ok:
        ctx.require(how not in ('second origin', 'before'), 'refused')
        ctx.require(ctx.not_(h == (f if how != 'header' else h0)), 'equal identifiers refused')
        return ctx.reached('refused')
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    check_lf(ctx, rd, lfs[0], h, 1, '0', (0, b'ORIGIN'), 2 if two else 1)
    ctx.reached('written')


def fsn(ctx):
    """FILE-SET-NUMBER present whatever is given"""
    k = ctx.choice('k', ['int', 'none', 'dict', 'hc'])
    v = ctx.int('v', 0, 2 ** 30 - 1)
    df = S.new_file(ctx)
    lf = df.add_logical_file()
    exp = None
    if k == 'int':
        lf.add_origin('O', file_set_number=v, creation_time=S.T0)
        exp = v
    elif k == 'dict':
        lf.add_origin('O', file_set_number={'value': v}, creation_time=S.T0)
        exp = v
    elif k == 'none':
        lf.add_origin('O', creation_time=S.T0)
    else:
        with ctx.dw.high_compatibility_mode():
            lf.add_origin('O', creation_time=S.T0)
    S.simple_frame(lf, 2)
    r = ctx.write_ok(df)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    d = check_lf(ctx, rd, lfs[0], 'FILE-HEADER', 1, '0', (0, b'O'), 1)
    n = d[b'ORIGIN'][0].get(b'FILE-SET-NUMBER').values[0]
    if exp is not None:
        ctx.require(n == exp, 'another file set number')


# ---- orders of adding ---------------------------------------------------------------------------------------------

STEPS = ['origin', 'channel', 'frame', 'zone', 'noformat', 'nfdata', 'param', 'origin2', 'origin3', 'axis', 'tool', 'lname',
         'comment', 'group']
ORDERS = [
    'origin channel frame zone noformat nfdata param axis tool lname comment group origin2 origin3',
    'channel frame zone noformat nfdata param axis tool lname comment group origin',
    'channel frame zone noformat nfdata origin origin2 param axis tool origin3',
    'noformat nfdata channel frame origin',
    'group comment lname tool axis param nfdata noformat zone frame channel origin',
    'origin noformat nfdata frame channel',
    'axis zone origin channel frame',
    'origin origin2 origin3 channel frame nfdata',
    'channel origin frame origin2 nfdata',
    'zone origin2 frame origin nfdata comment',
    'origin frame frame2 channel nfdata nfdata',
    'frame frame2 origin zone zone param',
    'tool origin lname group origin2 comment origin3 frame',
    'origin3 origin2 origin frame',
    'nfdata origin axis lname frame',
    'param origin frame param origin2 param',
    'frame origin nfdata frame2 nfdata',
    'origin zone frame',
    'origin ' + 'zone param axis tool lname comment group channel noformat nfdata ' * 4 + 'frame frame2 frame3 frame4',
]


class B:
    """builds one logical file step by step"""

    def __init__(self, ctx, df, i=0, hid='HEADER', seq=1, sets=None, osets=None, suffix=None):
        self.ctx, self.df, self.i, self.hid, self.seq = ctx, df, i, hid, seq
        self.sets = sets or (lambda k: None)          # set name for the k-th object of a type
        self.osets = osets or [None, None, None]
        self.lf = df.add_logical_file(fh_id=hid, fh_sequence_number=seq)
        self.n = {}
        self.origins = []
        self.ch = self.nf = None
        self.frames = 0

    def setname(self, t):
        k = self.n[t] = self.n.get(t, -1) + 1
        return self.sets(k)

    def do(self, step):
        lf, c = self.lf, self.ctx
        if step.startswith('origin'):
            o = lf.add_origin(f'O{step[6:]}', file_set_number=7, creation_time=S.T0, set_name=self.osets[len(self.origins)])
            self.origins.append(o)
        elif step == 'channel':
            self.channel()
        elif step.startswith('frame'):
            ch = self.channel()
            lf.add_frame('FR' + step[5:], channels=[ch], set_name=self.setname('frame'))
            self.frames += 1
        elif step == 'noformat':
            self.nf = lf.add_no_format('NF', set_name=self.setname('nf'))
        elif step == 'nfdata':
            if self.nf is None:
                self.do('noformat')
            lf.add_no_format_frame_data(self.nf, b'some bytes')
        elif step == 'zone':
            lf.add_zone('Z', set_name=self.setname('zone'))
        elif step == 'param':
            lf.add_parameter('P', values=[1.5], set_name=self.setname('param'))
        elif step == 'axis':
            lf.add_axis('A', set_name=self.setname('axis'))
        elif step == 'tool':
            lf.add_tool('T', set_name=self.setname('tool'))
        elif step == 'lname':
            lf.add_long_name('L', set_name=self.setname('lname'))
        elif step == 'comment':
            lf.add_comment('C', text=['x'], set_name=self.setname('comment'))
        elif step == 'group':
            lf.add_group('G', set_name=self.setname('group'))

    def channel(self):
        k = self.n.get('ch', -1) + 1
        return self.lf.add_channel(f'CH{k}', data=np.arange(2) + 0.5, set_name=self.setname('ch'))

    def finish(self):
        if not self.frames:
            self.do('frame')


def orders(ctx):
    """orders of adding objects x named sets x several origins"""
    od = ctx.choice('order', list(range(len(ORDERS))))
    st = ctx.choice('sets', ['none', 'one', 'alternate', 'empty', 'two', 'four', 'near'])
    os_ = ctx.choice('osets', [(None, None, None), ('A', None, 'A'), (None, 'A', 'B'), ('', None, 'B'), ('A', 'A', None), (None, 'A', 'A')])
    refs = ctx.int('ref', 1, 2 ** 30 - 3)
    sets = {'none': lambda k: None, 'one': lambda k: 'S', 'alternate': lambda k: [None, 'S'][k % 2],
            'empty': lambda k: '', 'two': lambda k: ['S1', 'S2'][k % 2],
            'four': lambda k: [None, 'S', 'T', 'U'][k % 4], 'near': lambda k: ['S', 'S ', 's', ' S'][k % 4]}[st]
    df = S.new_file(ctx)
    b = B(ctx, df, hid=ctx.string('hid', 4, 4), sets=sets, osets=list(os_))
    for s in ORDERS[od].split():
        b.do(s)
    b.finish()
    first = b.origins[0]
    r = ctx.write_ok(df)
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    ctx.require(len(lfs) == 1, 'number of logical files')
    d = check_lf(ctx, rd, lfs[0], b.hid, 1, '0', (first.origin_reference, first.name.encode()), len(b.origins))
    tot = {b'CHANNEL': 'ch', b'FRAME': 'frame', b'ZONE': 'zone', b'PARAMETER': 'param', b'AXIS': 'axis', b'TOOL': 'tool',
           b'LONG-NAME': 'lname', b'COMMENT': 'comment', b'GROUP': 'group', b'NO-FORMAT': 'nf'}
    for t, k in tot.items():
        ctx.require(len(d.get(t, [])) == b.n.get(k, -1) + 1, f'number of {t} objects')
    ctx.require(len(lfs[0].iflrs()) == 2 * b.frames + ORDERS[od].split().count('nfdata'), 'number of data records')


def references(ctx):
    """origins with given references, in any order; the first one made is the defining one"""
    n = ctx.choice('n', [1, 2, 3])
    refs = [ctx.int(f'r{i}', 0, 2 ** 30 - 1) for i in range(n)]
    when = ctx.choice('when', [0, 1, 2])
    same = ctx.choice('sets', [(None, None, None), ('A', None, 'A'), (None, 'A', None), (None, 'A', 'A')])
    df = S.new_file(ctx)
    lf = df.add_logical_file(fh_id='H')
    made = []

    def o(i):
        r = ctx.call(lf.add_origin, f'O{i}', file_set_number=7, creation_time=S.T0, origin_reference=refs[i],
                     set_name=same[i])
        taken = ctx.or_(*[refs[i] == refs[j] for j in made], False)
        if r.ok:
            ctx.require(ctx.not_(taken), 'an origin reference given twice')
            made.append(i)
        else:
            ctx.require(taken, f'a free origin reference has been refused')
    if when == 0:
        S.simple_frame(lf, 2)
    o(0)
    if when == 1:
        S.simple_frame(lf, 2)
    for i in range(1, n):
        o(i)
    if when == 2:
        S.simple_frame(lf, 2)
    r = ctx.write_ok(df)
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    check_lf(ctx, rd, lfs[0], 'H', 1, '0', (refs[0], b'O0'), len(made))


REJECT = ['axis', 'origin', 'frame', 'channel', 'zone', 'process', 'noformat', 'well']


def rejected(ctx):
    """calls which raise leave no empty sets and do not change the order"""
    what = ctx.choice('reject', REJECT)
    when = ctx.choice('when', ['first', 'middle', 'last'])
    sn = ctx.choice('set', [None, 'S'])
    df = S.new_file(ctx)
    b = B(ctx, df, hid='HDR', osets=[None, 'S', None])
    lf = b.lf

    def refuse(f, *a, **k):
        ctx.assume(not ctx.call(f, *a, **k).ok)

    def bad():
        if what == 'axis':
            refuse(lf.add_axis, 'A', spacing='x', set_name=sn)
        elif what == 'origin':
            refuse(lf.add_origin, 'OO', file_set_number='x', creation_time=S.T0, set_name=sn)
        elif what == 'frame':
            refuse(lf.add_frame, 'F', channels=[], set_name=sn)
        elif what == 'channel':
            refuse(lf.add_channel, 'C', data=[1, 2], set_name=sn)
        elif what == 'zone':
            refuse(lf.add_zone, 'Z', domain='nonsense', set_name=sn)
        elif what == 'process':
            refuse(lf.add_process, 'P', status='nonsense', set_name=sn)
        elif what == 'noformat':
            refuse(lf.add_no_format, 'N', consumer_name=5, set_name=sn)
        else:
            refuse(lf.add_well_reference_point, 'W', coordinate_1_value='x', set_name=sn)
    if when == 'first':
        bad()
    b.do('origin')
    b.do('frame')
    if when == 'middle':
        bad()
    b.do('origin2')
    b.do('nfdata')
    b.do('zone')
    if when == 'last':
        bad()
    r = ctx.write_ok(df)
    ctx.observe('file', r.data)
    rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
    d = check_lf(ctx, rd, lfs[0], 'HDR', 1, '0', (0, b'O'), 2)
    ctx.require(sorted(d) == sorted([b'ORIGIN', b'CHANNEL', b'FRAME', b'NO-FORMAT', b'ZONE']), f'other sets: {sorted(d)}')


def files(nmax):
    def fn(ctx):
        n = ctx.choice('n', list(range(2, nmax + 1)))
        how = ctx.choice('how', ['files', 'steps', 'reversed', 'origins last'])
        nf = ctx.bool('nf')
        df = S.new_file(ctx)
        bs = []
        for i in range(n):
            sn = None if i == 0 else f'S{i}'
            bs.append(B(ctx, df, i, hid=ctx.string(f'hid{i}', 2 + i, 2 + i), seq=ctx.int(f'seq{i}', 1, 10 ** 10 - 1 if i == 0 or nmax > 2 else 99),
                        sets=lambda k, sn=sn: sn, osets=[sn, f'X{i}', None]))
        steps = ['origin', 'frame', 'zone'] + (['nfdata'] if nf else []) + ['origin2']
        if how == 'origins last':
            steps = ['frame', 'zone'] + (['nfdata'] if nf else []) + ['origin', 'origin2']
        if how == 'files':
            for b in bs:
                for s in steps:
                    b.do(s)
        else:
            for s in steps:
                for b in (bs[::-1] if how == 'reversed' else bs):
                    b.do(s)
        r = ctx.write_ok(df)
        ctx.observe('file', r.data)
        rd, sul, segs, recs, lfs = R.read_all(ctx, r.data, REQ)
        ctx.require(len(lfs) == n, 'number of logical files')
        for b, lf in zip(bs, lfs):
            check_lf(ctx, rd, lf, b.hid, b.seq, '0', (b.origins[0].origin_reference, b'O'), 2, f'logical file {b.i}')
            ctx.require(len(lf.iflrs()) == 2 + nf, 'number of data records')
    return fn


def scenarios(tier):
    q = tier == 'quick'
    return [Scenario('header-' + h, header(h), 2) for h in ('seq', 'seq-later', 'seq-object', 'id', 'id-later', 'id-object',
                                                            'ident')] + [
        Scenario('file-id', file_id, 3), Scenario('rewritten', rewritten, 3), Scenario('file-set-number', fsn, 1), Scenario('orders', orders, 8),
        Scenario('references', references, 5), Scenario('rejected', rejected, 4),
        Scenario('logical-files', files(2 if q else 3), 5)]

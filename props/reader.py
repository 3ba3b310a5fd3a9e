"""Independent strict RP66 V1 reader.  Works on real bytes and on symbolic ropes (then it is executed symbolically).

Every rule goes through `ctx.require` when its layer is among `req` (the layers the property under check is about) and
through `ctx.assume` otherwise, so that a defect of another layer is not reported under the wrong property.
Layers: 'phys' (label, visible records, segments), 'seg' (record bracketing), 'eflr' (component grammar).
"""
import datetime


class Rd:
    def __init__(self, ctx, req, what='file'):
        self.ctx, self.req, self.what = ctx, req, what

    def need(self, layer, cond, msg):
        if layer in self.req:
            self.ctx.require(cond, self.what + ': ' + msg)
        elif cond is False:
            self.ctx.assume(False)
        else:
            self.ctx.assume(cond)


class Seg:
    def __init__(self, attrs, type_, body, vr, length):
        self.attrs, self.type, self.body, self.vr, self.length = attrs, type_, body, vr, length


class Record:
    def __init__(self, eflr, type_, body, segs):
        self.eflr, self.type, self.body, self.segs = eflr, type_, body, segs
        self.set = None

    def __repr__(self):
        return f'Record({self.eflr},{self.type})'


class Sul:
    pass


def read_sul(rd, data):
    rd.need('phys', data is not None, 'no file')
    rd.need('phys', len(data) >= 80, 'shorter than the storage unit label')
    h = data[:80]
    s = Sul()
    s.raw = h
    s.seq, s.version, s.structure, s.maxlen_f, s.setid = h[0:4], h[4:9], h[9:15], h[15:20], h[20:80]
    rd.need('phys', s.version == b'V1.00', 'label: version is not V1.00')
    rd.need('phys', s.structure == b'RECORD', 'label: structure is not RECORD')
    return s


def dec_field(rd, f, what):
    """decimal number in a right-justified field (blanks or zeros before) -> int (may be symbolic)"""
    n = 0
    seen = False
    for i in range(len(f)):
        b = f[i]
        if b == 32:
            rd.need('phys', not seen, what + ': blank after digits')
            continue
        if b == 0x30 and not seen:
            seen = True
            continue
        rd.need('phys', rd.ctx.and_(b >= 0x30, b <= 0x39), what + ': not a digit')
        seen = True
        n = n * 10 + (b - 0x30)
    rd.need('phys', seen, what + ': empty')
    return n


def read_segments(rd, data, maxlen):
    """visible records after the label -> list of Seg.  maxlen: declared maximum (int, maybe symbolic)"""
    rest = data[80:]
    out = []
    nvr = 0
    while len(rest) > 0:
        rd.need('phys', len(rest) >= 4, 'truncated visible record header')
        h = rest[:4]
        ln = rd.ctx.uint(h[0:2])
        rd.need('phys', h[2:4] == b'\xff\x01', f'visible record {nvr}: format marker is not FF01')
        rd.need('phys', ln % 2 == 0, f'visible record {nvr}: odd length')
        rd.need('phys', ln >= 20, f'visible record {nvr}: shorter than 20')
        rd.need('phys', ln <= maxlen, f'visible record {nvr}: longer than the declared maximum')
        rd.need('phys', ln <= len(rest), f'visible record {nvr}: extends beyond the end of the file')
        vr, rest = rest[4:ln], rest[ln:]
        nseg = 0
        while len(vr) > 0:
            rd.need('phys', len(vr) >= 4, f'visible record {nvr}: not tiled by segments')
            sh = vr[:4]
            sl = rd.ctx.uint(sh[0:2])
            at = sh[2]
            rd.need('phys', sl % 2 == 0, f'segment of odd length in visible record {nvr}')
            rd.need('phys', sl >= 16, f'segment shorter than 16 in visible record {nvr}')
            rd.need('phys', sl <= len(vr), f'segment exceeds visible record {nvr}')
            rd.need('phys', at & 0x1E == 0, f'segment of visible record {nvr}: checksum/trailing length/encryption')
            body, vr = vr[4:sl], vr[sl:]
            if at & 1 == 1:
                pc = body[len(body) - 1]
                rd.need('phys', rd.ctx.and_(pc >= 1, pc <= len(body)),
                        f'segment of visible record {nvr}: bad pad count')
                body = body[:len(body) - pc]
            out.append(Seg(at, sh[3], body, nvr, sl))
            nseg += 1
        rd.need('phys', nseg >= 1, f'visible record {nvr} holds no segment')
        nvr += 1
    return out


def assemble(rd, segs):
    recs = []
    cur = None
    for i, s in enumerate(segs):
        e, p, n = (s.attrs & 0x80) == 0x80, (s.attrs & 0x40) == 0x40, (s.attrs & 0x20) == 0x20
        e, p, n = bool(e), bool(p), bool(n)
        if cur is None:
            rd.need('seg', not p, f'segment {i}: first segment of a record has the predecessor flag')
            cur = Record(e, s.type, s.body, [s])
        else:
            rd.need('seg', p, f'segment {i}: continuation without the predecessor flag')
            rd.need('seg', e == cur.eflr, f'segment {i}: explicit/indirect flag changes within a record')
            rd.need('seg', s.type == cur.type, f'segment {i}: record type changes within a record')
            cur.body = cur.body + s.body
            cur.segs.append(s)
        if not n:
            recs.append(cur)
            cur = None
    rd.need('seg', cur is None, 'last record is not closed')
    return recs


def read_records(rd, data, maxlen=None):
    sul = read_sul(rd, data)
    if maxlen is None:
        maxlen = dec_field(rd, sul.maxlen_f, 'label: maximum record length')
    sul.maxlen = maxlen
    segs = read_segments(rd, data, maxlen)
    return sul, segs, assemble(rd, segs)


# ---- values ---------------------------------------------------------------------------------------------------------

FSHORT, FSINGL, FSING1, FSING2, ISINGL, VSINGL, FDOUBL, FDOUB1, FDOUB2, CSINGL, CDOUBL, SSHORT, SNORM, SLONG, USHORT, \
    UNORM, ULONG, UVARI, IDENT, ASCII, DTIME, ORIGIN, OBNAME, OBJREF, ATTREF, STATUS, UNITS = range(1, 28)

FIXED = {FSINGL: 4, FDOUBL: 8, SSHORT: 1, SNORM: 2, SLONG: 4, USHORT: 1, UNORM: 2, ULONG: 4, STATUS: 1, FSHORT: 2,
         FSING1: 8, FSING2: 12, ISINGL: 4, VSINGL: 4, FDOUB1: 16, FDOUB2: 24, CSINGL: 8, CDOUBL: 16}


class Stream:
    def __init__(self, rd, data, layer, what):
        self.rd, self.d, self.layer, self.what = rd, data, layer, what

    def more(self):
        return len(self.d) > 0

    def take(self, n):
        self.rd.need(self.layer, n <= len(self.d), self.what + ': ends inside a component')
        h, self.d = self.d[:n], self.d[n:]
        return h

    def u8(self):
        return self.rd.ctx.uint(self.take(1))

    def uvari(self):
        b = self.u8()
        if b < 0x80:
            return b
        if b < 0xC0:
            return (b - 0x80) * 256 + self.u8()
        return (b - 0xC0) * (1 << 24) + self.rd.ctx.uint(self.take(3))

    def ident(self):
        return self.take(self.u8())

    def obname(self):
        o = self.uvari()
        c = self.u8()
        return ObName(o, c, self.ident())

    def value(self, rc):
        u = self.rd.ctx.uint
        if rc in (USHORT, UNORM, ULONG, STATUS):
            return u(self.take(FIXED[rc]))
        if rc in (SSHORT, SNORM, SLONG):
            n = FIXED[rc]
            v = u(self.take(n))
            h = 1 << (8 * n - 1)
            return (v + h) % (2 * h) - h
        if rc in (UVARI, ORIGIN):
            return self.uvari()
        if rc in (IDENT, UNITS):
            return self.ident()
        if rc == ASCII:
            return self.take(self.uvari())
        if rc == DTIME:
            b = self.take(8)
            return Dt(b)
        if rc == OBNAME:
            return self.obname()
        if rc == OBJREF:
            t = self.ident()
            return ObjRef(t, self.obname())
        if rc in FIXED:
            return self.take(FIXED[rc])
        self.rd.need(self.layer, False, self.what + f': undefined representation code {rc}')


class ObName:
    def __init__(self, origin, copy, name):
        self.origin, self.copy, self.name = origin, copy, name

    def same(self, ctx, o):
        return ctx.and_(self.origin == o.origin, self.copy == o.copy, self.name == o.name)


class ObjRef:
    def __init__(self, type_, ob):
        self.type, self.ob = type_, ob


class Dt:
    def __init__(self, b):
        self.raw = b

    def fields(self, ctx):
        """(year, tz, month, day, h, m, s, ms)"""
        b = self.raw
        m = b[1]
        return (b[0] + 1900, m // 16, m % 16, b[2], b[3], b[4], b[5], ctx.uint(b[6:8]))

    def utc_us(self, rd, layer):
        """UTC microseconds since 1900"""
        ctx = rd.ctx
        y, tz, mo, d, h, mi, s, ms = self.fields(ctx)
        rd.need(layer, ctx.and_(tz >= 0, tz <= 2, mo >= 1, mo <= 12, d >= 1, d <= 31, h <= 23, mi <= 59, s <= 59,
                                ms <= 999), 'invalid DTIME fields')
        rd.need(layer, tz == 2, 'DTIME is not in UTC')
        y, mo, d = int(y), int(mo), int(d)
        days = datetime.date(y, mo, d).toordinal() - datetime.date(1900, 1, 1).toordinal()
        return ((days * 24 + h) * 60 + mi) * 60000000 + s * 1000000 + ms * 1000


class Attr:
    """label, count, rc, units (bytes), values (list | None = no value), absent"""

    def __init__(self, label, count, rc, units, values, absent=False, invariant=False):
        self.label, self.count, self.rc, self.units, self.values = label, count, rc, units, values
        self.absent = absent
        self.invariant = invariant


class Obj:
    def __init__(self, ob):
        self.ob = ob
        self.attrs = []

    def get(self, label):
        for a in self.attrs:
            if a.label == label:
                return a
        return None


class Set:
    def __init__(self, type_, name):
        self.type, self.name = type_, name
        self.template = []
        self.objects = []


VALID_RC = set(range(1, 28))


def _char(st, fmt, defaults, what):
    """characteristics after an attribute descriptor -> (label, count, rc, units, values|None)"""
    rd = st.rd
    label, count, rc, units, values = defaults
    has_value = False
    if fmt & 16:
        label = st.ident()
    if fmt & 8:
        count = st.uvari()
    if fmt & 4:
        rc = st.u8()
        rc = int(rc)
        rd.need(st.layer, rc in VALID_RC, what + f': representation code {rc} is not defined')
    if fmt & 2:
        units = st.ident()
    if fmt & 1:
        n = int(count)
        values = [st.value(rc) for _ in range(n)]
        has_value = True
    return label, count, rc, units, values, has_value


def parse_eflr(rd, body, what='EFLR'):
    st = Stream(rd, body, 'eflr', what)
    need = lambda c, m: rd.need('eflr', c, what + ': ' + m)
    d = int(st.u8())
    need(d & 0xE0 in (0xE0, 0xC0, 0xA0), 'does not start with a set component')
    need(d & 0x07 == 0, 'reserved bits in the set descriptor')
    need(d & 0x10 == 0x10, 'set component without type')
    typ = st.ident()
    need(len(typ) > 0, 'empty set type')
    name = None
    if d & 0x08:
        name = st.ident()
    s = Set(typ, name)
    s.role = d & 0xE0
    # template
    obj = None
    idx = 0
    while st.more():
        d = int(st.u8())
        role = d & 0xE0
        if role == 0x60:
            need(d & 0x1F == 0x10, 'bad object descriptor')
            need(len(s.template) > 0, 'object before the template')
            if obj is not None:
                _finish(s, obj)
            obj = Obj(st.obname())
            need(len(obj.ob.name) > 0, 'empty object name')
            s.objects.append(obj)
            idx = 0
        elif role in (0x20, 0x40):
            if obj is None:
                need(d & 0x10 == 0x10, 'template attribute without label')
                a = _char(st, d & 0x1F, (None, 1, IDENT, b'', None), what)
                need(len(a[0]) > 0, 'empty label')
                for t in s.template:
                    need(rd.ctx.not_(t.label == a[0]), f'label repeated in the template')
                if a[5]:
                    need(a[1] == len(a[4]), 'count does not match the values')
                s.template.append(Attr(a[0], a[1], a[2], a[3], a[4], invariant=(role == 0x40)))
            else:
                need(role == 0x20, 'invariant attribute in an object')
                need(d & 0x10 == 0, 'label in an object attribute')
                while idx < len(s.template) and s.template[idx].invariant:
                    idx += 1
                need(idx < len(s.template), 'more attributes than the template has')
                t = s.template[idx]
                idx += 1
                a = _char(st, d & 0x1F, (t.label, t.count, t.rc, t.units, t.values), what)
                if not a[5] and t.values is None:
                    need(a[1] == 0, 'value announced (count not 0) but omitted')
                obj.attrs.append(Attr(t.label, a[1], a[2], a[3], a[4] if a[1] != 0 else None))
        elif role == 0x00:
            need(obj is not None, 'absent attribute outside of an object')
            need(d == 0, 'bad absent attribute descriptor')
            need(idx < len(s.template), 'more attributes than the template has')
            t = s.template[idx]
            idx += 1
            obj.attrs.append(Attr(t.label, 0, t.rc, t.units, None, absent=True))
        else:
            need(False, f'unexpected component 0x{d:02x}')
    if obj is not None:
        _finish(s, obj)
    need(len(s.template) > 0, 'no template')
    return s


def _finish(s, obj):
    for t in s.template[len(obj.attrs):]:
        obj.attrs.append(Attr(t.label, t.count, t.rc, t.units, t.values, absent=False))


def parse_sets(rd, recs):
    for i, r in enumerate(recs):
        if r.eflr:
            r.set = parse_eflr(rd, r.body, f'EFLR #{i}')
    return [r.set for r in recs if r.eflr]


class LF:
    """one logical file: records from a FILE-HEADER up to the next one"""

    def __init__(self):
        self.records = []

    @property
    def sets(self):
        return [r.set for r in self.records if r.eflr]

    def of_type(self, t):
        return [o for s in self.sets if s.type == t for o in s.objects]

    def iflrs(self):
        return [r for r in self.records if not r.eflr]


def logical_files(rd, recs):
    out = []
    for r in recs:
        if r.eflr and r.set.type == b'FILE-HEADER':
            out.append(LF())
        rd.need('eflr', len(out) > 0, 'the file does not start with a FILE-HEADER')
        out[-1].records.append(r)
    return out


def iflr_ref(rd, r, what='IFLR', layer='iflr'):
    """reference opening an indirectly formatted record, and the rest"""
    st = Stream(rd, r.body, layer, what)
    ob = st.obname()
    return ob, st


def read_all(ctx, data, req, what='file', maxlen=None):
    """-> (rd, sul, segs, recs, lfs) fully parsed"""
    rd = Rd(ctx, req, what)
    sul, segs, recs = read_records(rd, data, maxlen)
    parse_sets(rd, recs)
    return rd, sul, segs, recs, logical_files(rd, recs)

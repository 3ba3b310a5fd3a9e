"""Every object type with its attributes (from the standard and the user guide), value generators and expectations."""
import datetime
import numpy as np
from . import reader as R
from . import spec as S


class A:
    """one attribute: python name, kind, 0/1/2 = single / list / nested, keyword of add_*, units allowed"""

    def __init__(self, name, kind, mult=0, kw=None, label=None):
        self.name, self.kind, self.mult = name, kind, mult
        self.kw = kw or name.strip('_')
        self.label = (label or name.strip('_').upper().replace('_', '-')).encode()

    @property
    def units(self):
        return self.kind in ('num', 'fd', 'any', 'int', 'dtn', 'dt', 'uvari', 'unorm', 'flag')


def As(kind, names, mult=0):
    return [A(n, kind, mult) for n in names.split()]


TABLE = {
    'axis': (b'AXIS', [A('axis_id', 'ident'), A('coordinates', 'any', 1), A('spacing', 'num')]),
    'calibration': (b'CALIBRATION', [A('calibrated_channels', 'ref:channel', 1), A('uncalibrated_channels', 'ref:channel', 1),
                    A('coefficients', 'ref:calibration_coefficient', 1),
                    A('measurements', 'ref:calibration_measurement', 1), A('parameters', 'ref:parameter', 1),
                    A('method', 'ident')]),
    'calibration_coefficient': (b'CALIBRATION-COEFFICIENT', [A('label', 'ident')] + As(
        'num', 'coefficients references plus_tolerances minus_tolerances', 1)),
    'calibration_measurement': (b'CALIBRATION-MEASUREMENT', [
        A('phase', 'enum:CalibrationMeasurementPhase'), A('measurement_source', 'objref'),
        A('type', 'ident', kw='measurement_type'), A('dimension', 'dim', 1), A('axis', 'ref:axis', 1),
        A('measurement', 'num', 2), A('sample_count', 'int'), A('maximum_deviation', 'num', 2),
        A('standard_deviation', 'num', 2), A('begin_time', 'dtn'), A('duration', 'num'), A('reference', 'num', 2),
        A('standard', 'num', 2), A('plus_tolerance', 'num', 2), A('minus_tolerance', 'num', 2)]),
    'channel': (b'CHANNEL', [A('long_name', 'lname'), A('properties', 'prop', 1), A('units', 'unit'),
                A('dimension', 'dim', 1), A('axis', 'ref:axis', 1), A('element_limit', 'dim', 1), A('source', 'objref'),
                A('minimum_value', 'fd', 1), A('maximum_value', 'fd', 1)]),
    'comment': (b'COMMENT', [A('text', 'text', 1)]),
    'computation': (b'COMPUTATION', [A('long_name', 'lname'), A('properties', 'prop', 1), A('dimension', 'dim', 1),
                    A('axis', 'ref:axis', 1), A('zones', 'ref:zone', 1), A('values', 'num', 2), A('source', 'ref:any')]),
    'equipment': (b'EQUIPMENT', [A('trademark_name', 'text'), A('status', 'status'),
                  A('_type', 'soft:EquipmentType', kw='eq_type'), A('serial_number', 'ident'),
                  A('location', 'soft:EquipmentLocation')] + As(
        'num', 'height length minimum_diameter maximum_diameter volume weight hole_size pressure temperature '
               'vertical_depth radial_drift angular_drift')),
    'frame': (b'FRAME', [A('description', 'text'), A('channels', 'ref:channel', 1), A('index_type', 'soft:FrameIndexType'),
              A('direction', 'ident'), A('spacing', 'num'), A('encrypted', 'flag'), A('index_min', 'num'),
              A('index_max', 'num')]),
    'group': (b'GROUP', [A('description', 'text'), A('object_type', 'ident'), A('object_list', 'objref', 1),
              A('group_list', 'ref:group', 1)]),
    'long_name': (b'LONG-NAME', As('text', 'general_modifier', 1) + As('text', 'quantity')
                  + As('text', 'quantity_modifier', 1) + As('text', 'altered_form entity')
                  + As('text', 'entity_modifier', 1) + As('text', 'entity_number entity_part entity_part_number '
                                                          'generic_source')
                  + As('text', 'source_part source_part_number conditions', 1)
                  + As('text', 'standard_symbol private_symbol')),
    'message': (b'MESSAGE', [A('_type', 'ident', kw='message_type'), A('time', 'dtn')] + As(
        'num', 'borehole_drift vertical_depth radial_drift angular_drift') + [A('text', 'text', 1)]),
    'no_format': (b'NO-FORMAT', [A('consumer_name', 'ident'), A('description', 'text')]),
    'origin': (b'ORIGIN', [A('file_set_name', 'ident'), A('file_set_number', 'uvari'), A('file_number', 'uvari'),
               A('file_type', 'ident'), A('product', 'text'), A('version', 'text'), A('programs', 'text', 1),
               A('creation_time', 'dt'), A('order_number', 'text'), A('descent_number', 'unorm'),
               A('run_number', 'unorm'), A('well_id', 'text'), A('well_name', 'text'), A('field_name', 'text'),
               A('producer_code', 'unorm'), A('producer_name', 'text'), A('company', 'text'),
               A('name_space_name', 'ident'), A('name_space_version', 'uvari')]),
    'parameter': (b'PARAMETER', [A('long_name', 'lname'), A('dimension', 'dim', 1), A('axis', 'ref:axis', 1),
                  A('zones', 'ref:zone', 1), A('values', 'any', 2)]),
    'path': (b'PATH', [A('frame_type', 'ref:frame'), A('well_reference_point', 'ref:well_reference_point'),
             A('value', 'ref:channel', 1)] + As(
        'num', 'borehole_depth vertical_depth radial_drift angular_drift time depth_offset measure_point_offset '
               'tool_zero_offset')),
    'process': (b'PROCESS', As('text', 'description trademark_name version') + [
        A('properties', 'prop', 1), A('status', 'enum:ProcessStatus'), A('input_channels', 'ref:channel', 1),
        A('output_channels', 'ref:channel', 1), A('input_computations', 'ref:computation', 1),
        A('output_computations', 'ref:computation', 1), A('parameters', 'ref:parameter', 1), A('comments', 'text', 1)]),
    'splice': (b'SPLICE', [A('output_channel', 'ref:channel'), A('input_channels', 'ref:channel', 1),
               A('zones', 'ref:zone', 1)]),
    'tool': (b'TOOL', As('text', 'description trademark_name generic_name') + [
        A('parts', 'ref:equipment', 1), A('status', 'status'), A('channels', 'ref:channel', 1),
        A('parameters', 'ref:parameter', 1)]),
    'well_reference_point': (b'WELL-REFERENCE', [
        A('permanent_datum', 'text'), A('vertical_zero', 'text'), A('permanent_datum_elevation', 'fd'),
        A('above_permanent_datum', 'fd'), A('magnetic_declination', 'fd'), A('coordinate_1_name', 'text'),
        A('coordinate_1_value', 'fd'), A('coordinate_2_name', 'text'), A('coordinate_2_value', 'fd'),
        A('coordinate_3_name', 'text'), A('coordinate_3_value', 'fd')]),
    'zone': (b'ZONE', [A('description', 'text'), A('domain', 'enum:ZoneDomain'), A('maximum', 'dtn'), A('minimum', 'dtn')]),
}

# labels the writer may add by itself: {type: {label: description of the documented default}}
DEFAULTS = {
    'origin': {b'FILE-ID', b'FILE-SET-NUMBER', b'CREATION-TIME', b'FIELD-NAME'},
    'channel': {b'LONG-NAME', b'REPRESENTATION-CODE', b'DIMENSION', b'ELEMENT-LIMIT'},
    'frame': {b'CHANNELS', b'INDEX-MIN', b'INDEX-MAX', b'SPACING', b'DIRECTION'},
    'computation': {b'DIMENSION'}, 'parameter': {b'DIMENSION'}, 'calibration_measurement': {b'DIMENSION'},
}


def attr(t, name):
    return [a for a in TABLE[t][1] if a.name == name][0]


class World:
    """a logical file with an origin, a frame and targets for every reference"""

    def __init__(self, ctx, dw=None, vrl=8192, origin_kw=None, suffix=None):
        self.ctx = ctx
        self.dw = dw or ctx.dw
        self.df = S.new_file(ctx, self.dw, max_record_length=vrl)
        self.lf = self.df.add_logical_file()
        self.o = self.lf.add_origin('ORIGIN', file_set_number=7, creation_time=S.T0, origin_reference=5)
        self.made = {}
        self.n = 0
        self.chdata = np.arange(2, dtype=np.float64)

    def target(self, t, i=0):
        """the i-th object of a type made for being referred to"""
        if t == 'any':
            t = ('zone', 'axis', 'process')[i % 3]
        k = (t, i)
        if k not in self.made:
            if t == 'channel':
                self.made[k] = self.lf.add_channel(f'T-CH{i}', data=self.chdata)
                self.made[k, 'f'] = self.lf.add_frame(f'T-FR{i}', channels=[self.made[k]])
            elif t == 'frame':
                ch = self.lf.add_channel(f'T-FC{i}', data=self.chdata)
                self.made[k] = self.lf.add_frame(f'T-F{i}', channels=[ch])
            else:
                # equal names: told apart by their copy numbers only
                self.made[k] = getattr(self.lf, 'add_' + t)('TARGET', **(
                    {'values': [1.5]} if t in ('parameter',) else {}))
        return self.made[k]

    def finish(self):
        """a frame has to be there"""
        if not self.lf.frames:
            S.simple_frame(self.lf, 2, name='MAIN')


# ---- expectations -------------------------------------------------------------------------------------------------


class X:
    """expected leaf: kind and value"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return f'X({self.kind})'


NUMERIC = {R.FSINGL, R.FDOUBL, R.SSHORT, R.SNORM, R.SLONG, R.USHORT, R.UNORM, R.ULONG, R.UVARI}
INTS = NUMERIC - {R.FSINGL, R.FDOUBL}
CODES = {'text': {R.ASCII}, 'ident': {R.IDENT, R.UNITS}, 'num': NUMERIC, 'int': INTS, 'dt': {R.DTIME},
         'ref': {R.OBNAME, R.OBJREF}, 'objref': {R.OBNAME, R.OBJREF}, 'str': {R.ASCII, R.IDENT, R.UNITS}}


def check_leaf(ctx, rd, rc, got, x, what):
    ctx.require(rc in CODES[x.kind], f'{what}: representation code {rc} for a value of kind {x.kind}')
    k, v = x.kind, x.v
    if k in ('text', 'ident', 'str'):
        e = v.encode('ascii')
        ctx.require(len(got) == len(e), f'{what}: text of another length')
        ctx.require(got == e, f'{what}: other text')
    elif k == 'status':
        ctx.require(got == v, f'{what}: other status')
    elif k in ('num', 'int'):
        if rc in INTS:
            ctx.require(got == v, f'{what}: other number')
        elif rc == R.FDOUBL:
            ctx.require(got == ctx.f64_bytes(float(v) if isinstance(v, int) else v), f'{what}: other number')
        else:
            ctx.require(ctx.f32_exact(float(v) if isinstance(v, int) else v), f'{what}: a number rounded to single precision')
            ctx.require(got == ctx.f32_bytes(v), f'{what}: other number')
    elif k == 'dt':
        d = got.utc_us(rd, 'eflr') - ctx.dtime_us(v)
        ctx.require(ctx.and_(d <= 1000, d >= -1000), f'{what}: another instant')
    elif k in ('ref', 'objref'):
        ob = got
        if rc == R.OBJREF:
            ctx.require(got.type == v.parent.set_type.encode(), f'{what}: reference to another type')
            ob = got.ob
        ctx.require(ob.same(ctx, ident_of(v)), f'{what}: reference to another object')


def ident_of(item):
    nm = item.name
    return R.ObName(item.origin_reference, item.copy_number, nm.encode('ascii'))


def check_attr(ctx, rd, obj, label, want, units, what):
    """want: list of X (flat), None = absent"""
    a = obj.get(label)
    ctx.require(a is not None, f'{what}: {label.decode()} is not in the template')
    if want is None:
        ctx.require(a.values is None, f'{what}: {label.decode()} has a value though never assigned')
        return
    w = f'{what} {label.decode()}'
    if not want:
        ctx.require(a.values is None or len(a.values) == 0, f'{w}: values where none was assigned')
        return
    ctx.require(a.values is not None, f'{w} is absent')
    ctx.require(len(a.values) == len(want), f'{w}: {len(a.values)} values instead of {len(want)}')
    for g, x in zip(a.values, want):
        check_leaf(ctx, rd, a.rc, g, x, w)
    u = (units or '').encode('ascii') if units is None or isinstance(units, str) else units.encode('ascii')
    ctx.require(len(a.units) == len(u), f'{w}: other units')
    ctx.require(a.units == u, f'{w}: other units')


def find(ctx, lf, set_type, ident, what='object'):
    m = [o for o in lf.of_type(set_type) if bool(o.ob.same(ctx, ident))]
    ctx.require(len(m) == 1, f'{what}: {len(m)} objects of this identity in the file')
    return m[0]


# ---- value generators ---------------------------------------------------------------------------------------------

UNIT = ['m', None, 'UNIT.FOOT', ' my  unit ']
GROUPS = {'calibration_coefficient': {'coefficients', 'references', 'plus_tolerances', 'minus_tolerances'},
          'calibration_measurement': {'maximum_deviation', 'standard_deviation', 'standard', 'plus_tolerance',
                                      'minus_tolerance'},
          'computation': {'values', 'zones'}, 'parameter': {'values', 'zones'},
          'splice': {'input_channels', 'zones'}}


def unit(ctx, dw, u):
    """-> (what is assigned, what is expected)"""
    if u == 'UNIT.FOOT':
        return dw.enums.Unit.FOOT, 'ft'
    return u, u


def enum_values(dw, kind):
    cls = getattr(dw.enums, kind.split(':')[1])
    return list(cls.__members__.values())


def leaf(ctx, w, a, i, wide, full=False):
    """one leaf value -> (value, X)"""
    k, dw = a.kind, w.dw
    tag = f'{a.name}.{i}'
    if k == 'text':
        v = ctx.string(tag, 0 if i == 0 else 5, (300 if full else 12) if i == 0 else 5) if wide else f'some {a.name} {i}'
        return v, X('text', v)
    if k == 'ident':
        v = ctx.string(tag, 0, 255 if full else 12) if wide else f'ID-{i}'
        return v, X('ident', v)
    if k == 'unit':
        v, e = unit(ctx, dw, ctx.choice(tag, ['m', 'UNIT.FOOT', ' my  unit ']) if wide else 'm')
        return v, X('ident', e)
    if k == 'prop':
        m = list(dw.enums.Property.__members__.values())
        if wide:
            j = ctx.choice(tag, list(range(len(m))) if full else [0, 3, len(m) - 1])
            return (m[j], X('ident', m[j].value)) if ctx.bool(tag + '.m') else (m[j].value, X('ident', m[j].value))
        return m[i % len(m)], X('ident', m[i % len(m)].value)
    if k.startswith('enum:') or k.startswith('soft:'):
        m = enum_values(dw, k)
        if wide:
            o = ['%d' % j for j in range(len(m) if full else min(len(m), 3))] + ['str'] + (
                ['free'] if k.startswith('soft') else [])
            c = ctx.choice(tag, o)
            if c == 'free':
                return ' My  Own ', X('ident', ' My  Own ')
            if c == 'str':
                return m[-1].value, X('ident', m[-1].value)
            return m[int(c)], X('ident', m[int(c)].value)
        return m[i % len(m)].value, X('ident', m[i % len(m)].value)
    if k in ('num', 'fd'):
        if not wide:
            return 1.5 + i, X('num', 1.5 + i)
        c = ctx.choice(tag + '.k', ['flt', 'int', 'np'] if i == 0 else ['flt'])
        if c == 'flt':
            v = ctx.flt(tag)
        elif c == 'int':
            v = ctx.int(tag + '.i', -2 ** 53, 2 ** 53)
        else:
            return np.float64(-0.1), X('num', -0.1)
        return v, X('num', v)
    if k == 'any':
        c = ctx.choice(tag + '.k', ['flt', 'int', 'str', 'np'] if i == 0 else ['flt']) if wide else 'n'
        if c == 'flt':
            v = ctx.flt(tag)
        elif c == 'int':
            v = ctx.int(tag + '.i', -2 ** 31, 2 ** 31 - 1)
        elif c == 'str':
            return 'Near far', X('str', 'Near far')
        elif c == 'np':
            return np.float64(2.25), X('num', 2.25)
        else:
            v = 2.5 + i
        return v, X('num', v)
    if k == 'int':
        v = ctx.int(tag, -2 ** 31, 2 ** 31 - 1) if wide else 4
        return v, X('int', v)
    if k == 'uvari':
        v = ctx.int(tag, 0, 2 ** 30 - 1) if wide else 3
        return v, X('int', v)
    if k == 'unorm':
        v = ctx.int(tag, 0, 65535) if wide else 3
        return v, X('int', v)
    if k == 'dim':
        v = ctx.int(tag, 1, 2 ** 30 - 1) if wide and i == 0 else 3
        return v, X('int', v)
    if k == 'flag':
        if wide:
            v, e = ctx.choice(tag, [(True, 1), (False, 0), (1, 1), (0, 0), (1.0, 1)])
            return v, X('int', e)
        return 1, X('int', 1)
    if k == 'status':
        if wide:
            v, e = ctx.choice(tag, [(True, 1), (False, 0), (1, 1), (0, 0), (1.0, 1), (0.0, 0)])
            return v, X('status', e)
        return 1, X('status', 1)
    if k in ('dt', 'dtn'):
        if not wide:
            v = datetime.datetime(2019, 5, 6, 7, 8, 9, 10000 + i, tzinfo=datetime.timezone.utc)
            return v, X('dt', v)
        o = ['utc', 'naive', 'any', 'str', 'str2'] + (['flt', 'int'] if k == 'dtn' else [])
        c = ctx.choice(tag + '.k', o if full or k == 'dt' else ['any', 'naive', 'flt', 'str'])
        if c == 'str':
            return '2011/12/13 14:15:16', X('dt', datetime.datetime(2011, 12, 13, 14, 15, 16))
        if c == 'str2':
            return '2000.02.29 23:59:59', X('dt', datetime.datetime(2000, 2, 29, 23, 59, 59))
        if c == 'flt':
            v = ctx.flt(tag)
            return v, X('num', v)
        if c == 'int':
            v = ctx.int(tag + '.i', -2 ** 53, 2 ** 53)
            return v, X('num', v)
        v = ctx.dtime(tag, tz=c)
        return v, X('dt', v)
    if k == 'lname':
        if not wide:
            return 'long name', X('text', 'long name')
        if ctx.bool(tag + '.ref'):
            v = w.target('long_name', i)
            return v, X('ref', v)
        v = ctx.string(tag, 0, 40 if full else 12)
        return v, X('text', v)
    if k.startswith('ref:'):
        t = k[4:]
        j = ctx.choice(tag, [0, 1] if t != 'any' else [0, 1, 2]) if wide and i == 0 else i
        for x in range(j):
            w.target(t, x)
        v = w.target(t, j)
        return v, X('ref', v)
    if k == 'objref':
        ts = ['zone', 'tool', 'process', 'equipment', 'frame', 'calibration', 'origin']
        t = ctx.choice(tag, ts if full else ts[1:4]) if wide and i == 0 else ts[i % 4]
        v = w.o if t == 'origin' else w.target(t, 1 if wide else 0)
        return v, X('objref', v)
    raise AssertionError(k)


CODES['status'] = {R.STATUS}
MULT1 = ['scalar', 'list', 'two', 'tuple', 'many']
MULT2 = ['scalar', 'list', 'two', 'nested', 'nested2', 'deep', 'many']


def value(ctx, w, a, wide, mult=None, full=False):
    """value of an attribute -> (what the user assigns, flat expectation)"""
    if a.mult == 0:
        v, x = leaf(ctx, w, a, 0, wide, full)
        return v, [x]
    n = {'scalar': 1, 'list': 1, 'two': 2, 'tuple': 2, 'nested': 4, 'nested2': 2, 'deep': 12, 'many': 130}[mult]
    vs, xs = [], []
    for i in range(n):
        if a.kind.startswith(('ref:', 'objref')) and i >= 2:
            v, x = vs[i % 2], xs[i % 2]
        elif i >= 2 and isinstance(xs[0].v, str):
            v, x = vs[1], xs[1]     # all of one type
        else:
            v, x = leaf(ctx, w, a, i, wide and i < 3, full)
        if i > 0 and a.kind == 'any' and xs[0].kind == 'str':
            v, x = f'Far {i}', X('str', f'Far {i}')
        elif i > 0 and a.kind == 'any' and isinstance(xs[0].v, int):
            v = 40 + i if i > 1 or not wide or mult not in ('two', 'nested2') or ctx.bool(f'{a.name}.ints') else 0.1
            x = X('num', v)
        elif i == 1 and a.kind == 'any' and wide and mult == 'two' and ctx.bool(f'{a.name}.mixed'):
            v, x = 7, X('num', 7)
        vs.append(v)
        xs.append(x)
    if mult == 'scalar':
        return vs[0], xs
    if mult == 'tuple':
        return tuple(vs), xs
    if mult == 'nested':
        return [vs[:2], vs[2:]], xs
    if mult == 'deep':
        return [[vs[6 * i + 2 * j:6 * i + 2 * j + 2] for j in range(3)] for i in range(2)], xs
    if mult == 'nested2':
        return [[vs[0]], (vs[1],)], xs
    return vs, xs

"""Path exploration core: symbolic integers/booleans over linear terms, decisions, solver.

A *path* is one deterministic execution of a harness.  Every time native Python asks a symbolic value for its truth
(``__bool__``) the context either knows the answer (syntactically, by interval, or because the solver says that only
one side is compatible with the path condition) or forks: it takes one side now and remembers the other one.  The
harness is re-executed until no side is left (depth-first search with decision prefixes).  ``ctx.require(cond)`` asks
the solver for a model of  path-condition AND NOT cond.
"""
from __future__ import annotations

import time
import z3

INF = float('inf')


from .core_light import Steer, PathDone, Budget, Unsupported, Violation     # noqa: E402,F401


CUR = None      # the context of the running path (one per process)


def cur():
    return CUR


def set_cur(c):
    global CUR
    CUR = c


# --------------------------------------------------------------------------------------------------------------------
# symbolic integers: linear forms over z3 Int atoms


_ATOM = {}      # key -> (z3 expr, lo, hi)


def _atom_key(expr):
    return expr.get_id()


_KEEP = []      # keep z3 asts alive so that ids stay unique


def atom(expr, lo=-INF, hi=INF):
    k = expr.get_id()
    if k not in _ATOM:
        _ATOM[k] = (expr, lo, hi)
    return SymInt({k: 1}, 0)


def is_sym(x):
    return getattr(type(x), '_is_sym', False)


def as_int(x):
    """bool/int/IntEnum -> plain int (or SymInt unchanged)."""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x.as_int()
    return int(x)


class SymBase:
    _is_sym = True
    __slots__ = ()


class SymInt(SymBase):
    """Python int with symbolic value  const + sum(coef*atom)."""
    __slots__ = ('lin', 'c', '_z', '_b')
    _is_sym = True

    def __init__(self, lin, c):
        self.lin = lin
        self.c = c
        self._z = None
        self._b = None

    # -- helpers
    @property
    def __class__(self):
        return int

    @staticmethod
    def mk(lin, c):
        lin = {k: v for k, v in lin.items() if v}
        if not lin:
            return c
        return SymInt(lin, c)

    def z(self):
        if self._z is None:
            terms = []
            for k, v in self.lin.items():
                e = _ATOM[k][0]
                terms.append(e if v == 1 else z3.IntVal(v) * e)
            if self.c:
                terms.append(z3.IntVal(self.c))
            self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._z

    def bounds(self):
        if self._b is None:
            lo = hi = self.c
            for k, v in self.lin.items():
                _, l, h = _ATOM[k]
                if v > 0:
                    lo = lo + v * l
                    hi = hi + v * h
                else:
                    lo = lo + v * h
                    hi = hi + v * l
            self._b = (lo, hi)
        return self._b

    # -- arithmetic
    def _add(self, o, s=1):
        if type(o) is SymInt:
            lin = dict(self.lin)
            for k, v in o.lin.items():
                lin[k] = lin.get(k, 0) + s * v
            return SymInt.mk(lin, self.c + s * o.c)
        return SymInt(self.lin, self.c + s * o)

    def _neg(self):
        return SymInt({k: -v for k, v in self.lin.items()}, -self.c)

    def _coerce(self, o):
        t = type(o)
        if t is SymInt or t is int:
            return o
        if t is bool:
            return int(o)
        if t is SymBool:
            return o.as_int()
        if isinstance(o, int) and not getattr(t, '_is_sym', False):
            return int(o)
        return None

    def __add__(self, o):
        x = self._coerce(o)
        if x is None:
            return self._other(o, '__add__')
        return self._add(x)

    __radd__ = __add__

    def _other(self, o, op):
        f = _promote(self, o)
        if f is None:
            return NotImplemented
        return getattr(f, op)(o)

    def __sub__(self, o):
        x = self._coerce(o)
        if x is None:
            return self._other(o, '__sub__')
        return self._add(x, -1)

    def __rsub__(self, o):
        x = self._coerce(o)
        if x is None:
            return self._other(o, '__rsub__')
        r = self._neg()
        return r._add(x)

    def __neg__(self):
        return self._neg()

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        x = self._coerce(o)
        if x is None:
            if getattr(type(o), '_is_sym', False):
                if isinstance(o, (str, bytes)):
                    return o * self
            else:
                if isinstance(o, (bytes, bytearray)):
                    from .values import SymBytes
                    return SymBytes.wrap(bytes(o))._repeat(self)
                if isinstance(o, str):
                    from .values import SymStr
                    return SymStr.fill(o, self)
                if isinstance(o, (list, tuple)):
                    return o * self.__index__()
            return self._other(o, '__mul__')
        if type(x) is int:
            return SymInt.mk({k: v * x for k, v in self.lin.items()}, self.c * x)
        e = self.z() * x.z()
        (a, b), (c, d) = self.bounds(), x.bounds()
        if INF in (abs(a), abs(b), abs(c), abs(d)):
            return atom(e)
        ps = [a * c, a * d, b * c, b * d]
        return atom(e, min(ps), max(ps))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        x = self._coerce(o)
        if x is None:
            return self._other(o, '__floordiv__')
        if type(x) is not int:
            x = x.__index__()
        if x == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if x == 1:
            return self
        if x < 0:
            return (-self) // (-x)
        # split the part exactly divisible by x
        div = {k: v // x for k, v in self.lin.items() if v % x == 0}
        rest = {k: v for k, v in self.lin.items() if v % x}
        cd, cr = divmod(self.c, x)
        r = SymInt.mk(rest, cr)
        if type(r) is int:
            return SymInt.mk(div, cd + r // x)
        lo, hi = r.bounds()
        if lo // x == hi // x if (lo != -INF and hi != INF) else False:
            return SymInt.mk(div, cd + int(lo // x))
        q = atom(r.z() / z3.IntVal(x), lo // x if lo != -INF else -INF, hi // x if hi != INF else INF)
        return SymInt.mk(div, cd)._add(q) if div else q._add(cd)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        x = self._coerce(o)
        if x is None:
            return self._other(o, '__mod__')
        if type(x) is not int:
            x = x.__index__()
        if x == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if x < 0:
            return self - (self // x) * x
        r = SymInt.mk({k: v % x for k, v in self.lin.items()}, self.c % x)
        if type(r) is int:
            return r % x
        lo, hi = r.bounds()
        if lo >= 0 and hi < x:
            return r
        return atom(r.z() % z3.IntVal(x), 0, x - 1)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (self.__index__(),)
        return o % self.__index__()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        v = self.__index__()
        return divmod(o, v)

    def __truediv__(self, o):
        from .values import SymFlt
        return SymFlt.from_int(self).__truediv__(o)

    def __rtruediv__(self, o):
        from .values import SymFlt
        return SymFlt.from_int(self).__rtruediv__(o)

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        return self.__index__() << int(o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if type(o) is int:
            return self // (1 << o)
        return self.__index__() >> int(o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if type(o) is SymBool:
            o = o.as_int()
        if type(o) is bool:
            o = int(o)
        if type(o) is int and o >= 0:
            # masks of the form 2^k-1 (and their high complements within the known range)
            if (o & (o + 1)) == 0:
                return self % (o + 1)
            lo, hi = self.bounds()
            if lo >= 0 and hi != INF:
                width = int(hi).bit_length()
                m = o & ((1 << width) - 1)
                if m == 0:
                    return 0
                # contiguous run of ones: bits s..e-1
                s = (m & -m).bit_length() - 1
                if ((m >> s) & ((m >> s) + 1)) == 0:
                    e = m.bit_length()
                    return ((self % (1 << e)) // (1 << s)) * (1 << s)
        return self.__index__() & (o if type(o) is int else int(o))

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is int and o >= 0:
            lo, hi = self.bounds()
            if lo >= 0 and hi != INF:
                a = self & o
                return self + o - a
        return self.__index__() | (o if type(o) is int else int(o))

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ (o if type(o) is int else int(o))

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # -- comparisons
    def _cmp(self, o, op):
        x = self._coerce(o)
        if x is None:
            f = _promote(self, o)
            if f is None:
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            return getattr(f, {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__',
                               '>=': '__ge__'}[op])(o)
        d = self._add(x, -1)
        return cmp0(d, op)

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(cmp0(self, '!='))

    # -- concretisation points
    def __index__(self):
        return CUR.concretize_int(self)

    __int__ = __index__

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return CUR.hash_int(self)

    def __str__(self):
        return '<symint>'

    def __repr__(self):
        return '<symint>'

    def __format__(self, spec):
        if spec:
            return format(self.__index__(), spec)
        return '<symint>'

    def bit_length(self):
        n = 0
        a = abs(self)
        while a >= (1 << n):
            n += 1
        return n

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def as_integer_ratio(self):
        return (self, 1)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .values import SymBytes, PI
        length = int(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if self < lo or self > hi:
            raise OverflowError('int too big to convert')
        x = self % (1 << (8 * length)) if signed else self
        if byteorder == 'little':
            parts = []
            for i in range(length):
                b = (x // (1 << (8 * i))) % 256
                parts.append(SymBytes.from_int(b, 1))
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return r
        return SymBytes.from_int(x, length)

    def __reduce__(self):
        raise TypeError('symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _promote(i, o):
    """SymInt meets a float-like operand."""
    from .values import SymFlt
    if isinstance(o, float) or type(o) is SymFlt:
        return SymFlt.from_int(i)
    return None


def cmp0(d, op):
    """Truth of  d <op> 0  for an int or SymInt d."""
    if type(d) is not SymInt:
        return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
    lo, hi = d.bounds()
    if op == '==':
        if lo > 0 or hi < 0:
            return False
    elif op == '!=':
        if lo > 0 or hi < 0:
            return True
    elif op == '<':
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == '<=':
        if hi <= 0:
            return True
        if lo > 0:
            return False
    elif op == '>':
        if lo > 0:
            return True
        if hi <= 0:
            return False
    elif op == '>=':
        if lo >= 0:
            return True
        if hi < 0:
            return False
    if op in ('==', '!='):
        # gcd test
        from math import gcd
        g = 0
        for v in d.lin.values():
            g = gcd(g, v)
        if g > 1 and d.c % g:
            return op == '!='
    z = d.z()
    e = {'==': lambda: z == 0, '!=': lambda: z != 0, '<': lambda: z < 0, '<=': lambda: z <= 0,
         '>': lambda: z > 0, '>=': lambda: z >= 0}[op]()
    return SymBool(e)


class SymBool(SymBase):
    __slots__ = ('e',)
    _is_sym = True

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    @staticmethod
    def mk(e):
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def z(self):
        return self.e

    def __bool__(self):
        return CUR.decide(self.e)

    def as_int(self):
        return atom(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool.mk(self.e == o.e)
        if isinstance(o, bool):
            return self if o else SymBool.mk(z3.Not(self.e))
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return sym_not(r)

    def __and__(self, o):
        if type(o) is SymBool:
            return SymBool.mk(z3.And(self.e, o.e))
        if isinstance(o, bool):
            return self if o else False
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool:
            return SymBool.mk(z3.Or(self.e, o.e))
        if isinstance(o, bool):
            return True if o else self
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ o

    def __invert__(self):
        return -self.as_int() - 1

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return '<symbool>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<symbool>'


def _fwd(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__', '__ge__',
           '__neg__', '__mod__', '__floordiv__', '__lshift__', '__rshift__', '__truediv__', '__rtruediv__'):
    setattr(SymBool, _n, _fwd(_n))


def sym_not(b):
    if type(b) is SymBool:
        return SymBool.mk(z3.Not(b.e))
    return not b


def sym_and(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return SymBool.mk(z3.And(*es)) if len(es) > 1 else SymBool(es[0])


def sym_or(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return SymBool.mk(z3.Or(*es)) if len(es) > 1 else SymBool(es[0])


def zb(b):
    """bool | SymBool -> z3 Bool"""
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def zi(x):
    """int | SymInt -> z3 Int"""
    if type(x) is SymInt:
        return x.z()
    if type(x) is SymBool:
        return x.as_int().z()
    return z3.IntVal(int(x))


# --------------------------------------------------------------------------------------------------------------------
# solver-backed path exploration


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.truncated = 0
        self.requires = 0
        self.requires_solver = 0
        self.unknown = 0
        self.concretised = {}
        self.unsupported = {}
        self.unreproduced = []
        self.validated = 0
        self.violations = []
        self.reached = {}
        self.incomplete = []
        self.calls = {}

    def as_dict(self):
        return dict(self.__dict__)


class Explorer:
    """Owns the solver and the decision stack for one scenario."""

    def __init__(self, timeout_ms=5000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.events = []        # list of ('assume', ast) / ('dec', ast, taken, other_pending)
        self.levels = []        # indices into events where a push happened
        self.pos = 0
        self.model = None
        self.stats = Stats()
        self.deadline = None

    # -- solver helpers
    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def begin_path(self):
        self.pos = 0
        self.model = None
        self.stats.paths += 1

    def assume(self, e):
        """Assert e on the current path (no fork)."""
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != 'assume':
                raise Unsupported('non-deterministic replay (assume)')
            self.pos += 1
            return
        self.solver.add(e)
        self.events.append(('assume', e))
        self.pos += 1
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None

    def note(self, fn):
        """A value that is computed once (it may depend on the solver) and is the same when the prefix is re-run."""
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != 'note':
                raise Unsupported('non-deterministic replay (note)')
            self.pos += 1
            return ev[1]
        v = fn()
        self.events.append(('note', v))
        self.pos += 1
        return v

    def replaying(self):
        return self.pos < len(self.events)

    def decide(self, e, bias=None):
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != 'dec':
                raise Unsupported('non-deterministic replay (decide)')
            self.pos += 1
            return ev[2]
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        # which sides are possible?
        known = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                known = True
            elif z3.is_false(v):
                known = False
        if known is None:
            r = self.check()
            if r == z3.sat:
                self.model = self.solver.model()
                v = self.model.eval(e, model_completion=True)
                known = True if z3.is_true(v) else (False if z3.is_false(v) else None)
            elif r == z3.unsat:
                raise PathDone('infeasible')
        ne = z3.Not(e)
        if known is None:
            rt = self.check(e)
            rf = self.check(ne)
            can_t, can_f = rt != z3.unsat, rf != z3.unsat
        elif known:
            can_t = True
            can_f = self.check(ne) != z3.unsat
        else:
            can_f = True
            can_t = self.check(e) != z3.unsat
        if can_t and can_f:
            taken = True if known is None else known
            self._push('dec', e if taken else ne, taken, True)
            return taken
        if not can_t and not can_f:
            raise PathDone('infeasible')
        taken = can_t
        self._push('dec', e if taken else ne, taken, False)
        return taken

    def choose(self, n):
        """Non-deterministic choice 0..n-1 that does not involve the solver."""
        if n == 1:
            return 0
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != 'choice':
                raise Unsupported('non-deterministic replay (choice)')
            self.pos += 1
            return ev[2]
        self.solver.push()
        self.events.append(('choice', None, 0, n))
        self.levels.append(len(self.events) - 1)
        self.pos += 1
        return 0

    def _push(self, kind, e, taken, pending):
        self.solver.push()
        self.solver.add(e)
        self.events.append((kind, e, taken, pending))
        self.levels.append(len(self.events) - 1)
        self.pos += 1

    def next_path(self):
        """Backtrack to the deepest decision with an unexplored side. Return False if there is none."""
        while self.levels:
            i = self.levels.pop()
            ev = self.events[i]
            del self.events[i:]
            self.solver.pop()
            if ev[0] == 'dec' and ev[3]:
                e = z3.Not(ev[1]) if not z3.is_not(ev[1]) else ev[1].arg(0)
                self.pos = len(self.events)
                self._push('dec', e, not ev[2], False)
                return True
            if ev[0] == 'choice' and ev[2] + 1 < ev[3]:
                self.solver.push()
                self.events.append(('choice', None, ev[2] + 1, ev[3]))
                self.levels.append(len(self.events) - 1)
                return True
        return False

    pick_bias = None

    def get_model(self, *extra):
        if not extra and self.model is not None:
            return self.model
        r = self.check(*extra)
        if r == z3.sat:
            m = self.solver.model()
            if not extra:
                self.model = m
            return m
        return None


class FairExplorer(Explorer):
    """Explores paths from the root in a random but repeatable order (choices: the least used option of that position
    first; decisions: either feasible side), so that a choice made early is not held up by the many paths below its
    first options, as it is in the depth-first order. It never finishes: only the depth-first order exhausts."""

    def __init__(self, rng, timeout_ms=5000, stats=None):
        super().__init__(timeout_ms)
        self.rng = rng
        self.used = {}
        self.choices = ()
        if stats is not None:
            self.stats = stats
        self.open = False

    def begin_path(self):
        if self.open:
            self.solver.pop()
        self.solver.push()
        self.open = True
        self.events = []
        self.choices = ()
        super().begin_path()

    def next_path(self):
        return True

    def choose(self, n):
        if n == 1:
            return 0
        used = self.used.setdefault(self.choices, [0] * n)
        while len(used) < n:
            used.append(0)
        low = min(used[:n])
        i = self.rng.choice([k for k in range(n) if used[k] == low])
        used[i] += 1
        self.choices += (i,)
        self.events.append(('choice', None, i, n))
        self.pos += 1
        return i

    def decide(self, e, bias=0.5):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        if self.model is None:
            r = self.check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathDone('infeasible')
        known = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            known = True if z3.is_true(v) else False if z3.is_false(v) else None
        taken = self.rng.random() < bias
        ne = z3.Not(e)
        if taken != known:
            if self.check(e if taken else ne) == z3.unsat:
                if known is None and self.check(ne if taken else e) == z3.unsat:
                    raise PathDone('infeasible')
                taken = not taken
            else:
                self.model = None
        self.solver.add(e if taken else ne)
        self.events.append(('dec', None, taken, False))
        self.pos += 1
        return taken

"""Replacements for builtins and C modules so that no symbolic value reaches a C boundary."""
import builtins
import cmath as _cmath
import datetime as _datetime
import decimal as _decimal
import logging as _logging
import math as _math
import types
from fractions import Fraction

from . import core
from .core import SymReal, SymComplex, SymBool, Unsupported, INF


def _is_sym(x):
    return isinstance(x, (SymReal, SymComplex, SymBool))


# ---- float / int / complex -----------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymReal) and x.k in ('f', 'q'))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class sx_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return SymReal(x.p, 'f')
        if isinstance(x, SymBool):
            return float(bool(x))
        if isinstance(x, str):
            if core.CTX is not None:
                r = core.CTX.from_literal(x, 'f')
                if r is not None:
                    return r
            return float(x)
        if hasattr(x, '__sx_float__'):
            return x.__sx_float__()
        return float(x)

    fromhex = staticmethod(float.fromhex)


sx_float.__name__ = 'float'


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SymReal) and x.k == 'i')

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class sx_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **kw):
        if isinstance(x, SymReal):
            return core.sym_trunc(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, str) and not a and not kw and core.CTX is not None:
            r = core.CTX.from_literal(x, 'f')
            if r is not None:
                # integers typed on a command line / in a program: int() of a numeral
                if '.' in x and not core.CTX.opts.get('int_literals'):
                    raise ValueError('invalid literal for int() with base 10: %r' % x)
                return SymReal(r.p, 'i')
        if hasattr(x, '__sx_int__'):
            return x.__sx_int__(*a, **kw)
        return int(x, *a, **kw)

    from_bytes = staticmethod(int.from_bytes)


sx_int.__name__ = 'int'


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, SymComplex))


class sx_complex(metaclass=_ComplexMeta):
    def __new__(cls, re=0.0, im=0.0):
        return core.mk_complex(re, im)


def sx_abs(x):
    return abs(x)


def sx_round(x, n=None):
    if isinstance(x, SymReal):
        return core.sym_round(x, n)
    return round(x) if n is None else round(x, n)


_SENT = object()


def _minmax(args, key, default, fold, native):
    if len(args) == 1:
        seq = list(args[0])
        if not seq:
            if default is not _SENT:
                return default
            return native(seq)
    else:
        seq = list(args)
    if key is not None or not any(isinstance(v, SymReal) for v in seq):
        return native(seq, key=key) if key is not None else native(seq)
    for v in seq:
        if not isinstance(v, (SymReal, int, float, Fraction)):
            return native(seq)  # let python raise / compare by forking
    r = seq[0]
    for v in seq[1:]:
        r = fold(r, v)
    return r


def sx_min(*args, key=None, default=_SENT):
    return _minmax(args, key, default, core.sym_min, min)


def sx_max(*args, key=None, default=_SENT):
    return _minmax(args, key, default, core.sym_max, max)


def sx_pow(a, b, m=None):
    if m is not None:
        return pow(a, b, m)
    return a ** b


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, frozenset)) or type(x) is cls


class XSet(metaclass=_SetMeta):
    """set with element equality decided by (forking) ==."""

    def __init__(self, it=()):
        self._l = []
        for x in it:
            self.add(x)

    def __contains__(self, x):
        for y in self._l:
            if y is x:
                return True
        for y in self._l:
            if type(y) in (SymReal, int, float) and type(x) in (SymReal, int, float):
                if y == x:
                    return True
            elif type(y) not in (SymReal,) and type(x) not in (SymReal,) and y == x:
                return True
        return False

    def add(self, x):
        if x not in self:
            self._l.append(x)

    def discard(self, x):
        for i, y in enumerate(self._l):
            if y is x or (y is not None and x is not None and y == x):
                del self._l[i]
                return

    def remove(self, x):
        n = len(self._l)
        self.discard(x)
        if len(self._l) == n:
            raise KeyError(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = XSet(self._l)
        r.update(*its)
        return r

    def difference(self, *its):
        r = XSet()
        others = [XSet(i) for i in its]
        r._l = [x for x in self._l if not any(x in o for o in others)]
        return r

    def intersection(self, *its):
        r = XSet()
        others = [XSet(i) for i in its]
        r._l = [x for x in self._l if all(x in o for o in others)]
        return r

    def symmetric_difference(self, o):
        return self.difference(o).union(XSet(o).difference(self))

    def issubset(self, o):
        o = XSet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __or__ = union
    __ror__ = union
    __sub__ = difference
    __and__ = intersection
    __le__ = issubset
    __ge__ = issuperset
    __xor__ = symmetric_difference

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self._l = self.difference(o)._l
        return self

    def copy(self):
        r = XSet()
        r._l = list(self._l)
        return r

    def pop(self):
        return self._l.pop()

    def clear(self):
        self._l = []

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __eq__(self, o):
        if not isinstance(o, (XSet, set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    __hash__ = None

    def __repr__(self):
        return 'XSet(%r)' % (self._l,)


XSet.__name__ = 'set'


# ---- math / cmath ----------------------------------------------------------------
def _fallback(name, fn):
    def g(*args):
        if any(_is_sym(a) for a in args):
            if all((not isinstance(a, SymReal)) or a.is_const() for a in args) and not any(
                    isinstance(a, SymComplex) for a in args):
                return fn(*[float(a) if isinstance(a, SymReal) else a for a in args])
            core.CTX.note('uninterpreted: ' + name)
            if all(isinstance(a, (SymReal, int, float)) for a in args):
                lo, hi = _RANGES.get(name, (None, None))
                key = (name,) + tuple(core.p_key(core.lift(a)) for a in args)
                return core.atom_real('fun', key, lo, hi)
            raise Unsupported(name)
        return fn(*args)
    g.__name__ = name
    return g


_PI = Fraction(_math.pi)
_RANGES = {'sin': (Fraction(-1), Fraction(1)), 'cos': (Fraction(-1), Fraction(1)),
           'atan2': (-_PI, _PI), 'atan': (-_PI / 2, _PI / 2), 'acos': (Fraction(0), _PI),
           'asin': (-_PI / 2, _PI / 2), 'exp': (Fraction(0), None)}


def _shim_module(real, over):
    m = types.ModuleType(real.__name__)
    for k in dir(real):
        v = getattr(real, k)
        if k.startswith('__'):
            continue
        if k in over:
            setattr(m, k, over[k])
        elif callable(v) and not isinstance(v, type):
            setattr(m, k, _fallback(k, v))
        else:
            setattr(m, k, v)
    return m


def _fabs(x):
    return core.sym_abs(x) if isinstance(x, SymReal) else _math.fabs(x)


def _isinf(x):
    return False if isinstance(x, SymReal) else _math.isinf(x)


def _isnan(x):
    return False if isinstance(x, SymReal) else _math.isnan(x)


def _isfinite(x):
    return True if isinstance(x, SymReal) else _math.isfinite(x)


def _floor(x):
    return core.sym_floor(x) if isinstance(x, SymReal) else _math.floor(x)


def _ceil(x):
    return -core.sym_floor(-x) if isinstance(x, SymReal) else _math.ceil(x)


def _trunc(x):
    return core.sym_trunc(x) if isinstance(x, SymReal) else _math.trunc(x)


def _msqrt(x):
    return core.sym_sqrt(x) if isinstance(x, SymReal) else _math.sqrt(x)


def _hypot(*a):
    if len(a) == 2:
        return core.sym_hypot(*a)
    s = 0
    for x in a:
        s = s + x * x
    return _msqrt(s)


def _mpow(a, b):
    return a ** b if _is_sym(a) or _is_sym(b) else _math.pow(a, b)


def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if _is_sym(a) or _is_sym(b):
        return core.sym_abs(a - b) <= core.sym_max(rel_tol * core.sym_max(core.sym_abs(a), core.sym_abs(b)), abs_tol)
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _fsum(seq):
    return sum(seq)


def _copysign(a, b):
    if _is_sym(a) or _is_sym(b):
        x = core.sym_abs(a)
        return x if b >= 0 else -x
    return _math.copysign(a, b)


def _mod_degrees(x):
    return x * (180 / _math.pi)


def _mod_radians(x):
    return x * (_math.pi / 180)


def _fmod(a, b):
    if _is_sym(a) or _is_sym(b):
        q = core.sym_trunc(a / b)
        return a - q * b
    return _math.fmod(a, b)


def _dist(p, q):
    s = 0
    for a, b in zip(p, q):
        s = s + (a - b) * (a - b)
    return _msqrt(s)


def sym_atan2(y, x):
    if not (_is_sym(y) or _is_sym(x)):
        return _math.atan2(y, x)
    re, im = SymReal(core.lift(x)), SymReal(core.lift(y))
    ctx = core.CTX
    # both parts rational multiples of one quantity of known sign?
    base = re.p or im.p
    if not base:
        return 0.0
    lead = sorted(base)[-1]
    b = core.p_scale(base, 1 / base[lead])
    out = []
    for part in (re.p, im.p):
        if not part:
            out.append(Fraction(0))
            continue
        c = part.get(lead)
        if c is None or core.p_scale(b, c) != part:
            out = None
            break
        out.append(c)
    if out is not None:
        s = ctx.sign_of(b)
        if s is None:
            s = 1 if SymReal(b) > 0 else -1
        if s < 0:
            out = [-o for o in out]
        return _math.atan2(float(out[1]), float(out[0]))
    if not im.p:
        return 0.0 if re >= 0 else _math.pi
    if not re.p:
        return _math.pi / 2 if im >= 0 else -_math.pi / 2
    # general position: uninterpreted, range only (canonical up to positive scale)
    k = abs(re.p[sorted(re.p)[-1]])
    key = ('phase', core.p_key(core.p_scale(re.p, 1 / k)), core.p_key(core.p_scale(im.p, 1 / k)))
    ctx.note('uninterpreted: phase')
    return core.atom_real('fun', key, -_PI, _PI)


math_shim = _shim_module(_math, dict(
    fabs=_fabs, isinf=_isinf, isnan=_isnan, isfinite=_isfinite, floor=_floor, ceil=_ceil, trunc=_trunc, sqrt=_msqrt,
    hypot=_hypot, pow=_mpow, isclose=_isclose, fsum=_fsum, copysign=_copysign, degrees=_mod_degrees,
    radians=_mod_radians, fmod=_fmod, dist=_dist, atan2=sym_atan2))


def _phase(z):
    if isinstance(z, SymComplex):
        return sym_atan2(z.imag, z.real)
    if isinstance(z, SymReal):
        return 0.0 if z >= 0 else _math.pi
    return _cmath.phase(z)


def _csqrt(z):
    if _is_sym(z):
        raise Unsupported('cmath.sqrt')
    return _cmath.sqrt(z)


def _polar(z):
    return abs(z), _phase(z)


def _cfallback(name, fn):
    def g(*a):
        if any(_is_sym(x) for x in a):
            raise Unsupported('cmath.' + name)
        return fn(*a)
    return g


cmath_shim = types.ModuleType('cmath')
for _k in dir(_cmath):
    if not _k.startswith('__'):
        _v = getattr(_cmath, _k)
        setattr(cmath_shim, _k, _cfallback(_k, _v) if callable(_v) else _v)
cmath_shim.phase = _phase
cmath_shim.polar = _polar


# ---- operator -------------------------------------------------------------------
# operator.truediv & co dispatch to __truediv__ natively: no shim required.


# ---- decimal ---------------------------------------------------------------------
class _DecMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _decimal.Decimal) or (isinstance(x, SymReal) and x.k == 'D')


class sx_Decimal(metaclass=_DecMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymReal):
            return SymReal(x.p, 'D')
        if isinstance(x, str):
            r = core.CTX.from_literal(x, 'D')
            if r is not None:
                return r
        return SymReal(core.p_const(Fraction(_decimal.Decimal(x, *a))), 'D')

    from_float = staticmethod(lambda x: sx_Decimal(x))


decimal_shim = types.ModuleType('decimal')
for _k in dir(_decimal):
    if not _k.startswith('__'):
        setattr(decimal_shim, _k, getattr(_decimal, _k))
decimal_shim.Decimal = sx_Decimal


# ---- datetime --------------------------------------------------------------------
class SymTimedelta(object):
    def __init__(self, total):
        self._t = total

    def total_seconds(self):
        return self._t

    @property
    def seconds(self):
        return self._t

    @property
    def days(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, SymTimedelta) and self._t == o._t

    __hash__ = None

    def __str__(self):
        return 'timedelta(%s)' % core.CTX.literal(SymReal(core.lift(self._t)))


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_datetime.timedelta, SymTimedelta))


class sx_timedelta(metaclass=_TDMeta):
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(_is_sym(x) for x in a):
            return _datetime.timedelta(*a)
        return SymTimedelta(days * 86400 + seconds + microseconds / 1000000 + milliseconds / 1000
                            + minutes * 60 + hours * 3600 + weeks * 604800)


datetime_shim = types.ModuleType('datetime')
for _k in dir(_datetime):
    if not _k.startswith('__'):
        setattr(datetime_shim, _k, getattr(_datetime, _k))
datetime_shim.timedelta = sx_timedelta


# ---- logging ---------------------------------------------------------------------
class NullLogger(object):
    def __getattr__(self, name):
        getattr(_logging.getLogger('x'), name)  # AttributeError for unknown names
        return self._null

    def _null(self, *a, **k):
        return None

    def isEnabledFor(self, *a):
        return False


class _LoggingShim(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(_logging, name)
        if name == 'root':
            return NullLogger()
        if name == 'getLogger':
            return lambda *a: NullLogger()
        if isinstance(v, type) or not callable(v):
            return v
        return lambda *a, **k: None


logging_shim = _LoggingShim('logging')


# ---- string formatting with % ------------------------------------------------------
import re as _re

_PCT = _re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL]?)([diouxXeEfFgGcrsa%])')


def sx_mod(a, b):
    if not isinstance(a, (str, bytes)):
        return a % b
    if isinstance(a, bytes):
        return a % b
    vals = b if isinstance(b, tuple) else (b,)
    if isinstance(b, dict):
        if not any(_is_sym(v) for v in b.values()):
            return a % b
    elif not any(_is_sym(v) for v in vals):
        return a % b
    out = []
    pos = 0
    it = iter(vals)
    for m in _PCT.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, _, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        spec = m.group(0)
        if name is None:
            if width == '*':
                width = str(next(it))
                spec = spec.replace('*', width, 1)
            if prec == '*':
                prec = str(next(it))
                spec = spec.replace('.*', '.' + prec, 1)
        v = b[name] if name is not None else next(it)
        if not _is_sym(v):
            if spec != m.group(0):
                out.append(spec % (v,))
                continue
            out.append(m.group(0).replace('(%s)' % name, '') % (v,) if name is not None else m.group(0) % (v,))
            continue
        if isinstance(v, SymBool):
            v = bool(v)
            out.append(m.group(0) % (v,))
            continue
        if isinstance(v, SymComplex):
            out.append(str(v))
            continue
        if v.is_const():
            f = core.p_cval(v.p)
            c = int(f) if v.k == 'i' else float(f)
            out.append(spec % (c,))
            continue
        if conv in 'rsa':
            out.append(core.sym_text(v))
        elif conv in 'gGeE':
            out.append(core.fmt_spec(v, '.%s%s' % (prec or '6', conv)))
        elif conv in 'fF':
            out.append(core.fmt_spec(v, '.%sf' % (prec or '6')))
        elif conv in 'di':
            out.append(core.CTX.literal(core.sym_trunc(v)) if not v.k == 'i' else core.CTX.literal(v))
        else:
            raise Unsupported('%' + conv)
    out.append(a[pos:])
    return ''.join(out)


def make_builtins(importer):
    d = dict(builtins.__dict__)
    d.update(float=sx_float, int=sx_int, complex=sx_complex, abs=sx_abs, round=sx_round, min=sx_min, max=sx_max,
             pow=sx_pow, set=XSet, frozenset=XSet)
    d['__import__'] = importer
    return d

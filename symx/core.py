"""Symbolic values, path exploration and solver interface.

A number is a polynomial with rational coefficients over *atoms*.  Atoms are
either input variables or the result of a non-polynomial operation (1/q, sqrt,
rounding, max, ...), hash-consed on (operation, canonical argument) so that the
same operation on the same value is always the same atom.  Every atom carries
defining constraints.

The explorer re-executes the code under test once per path (decision prefix),
keeps one incremental z3 solver whose push levels are the decisions, and asks
z3 for the feasibility of the other side of every symbolic branch.  In that
incremental solver nonlinear monomials are separate real variables (an
over-approximation: infeasible paths may be explored, no feasible one is lost).
Obligations that the linear view cannot discharge go to a second, precise query
in which monomials are real products and 1/q, sqrt are defined exactly.
"""
import math
import sys
import time
from fractions import Fraction

import z3

F0 = Fraction(0)
F1 = Fraction(1)


class PathAbort(BaseException):
    """This path is infeasible/irrelevant; go on with the next."""


class StepLimit(BaseException):
    """More loop iterations than the unwinding bound."""


class Unsupported(BaseException):
    """Operation the engine cannot represent symbolically."""


class NoEval(Exception):
    pass


class Budget(BaseException):
    pass


CTX = None  # the active Explorer


# ----------------------------------------------------------------- polynomials
# poly: dict {mono: Fraction}, mono: tuple of (atom_id, exp) sorted; () = const

def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_scale(b, Fraction(-1)))


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, F0) + c1 * c2
            if v:
                r[m] = v
            elif m in r:
                del r[m]
    return _reduce(r) if CTX is not None and CTX.square_rules else r


def _reduce(r):
    """apply sqrt rules  s**2 -> radicand  (keeps polynomials canonical)."""
    rules = CTX.square_rules
    hit = False
    for m in r:
        for a, e in m:
            if a in rules and (e >= 2 or e <= -2):
                hit = True
                break
        if hit:
            break
    if not hit:
        return r
    out = {}
    for m, c in r.items():
        acc = {(): c}
        rest = []
        for a, e in m:
            if a in rules and e >= 2:
                rad = rules[a]
                for _ in range(e // 2):
                    acc = p_mul_raw(acc, rad)
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        acc = p_mul_raw(acc, {tuple(rest): F1})
        out = p_add(out, acc)
    return out


def p_mul_raw(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, F0) + c1 * c2
            if v:
                r[m] = v
            elif m in r:
                del r[m]
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), F0)


# ----------------------------------------------------------------- conditions
class Cond(object):
    """op: 'lt' p<0, 'le' p<=0, 'eq' p==0, 'and','or' list, 'not' c, 'c' const."""
    __slots__ = ('op', 'arg', '_key')

    def __init__(self, op, arg):
        self.op = op
        self.arg = arg
        self._key = None

    def key(self):
        if self._key is None:
            if self.op in ('lt', 'le', 'eq'):
                self._key = (self.op, p_key(self.arg))
            elif self.op in ('and', 'or'):
                self._key = (self.op, tuple(c.key() for c in self.arg))
            elif self.op == 'not':
                self._key = ('not', self.arg.key())
            else:
                self._key = ('c', self.arg)
        return self._key


C_TRUE = Cond('c', True)
C_FALSE = Cond('c', False)


def c_not(c):
    if c.op == 'c':
        return C_FALSE if c.arg else C_TRUE
    if c.op == 'not':
        return c.arg
    if c.op == 'lt':
        return Cond('le', p_scale(c.arg, Fraction(-1)))
    if c.op == 'le':
        return Cond('lt', p_scale(c.arg, Fraction(-1)))
    return Cond('not', c)


def c_and(*cs):
    out = []
    for c in cs:
        if c.op == 'c':
            if not c.arg:
                return C_FALSE
        elif c.op == 'and':
            out.extend(c.arg)
        else:
            out.append(c)
    if not out:
        return C_TRUE
    return out[0] if len(out) == 1 else Cond('and', out)


def c_or(*cs):
    out = []
    for c in cs:
        if c.op == 'c':
            if c.arg:
                return C_TRUE
        elif c.op == 'or':
            out.extend(c.arg)
        else:
            out.append(c)
    if not out:
        return C_FALSE
    return out[0] if len(out) == 1 else Cond('or', out)


def c_cmp(op, p):
    if p_isconst(p):
        v = p_cval(p)
        r = v < 0 if op == 'lt' else (v <= 0 if op == 'le' else v == 0)
        return C_TRUE if r else C_FALSE
    if op == 'eq' and len(p) == 1 and CTX is not None:
        m, = p
        if len(m) == 1 and CTX.atoms[m[0][0]].op == 'sqrt':
            return c_cmp('eq', CTX.atoms[m[0][0]].args[0])
    if op == 'eq' and len(p) > 1 and any(len(m) > 1 or m and m[0][1] > 1 for m in p):
        # a sum of squares is null when all of them are
        forms = []
        if psd_quadratic(p, forms) or psd_quadratic(p_scale(p, Fraction(-1)), forms.clear() or forms):
            return c_and(*[c_cmp('eq', f) for f in forms])
    if op == 'eq':
        # canonical sign/scale so that equal conditions share keys
        k = sorted(p)[-1]
        p = p_scale(p, 1 / p[k])
    return Cond(op, p)


def to_cond(b):
    if isinstance(b, SymBool):
        return b.c
    if isinstance(b, Cond):
        return b
    if isinstance(b, SymReal):
        return c_not(c_cmp('eq', b.p))
    return C_TRUE if b else C_FALSE


class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CTX.branch(self.c)

    def __and__(self, o):
        return mk_bool(c_and(self.c, to_cond(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(c_or(self.c, to_cond(o)))

    __ror__ = __or__

    def __xor__(self, o):
        o = to_cond(o)
        return mk_bool(c_or(c_and(self.c, c_not(o)), c_and(c_not(self.c), o)))

    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported('~bool')

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            o = to_cond(o)
            return mk_bool(c_or(c_and(self.c, o), c_and(c_not(self.c), c_not(o))))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return 'SymBool(%s)' % (self.c.key(),)


def mk_bool(c):
    if c.op == 'c':
        return c.arg
    return SymBool(c)


def not_(b):
    return mk_bool(c_not(to_cond(b)))


def and_(*bs):
    return mk_bool(c_and(*[to_cond(b) for b in bs]))


def or_(*bs):
    return mk_bool(c_or(*[to_cond(b) for b in bs]))


def implies(a, b):
    return or_(not_(a), b)


# ----------------------------------------------------------------- numbers
INF = float('inf')


def lift(x):
    """python number -> poly, or None when x is not a finite number."""
    if isinstance(x, SymReal):
        return x.p
    if isinstance(x, bool):
        return p_const(int(x))
    if isinstance(x, int):
        return p_const(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return None
        # the decimal spelling: the model is over exact decimals, not over binary fractions
        return p_const(Fraction(repr(x)))
    if isinstance(x, Fraction):
        return p_const(x)
    if isinstance(x, SymBool):
        return p_const(int(bool(x)))
    return NotImplemented


def _kind(a, b):
    if a == b:
        return a
    if 'D' in (a, b):
        if 'f' in (a, b):
            raise TypeError("unsupported operand type(s): 'decimal.Decimal' and 'float'")
        return 'D'
    return 'f'


def kind_of(x):
    if isinstance(x, SymReal):
        return x.k
    if isinstance(x, (bool, int)):
        return 'i'
    if isinstance(x, Fraction):
        return 'q'
    return 'f'


def _res_kind(a, b):
    if a == 'q' or b == 'q':
        return 'q'
    return _kind(a, b)


class SymReal(object):
    """kind: 'f' float, 'i' int, 'D' Decimal, 'q' harness/oracle rational."""
    __slots__ = ('p', 'k')

    def __init__(self, p, k='f'):
        self.p = p
        self.k = k

    # -- helpers
    def is_const(self):
        return p_isconst(self.p)

    def _bin(self, o, f, swap=False):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, complex):
            a, b = SymComplex(self), SymComplex(o.real, o.imag)
            if swap:
                a, b = b, a
            return a + b if f is p_add else a - b if f is p_sub else a * b
        q = lift(o)
        if q is NotImplemented:
            return NotImplemented
        if q is None:
            raise Unsupported('arithmetic with inf/nan')
        k = _res_kind(self.k, kind_of(o))
        if swap:
            return mk(f(q, self.p), k)
        return mk(f(self.p, q), k)

    def __add__(self, o):
        if isinstance(o, float) and (o in (INF, -INF)):
            return o
        return self._bin(o, p_add)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float) and (o in (INF, -INF)):
            return -o
        return self._bin(o, p_sub)

    def __rsub__(self, o):
        if isinstance(o, float) and (o in (INF, -INF)):
            return o
        return self._bin(o, p_sub, True)

    def __mul__(self, o):
        if isinstance(o, float) and (o in (INF, -INF)):
            raise Unsupported('inf*sym')
        return self._bin(o, p_mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, float) and (o in (INF, -INF)):
            return 0.0
        if isinstance(o, (SymComplex, complex)):
            return NotImplemented
        q = lift(o)
        if q is NotImplemented:
            return NotImplemented
        k = _res_kind(self.k, kind_of(o))
        if k == 'i':
            k = 'f'
        return mk(p_div(self.p, q), k)

    def __rtruediv__(self, o):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, complex):
            return SymComplex(o.real / self, o.imag / self)
        q = lift(o)
        if q is NotImplemented:
            return NotImplemented
        k = _res_kind(self.k, kind_of(o))
        if k == 'i':
            k = 'f'
        return mk(p_div(q, self.p), k)

    __div__ = __truediv__

    def __floordiv__(self, o):
        q = lift(o)
        if q is NotImplemented or q is None:
            raise Unsupported('//')
        return sym_floor(SymReal(p_div(self.p, q), 'f'), kind=_res_kind(self.k, kind_of(o)))

    def __rfloordiv__(self, o):
        q = lift(o)
        if q is NotImplemented or q is None:
            raise Unsupported('//')
        return sym_floor(SymReal(p_div(q, self.p), 'f'), kind=_res_kind(self.k, kind_of(o)))

    def __mod__(self, o):
        fl = self.__floordiv__(o)
        return self - fl * o

    def __rmod__(self, o):
        fl = self.__rfloordiv__(o)
        return o - fl * self

    def __divmod__(self, o):
        fl = self.__floordiv__(o)
        return fl, self - fl * o

    def __pow__(self, o, mod=None):
        if isinstance(o, SymReal):
            if not o.is_const():
                raise Unsupported('symbolic exponent')
            o = p_cval(o.p)
        if o == 0.5:
            return sym_sqrt(self)
        if Fraction(o).denominator != 1:
            raise Unsupported('fractional exponent')
        n = int(o)
        if n < 0:
            return 1 / (self ** (-n))
        r = p_const(1)
        for _ in range(n):
            r = p_mul(r, self.p)
        return mk(r, self.k)

    def __rpow__(self, o):
        if self.is_const():
            return o ** float(p_cval(self.p))
        raise Unsupported('symbolic exponent')

    def __neg__(self):
        return mk(p_scale(self.p, Fraction(-1)), self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return sym_abs(self)

    # -- comparisons
    def _cmp(self, o, op, swap):
        if isinstance(o, (SymComplex, complex)) or o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, float) and (o != o or o in (INF, -INF)):
            a, b = (o, 0.0) if swap else (0.0, o)
            return a < b if op == 'lt' else (a <= b if op == 'le' else False)
        q = lift(o)
        if q is NotImplemented:
            return NotImplemented
        d = p_sub(q, self.p) if swap else p_sub(self.p, q)
        return mk_bool(c_cmp(op, d))

    def __lt__(self, o):
        return self._cmp(o, 'lt', False)

    def __le__(self, o):
        return self._cmp(o, 'le', False)

    def __gt__(self, o):
        return self._cmp(o, 'lt', True)

    def __ge__(self, o):
        return self._cmp(o, 'le', True)

    def __eq__(self, o):
        r = self._cmp(o, 'eq', False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'eq', False)
        return True if r is NotImplemented else not_(r)

    def __hash__(self):
        if self.is_const():
            return hash(p_cval(self.p))
        return 0

    def __bool__(self):
        c = c_not(c_cmp('eq', self.p))
        if c.op == 'c':
            return c.arg
        return CTX.branch(c)

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(p_cval(self.p))
        return float(CTX.concretise(self, 'float()'))

    def __int__(self):
        if self.is_const():
            return int(p_cval(self.p))
        return int(CTX.concretise(self, 'int()'))

    def __index__(self):
        if self.k != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self)

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __round__(self, n=None):
        return sym_round(self, n)

    def __format__(self, spec):
        return fmt_spec(self, spec)

    def __str__(self):
        return sym_text(self)

    __repr__ = __str__

    def is_integer(self):
        return self == sym_floor(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    # Decimal API
    def quantize(self, *a, **k):
        raise Unsupported('quantize')


def mk(p, k='f'):
    return SymReal(p, k)


def sx(x, k='q'):
    """lift a python number to SymReal"""
    if isinstance(x, SymReal):
        return SymReal(x.p, k)
    return SymReal(lift(x), k)


def p_div(a, b):
    if p_isconst(b):
        v = p_cval(b)
        if not v:
            raise ZeroDivisionError('float division by zero')
        return p_scale(a, 1 / v)
    z = c_cmp('eq', b)
    if CTX.branch(z) if z.op != 'c' else z.arg:
        raise ZeroDivisionError('float division by zero')
    if len(b) == 1:
        (m, c), = b.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
        r = p_mul(a, inv)
        return r
    # normalise scale: make the leading coefficient 1
    lead = sorted(b)[-1]
    k = b[lead]
    if k != 1:
        b = p_scale(b, 1 / k)
        a = p_scale(a, 1 / k)
    # a proportional to b?
    if len(a) == len(b) and lead in a:
        q = a[lead]
        if all(a.get(m) == c * q for m, c in b.items()):
            return p_const(q)
    # common monomial factor of b: pull it out so that (R*x+R*y) -> R^-1 * inv(x+y)
    common = None
    for m in b:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {x: min(e, d[x]) if (e > 0) == (d[x] > 0) and e > 0 else e
                      for x, e in common.items() if x in d and e > 0 and d[x] > 0}
        if not common:
            break
    if common:
        cm = {tuple(sorted((x, -e) for x, e in common.items())): F1}
        b = p_mul_raw(b, cm)
        a = p_mul_raw(a, cm)
        if len(b) == 1 or p_isconst(b):
            return p_div(a, b)
    at = CTX.atom('inv', b)
    return p_mul(a, {((at, 1),): F1})


def atom_real(op, *args, **kw):
    return mk({((CTX.atom(op, *args), 1),): F1}, kw.get('k', 'f'))


def sym_ite(c, a, b):
    """value-level if-then-else without forking."""
    c = to_cond(c)
    if c.op == 'c':
        return a if c.arg else b
    pa, pb = lift(a), lift(b)
    d = p_sub(pa, pb)
    if not d:
        return a
    k = _res_kind(kind_of(a), kind_of(b))
    return atom_real('ite', c, pa, pb, k=k)


def sym_abs(x):
    if not isinstance(x, SymReal):
        if isinstance(x, SymComplex):
            return x.__abs__()
        return abs(x)
    s = CTX.sign_of(x.p)
    if s is not None:
        return x if s >= 0 else -x
    if CTX.opts.get('abs_fork'):
        return x if x >= 0 else -x
    # canonical sign
    lead = sorted(x.p)[-1]
    p = x.p if x.p[lead] > 0 else p_scale(x.p, Fraction(-1))
    return atom_real('abs', p, k=x.k)


def sym_max(a, b):
    """python max semantics on values (ties are equal values)."""
    if isinstance(a, float) and a in (INF, -INF):
        return b if a < 0 else a
    if isinstance(b, float) and b in (INF, -INF):
        return a if b < 0 else b
    pa, pb = lift(a), lift(b)
    d = p_sub(pa, pb)
    s = CTX.sign_of(d)
    if s is not None:
        return a if s >= 0 else b
    if p_key(pa) > p_key(pb):
        pa, pb = pb, pa
    return atom_real('max', pa, pb, k=_res_kind(kind_of(a), kind_of(b)))


def sym_min(a, b):
    if isinstance(a, float) and a in (INF, -INF):
        return b if a > 0 else a
    if isinstance(b, float) and b in (INF, -INF):
        return a if b > 0 else b
    pa, pb = lift(a), lift(b)
    d = p_sub(pa, pb)
    s = CTX.sign_of(d)
    if s is not None:
        return a if s <= 0 else b
    if p_key(pa) > p_key(pb):
        pa, pb = pb, pa
    return atom_real('min', pa, pb, k=_res_kind(kind_of(a), kind_of(b)))


def sym_floor(x, kind='i'):
    if not isinstance(x, SymReal):
        return math.floor(x)
    if x.is_const():
        return mk(p_const(math.floor(p_cval(x.p))), kind) if kind != 'i' else math.floor(p_cval(x.p))
    if x.k == 'i':
        return x
    return atom_real('floor', x.p, k=kind)


def sym_trunc(x):
    if not isinstance(x, SymReal):
        return int(x)
    if x.is_const():
        return int(p_cval(x.p))
    if x.k == 'i':
        return x
    if x >= 0:
        return sym_floor(x)
    return -sym_floor(-x)


def sym_round(x, n=None):
    if x.is_const():
        v = round(p_cval(x.p), n) if n is not None else round(p_cval(x.p))
        return v if n is None else float(v)
    if n is None and x.k == 'i':
        return x
    k = 'i' if n is None else x.k
    nn = 0 if n is None else int(n)
    if nn >= CTX.opts.get('round_exact', 99):
        return mk(x.p, k)
    a = CTX.single_atom(x.p)
    if a is not None and a.op in ('round', 'fmt') and a.args[1] <= nn:
        return mk(x.p, k)
    return atom_real('round', x.p, nn, k=k)


def sym_fmt_value(x, n):
    """value of a number printed with n decimals"""
    if x.is_const():
        return sx(Fraction(round(p_cval(x.p) * 10 ** n), 10 ** n))
    a = CTX.single_atom(x.p)
    if a is not None and a.op in ('round', 'fmt') and a.args[1] <= n:
        return mk(x.p, 'q')
    return atom_real('fmt', x.p, n, k='q')


def sym_sqrt(x):
    if not isinstance(x, SymReal):
        return math.sqrt(x)
    p = x.p
    if p_isconst(p):
        v = p_cval(p)
        if v < 0:
            raise ValueError('math domain error')
        return mk(p_const(fsqrt(v)), 'f')
    # c * m**2
    if len(p) == 1:
        (m, c), = p.items()
        if all(e % 2 == 0 for _, e in m) and c > 0:
            root = mk({tuple((a, e // 2) for a, e in m): fsqrt(c)}, 'f')
            return sym_abs(root)
    neg = c_cmp('lt', p)
    sq = CTX.known_nonneg(p)
    if not sq and CTX.branch(neg):
        raise ValueError('math domain error')
    k = None
    lead = sorted(p)[-1]
    c = abs(p[lead])
    q = p_scale(p, 1 / c)
    r = perfect_square(q)
    if r is not None:
        return sym_abs(mk(p_scale(r, fsqrt(c)), 'f'))
    return mk({((CTX.atom('sqrt', q), 1),): fsqrt(c)}, 'f')


def perfect_square(q):
    """q == r**2 for a linear form r? (covers (x-y)**2)"""
    lin = {}
    for m, c in q.items():
        if len(m) == 1 and m[0][1] == 2:
            if c < 0:
                return None
            s = exact_sqrt(c)
            if s is None:
                return None
            lin[m[0][0]] = s
        elif m == ():
            s = exact_sqrt(c)
            if s is None:
                return None
            lin[None] = s
    if not lin or len(lin) > 6:
        return None
    atoms = sorted(lin, key=lambda a: -1 if a is None else a)
    # signs relative to first
    import itertools
    first = atoms[0]
    for signs in itertools.product((1, -1), repeat=len(atoms) - 1):
        r = {}
        for a, sg in zip(atoms, (1,) + signs):
            r[() if a is None else ((a, 1),)] = lin[a] * sg
        if p_mul_raw(r, r) == q:
            return r
    return None


def psd_quadratic(p, forms=None):
    """is the polynomial a positive semidefinite form of degree <= 2 (exact LDL)? forms gets the linear forms it sums the squares of"""
    idx = {}
    ent = {}
    for m, c in p.items():
        if len(m) > 2 or any(e not in (1, 2) for _, e in m) or sum(e for _, e in m) > 2:
            return False
        vs = []
        for a, e in m:
            vs += [a] * e
        vs += [None] * (2 - len(vs))
        i, j = [idx.setdefault(v, len(idx)) for v in vs]
        if i == j:
            ent[i, i] = ent.get((i, i), F0) + c
        else:
            ent[i, j] = ent.get((i, j), F0) + c / 2
            ent[j, i] = ent.get((j, i), F0) + c / 2
    n = len(idx)
    if n > 24:
        return False
    a = [[ent.get((i, j), F0) for j in range(n)] for i in range(n)]
    live = list(range(n))
    while live:
        if any(a[i][i] < 0 for i in live):
            return False
        k = next((i for i in live if a[i][i] > 0), None)
        if k is None:
            return not any(a[i][j] for i in live for j in live)
        if forms is not None:
            names = {i: v for v, i in idx.items()}
            forms.append({(() if names[j] is None else ((names[j], 1),)): a[k][j] for j in live if a[k][j]})
        live.remove(k)
        for i in live:
            f = a[i][k] / a[k][k]
            if f:
                for j in live:
                    a[i][j] -= f * a[k][j]
    return True


def exact_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    n = math.isqrt(c.numerator)
    d = math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def fsqrt(c):
    e = exact_sqrt(c)
    if e is not None:
        return e
    return Fraction(math.sqrt(float(c)))


def sym_hypot(a, b):
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        return math.hypot(a, b)
    a, b = SymReal(lift(a)), SymReal(lift(b))
    if not a.p:
        return sym_abs(b)
    if not b.p:
        return sym_abs(a)
    return sym_sqrt(a * a + b * b)


class SymComplex(object):
    __slots__ = ('real', 'imag')

    def __init__(self, re, im=0.0):
        self.real = re
        self.imag = im

    @staticmethod
    def parts(o):
        if isinstance(o, SymComplex):
            return o.real, o.imag
        if isinstance(o, complex):
            return o.real, o.imag
        if isinstance(o, (SymReal, int, float, Fraction)):
            return o, 0.0
        return None

    def _mk(self, re, im):
        return SymComplex(re, im)

    def __add__(self, o):
        q = self.parts(o)
        if q is None:
            return NotImplemented
        return SymComplex(self.real + q[0], self.imag + q[1])

    __radd__ = __add__

    def __sub__(self, o):
        q = self.parts(o)
        if q is None:
            return NotImplemented
        return SymComplex(self.real - q[0], self.imag - q[1])

    def __rsub__(self, o):
        q = self.parts(o)
        return SymComplex(q[0] - self.real, q[1] - self.imag)

    def __mul__(self, o):
        if isinstance(o, (SymReal, int, float, Fraction)):
            return SymComplex(self.real * o, self.imag * o)
        q = self.parts(o)
        if q is None:
            return NotImplemented
        return SymComplex(self.real * q[0] - self.imag * q[1], self.real * q[1] + self.imag * q[0])

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymReal, int, float, Fraction)):
            return SymComplex(self.real / o, self.imag / o)
        q = self.parts(o)
        if q is None:
            return NotImplemented
        d = q[0] * q[0] + q[1] * q[1]
        n = self * SymComplex(q[0], -q[1])
        return SymComplex(n.real / d, n.imag / d)

    def __rtruediv__(self, o):
        q = self.parts(o)
        return SymComplex(q[0], q[1]) / self

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __abs__(self):
        return sym_hypot(self.real, self.imag)

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def __eq__(self, o):
        q = self.parts(o)
        if q is None:
            return False
        return and_(self.real == q[0], self.imag == q[1])

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return bool(or_(self.real != 0, self.imag != 0))

    __hash__ = None

    def __pow__(self, n):
        if n == 2:
            return self * self
        raise Unsupported('complex pow')

    def __format__(self, spec):
        return '(complex)'

    def __str__(self):
        return '(complex)'

    __repr__ = __str__

    def __complex__(self):
        return complex(float(self.real), float(self.imag))


def mk_complex(re=0.0, im=0.0):
    if isinstance(re, SymComplex):
        return re
    if isinstance(re, SymReal) or isinstance(im, SymReal):
        return SymComplex(re if isinstance(re, SymReal) else float(re),
                          im if isinstance(im, SymReal) else float(im))
    return complex(re, im)


def sym_text(x):
    """str() of a number: small and large ones get an exponent"""
    if x.is_const():
        v = p_cval(x.p)
        if x.k == 'i':
            return str(int(v))
        if x.k == 'D':
            return CTX.literal(x)
        return repr(float(v))
    if x.k == 'i':
        return CTX.literal(x)
    d = -6 if x.k == 'D' else -4
    lim = Fraction(10) ** d
    if bool(and_(x < lim, x > -lim, x != 0)):
        return CTX.literal(x * (1 / lim) * 10) + 'e%+03d' % (d - 1)
    if x.k != 'D' and bool(or_(x >= 10 ** 16, x <= -10 ** 16)):
        return CTX.literal(x / Fraction(10 ** 16)) + 'e+16'
    return CTX.literal(x)


def sym_decade(x):
    """power of ten of the first digit (from 1e-9 to 1e9)"""
    a = sym_abs(x)
    if bool(x == 0):
        return 0
    for d in range(-8, 10):
        if bool(a < Fraction(10) ** d):
            return d - 1
    return 9


def sym_general(x, n):
    """%g"""
    d = sym_decade(x)
    if d < -4 or d >= n:
        return CTX.literal(sym_fmt_value(x / Fraction(10) ** d, n - 1)) + 'e%+03d' % d
    return CTX.literal(sym_fmt_value(x, n - 1 - d))


def fmt_spec(x, spec):
    if x.is_const():
        v = p_cval(x.p)
        if x.k == 'i' or (spec and spec[-1] in 'dn'):
            return format(int(v), spec)
        return format(float(v), spec)
    if spec == '' or spec[-1:] in 'rs':
        return sym_text(x)
    body = spec
    if body[-1:] == 'd' and x.k == 'i':
        return CTX.literal(x)
    if body[-1:] in 'fF':
        n = 6
        pre = body[:-1]
        if '.' in pre:
            pre, nd = pre.split('.', 1)
            n = int(nd)
        if pre.strip('+0123456789 <>^-') == '':
            return CTX.literal(sym_fmt_value(x, n))
    if body[-1:] in 'gGeE%':
        n = 6
        if '.' in body:
            n = int(body.split('.', 1)[1][:-1])
        if body[-1] in 'gG' and body[:-1].split('.')[0].strip('0123456789 <>') == '':
            return sym_general(x, n or 1)
        if body[-1] in 'eE' and body[:-1].split('.')[0].strip('0123456789 <>') == '':
            d = sym_decade(x)
            return CTX.literal(sym_fmt_value(x / Fraction(10) ** d, n)) + 'e%+03d' % d
        # not modelled exactly
        raise Unsupported('format spec %r' % spec)
    raise Unsupported('format spec %r' % spec)


# ----------------------------------------------------------------- atoms
class Atom(object):
    __slots__ = ('id', 'op', 'args', 'z', 'zr', 'defs', 'pdefs', 'lo', 'hi', 'label', 'nonlinear', 'deps')


class Model(object):
    def __init__(self, zm, active, ex):
        self.zm = zm
        self.known = set(active)
        self.ex = ex
        self.cache = {}

    def atom(self, aid):
        v = self.cache.get(aid)
        if v is not None:
            return v
        a = self.ex.atoms[aid]
        if aid in self.known:
            r = self.zm.eval(a.z, model_completion=True)
            v = z3_frac(r)
        else:
            v = self.ex.eval_def(a, self)
        self.cache[aid] = v
        return v

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        mid = self.ex.monos.get(m)
        if mid is not None and ('m', m) in self.known:
            return z3_frac(self.zm.eval(mid, model_completion=True))
        v = F1
        for a, e in m:
            x = self.atom(a)
            if e < 0:
                if not x:
                    raise NoEval()
                v = v / x ** (-e)
            else:
                v = v * x ** e
        return v

    def poly(self, p):
        s = F0
        for m, c in p.items():
            s += c * self.mono(m) if m else c
        return s

    def cond(self, c):
        op = c.op
        if op == 'lt':
            return self.poly(c.arg) < 0
        if op == 'le':
            return self.poly(c.arg) <= 0
        if op == 'eq':
            return self.poly(c.arg) == 0
        if op == 'and':
            return all([self.cond(x) for x in c.arg])
        if op == 'or':
            return any([self.cond(x) for x in c.arg])
        if op == 'not':
            return not self.cond(c.arg)
        return c.arg


class PureModel(Model):
    def __init__(self, ex, assign):
        Model.__init__(self, None, (), ex)
        self.assign = assign

    def atom(self, aid):
        v = self.cache.get(aid)
        if v is None:
            a = self.ex.atoms[aid]
            if a.op == 'var' and a.label in self.assign:
                v = Fraction(self.assign[a.label])
            else:
                v = self.ex.eval_def(a, self)
            self.cache[aid] = v
        return v

    def on_boundary(self):
        """does some decision or rounding of the path lie where float rounding may tip it?"""
        tiny = Fraction(1, 1000000)
        try:
            for c in self.ex.path_conds():
                for p in cond_polys(c):
                    if len(p) == 1 or not any(m for m in p):
                        continue
                    if abs(self.poly(p)) < tiny:
                        return True
            for aid in list(self.cache):
                a = self.ex.atoms[aid]
                if a.op == 'floor':
                    v = self.poly(a.args[0])
                elif a.op in ('round', 'fmt'):
                    v = self.poly(a.args[0]) * 10 ** a.args[1] + Fraction(1, 2)
                else:
                    continue
                if abs(v - round(v)) < tiny * 10:
                    return True
        except NoEval:
            return True
        return False


def z3_frac(r):
    if z3.is_int_value(r):
        return Fraction(r.as_long())
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise NoEval()


class Dec(object):
    __slots__ = ('kind', 'cond', 'val', 'state', 'model', 'level', 'n', 'label')


class Explorer(object):
    """explores every path of run() for one case."""

    def __init__(self, opts=None):
        self.opts = opts or {}
        self.atoms = []
        self.atom_index = {}
        self.monos = {}
        self.square_rules = {}
        self.psd_cache = {}
        self.stats = dict(paths=0, decisions=0, branches=0, forced=0, checks=0, solver_s=0.0, obligations=0,
                          discharged=0, syntactic=0, precise=0, unknown=0, concretised=0, aborted=0,
                          infeasible_pruned=0)
        self.solver = z3.SolverFor('QF_LIRA') if self.opts.get('lira') else z3.Solver()
        self.solver.set('timeout', int(self.opts.get('query_ms', 8000)))
        if 'seed' in self.opts:
            self.solver.set('random_seed', int(self.opts['seed']))
        self.prefix = []
        self.levels = [set()]   # atoms activated per solver level
        self.level_conds = [[]]  # conditions asserted (for the precise query)
        self.active = set()
        self.unknown_branches = 0
        self.hard_grid = False   # are rounded values too many for nice_model?
        self.range_cache = {}
        self.mono_cache = {}
        self.notes = {}

    # ---- atoms -------------------------------------------------------------
    def _key(self, op, args):
        ks = []
        for a in args:
            if isinstance(a, dict):
                ks.append(p_key(a))
            elif isinstance(a, Cond):
                ks.append(a.key())
            else:
                ks.append(a)
        return (op,) + tuple(ks)

    def atom(self, op, *args):
        key = self._key(op, args)
        i = self.atom_index.get(key)
        if i is None:
            i = self._new_atom(op, args, key)
        self.touch(i)
        return i

    def _new_atom(self, op, args, key):
        a = Atom()
        a.id = i = len(self.atoms)
        a.op = op
        a.args = args
        a.lo = a.hi = None
        a.label = None
        a.nonlinear = op in ('inv', 'sqrt', 'phase', 'fun')
        self.atoms.append(a)
        self.atom_index[key] = i
        name = '%s_%d' % (op, i)
        if op == 'var':
            name = args[0]
            a.lo, a.hi = args[1], args[2]
            a.label = name
            if args[3]:
                zi = z3.Int(name)
                a.z = z3.ToReal(zi)
            else:
                a.z = z3.Real(name)
        elif op in ('floor', 'round'):
            zi = z3.Int(name)
            if op == 'floor':
                a.z = z3.ToReal(zi)
            else:
                a.z = z3.ToReal(zi) / (10 ** args[1]) if args[1] else z3.ToReal(zi)
        else:
            a.z = z3.Real(name)
        a.deps = None
        a.defs = None
        return i

    def _defs(self, a):
        """linear-view defining constraints (list of z3)"""
        z, op, args = a.z, a.op, a.args
        if op == 'var':
            out = []
            if a.lo is not None:
                out.append(z >= zr(a.lo))
            if a.hi is not None:
                out.append(z <= zr(a.hi))
            return out
        if op == 'max':
            x, y = self.zp(args[0]), self.zp(args[1])
            return [z == z3.If(x >= y, x, y)]
        if op == 'min':
            x, y = self.zp(args[0]), self.zp(args[1])
            return [z == z3.If(x <= y, x, y)]
        if op == 'abs':
            x = self.zp(args[0])
            return [z == z3.If(x >= 0, x, -x)]
        if op == 'ite':
            return [z == z3.If(self.zc(args[0]), self.zp(args[1]), self.zp(args[2]))]
        if op == 'floor':
            x = self.zp(args[0])
            return [z <= x, x < z + 1]
        if op == 'round':
            x = self.zp(args[0])
            h = zr(Fraction(1, 2 * 10 ** args[1]))
            return [z - x <= h, x - z <= h]
        if op == 'fmt':
            x = self.zp(args[0])
            h = zr(Fraction(1, 2 * 10 ** args[1]))
            return [z - x <= h, x - z <= h, z3.Implies(x >= 0, z >= 0), z3.Implies(x <= 0, z <= 0)]
        if op == 'inv':
            return []
        if op == 'sqrt':
            return [z >= 0]
        if op == 'fun':
            # (name, argpolys..., lo, hi)
            out = []
            if args[1] is not None:
                out.append(z >= zr(args[1]))
            if args[2] is not None:
                out.append(z <= zr(args[2]))
            return out
        raise AssertionError(op)

    def _pdefs(self, a):
        """precise additional constraints"""
        if a.op == 'inv':
            return [a.z * self.zp_precise(a.args[0]) == 1]
        if a.op == 'sqrt':
            return [a.z * a.z == self.zp_precise(a.args[0])]
        return []

    def eval_def(self, a, m):
        op, args = a.op, a.args
        if op == 'var':
            lo, hi = a.lo, a.hi
            v = F0
            if lo is not None and v < lo:
                v = Fraction(lo)
            if hi is not None and v > hi:
                v = Fraction(hi)
            return v
        if op == 'max':
            return max(m.poly(args[0]), m.poly(args[1]))
        if op == 'min':
            return min(m.poly(args[0]), m.poly(args[1]))
        if op == 'abs':
            return abs(m.poly(args[0]))
        if op == 'ite':
            return m.poly(args[1]) if m.cond(args[0]) else m.poly(args[2])
        if op == 'floor':
            return Fraction(math.floor(m.poly(args[0])))
        if op in ('round', 'fmt'):
            k = 10 ** args[1]
            return Fraction(round(m.poly(args[0]) * k), k)
        if op == 'inv':
            v = m.poly(args[0])
            if not v:
                raise NoEval()
            return 1 / v
        if op == 'sqrt':
            v = m.poly(args[0])
            if v < 0:
                raise NoEval()
            e = exact_sqrt(v)
            if e is None:
                e = Fraction(math.sqrt(float(v)))
            return e
        raise NoEval()

    def arg_atoms(self, a):
        if a.deps is None:
            s = set()
            for x in a.args:
                if isinstance(x, dict):
                    s |= poly_atoms(x)
                elif isinstance(x, Cond):
                    s |= cond_atoms(x)
                elif isinstance(x, tuple) and x and isinstance(x[0], tuple):
                    pass
            a.deps = s
        return a.deps

    def touch(self, i):
        if i in self.active:
            return
        a = self.atoms[i]
        for d in self.arg_atoms(a):
            self.touch(d)
        for x in a.args:
            if isinstance(x, dict):
                self.touch_monos(x)
            elif isinstance(x, Cond):
                self.touch_cond(x)
        self.active.add(i)
        self.levels[-1].add(i)
        if a.defs is None:
            a.defs = self._defs(a)
        for d in a.defs:
            self.solver.add(d)

    def touch_monos(self, p):
        for m in p:
            if m and not (len(m) == 1 and m[0][1] == 1):
                k = ('m', m)
                for x, _ in m:
                    self.touch(x)
                if k not in self.active:
                    self.zm(m)
                    self.active.add(k)
                    self.levels[-1].add(k)
                    if all(e % 2 == 0 for _, e in m):
                        self.solver.add(self.monos[m] >= 0)
                    for f in self._mono_facts(m):
                        self.solver.add(f)
            elif m:
                self.touch(m[0][0])

    def _mono_facts(self, m):
        """bounds of a monomial that follow from the ranges of its variables (linear view)."""
        lo, hi = self.mono_range(m)
        z = self.monos[m]
        out = []
        if lo is not None:
            out.append(z >= zr(lo))
        if hi is not None:
            out.append(z <= zr(hi))
        return out

    def decided(self, c):
        """truth of a comparison that follows from the declared ranges alone, or None"""
        if c.op in ('lt', 'le', 'eq'):
            lo, hi = self.poly_range(c.arg)
            if c.op == 'eq':
                return False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
            if hi is not None and (hi < 0 or (c.op == 'le' and hi == 0)):
                return True
            if lo is not None and (lo > 0 or (c.op == 'lt' and lo == 0)):
                return False
            return None
        if c.op == 'not':
            r = self.decided(c.arg)
            return None if r is None else not r
        return None

    def atom_sign(self, x):
        lo, hi = self.atom_range(x)
        if lo is not None and lo >= 0:
            return 1
        if hi is not None and hi <= 0:
            return -1
        return None

    def touch_cond(self, c):
        if c.op in ('lt', 'le', 'eq'):
            self.touch_monos(c.arg)
        elif c.op in ('and', 'or'):
            for x in c.arg:
                self.touch_cond(x)
        elif c.op == 'not':
            self.touch_cond(c.arg)

    def zm(self, m):
        """linear view of a monomial"""
        if len(m) == 1 and m[0][1] == 1:
            return self.atoms[m[0][0]].z
        z = self.monos.get(m)
        if z is None:
            z = z3.Real('mono%d' % len(self.monos))
            self.monos[m] = z
        return z

    def zp(self, p):
        terms = []
        for m, c in p.items():
            if not m:
                terms.append(zr(c))
            elif c == 1:
                terms.append(self.zm(m))
            else:
                terms.append(zr(c) * self.zm(m))
        if not terms:
            return zr(F0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zp_precise(self, p):
        terms = []
        for m, c in p.items():
            t = zr(c)
            for a, e in m:
                z = self.atoms[a].z
                if e < 0:
                    z = self.inv_var(a)
                    e = -e
                for _ in range(e):
                    t = t * z
            terms.append(t)
        if not terms:
            return zr(F0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def inv_var(self, a):
        return z3.Real('recip_%d' % a)

    def zc(self, c, zp=None):
        zp = zp or self.zp
        op = c.op
        if op == 'lt':
            return zp(c.arg) < 0
        if op == 'le':
            return zp(c.arg) <= 0
        if op == 'eq':
            return zp(c.arg) == 0
        if op == 'and':
            return z3.And([self.zc(x, zp) for x in c.arg])
        if op == 'or':
            return z3.Or([self.zc(x, zp) for x in c.arg])
        if op == 'not':
            return z3.Not(self.zc(c.arg, zp))
        return z3.BoolVal(c.arg)

    def single_atom(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.atoms[m[0][0]]
        return None

    def known_nonneg(self, p):
        """syntactic sum of squares / nonneg terms"""
        for m, c in p.items():
            if c < 0:
                return self._sos2(p)
            for a, e in m:
                if e % 2 and self.atom_sign(a) != 1:
                    return self._sos2(p)
        return True

    def _sos2(self, p):
        """positive semidefinite quadratic form (sums of squares after expansion)?"""
        key = p_key(p)
        r = self.psd_cache.get(key)
        if r is None:
            r = self.psd_cache[key] = psd_quadratic(p)
        return r

    def sign_of(self, p):
        """cheap sign: const, or decided by declared ranges; None if unknown. >=0 ->1, <=0 -> -1"""
        if p_isconst(p):
            v = p_cval(p)
            return (v > 0) - (v < 0)
        lo, hi = self.poly_range(p)
        if lo is not None and lo >= 0:
            return 1
        if hi is not None and hi <= 0:
            return -1
        return None

    def atom_range(self, x):
        r = self.range_cache.get(x)
        if r is None:
            r = self.range_cache[x] = self._atom_range(self.atoms[x])
        return r

    def _atom_range(self, a):
        if a.op == 'var':
            return a.lo, a.hi
        if a.op == 'fun':
            return a.args[1], a.args[2]
        if a.op in ('sqrt', 'abs', 'floor', 'round', 'fmt', 'inv'):
            lo, hi = self.poly_range(a.args[0])
            if a.op == 'abs':
                if lo is not None and hi is not None:
                    m = max(abs(lo), abs(hi))
                    return (lo if lo > 0 else -hi if hi < 0 else F0), m
                return F0, None
            if a.op == 'sqrt':
                return (F0 if lo is None or lo <= 0 else _sqrt_down(lo)), (None if hi is None else _sqrt_up(hi))
            if a.op == 'inv':
                if lo is not None and lo > 0:
                    return (F0 if hi is None else 1 / hi), 1 / lo
                if hi is not None and hi < 0:
                    return 1 / hi, (F0 if lo is None else 1 / lo)
                return None, None
            h = Fraction(1) if a.op == 'floor' else Fraction(1, 2 * 10 ** a.args[1])
            return (None if lo is None else lo - h), (None if hi is None else hi if a.op == 'floor' else hi + h)
        if a.op in ('max', 'min'):
            (l1, h1), (l2, h2) = self.poly_range(a.args[0]), self.poly_range(a.args[1])
            f = max if a.op == 'max' else min
            one = l1 if l2 is None else l2
            ones = h1 if h2 is None else h2
            return ((f(l1, l2) if None not in (l1, l2) else one if a.op == 'max' else None),
                    (f(h1, h2) if None not in (h1, h2) else ones if a.op == 'min' else None))
        if a.op == 'ite':
            (l1, h1), (l2, h2) = self.poly_range(a.args[1]), self.poly_range(a.args[2])
            return (None if None in (l1, l2) else min(l1, l2)), (None if None in (h1, h2) else max(h1, h2))
        return None, None

    def poly_range(self, p):
        """bounds that follow from the declared ranges of the variables"""
        lo = hi = F0
        for m, c in p.items():
            if not m:
                ml = mh = F1
            else:
                ml, mh = self.mono_range(m)
            if c < 0:
                ml, mh = mh, ml
            lo = None if (lo is None or ml is None) else lo + c * ml
            hi = None if (hi is None or mh is None) else hi + c * mh
            if lo is None and hi is None:
                break
        return lo, hi

    def mono_range(self, m):
        r = self.mono_cache.get(m)
        if r is None:
            r = self.mono_cache[m] = self._mono_range(m)
        return r

    def _mono_range(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom_range(m[0][0])
        lo = hi = F1
        for x, e in m:
            l, h = self.atom_range(x)
            if e < 0:
                if l is not None and l > 0:
                    l, h = (F0 if h is None else 1 / h), 1 / l
                elif h is not None and h < 0:
                    l, h = 1 / h, (F0 if l is None else 1 / l)
                else:
                    l = h = None
            for _ in range(abs(e) // 2):
                # square
                if l is None or h is None:
                    sl, sh = F0, None
                    if l is not None and l > 0:
                        sl = l * l
                    elif h is not None and h < 0:
                        sl = h * h
                else:
                    sh = max(l * l, h * h)
                    sl = F0 if l <= 0 <= h else min(l * l, h * h)
                lo, hi = _imul(lo, hi, sl, sh)
            if e % 2:
                lo, hi = _imul(lo, hi, l, h)
        return lo, hi

    # ---- solver ------------------------------------------------------------
    def check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.stats['checks'] += 1
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def push(self):
        self.solver.push()
        self.levels.append(set())
        self.level_conds.append([])

    def pop(self):
        self.solver.pop()
        self.active -= self.levels.pop()
        self.level_conds.pop()

    def add_cond(self, c):
        self.touch_cond(c)
        self.solver.add(self.zc(c))
        self.level_conds[-1].append(c)

    def get_model(self):
        return Model(self.solver.model(), self.active, self)

    def ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.sat:
                self.model = self.get_model()
        return self.model

    # ---- decisions ---------------------------------------------------------
    def branch(self, c):
        if c.op == 'c':
            return c.arg
        if c.op in ('lt', 'le') and any(len(m) > 1 or (m and m[0][1] != 1) for m in c.arg):
            if c.op == 'lt' and self._sos2(c.arg):
                return False
            if c.op == 'le' and self._sos2(p_scale(c.arg, -F1)):
                return True
        r = self.decided(c)
        if r is not None:
            return r
        self.stats['branches'] += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d.kind != 'b':
                raise AssertionError('nondeterministic replay')
            return d.val
        if len(self.prefix) >= self.opts.get('max_decisions', 400):
            raise StepLimit('decision bound')
        self.touch_cond(c)
        val = None
        m = self.ensure_model()
        if m is not None:
            try:
                val = m.cond(c)
            except NoEval:
                self.model = None
                m = self.ensure_model()
                if m is not None:
                    try:
                        val = m.cond(c)
                    except NoEval:
                        val = None
        d = Dec()
        d.kind = 'b'
        d.cond = c
        d.level = len(self.levels)
        other_model = None
        if val is None:
            # no usable model: decide both sides by the solver
            self.push()
            self.add_cond(c)
            r = self.check()
            mod = self.get_model() if r == z3.sat else None
            self.pop()
            if r == z3.unsat:
                val = False
                other = z3.unsat
            else:
                val = True
                self.model = mod
                self.push()
                self.add_cond(c_not(c))
                other = self.check()
                if other == z3.sat:
                    other_model = self.get_model()
                self.pop()
        else:
            self.push()
            self.add_cond(c_not(c) if val else c)
            other = self.check()
            if other == z3.sat:
                other_model = self.get_model()
            self.pop()
        if other != z3.unsat and self.opts.get('nra_prune'):
            # confirm the other side under the precise semantics before exploring it
            if self._has_nonlinear(c):
                st, _ = self.precise([c_not(c) if val else c], self.opts['nra_prune'])
                if st == 'unsat':
                    other = z3.unsat
                    self.stats['infeasible_pruned'] += 1
                    # the side we are on is then the only possible one
        d.val = val
        if other == z3.unsat:
            d.state = 'forced'
            d.model = None
            self.stats['forced'] += 1
        else:
            d.state = 'open'
            d.model = other_model
            self.push()
            self.add_cond(c if val else c_not(c))
        self.prefix.append(d)
        self.pos += 1
        self.stats['decisions'] += 1
        return val

    def _has_nonlinear(self, c):
        for p in cond_polys(c):
            for m in p:
                if len(m) > 1 or (m and m[0][1] != 1):
                    return True
                if m and self.atoms[m[0][0]].op in ('inv', 'sqrt'):
                    return True
        return False

    def choose(self, options, label=None):
        """fork over a finite list (no solver constraint)."""
        options = list(options)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d.kind != 'c':
                raise AssertionError('nondeterministic replay')
            return options[d.val]
        d = Dec()
        d.kind = 'c'
        d.cond = None
        d.val = 0
        d.n = len(options)
        d.state = 'open' if len(options) > 1 else 'forced'
        d.model = self.model
        d.level = len(self.levels)
        d.label = label
        if d.state == 'open':
            self.push()
        self.prefix.append(d)
        self.pos += 1
        return options[0]

    def assume(self, b):
        c = to_cond(b)
        if c.op == 'c':
            if not c.arg:
                raise PathAbort()
            return
        if self.pos < len(self.prefix):
            return
        self.add_cond(c)
        if self.model is not None:
            try:
                if not self.model.cond(c):
                    self.model = None
            except NoEval:
                self.model = None
        self.ensure_model()

    def concretise(self, x, why):
        self.stats['concretised'] += 1
        self.note('concretised: ' + why)
        # pick a value from the model and stay on it (the rest is not explored)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d.val
        m = self.ensure_model()
        if m is None:
            raise PathAbort()
        try:
            v = m.poly(x.p)
        except NoEval:
            raise PathAbort()
        d = Dec()
        d.kind = 'v'
        d.cond = None
        d.val = v
        d.state = 'forced'
        d.model = None
        d.level = len(self.levels)
        self.add_cond(c_cmp('eq', p_sub(x.p, p_const(v))))
        self.prefix.append(d)
        self.pos += 1
        return v

    def note(self, s):
        n = self.notes.setdefault('notes', {})
        n[s] = n.get(s, 0) + 1

    # ---- obligations ---------------------------------------------------------
    def oblige(self, b, msg):
        self.stats['obligations'] += 1
        c = to_cond(b)
        if c.op == 'c' and c.arg:
            self.stats['syntactic'] += 1
            self.stats['discharged'] += 1
            return
        self.obligs.append((c, msg))
        if len(self.obligs) >= 200:
            self.flush_obligations()

    def flush_obligations(self):
        obs, self.obligs = self.obligs, []
        if not obs:
            return
        seen = {}
        for c, msg in obs:
            seen.setdefault(c.key(), (c, msg))
        pend = list(seen.values())
        self.push()
        try:
            self.add_cond(c_or(*[c_not(c) for c, _ in pend]))
            r = self.check()
        finally:
            self.pop()
        if r == z3.unsat:
            self.stats['discharged'] += len(obs)
            return
        # individually
        for c, msg in pend:
            self.push()
            try:
                self.add_cond(c_not(c))
                r = self.check()
                if r == z3.unsat:
                    self.stats['discharged'] += 1
                    continue
                nl = self._path_nonlinear([c])
                if not nl and r == z3.sat:
                    nm = self.nice_model()
                    if nm is None:
                        self.inconclusive.append(msg)
                    else:
                        self.violation(msg, nm, c)
                    continue
            finally:
                self.pop()
            st, info = self.precise([c_not(c)], self.opts.get('nra_ms', 20000))
            self.stats['precise'] += 1
            if st == 'unsat':
                self.stats['discharged'] += 1
            elif st == 'sat':
                self.violation(msg, info, c)
            else:
                self.inconclusive.append(msg)

    def _path_nonlinear(self, cs):
        ids = set()
        for c in list(cs) + self.path_conds():
            for p in cond_polys(c):
                for m in p:
                    if m and not (len(m) == 1 and m[0][1] == 1):
                        return True
                    if m:
                        ids.add(m[0][0])
        todo = list(ids)
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            a = self.atoms[i]
            if a.nonlinear:
                return True
            for x in a.args:
                if isinstance(x, dict):
                    for m in x:
                        if m and not (len(m) == 1 and m[0][1] == 1):
                            return True
            todo.extend(self.arg_atoms(a))
        return False

    def path_conds(self):
        out = []
        for l in self.level_conds:
            out.extend(l)
        return out

    def precise(self, conds, ms, extra=()):
        """full nonlinear query: path condition and conds."""
        conds = list(conds) + self.path_conds()
        atoms = set()
        for c in conds:
            atoms |= cond_atoms(c)
        todo = list(atoms)
        clos = set()
        while todo:
            i = todo.pop()
            if i in clos:
                continue
            clos.add(i)
            todo.extend(self.arg_atoms(self.atoms[i]))
        s = z3.Solver()
        s.set('timeout', int(ms))
        for i in sorted(clos):
            a = self.atoms[i]
            for d in self._defs_precise(a):
                s.add(d)
            s.add(z3.Implies(a.z != 0, self.inv_var(i) * a.z == 1)) if self._uses_recip(i, conds, clos) else None
        for c in conds:
            s.add(self.zc(c, self.zp_precise))
        for e in extra:
            s.add(e)
        t = time.perf_counter()
        r = s.check()
        self.stats['checks'] += 1
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            m = s.model()
            vals = {}
            for i in sorted(clos):
                a = self.atoms[i]
                if a.op == 'var':
                    try:
                        vals[a.label] = z3_frac(m.eval(a.z, model_completion=True))
                    except NoEval:
                        pass
            return 'sat', vals
        self.stats['unknown'] += 1
        return 'unknown', None

    def _uses_recip(self, i, conds, clos):
        for c in conds:
            for p in cond_polys(c):
                for m in p:
                    for a, e in m:
                        if a == i and e < 0:
                            return True
        for j in clos:
            for x in self.atoms[j].args:
                ps = [x] if isinstance(x, dict) else (cond_polys(x) if isinstance(x, Cond) else [])
                for p in ps:
                    for m in p:
                        for a, e in m:
                            if a == i and e < 0:
                                return True
        return False

    def _defs_precise(self, a):
        z, op, args = a.z, a.op, a.args
        P = self.zp_precise
        if op == 'max':
            x, y = P(args[0]), P(args[1])
            return [z == z3.If(x >= y, x, y)]
        if op == 'min':
            x, y = P(args[0]), P(args[1])
            return [z == z3.If(x <= y, x, y)]
        if op == 'abs':
            x = P(args[0])
            return [z == z3.If(x >= 0, x, -x)]
        if op == 'ite':
            return [z == z3.If(self.zc(args[0], P), P(args[1]), P(args[2]))]
        if op == 'floor':
            x = P(args[0])
            return [z <= x, x < z + 1]
        if op in ('round', 'fmt'):
            x = P(args[0])
            h = zr(Fraction(1, 2 * 10 ** args[1]))
            return [z - x <= h, x - z <= h]
        if op == 'inv':
            return [z * P(args[0]) == 1]
        if op == 'sqrt':
            return [z >= 0, z * z == P(args[0])]
        return self._defs(a)

    def nice_model(self):
        """assignment of the input variables, preferring short decimals."""
        vs = [a for a in self.atoms if a.op == 'var' and a.id in self.active]
        fm = [a for a in self.atoms if a.op == 'fmt' and a.id in self.active]
        for grid in (8, 1000, 0):
            self.solver.push()
            try:
                for n, a in enumerate(fm if not self.hard_grid else ()):
                    self.solver.add(a.z * (10 ** a.args[1]) == z3.ToReal(z3.Int('fmtgrid_%d' % n)))
                for n, a in enumerate(vs):
                    if a.args[3] or not grid:
                        continue
                    k = z3.Int('grid%d_%d' % (grid, n))
                    self.solver.add(a.z * grid == z3.ToReal(k))
                self.solver.set('timeout', 1500)
                r = self.check()
                if r == z3.sat:
                    m = self.get_model()
                    return {a.label: m.atom(a.id) for a in vs}
                if r == z3.unknown:
                    self.hard_grid = True
            finally:
                self.solver.set('timeout', int(self.opts.get('query_ms', 8000)))
                self.solver.pop()
        if self.check() != z3.sat:
            return None
        m = self.get_model()
        return {a.label: m.atom(a.id) for a in vs}

    def pure(self, assign):
        """evaluate everything by definition from an input assignment"""
        return PureModel(self, assign)

    def violation(self, msg, assign, cond=None):
        self.violations.append((msg, dict(assign), self.choices()))

    def choices(self):
        return [d.val for d in self.prefix[:self.pos] if d.kind == 'c']

    # ---- literals ------------------------------------------------------------
    def literal(self, x):
        """a decimal numeral standing for the symbolic value x in program text"""
        key = p_key(x.p)
        s = self.lit_of.get(key)
        if s is None:
            s = '74%07d.5' % (len(self.lit_of) + 1)
            self.lit_of[key] = s
            self.lits[s] = x.p
        return s

    def from_literal(self, s, kind='f'):
        t = s.strip()
        neg = False
        if t[:1] in '+-':
            neg = t[0] == '-'
            t = t[1:]
        p = self.lits.get(t)
        if p is None:
            return None
        return SymReal(p_scale(p, Fraction(-1)) if neg else p, kind)

    # ---- variables -----------------------------------------------------------
    def var(self, name, lo=None, hi=None, k='q', integer=False):
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        i = self.atom('var', name, lo, hi, bool(integer))
        return mk({((i, 1),): F1}, k)

    # ---- main loop -----------------------------------------------------------
    def explore(self, run, on_path=None, max_paths=None, deadline=None):
        """run(): executes the harness once. Returns list of violations."""
        global CTX
        self.violations = []
        self.inconclusive = []
        self.engine_errors = []
        self.complete = True
        start_model = None
        while True:
            CTX = self
            self.pos = 0
            self.model = start_model
            self.obligs = []
            self.lits = {}
            self.lit_of = {}
            self.ticks = 0
            exc = None
            aborted = False
            try:
                run()
                self.flush_obligations()
            except PathAbort:
                aborted = True
                self.stats['aborted'] += 1
            except Budget:
                self.complete = False
                break
            self.stats['paths'] += 1
            if on_path is not None and not aborted:
                on_path(self)
            # backtrack
            while self.prefix:
                d = self.prefix[-1]
                if d.state == 'open':
                    if d.kind == 'b':
                        break
                    if d.kind == 'c' and d.val + 1 < d.n:
                        break
                self.prefix.pop()
                while len(self.levels) > d.level:
                    self.pop()
            if not self.prefix:
                break
            d = self.prefix[-1]
            while len(self.levels) > d.level:
                self.pop()
            if d.kind == 'b':
                self.push()
                d.val = not d.val
                d.state = 'closed'
                self.add_cond(d.cond if d.val else c_not(d.cond))
                start_model = d.model
            else:
                d.val += 1
                self.push()
                if d.val + 1 >= d.n:
                    d.state = 'closed'
                start_model = d.model
            if max_paths is not None and self.stats['paths'] >= max_paths:
                self.complete = False
                break
            if deadline is not None and time.time() > deadline:
                self.complete = False
                break
        while len(self.levels) > 1:
            self.pop()
        CTX = None
        return self.violations


def _imul(a, b, c, d):
    """product of the intervals [a, b] and [c, d] (None: unbounded)"""
    if None not in (a, b, c, d):
        v = (a * c, a * d, b * c, b * d)
        return min(v), max(v)
    if (a is not None and a >= 0 or b is not None and b <= 0) and (c is not None and c >= 0 or d is not None and d <= 0):
        # signs known
        pa, pc = a is not None and a >= 0, c is not None and c >= 0
        x, y = (a, b) if pa else (None if b is None else -b, None if a is None else -a)
        u, v = (c, d) if pc else (None if d is None else -d, None if c is None else -c)
        lo, hi = x * u, (None if y is None or v is None else y * v)
        if pa == pc:
            return lo, hi
        return (None if hi is None else -hi), -lo
    return None, None


def _sqrt_down(v):
    return exact_sqrt(v) or Fraction(math.isqrt(int(v * 10 ** 12)), 10 ** 6)


def _sqrt_up(v):
    return F0 if v <= 0 else exact_sqrt(v) or Fraction(math.isqrt(int(v * 10 ** 12)) + 1, 10 ** 6)


def poly_atoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def cond_polys(c):
    if c.op in ('lt', 'le', 'eq'):
        return [c.arg]
    if c.op in ('and', 'or'):
        out = []
        for x in c.arg:
            out.extend(cond_polys(x))
        return out
    if c.op == 'not':
        return cond_polys(c.arg)
    return []


def cond_atoms(c):
    s = set()
    for p in cond_polys(c):
        s |= poly_atoms(p)
    return s


_ZR = {}


def zr(f):
    r = _ZR.get(f)
    if r is None:
        f = Fraction(f)
        r = z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)
        if len(_ZR) < 20000:
            _ZR[f] = r
    return r

"""Harness interface: the same harness source runs symbolically (SymH) and concretely (ConcH).

A harness never looks at how the code is written: it builds inputs, calls the
public entry points of /repo's code and states assertions on what comes back.
"""
import io
import os
import shutil
import sys
import tempfile
from fractions import Fraction

from . import core
from .core import SymReal, not_, and_, or_, implies  # noqa: F401 (re-exported)


class CheckFail(BaseException):
    pass


class Skip(BaseException):
    """concrete replay left the assumed input space"""


class Num(object):
    """t: text in a program, v: exact value for the oracle, py: value to pass to the API."""
    __slots__ = ('t', 'v', 'py', 'name')

    def __repr__(self):
        return self.t


def dec_text(v):
    """shortest plain decimal for a fraction (at most 9 decimals)."""
    v = Fraction(v)
    for n in range(0, 10):
        k = 10 ** n
        if (v * k).denominator == 1:
            break
    q = round(v * 10 ** n)
    sign = '-' if q < 0 else ''
    s = str(abs(q)).rjust(n + 1, '0')
    return sign + (s[:-n] + '.' + s[-n:] if n else s)


class Base(object):
    TOL = Fraction(1, 1000000)

    def __init__(self, world, case, params=None):
        self.w = world
        self.case = case
        self.observed = []
        self.scratch_dir = None

    # module access
    def load(self, name):
        return self.w.load(name)

    @property
    def gcoder(self):
        return self.w.load('gcodeutils.gcoder')

    def observe(self, *vals):
        self.observed.extend(vals)

    def scratch(self):
        if self.scratch_dir is None:
            self.scratch_dir = tempfile.mkdtemp(prefix='symx_', dir=os.environ.get('SX_SCRATCH') or None)
        return self.scratch_dir

    def close(self):
        if self.scratch_dir is not None:
            shutil.rmtree(self.scratch_dir, ignore_errors=True)
            self.scratch_dir = None

    def near(self, a, b, tol=0):
        t = Fraction(tol) + self.slack
        if a is None or b is None:
            return a is b
        d = self.exact(a) - self.exact(b)
        return and_(d <= t, -d <= t)

    def le(self, a, b, tol=0):
        return self.exact(a) - self.exact(b) <= Fraction(tol) + self.slack

    def check_near(self, a, b, tol, msg):
        self.check(self.near(a, b, tol), msg)

    # --- programs
    def append_program(self, lines):
        """gcode program built line by line (one layer, no layer/duration analysis)."""
        g = self.gcoder.GCode()
        for l in lines:
            g.append(l)
        return g

    def text_of(self, g):
        """program text as GCode.write prints it"""
        o = io.StringIO()
        g.write(o)
        return [l for l in o.getvalue().split('\n')]

    def cli(self, modname, args, text=None, joiner='\n'):
        """run a command line entry point on scratch files; returns output text lines"""
        d = self.scratch()
        inp = os.path.join(d, 'in.gcode')
        out = os.path.join(d, 'out.gcode')
        with open(inp, 'w') as f:
            f.write(joiner.join(text))
            f.write('\n')
        if os.path.exists(out):
            os.unlink(out)
        m = self.load(modname)
        old = sys.argv
        sys.argv = ['prog'] + [a if isinstance(a, str) else a.t for a in args] + [inp, out]
        err = sys.stderr
        try:
            with open(os.devnull, 'w') as dn:
                sys.stderr = dn
                try:
                    m.main()
                finally:
                    sys.stderr = err
        finally:
            sys.argv = old
        import gc
        gc.collect()
        with open(out) as f:
            return f.read().split('\n')


class SymH(Base):
    symbolic = True
    slack = Fraction(2, 1000000)

    def __init__(self, world, case):
        Base.__init__(self, world, case)
        self.ctx = core.CTX

    def num(self, name, lo=-300, hi=300):
        n = Num()
        n.name = name
        n.v = self.ctx.var(name, lo, hi)
        n.py = SymReal(n.v.p, 'f')
        n.t = self.ctx.literal(n.v)
        return n

    def int(self, name, lo, hi):
        n = Num()
        n.name = name
        n.v = self.ctx.var(name, lo, hi, integer=True)
        n.py = SymReal(n.v.p, 'i')
        n.t = self.ctx.literal(n.v)
        return n

    def lin(self, v):
        """Num for a derived exact value (text and float forms)"""
        n = Num()
        n.name = None
        n.v = core.sx(v)
        n.py = SymReal(n.v.p, 'f')
        n.t = self.ctx.literal(n.v) if not n.v.is_const() else dec_text(core.p_cval(n.v.p))
        return n

    def choose(self, options, label=None):
        return self.ctx.choose(options, label)

    def assume(self, b):
        self.ctx.assume(b)

    def check(self, b, msg):
        self.ctx.oblige(b, msg)

    def fail(self, msg):
        self.ctx.oblige(False, msg)
        raise CheckFail()

    def exact(self, x):
        """exact value of a number produced by the code"""
        if isinstance(x, SymReal):
            return SymReal(x.p, 'q')
        if isinstance(x, float) and (x != x or x in (core.INF, -core.INF)):
            return Fraction(10) ** 9
        return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)

    def read_num(self, text):
        """exact value of a numeral in program text, or None"""
        r = self.ctx.from_literal(text, 'q')
        if r is not None:
            return r
        return _plain_number(text)

    def max(self, a, b):
        return core.sym_max(core.sx(a), core.sx(b))

    def min(self, a, b):
        return core.sym_min(core.sx(a), core.sx(b))

    def abs(self, a):
        return core.sym_abs(core.sx(a))

    def sqrt(self, a):
        return core.sym_sqrt(core.sx(a))

    def ite(self, c, a, b):
        return core.sym_ite(c, core.sx(a), core.sx(b))


class ConcH(Base):
    symbolic = False
    slack = Fraction(1, 1000000)

    def __init__(self, world, case, assign, choices):
        Base.__init__(self, world, case)
        self.assign = assign
        self.pending = list(choices)
        self.failed = []
        self.values = {}

    def num(self, name, lo=-300, hi=300):
        v = self.assign.get(name)
        if v is None:
            v = Fraction(0)
            if lo is not None and v < lo:
                v = Fraction(lo)
            if hi is not None and v > hi:
                v = Fraction(hi)
        return self._num(name, Fraction(v))

    def _num(self, name, v):
        n = Num()
        n.name = name
        n.t = dec_text(v)
        n.v = Fraction(n.t)
        n.py = float(n.t)
        if name:
            self.values[name] = n.t
        return n

    def int(self, name, lo, hi):
        v = self.assign.get(name)
        if v is None:
            v = max(lo, min(hi, 0))
        n = Num()
        n.name = name
        n.py = int(v)
        n.v = Fraction(n.py)
        n.t = str(n.py)
        self.values[name] = n.t
        return n

    def lin(self, v):
        return self._num(None, Fraction(v))

    def choose(self, options, label=None):
        options = list(options)
        i = self.pending.pop(0) if self.pending else 0
        return options[i]

    def assume(self, b):
        if not b:
            raise Skip()

    def check(self, b, msg):
        if not b:
            self.failed.append(msg)

    def fail(self, msg):
        self.failed.append(msg)
        raise CheckFail()

    def exact(self, x):
        if isinstance(x, float) and (x != x or x in (core.INF, -core.INF)):
            return Fraction(10) ** 9
        return Fraction(x)

    def read_num(self, text):
        return _plain_number(text)

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return core.fsqrt(Fraction(a))

    def ite(self, c, a, b):
        return a if c else b


def _plain_number(text):
    t = text
    if t[:1] in ('+', '-'):
        t = t[1:]
    i, _, f = t.partition('.')
    if not (i + f).isdigit() or not (i + f).isascii():
        return None
    return Fraction(text)

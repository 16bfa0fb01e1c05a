"""Programs with segments along circles, and the comparison of the program before and after arc optimisation."""
import math
from fractions import Fraction

from symx.harness import and_, or_, not_, implies  # noqa: F401
from symx.oracle import Machine, MOVES  # noqa: F401
from .common import Cmd, out_lines

INCH = Fraction(254, 10)


def unit_vector(deg):
    """exact rational point of the unit circle next to an angle"""
    deg = (deg + 180.0) % 360.0 - 180.0
    if abs(deg) > 179.99:
        return (Fraction(-1), Fraction(0))
    t = Fraction(math.tan(math.radians(deg) / 2)).limit_denominator(400)
    d = 1 + t * t
    return ((1 - t * t) / d, 2 * t / d)


class Shape(object):
    """pts: points in units of the radius, relative to the centre of the first circle; circles: [(first, last, cx, cy, r)]
    ranges of points lying exactly on a circle, regularly spaced in one direction"""

    def __init__(self):
        self.pts = []
        self.circles = []

    def arc(self, start, step, n, cx=0, cy=0, r=1, bump=None, ragged=0):
        """n segments"""
        cx, cy, r = Fraction(cx), Fraction(cy), Fraction(r)
        first = len(self.pts)
        for k in range(n + 1):
            u = unit_vector(start + step * k + (ragged if k % 2 else 0))
            s = r * (bump[1] if bump and bump[0] == k else 1)
            self.pts.append((cx + s * u[0], cy + s * u[1]))
        if not bump:
            self.circles.append((first, len(self.pts) - 1, cx, cy, r))
        return self

    def to(self, *pts):
        self.pts += [(Fraction(x), Fraction(y)) for x, y in pts]
        return self

    def then(self, start, step, n, r):
        """another arc from the last point: centre at distance r so that the last point is at angle start on it"""
        r = Fraction(r)
        x, y = self.pts.pop()
        u = unit_vector(start)
        # the last point stays (shared by both circles)
        return self.arc(start, step, n, x - r * u[0], y - r * u[1], r)


def run_filter(h, text):
    g = h.append_program(text)
    h.load('gcodeutils.filter.arc_optimizer').GCodeArcOptimizerFilter().filter(g)
    return [l for l in out_lines(h, g) if l.strip()]


class Merge(object):
    """out[at] replaces text[first:last + 1]"""
    __slots__ = ('at', 'first', 'last', 'line')


def align(h, text, out):
    """lines kept and merged; checks that everything else is verbatim and in order. Returns (merges, {out index: text index})
    or None after a failed check."""
    merges, kept = [], {}
    i = k = 0
    while k < len(out):
        if i < len(text) and out[k] == text[i]:
            kept[k] = i
            i += 1
            k += 1
            continue
        c = Cmd(out[k], h.read_num)
        if c.op not in ('G2', 'G3'):
            h.check(False, 'line changed, added or moved: %s' % c.op)
            return None
        m = Merge()
        m.at, m.first, m.line = k, i, out[k]
        k += 1
        if k < len(out) and (i >= len(text) or out[k] not in text[i:]) and Cmd(out[k], h.read_num).op == 'G92':
            # E set again after the arc
            cc = Cmd(out[k], h.read_num)
            h.check(sorted(cc.w) == ['E'], 'G92 after an arc')
            kept[k] = None
            k += 1
        j = i
        while j < len(text) and (k >= len(out) or text[j] != out[k]):
            j += 1
        m.last = j - 1
        h.check(m.last >= m.first, 'arc replacing nothing')
        merges.append(m)
        i = j
    h.check(i == len(text), 'lines lost')
    return merges, kept


class Program(object):
    """text of a program following a shape; where[k] is the text index of the move to point k"""

    def __init__(self, h, shape, mode='abs', e=None, before=('M84',), after=('M84', 'G90', 'G1 X5 Y5 F900'), rlo=2, rhi=150,
                 feed='F1500', header=(), z=None):
        self.h = h
        self.shape = shape
        self.cx = h.num('cx', -100, 100).v
        self.cy = h.num('cy', -100, 100).v
        self.r = h.num('r', rlo, rhi).v
        self.unit = INCH if 'inch' in mode else Fraction(1)
        text = ['G28', 'G90', 'M82', 'G92 E0', 'G1 X0 Y0 Z0.3 ' + feed] + list(header)
        if mode == 'shift':
            text.append('G92 X%s Y%s' % (h.num('ox').t, h.num('oy').t))
        if 'inch' in mode:
            text.append('G20')
        m = Machine(h.read_num)
        for l in text:
            m.step(l)
        self.rel = rel = 'rel' in mode
        self.phys = [(self.cx + self.r * a, self.cy + self.r * b) for a, b in shape.pts]
        u = self.unit
        pts = [((x - m.off['X']) / u, (y - m.off['Y']) / u) for x, y in self.phys]
        text += list(before)
        text.append('G1 X%s Y%s' % (h.lin(pts[0][0]).t, h.lin(pts[0][1]).t))
        self.where = [len(text) - 1]
        if rel:
            # G91 is not a move: the arc starts after the next point
            text.append('G91')
            text.append('G1 X0 Y0')
            self.where = [len(text) - 1]
        for k in range(1, len(pts)):
            x, y = pts[k]
            if rel:
                x, y = x - pts[k - 1][0], y - pts[k - 1][1]
            w = '' if e is None else e(k)
            text.append('G1 X%s Y%s%s' % (h.lin(x).t, h.lin(y).t, w))
            self.where.append(len(text) - 1)
        text += list(after)
        self.text = text

    def optimise(self):
        self.out = run_filter(self.h, self.text)
        r = align(self.h, self.text, self.out)
        if r is None:
            return None
        self.merges, self.kept = r
        return self.merges

    def points(self, m):
        """points of the shape covered by an arc: first (start) and last, or None"""
        a, b = self.where.index(m.first) if m.first in self.where else None, None
        if m.last in self.where:
            b = self.where.index(m.last)
        if a is None or b is None or a == 0:
            self.h.check(False, 'arc over something else than the segments')
            return None
        return a - 1, b

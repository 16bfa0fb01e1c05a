"""Programs with walls as Slic3r, Cura and Skeinforge write them, and their stretching."""
import base64
import math
import zlib
from fractions import Fraction

from symx.oracle import Machine
from .arcs import unit_vector
from .common import Cmd, out_lines, parse

LOOPS = {
    # name: (points in edge widths around a middle, convex)
    'square': ([(-5, -5), (5, -5), (5, 5), (-5, 5), (-5, -5)], True),
    'square-': ([(-4, -4), (-4, 4), (4, 4), (4, -4), (-4, -4)], True),
    'hexagon': ([tuple(6 * c for c in unit_vector(20 + 60 * k)) for k in range(7)], True),
    'dodecagon': ([tuple(4 * c for c in unit_vector(7 - 30 * k)) for k in range(13)], True),
    'fine': ([tuple(6 * c for c in unit_vector(15 * k)) for k in range(25)], True),
    'grid': ([(x, y) for x, y in [(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (2, 2), (1, 2), (0, 2), (0, 1), (0, 0)]], True),
    'small': ([tuple(Fraction(1, 2) * c for c in unit_vector(40 + 72 * k)) for k in range(6)], True),
    'triangle': ([(0, 0), (3, 0), (1, 2), (0, 0)], True),
    'L': ([(0, 0), (9, 0), (9, 3), (4, 3), (4, 8), (0, 8), (0, 0)], False),
    'open': ([(-3, 0), (0, 1), (3, 0), (4, 4)], False),
    'spike': ([(0, 0), (8, 0), (8, Fraction(1, 5)), (0, Fraction(2, 5)), (0, 0)], False),
    'twice': ([(0, 0), (4, 0), (4, 0), (4, 4), (0, 0)], False),
    'back': ([(0, 0), (6, 0), (0, 0)], False),
    'dot': ([(1, 1), (1, 1)], False),
    'segment': ([(0, 0), (2, 1)], False),
}
KIND = {'outer': 'edge_outside', 'inner': 'edge_inside', 'loop': 'loop'}
RATIO = {'outer': Fraction(1, 10), 'inner': Fraction(32, 100), 'loop': Fraction(11, 100)}


class Item(object):
    """kind: wall type of the line (None: not in a wall); p: point in edge widths; mid: middle of a convex loop"""
    __slots__ = ('text', 'kind', 'p', 'mid', 'start', 'ring')

    def __init__(self, text, kind=None, p=None, mid=None, start=False):
        self.text, self.kind, self.p, self.mid, self.start, self.ring = text, kind, p, mid, start, None


class Walls(object):
    """blocks: list of (what, loop name or None); what: outer, inner, loop, fill, layer, extra text"""

    def __init__(self, h, slicer, blocks, width=None, unit=1, size=None, emode='M83', fixed_f=False, place=(-100, 100), nof=False, absolute=False, late=False):
        # absolute: E goes on from line to line
        self.absolute = absolute
        self.total = Fraction(0)
        self.nof = nof
        self.fixed_f = fixed_f
        self.h = h
        self.slicer = slicer
        self.unit = unit
        self.items = []
        self.emode = emode
        self.n = 0
        self.wide = width is None
        if slicer == 'cura':
            self.wide = False
            self.w = Fraction(width or '0.4')
        elif width is None:
            wn = h.num('width', Fraction(1, 10), 2)
            self.w = wn.v
        else:
            self.w = Fraction(width)
        self.size = self.w if size is None else size
        wt = h.lin(self.w).t
        self.cx, self.cy = h.num('cx', *place).v, h.num('cy', *place).v
        self.last = (0, 0)
        self.add('G90')
        if emode:
            self.add(emode)
        if unit != 1:
            self.add('G20')
        if slicer == 'slic3r':
            self.add('; external perimeters extrusion width = %smm' % wt)
        elif slicer == 'skeinforge':
            self.add('(<edgeWidth> %s </edgeWidth>)' % wt)
        elif width is not None:
            prof = base64.b64encode(zlib.compress(('a=1\x08nozzle_size=%s\x08b=2\x0calt' % wt).encode())).decode()
            prof = ';CURA_PROFILE_STRING:' + prof
            if not late:
                self.add(prof)
        self.add('G1 Z0.3' + self.f())
        self.add('G1 ' + self.xy((-15, -20)))
        if slicer == 'skeinforge':
            self.add('M103')
        if absolute and not emode:
            # absolute extrusion by default, from the second extrusion on there is a difference
            self.add('G1' + self.push(Fraction(1, 2)))
            self.add('G1' + self.push(Fraction(1, 2)))
        self.z = 0
        k = 0
        for what, loop in blocks:
            if 'joined' not in what:
                k += 1
            self.joined = 'joined' in what
            getattr(self, 'b_' + what.split(' ')[0])(what, loop, (12 * k, 5 * k))
        if late:
            # as Cura does
            self.b_layer('layer', None, None)
            self.add('G1' + self.push(Fraction(-1)))
            self.add(prof)

    def add(self, text, **kw):
        self.items.append(Item(text, **kw))

    def xy(self, p):
        u = self.unit
        return 'X%s Y%s' % (self.h.lin((self.cx + self.size * p[0]) / u).t, self.h.lin((self.cy + self.size * p[1]) / u).t)

    def e(self):
        self.n += 1
        return self.push(self.h.num('e%d' % self.n, Fraction(1, 100), 3).v)

    def push(self, length):
        if self.absolute:
            self.total = length = self.total + length
        return ' E' + self.h.lin(length).t

    def f(self):
        self.n += 1
        if self.nof:
            return ''
        if self.fixed_f:
            return ' F%d' % (600 + 60 * self.n)
        return ' F' + self.h.num('f%d' % self.n, 600, 6000).t

    def loop(self, name, at):
        pts, convex = LOOPS[name]
        pts = [(Fraction(x) + at[0], Fraction(y) + at[1]) for x, y in pts]
        ring = pts[1:] if pts[0] == pts[-1] else pts
        mx = sum(p[0] for p in ring) / len(ring), sum(p[1] for p in ring) / len(ring)
        return pts, (mx if convex else None)

    def wall(self, what, loop, at):
        pts, mid = self.loop(loop, at)
        kind = what.split(' ')[0]
        first = len(self.items)
        self.wall_lines(pts, mid, kind)
        its = [i for i in self.items[first:] if i.p is not None]
        ring = pts[1:] if pts[0] == pts[-1] else None
        for k, it in enumerate(its):
            if ring:
                it.ring = ring, (k + len(pts) - len(its) - 1) % len(ring)

    def wall_lines(self, pts, mid, kind):
        what = kind
        if self.slicer == 'slic3r':
            tail = ' ; perimeter external' if what in ('outer', 'inner') else ' ; perimeter'
            self.add('G1 ' + self.xy(pts[0]) + self.f() + ' ; move to first perimeter point', kind=kind, p=pts[0], mid=mid, start=True)
            self.add('G1' + self.push(Fraction(1, 2)) + ' ; unretract', kind=kind)
            fs = self.f()
            for p in pts[1:]:
                self.add('G1 ' + self.xy(p) + self.e() + fs + tail, kind=kind, p=p, mid=mid)
                fs = ''
        elif self.slicer == 'cura':
            if not self.joined:
                self.add('G0 ' + self.xy(pts[0]) + self.f())
            self.add({'outer': ';TYPE:WALL-OUTER', 'inner': ';TYPE:WALL-INNER', 'loop': ';TYPE:SKIN'}[what])
            fs = self.f()
            for p in pts[1:]:
                self.add('G1 ' + fs.strip() + (' ' if fs else '') + self.xy(p) + self.e(), kind=kind, p=p, mid=mid)
                fs = ''
        else:
            self.add({'outer': '(<edge> outer )', 'inner': '(<edge> inner )', 'loop': '(<loop> inner )'}[what])
            self.add('G1 ' + self.xy(pts[0]) + ' Z0.3' + self.f(), kind=kind, p=pts[0], mid=mid, start=True)
            self.add('M101')
            for p in pts[1:]:
                self.add('G1 ' + self.xy(p) + ' Z0.3' + self.f(), kind=kind, p=p, mid=mid)
            self.add('M103')
            self.add('(</loop>)' if what == 'loop' else '(</edge>)')

    b_outer = b_inner = b_loop = wall

    def b_fill(self, what, loop, at):
        pts, mid = self.loop(loop, at)
        if self.slicer == 'slic3r':
            self.add('G1 ' + self.xy(pts[0]) + ' ; move to first infill point')
            for p in pts[1:]:
                self.add('G1 ' + self.xy(p) + self.e() + ' ; infill')
        elif self.slicer == 'cura':
            self.add(';TYPE:FILL')
            self.add('G0 ' + self.xy(pts[0]) + self.f())
            for p in pts[1:]:
                self.add('G1 ' + self.xy(p) + self.e())
        else:
            self.add('G1 ' + self.xy(pts[0]) + ' Z0.3')
            self.add('M101')
            for p in pts[1:]:
                self.add('G1 ' + self.xy(p) + ' Z0.3')
            self.add('M103')

    def b_retract(self, what, loop, at):
        e = self.push(Fraction(-3, 2)) if self.slicer != 'skeinforge' else ''
        self.add({'slic3r': 'G1' + e + ' F1800 ; retract', 'cura': 'G1 F1800' + e, 'skeinforge': 'M103'}[self.slicer])

    def b_layer(self, what, loop, at):
        self.z += 1
        if self.slicer == 'cura':
            self.add(';LAYER:%d' % self.z)
        self.add('G1 Z%s%s' % (1 + self.z, self.f()))

    def b_line(self, what, loop, at):
        self.add(loop)

    def text(self):
        return [i.text for i in self.items]

    def read(self, layers=False):
        return parse(self.h, self.text()) if layers else self.h.append_program(self.text())

    def filter_class(self):
        m = self.h.load('gcodeutils.stretch.stretch')
        return {'slic3r': m.Slic3rStretchFilter, 'cura': m.CuraStretchFilter, 'skeinforge': m.SkeinforgeStretchFilter}[self.slicer]


def ring_stretch(ring, k, reach, limit):
    """displacement of point k of a closed wall, in maximal displacements (ring: points in widths): the point goes away from the places
    at a distance of reach widths along the wall on both sides; the part across the direction of a neighbour fades out between a
    third of the limit and the limit"""
    ring = [complex(float(x), float(y)) for x, y in ring]
    n, p = len(ring), ring[k]

    def walk(s):
        done, last = 0., p
        for c in range(1, n + 1):
            q = ring[(k + s * c) % n]
            l = abs(q - last)
            if done + l >= reach:
                r = (reach - done) / l
                return (p - (q * r + last * (1 - r))) / reach
            done += l
            last = q
        return 0
    v = (walk(1) + walk(-1)) * .8
    for s in (1, -1):
        d = p - ring[(k + s) % n]
        l = abs(d)
        if l <= limit / 3.:
            continue
        u = d / l
        along = (u.real * v.real + u.imag * v.imag) * u
        v = along if l > limit else along + (v - along) * ((limit - l) / (limit * 2 / 3.))
    v /= max(1, abs(v))
    return Fraction(v.real).limit_denominator(10 ** 6), Fraction(v.imag).limit_denominator(10 ** 6)

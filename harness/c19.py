"""C19: arc optimisation touches nothing but plain runs of segments: every other command stays, in order, in the same state."""
import math
from fractions import Fraction

from symx.oracle import Machine
from . import arcs
from .arcs import Shape
from .common import Cmd

BOUNDS = ('19 segments along a circle (symbolic place, radius and flow, extruding or not, absolute and relative extrusion) with one '
          '(quick) / up to two (thorough) events before, among or after them, then one of 5 endings: comments, other commands, changes of feedrate (symbolic), '
          'height (symbolic), mode, unit, tool, offset, moves with and without E, arcs, retractions')
ASSUMPTIONS = ['rounding to 7 decimals or more is taken as exact', 'the points of the circles are rational points (exactly on the circle)',
               'comments written at the end of a segment are lost with it']
MODULES = ('gcodeutils.filter.arc_optimizer',)
OPTS = dict(max_ticks=60000, query_ms=2000, nra_ms=10000, round_exact=7)
BUDGET = {'quick': 110, 'thorough': 850}

# X Y: the next point; E: its filament; others as written
PLAIN = ['; comment', '(comment)', 'M106 S100', 'G4 P100', 'T1', 'M84', 'M117 G1 X5', 'G20', 'G91', 'M83', 'G92 E0', 'G92 X0 Y0', 'G92',
         'N10 M105', 'M82', 'G10']
SEG = ['G1 X Y F', 'G1 X Y E F', 'G1 F', 'G1 X Y', 'G1 X Y E', 'G0 X Y', 'G1 X Y Z', 'G1 X Y Z E', 'G1 Z', 'G0 Z', 'G1 E-', 'G2 X Y I J', 'G3 X Y I J E',
       'G1 X', 'G1 Y E', 'G1 X Y F1500', 'G1 X Y E F1500', 'G28 Z0', 'G1']
AT = [0, 4, 8, 9, 13, 19]
END = [('; end', 'G1 X0 Y0', 'M84', 'G1 Z8 E9', 'M2'), ('centre',), ('M84', 'centre'), (), ('G1 Z9', '; end')]


def cases(tier):
    out = []
    for ev in PLAIN + SEG:
        for kind in ('travel', 'abs', 'M83'):
            out.append(dict(ev=ev, kind=kind))
            if tier != 'quick':
                for ev2 in PLAIN + SEG:
                    out.append(dict(ev=ev, ev2=ev2, kind=kind))
    for end in range(1, len(END)):
        for ev in ('; comment', 'M83', 'G1 X Y Z E') if tier == 'quick' else PLAIN + SEG:
            for kind in ('travel', 'abs', 'M83'):
                out.append(dict(ev=ev, kind=kind, end=end))
    return out


class Build(object):
    def __init__(self, h, kind):
        self.h = h
        self.text = []
        self.m = Machine(h.read_num)
        self.cx, self.cy = h.num('cx', -100, 100).v, h.num('cy', -100, 100).v
        self.r = h.num('r', 2, 150).v
        self.s = h.num('flow', Fraction(1, 100), Fraction(3, 10)).v
        self.kind = kind
        self.n = 0
        self.at = None

    def raw(self, l):
        self.m.step(l)
        self.text.append(l)

    def word(self, a, v):
        """word bringing an axis to a physical position"""
        m = self.m
        rel = m.rel_e if a == 'E' else m.rel
        v = v - m.pos[a] if rel else v - m.off[a]
        return a + self.h.lin(v / m.unit).t

    def move(self, tmpl, p):
        """tmpl over X Y Z E E- F I J"""
        self.n += 1
        x, y = self.cx + self.r * p[0], self.cy + self.r * p[1]
        at = self.at or p
        c = Fraction(math.hypot(p[0] - at[0], p[1] - at[1])).limit_denominator(10 ** 7)
        out = []
        got = list(at)
        for w in tmpl.split(' '):
            if w == 'X':
                w = self.word('X', x)
                got[0] = p[0]
            elif w == 'Y':
                w = self.word('Y', y)
                got[1] = p[1]
            elif w == 'Z':
                w = self.word('Z', self.h.num('z%d' % self.n, 1, 9).v)
            elif w == 'E':
                w = self.word('E', self.m.pos['E'] + self.s * self.r * c)
            elif w == 'E-':
                w = self.word('E', self.m.pos['E'] - self.s * self.r)
            elif w == 'F':
                w = 'F' + self.h.num('f%d' % self.n, 600, 1400).t
            elif w in 'IJ':
                w = w + self.h.lin(-self.r / 8).t
            out.append(w)
        self.at = tuple(got)
        self.raw(' '.join(out))


def run(h, case):
    kind = case['kind']
    sh = Shape().arc(20, 15, 20)
    events = {}
    for name in ('ev', 'ev2'):
        if name in case:
            events.setdefault(h.choose(AT if name == 'ev' else [3, 9, 12], 'at'), []).append(case[name])
    b = Build(h, kind)
    for l in ['G28', 'G90', 'M83' if kind == 'M83' else 'M82', 'G1 Z0.5 F1500', 'G1 E1', 'M84']:
        b.raw(l)
    b.move('G1 X Y', sh.pts[0])
    where = []
    k = 1
    seg = 'G1 X Y' if kind == 'travel' else 'G1 X Y E'
    while k <= 20:
        for ev in events.pop(k - 1, ()):
            if ev in SEG:
                b.move(ev, sh.pts[k])
                if 'X' in ev and 'Y' in ev:
                    k += 1
            else:
                b.raw(ev)
        if k <= 20:
            b.move(seg, sh.pts[k])
            k += 1
    for l in END[case.get('end', 0)]:
        if l == 'centre':
            b.move('G1 X Y', (0, 0))
        else:
            b.raw(l)
    text = b.text
    out = arcs.run_filter(h, text)
    r = arcs.align(h, text, out)
    if r is None:
        return
    merges, kept = r
    h.observe(len(merges))
    at = {x.at: x for x in merges}
    mo, mt = Machine(h.read_num), Machine(h.read_num)
    inch = any(l == 'G20' for l in text)
    tol = Fraction(15, 10000) * (arcs.INCH if inch else 1)
    nrel = 0
    for k, l in enumerate(out):
        if k in at:
            x = at[k]
            eo = mo.step(l)
            h.check(sorted(set(eo.cmd.w) - set('EF')) == ['I', 'J', 'X', 'Y'], 'words of an arc')
            first = None
            for t in text[x.first:x.last + 1]:
                et = mt.step(t)
                first = first or et
                h.check(et.op in ('G0', 'G1'), 'command lost in an arc: %s' % et.op)
                h.check_near(et.f, eo.f, Fraction(15, 1000), 'feedrate of an arc')
                h.check_near(et.end['Z'], first.start['Z'], 0, 'change of height in an arc')
                h.check((et.cmd.get('E') is None) == (eo.cmd.get('E') is None), 'arc over moves with and without filament')
                h.check(set(et.cmd.w) <= set('XYZEF'), 'words lost in an arc')
            h.check(x.last - x.first >= 7, 'arc of fewer than 8 segments')
            nrel += 1
        else:
            mo.step(l)
            if kept[k] is not None:
                mt.step(text[kept[k]])
        h.check((mo.rel, mo.rel_e, mo.tool, mo.unit) == (mt.rel, mt.rel_e, mt.tool, mt.unit), 'modes after ' + l.split(' ')[0])
        h.check_near(mo.f, mt.f, Fraction(15, 1000), 'feedrate after ' + l.split(' ')[0])
        h.check_near(mo.pos['Z'], mt.pos['Z'], 0, 'height after ' + l.split(' ')[0])
        for a in 'XY':
            h.check_near(mo.pos[a], mt.pos[a], tol * max(nrel, 1), 'position after ' + l.split(' ')[0])
    n = len(merges)
    if case['ev'] in ('G1 X Y F1500', 'G1 X Y E F1500') and 'ev2' not in case:
        h.check(n >= 1, 'no arc')

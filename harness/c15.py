"""C15: stretching changes X and Y of walls only: heights, feedrates, order, everything else and the other moves stay; the filament of a
stretched move shrinks by its displacement at most."""
from fractions import Fraction

from symx.harness import and_
from symx.oracle import Machine
from . import walls
from .common import Cmd, out_lines

BOUNDS = ('walls of Slic3r, Cura and Skeinforge programs (5 shapes, 3 types) with any of 15 lines (feedrate, retraction, hop, relative hop, arc, fan, '
          'reset of E, units, comments, temperature) before, between the points or after; every place, width (0.1 to 2 mm), '
          'strength (to 3 with a displacement under 1 mm), flow and feedrate; mm and inches')
ASSUMPTIONS = ['extrusion is relative, as the command line and the plugin make it first', 'filament of one line is 0.01 to 3 mm']
MODULES = ('gcodeutils.stretch.stretch',)
OPTS = dict(max_ticks=60000, query_ms=2000, nra_ms=10000, validate=3)
BUDGET = {'quick': 110, 'thorough': 850}
SHAPES = ['square', 'triangle', 'spike', 'open', 'dot', 'hexagon', 'L', 'twice', 'segment']
EXTRA = {
    'feed': ['G1 F1234.5'], 'retract': ['G1 E-2 F2400', 'G1 E2 F2400'], 'hop': ['G1 Z0.7', 'G1 Z0.3'], 'arc': ['G2 X1 Y2 I3 J4 F777'],
    'fan': ['M106 S200'], 'g92': ['G92 E0'], 'inch': ['G20', 'G1 F50', 'G21'], 'g91': ['G91', 'G1 Z1 F700', 'G1 Z-1', 'G90', 'M83'], 'note': ['; note'],
    'paren': ['(note)'], 'temp': ['M104 S210'], 'tool': ['T0'], 'fast': ['G0 F4321'], 'stop': ['G4 P100'], 'nof': [],
}
TAIL = ['G1 X7 Y8 E0.2', 'G1 X9 Y8 F800', 'G1 X9 Y7', 'G1 E-2', 'M84']


def cases(tier):
    out = []
    n = 0
    for s in ('slic3r', 'cura', 'skeinforge'):
        for a in SHAPES if tier != 'quick' else SHAPES[:5]:
            for x in sorted(EXTRA):
                for at in ('before', 'in', 'after'):
                    n += 1
                    for t in ('outer', 'inner', 'loop'):
                        if tier == 'quick' and (n + len(t)) % 3:
                            continue
                        out.append(dict(slicer=s, loop=a, type=t, extra=x, at=at, inch=n % 4 == 0))
    return out


def run(h, case):
    x, at = EXTRA[case['extra']], case['at']
    inch = case['inch'] and case['extra'] != 'inch'
    pre = [('line', l) for l in x] if at == 'before' else []
    w = walls.Walls(h, case['slicer'], pre + [(case['type'], case['loop'])], unit=Fraction(254, 10) if inch else 1,
                    nof=case['extra'] == 'nof')
    if at == 'in':
        k = max(n for n, i in enumerate(w.items) if i.p is not None)
        for l in reversed(x):
            w.items.insert(k, walls.Item(l))
    for l in (x if at == 'after' else []) + ([';TYPE:FILL'] if case['slicer'] == 'cura' else []) + TAIL:
        w.add(l)
    s = h.num('strength', 0, 3)
    mm = {t: s.v * r * w.w for t, r in walls.RATIO.items()}
    top = mm[case['type']]
    h.assume(top <= 1)
    g = w.read()
    w.filter_class()(stretch_strength=s.py).filter(g)
    text = w.text()
    out = out_lines(h, g)
    h.check(len(out) == len(text), 'number of lines')
    if len(out) != len(text):
        return
    ma, mb = Machine(h.read_num), Machine(h.read_num)
    tol = Fraction(11, 10000)
    for it, a, b in zip(w.items, text, out):
        ea, eb = ma.step(a), mb.step(b)
        h.check(ea.op == eb.op, 'command changed')
        if it.p is None:
            h.check(b.startswith(a), 'line outside of walls changed: ' + a)
        else:
            ks = set(ea.cmd.w) - {'F'}
            h.check(set(eb.cmd.w) - {'F'} == ks, 'words of a stretched line')
        if 'Z' in ea.moved or 'Z' in eb.moved:
            h.check_near(eb.end['Z'], ea.end['Z'], tol * ma.unit, 'height')
        if ea.f is None or eb.f is None:
            h.check(ea.f is None and eb.f is None, 'feedrate appears')
        elif eb.f is not None:
            h.check_near(eb.f, ea.f, tol * ma.unit, 'feedrate of: ' + ea.op if ea.op else 'feedrate')
        t = tol * ma.unit
        if it.p is None or ea.cmd.get('E') is None:
            h.check_near(eb.de, ea.de, t, 'filament of an other line')
        else:
            h.check(and_(eb.de <= ea.de + t, eb.de >= ea.de * (1 - top) - t), 'filament of a stretched line')
        h.check(ea.rel == eb.rel and ea.rel_e == eb.rel_e and ea.tool == eb.tool and ma.unit == mb.unit, 'modes')
        if it.p is None and ea.op in ('G0', 'G1') and not ma.rel:
            for ax in 'XY':
                if ea.cmd.has(ax):
                    h.check_near(eb.end[ax], ea.end[ax], t, 'other moves stay')

"""C14: the points of a closed wall are displaced as documented (direction of the wall at two widths on both sides, limited by the
neighbours, at most strength x ratio of the type of wall x width), whatever surrounds the wall; points of open walls within the limit;
nothing else moves."""
from fractions import Fraction

from symx.harness import and_
from . import walls
from .common import Cmd, out_lines

BOUNDS = ('walls of Slic3r, Cura and Skeinforge programs: 15 shapes (squares, polygons, concave, thin, with points repeated, of a single '
          'point, open), alone or among other walls, infill, retractions, comments and layers; every place of the walls, width of the '
          'extrusion (0.1 to 2 mm; walls scaled with it) or fixed width, strength (0 to 3) and E; limits of 5 and 100 widths; mm and inches')
ASSUMPTIONS = ['X and Y are both written on the lines of the walls (slicers do)', 'the shape of a wall is one of the list (its place, '
               'scale and flow are any)', 'the walls are in absolute coordinates']
MODULES = ('gcodeutils.stretch.stretch',)
OPTS = dict(max_ticks=60000, query_ms=2000, nra_ms=10000)
BUDGET = {'quick': 150, 'thorough': 850}
PLANS = {
    'alone': lambda a, t: [(t, a)],
    'filled': lambda a, t: [(t, a), ('fill', 'open')],
    'nested': lambda a, t: [('outer', a), ('inner', 'hexagon'), ('loop', a), ('inner', 'triangle'), ('fill', 'open')],
    'first': lambda a, t: [('fill', 'open'), ('loop', 'triangle'), ('outer', a), ('loop', a), ('retract', None), ('fill', 'L')],
    'layers': lambda a, t: [(t, a), ('retract', None), ('layer', None), ('outer', 'hexagon'), ('line', 'M106 S1'), ('loop', a),
                            ('layer', None), ('fill', 'open'), ('layer', None), (t, a)],
    'broken': lambda a, t: [(t, a), ('line', 'M106 S100'), ('layer', None), ('line', 'G1 X3 Y4'), ('outer', 'segment'), ('layer', None),
                            ('outer', a)],
}
JOINED = {'joined': lambda a, t: [(t, a), ('inner joined', a), ('fill', 'open')], 'joined2': lambda a, t: [('inner', a), (t + ' joined', a)]}
SPLIT = ('layers', 'broken')


def cases(tier):
    out = []
    n = 0
    for s in ('slic3r', 'cura', 'skeinforge'):
        for a in walls.LOOPS:
            for p in list(PLANS) + (sorted(JOINED) if s == 'cura' and a != 'open' and a != 'segment' else []):
                for t in ('outer', 'loop'):
                    if t == 'loop' and p in ('nested', 'first', 'broken') or t == 'outer' and p == 'alone':
                        continue
                    n += 1
                    for c in (5, 100):
                        if tier == 'quick' and (n + c // 100) % 2:
                            continue
                        out.append(dict(slicer=s, loop=a, type=t, plan=p, cross=c, width=[None, '0.4', None][n % 3] if c == 5 else None,
                                        inch=n % 5 == 0 and p not in SPLIT))
    return out


def run(h, case):
    split = case['plan'] in SPLIT
    width = '0.4' if split else case['width']
    w = walls.Walls(h, case['slicer'], dict(PLANS, **JOINED)[case['plan']](case['loop'], case['type']), width=width, fixed_f=split,
                    place=(40, 100) if split else (-100, 100),
                    unit=Fraction(254, 10) if case['inch'] else 1)
    s = h.num('strength', 0, 3)
    g = w.read(layers=split)
    w.filter_class()(stretch_strength=s.py, cross_limit_distance_over_edge_width=float(case['cross'])).filter(g)
    out = [l for l in out_lines(h, g)]
    text = w.text()
    h.check(len(out) == len(text), 'number of lines')
    if len(out) != len(text):
        return
    for it, a, b in zip(w.items, text, out):
        ca, cb = Cmd(a, h.read_num), Cmd(b, h.read_num)
        h.check(ca.op == cb.op, 'command')
        if it.p is None:
            h.check(b.startswith(a), 'line outside of walls changed: ' + a)
            continue
        top = s.v * walls.RATIO[it.kind] * w.w / w.unit
        tol = Fraction(7, 10000)
        for x in 'XY':
            if cb.get(x) is None:
                h.fail('coordinate lost')
        d = [cb.get(x) - ca.get(x) for x in 'XY']
        if it.ring:
            want = walls.ring_stretch(it.ring[0], it.ring[1], 2, case['cross'])
            for v, c, x in zip(d, want, 'XY'):
                h.check_near(v, top * c, tol, 'displacement in %s of a point of an %s wall' % (x, it.kind))
        else:
            for ux, uy in ((1, 0), (Fraction(3, 5), Fraction(4, 5)), (Fraction(5, 13), Fraction(12, 13)), (0, 1), (Fraction(-3, 5), Fraction(4, 5)),
                           (Fraction(-12, 13), Fraction(5, 13))):
                v = d[0] * ux + d[1] * uy
                h.check(and_(v <= top + tol * 2, -v <= top + tol * 2), 'point of an %s wall moved too far' % it.kind)

"""C08: bounding box and filament length are those of the moves that push filament."""
from fractions import Fraction

from symx.harness import or_
from symx.oracle import Machine
from .common import render, parse, program

BOUNDS = ('programs of 3 to 5 (quick) / 6 (thorough) lines: moves of the head with and without filament, retractions, arcs, '
          'mode changes, G92, homing, units; symbolic coordinates and filament amounts')
ASSUMPTIONS = ['a move with a free E extrudes or retracts at least 1e-6 mm', 'one axis at a time carries free coordinates']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000, query_ms=1500)
BUDGET = {'quick': 100, 'thorough': 850}
TINY = Fraction(1, 10 ** 6)
# A: the axis of the case
MOVE = ['G1 A E', 'G0 A', 'G1 A E2', 'G1 E-1', 'G2 A I1 J1 E3']
STATE = ['G91', 'M83', 'G92 A E0', 'G92 E', 'G28', 'G20', 'M82', 'G92', 'G28 X0', '; A', 'G1 B5 E9', 'G1 Z7', 'M104 S200']


def cases(tier):
    out = [dict(axis=x, first=a, n=1 if tier == 'quick' else 2) for x in 'XY' for a in MOVE + STATE]
    if tier == 'quick':
        return out
    return [dict(c, second=b) for c in out for b in MOVE + STATE]


def run(h, case):
    pool = MOVE + STATE
    seq = [case['first']] + ([case['second']] if 'second' in case else [])
    seq += [h.choose(pool, 'line%d' % k) for k in range(case['n'])]
    seq += ['G1 A E']
    other = 'Y' if case['axis'] == 'X' else 'X'
    seq = [t.replace('A', case['axis']).replace('B', other) for t in seq]
    text = [render(h, t, k, {'E': (-5, 9)}) for k, t in enumerate(seq)]
    m = Machine(h.read_num)
    pushed, moved = [], []
    total = top = Fraction(0)
    flags = []
    for l in text:
        ev = m.step(l)
        flag = None
        if ev.op in ('G0', 'G1', 'G2', 'G3'):
            if h.symbolic and not isinstance(ev.de, Fraction):
                h.assume(or_(ev.de >= TINY, ev.de <= -TINY))
            flag = bool(ev.de > 0)
            moved.append(ev.end)
            if flag:
                pushed.append(ev.end)
            total = total + ev.de
            top = h.max(top, total)
        flags.append(flag)
    g = parse(h, text)
    lines = [l for y in g.all_layers for l in y]
    h.check(len(lines) == len(text), 'lines')
    for l, f in zip(lines, flags):
        if f is not None:
            h.check(bool(l.extruding) == f, 'moves that push filament')
    h.check_near(g.filament_length, top, 0, 'filament length')
    for a in 'XY':
        pts = [p[a] for p in (pushed if bool(top > 0) else moved)]
        lo = hi = pts[0] if pts else Fraction(0)
        for p in pts[1:]:
            lo, hi = h.min(lo, p), h.max(hi, p)
        got = [getattr(g, a.lower() + 'min'), getattr(g, a.lower() + 'max'), g.width if a == 'X' else g.depth]
        for v, w, n in zip(got, (lo, hi, hi - lo), ('lowest %s', 'highest %s', 'extent along %s')):
            h.check_near(v, w, 0, n % a)
        h.observe(*got)

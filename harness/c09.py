"""C09: estimated duration: bounds from distance and feedrate, pauses counted, layers add up to the total."""
from fractions import Fraction

from symx.harness import or_, and_
from symx.oracle import Machine
from .common import render, parse

BOUNDS = ('programs of 3 (quick) / 4 (thorough) timed lines over planar, diagonal, vertical and filament moves with and without a '
          'feedrate, pauses, mode changes, G92, homing, units, layer changes; symbolic lengths, feedrates and pauses')
ASSUMPTIONS = ['feedrates are at least 60 mm/min, and the first move sets one', 'arcs are not timed by the estimate (none in these programs)']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000, query_ms=1000, nra_ms=10000)
BUDGET = {'quick': 110, 'thorough': 850}
RNG = {'F': (60, 6000), 'X': (-200, 200), 'Z': (1, 40), 'E': (-9, 9), 'P': (1, 5000)}
MOVE = ['G1 X F', 'G1 X', 'G0 X3 Y4 F', 'G1 E F', 'G1 E', 'G1 Z F', 'G1 X E', 'G1 F', 'G1 X10 Z']
STATE = ['G4 P', 'G91', 'G92 X', 'G92 E', 'G28', 'G20', 'M104 S200', '; F1', 'M83', 'G4 P0', 'G1 Y3']
START = [['G1 X10 Y5 Z1 E1 F600'], ['G1 X10 F'], ['G4 P', 'G4 P700']]


def cases(tier):
    out = [dict(start=s, first=a, n=1 if tier == 'quick' else 2) for s in (0, 1, 2) for a in MOVE + STATE]
    return out + [dict(turn=[a, b], speed=s, relative=r) for a, b in TURNS for s in ('same', 'other', 'none') for r in (0, 1)]


# directions of two moves
TURNS = [((1, 0), (-1, 0)), ((1, 0), (0, 1)), ((3, 4), (4, -3)), ((3, 4), (-4, 2)), ((0, -1), (-1, 1)), ((1, 0), (1, 0)), ((1, 0), (3, 4)), ((3, 4), (-3, 4)), ((0, -1), (12, -5))]


def turn(h, case):
    # a move back or aside (a right angle or more) starts from rest; straight on at the same speed, it goes on
    (ax, ay), (bx, by) = case['turn']
    a, b = h.num('a', Fraction(1, 100), 90), h.num('b', Fraction(1, 100), 90)
    f = h.num('f', 60, 9000)
    f2 = h.num('f2', 60, 9000) if case['speed'] == 'other' else f
    start = [] if not case['relative'] else ['G91']
    x0, y0 = (0, 0) if case['relative'] else (a.v * ax, a.v * ay)

    def move(x, y, f):
        return 'G1 X%s Y%s' % (h.lin(x).t, h.lin(y).t) + (' F' + f.t if f else '')
    one = move(a.v * ax, a.v * ay, f)
    two = move(x0 + b.v * bx, y0 + b.v * by, None if case['speed'] == 'none' else f2)

    def time(text):
        g = parse(h, start + text)
        t = Fraction(0)
        for y in g.all_layers:
            t = t + h.exact(y.duration)
        return t
    both, first, rest = time([one, two]), time([one]), time([move(b.v * bx, b.v * by, f2)])
    if ax * bx + ay * by <= 0:
        h.check_near(both, first + rest, Fraction(1, 1000), 'a move turning back or aside starts from rest')
    elif case['speed'] != 'other':
        d2 = {1: 1, 25: 5, 169: 13}[bx * bx + by * by]
        h.check_near(both, first + b.v * d2 * 60 / f.v, Fraction(1, 1000), 'a move straight on goes on at its speed')


def run(h, case):
    if 'turn' in case:
        return turn(h, case)
    pool = MOVE + STATE
    seq = START[case['start']] + [case['first']]
    seq += [h.choose(pool, 'line%d' % k) for k in range(case['n'] - 1)]
    free = [t for t in seq if t.endswith(' F')]
    seq += [h.choose(['G1 X F' if len(free) < 2 else 'G1 X F900', 'G1 X', 'G4 P', 'G1 E', 'G1 Z', 'G1 X3 Y4'], 'last')]
    text = [render(h, t, k, RNG) for k, t in enumerate(seq)]
    m = Machine(h.read_num)
    for l in text:
        ev = m.step(l)
        if ev.op in ('G0', 'G1') and ev.f is None:
            # moves before any feedrate
            return
    m = Machine(h.read_num)
    g = parse(h, text)
    layers = [y for y in g.all_layers]
    # layer of every line
    where = []
    for k, y in enumerate(layers):
        where += [k] * len(y)
    h.check(len(where) == len(text), 'lines')
    lo = [Fraction(0)] * len(layers)
    hi = [Fraction(0)] * len(layers)
    fast = None
    for l, k in zip(text, where):
        ev = m.step(l)
        if ev.op in ('G0', 'G1'):
            f = ev.f / 60
            fast = f if fast is None else h.max(fast, f)
            d = length(h, ev)
            lo[k] = lo[k] + d / fast
            hi[k] = hi[k] + 2 * d / f
        elif ev.op == 'G4':
            p = ev.cmd.get('P')
            lo[k] = lo[k] + p / 1000
            hi[k] = hi[k] + p / 1000
    total = Fraction(0)
    for k, y in enumerate(layers):
        h.check(h.le(lo[k], y.duration, Fraction(1, 1000)), 'layer faster than its feedrate')
        h.check(h.le(y.duration, hi[k], Fraction(1, 1000)), 'layer slower than twice its moves and pauses')
        total = total + h.exact(y.duration)
        h.observe(y.duration)
    s = h.exact(g.duration.total_seconds())
    h.check(h.le(s, total, Fraction(1, 1000)), 'total over the sum of the layers')
    h.check(h.le(total, s + 1, Fraction(1, 1000)), 'total under the sum of the layers')


def length(h, ev):
    """travel of the head, or of the filament when the head does not move (as the estimate counts)"""
    dx, dy = ev.end['X'] - ev.start['X'], ev.end['Y'] - ev.start['Y']
    if not bool(and_(dx == 0, dy == 0)):
        return h.sqrt(dx * dx + dy * dy)
    if 'Z' in ev.moved:
        return h.abs(ev.end['Z'] - ev.start['Z'])
    return h.abs(ev.de)

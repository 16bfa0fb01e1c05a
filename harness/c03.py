"""C03: filament accounting over every history of extrusion commands."""
from fractions import Fraction

from symx.harness import implies, not_
from symx.oracle import Machine
from .common import render, parse

BOUNDS = ('histories of 5 (quick) / 6 (thorough) commands over moves with and without E, M82/M83, G90/G91, G92 (E, bare, '
          'other axes), G20/G21, T, G28, every E a symbolic real in [-100, 100]; read line by line and read at once')
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 100, 'thorough': 850}

ALL = ['G1 X1 E', 'G1 E', 'G0 E', 'G2 X2 I1 E', 'G1 X3', 'M82', 'M83', 'G90', 'G91', 'G92 E', 'G92', 'G92 X0', 'G92 Y1', 'G92 Z', 'G92 E0', 'G20',
       'G21', 'G28', 'M104 S200', 'T1', 'G3 X Y I J E', 'G1 E F100']
LAST = ['G1 X1 E', 'G1 E', 'G2 X2 I1 E', 'G1 X3', 'G92 E']


def cases(tier):
    if tier == 'quick':
        return [dict(first=a, n=2) for a in ALL]
    return [dict(first=a, second=b, n=2) for a in ALL for b in ALL]


def run(h, case):
    shifted = h.choose([True, False], 'shifted')
    seq = (['G1 X1 E', 'G92 E'] if shifted else ['G1 X1 E']) + [case[k] for k in ('first', 'second') if k in case]
    whole = h.choose([False, True], 'whole')
    # reading at once also estimates durations, which multiplies the paths
    for k in range(case['n'] - (1 if whole else 0)):
        seq.append(h.choose(LAST if k == case['n'] - (2 if whole else 1) else ALL, 'cmd%d' % k))
    seq.append('G1 X5 E')
    text = [render(h, t, k) for k, t in enumerate(seq)]
    exact = not any(t.startswith(('G92', 'G20')) for t in seq)
    eps = Fraction(1, 1000000)
    m = Machine(h.read_num)
    if whole:
        # Z never changes and no feedrate is used: one layer
        g = parse(h, [t for t in text])
        lines = list(g.lines)
    else:
        g = h.gcoder.GCode()
    total = mx = 0
    for k, t in enumerate(text):
        line = lines[k] if whole else g.append(t)
        ev = m.step(t)
        total = total + ev.de
        mx = h.max(mx, total)
        what = t.split()[0]
        if ev.op in ('G0', 'G1', 'G2', 'G3'):
            if ev.cmd.get('E') is not None:
                ext = False if line.extruding is None else line.extruding
                h.check(implies(ev.de > eps, ext), 'extruding flag missing after ' + what)
                h.check(implies(ev.de < -eps, not_(ext)), 'extruding flag set after ' + what)
                if exact:
                    h.check(implies(ev.de <= 0, not_(ext)), 'extruding flag set without extrusion ' + what)
            else:
                h.check(not line.extruding, 'extruding flag without E')
            h.check(line.relative_e == m.rel_e, 'extrusion mode of the line')
        if ev.op in ('G0', 'G1', 'G2', 'G3', 'G92'):
            h.check_near(line.current_e, m.pos['E'], 0, 'filament position of the line after ' + what)
        if not whole:
            h.check_near(g.total_e, total, 0, 'total filament after ' + what)
            h.check_near(g.max_e, mx, 0, 'longest filament after ' + what)
            h.check_near(g.abs_e, m.logical('E'), 0, 'E in the work offset after ' + what)
    h.observe(g.total_e, g.max_e)
    h.check_near(g.total_e, total, 0, 'total filament')
    h.check_near(g.max_e, mx, 0, 'longest filament')
    h.check_near(g.current_e, m.pos['E'], 0, 'filament position')
    h.check_near(g.abs_e, m.logical('E'), 0, 'E in the work offset')
    if whole:
        h.check_near(g.filament_length, mx, 0, 'filament length')

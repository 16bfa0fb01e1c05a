"""C02 position tracking: every history of movement-state commands."""
from symx.oracle import Machine

BOUNDS = ('histories of 4 (quick) / 5 (thorough) commands over G0-G3, G20/G21, G28, G90/G91, G92, M82/M83, T with every '
          'coordinate a symbolic real in [-300, 300]; each history starts from an arbitrary position, work offset, '
          'unit and distance mode reached through the API')
ASSUMPTIONS = ['home position: machine origin or an arbitrary symbolic position passed to the constructor']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 120, 'thorough': 850}

MOVES = ['G1 X', 'G0 Y Z', 'G1 X Y Z F', 'G2 X Y I J', 'G3 Z', 'G1 F', 'G1 E', 'G1 Y X']
STATE = ['G90', 'G91', 'G92 X', 'G92 Y Z', 'G92 X Y Z E', 'G92 E', 'G92', 'G28', 'G28 X0', 'G28 Y0 Z0', 'G28 Z', 'G20', 'G21',
         'M82', 'M83', 'T1', 'G4 P']
ALL = MOVES + STATE


def cases(tier):
    first = ALL
    if tier == 'quick':
        return [dict(first=f, n=2) for f in first]
    return [dict(first=f, second=g, n=2) for f in first for g in ALL]


def render(h, tmpl, k, names):
    """'G1 X Y' -> 'G1 X<n> Y<n>' with fresh symbolic numbers ('X0' and bare letters of G28 stay)"""
    out = []
    parts = tmpl.split()
    for p in parts[1:]:
        if parts[0] == 'G28' or len(p) > 1:
            out.append(p)
        else:
            lo, hi = (1, 6000) if p in 'F' else (0, 300) if p == 'P' else (-300, 300)
            out.append(p + h.num('%s%d' % (p.lower(), k), lo, hi).t)
    return ' '.join([parts[0]] + out)


def run(h, case):
    home = h.choose([False, True], 'home') if case.get('home', True) else False
    hp = None
    if home:
        hs = [h.num('home_' + a) for a in 'xyz']
        g = h.gcoder.GCode(home_pos=tuple(v.py for v in hs))
        m = Machine(h.read_num, home=[v.v for v in hs])
    else:
        g = h.gcoder.GCode()
        m = Machine(h.read_num)
    seq = ['G1 X Y Z E', 'G92 X Y Z']
    seq += [case['first']]
    if 'second' in case:
        seq.append(case['second'])
    for k, t in enumerate(seq):
        step(h, g, m, render(h, t, k, None))
    for k in range(case['n']):
        t = h.choose(MOVES if k == case['n'] - 1 else ALL, 'cmd%d' % k)
        step(h, g, m, render(h, t, 10 + k, None))
    return


def step(h, g, m, text):
    line = g.append(text)
    ev = m.step(text)
    for a in 'XYZ':
        got = getattr(line, 'current_' + a.lower())
        h.check_near(got, ev.end[a], 0, 'position %s after %s' % (a, text.split()[0]))
    for a, v in zip('XYZ', g.current_pos):
        h.check_near(v, m.pos[a], 0, 'current_pos %s' % a)
    for a, v in zip('XYZ', g.abs_pos):
        h.check_near(v, m.logical(a), 0, 'abs_pos %s' % a)
    h.observe(*g.current_pos)
    h.check(g.relative == m.rel and g.relative_e == m.rel_e and g.imperial == (m.unit != 1), 'modes')
    if line.is_move:
        h.check(line.relative == m.rel and line.relative_e == m.rel_e, 'modes of the line')
        h.check(line.current_tool == m.tool, 'tool of the line')
        if m.f is not None:
            h.check_near(line.current_f, m.f, 0, 'feedrate in force')

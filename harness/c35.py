"""C35: tools applied one after the other give the same program in any order."""
from fractions import Fraction

from symx.harness import or_
from symx.oracle import Machine
from . import c34
from .common import render, comment

BOUNDS = ('25 pairs of tools (translation, conversion, pause, arcs, stretch, temperatures, and each with its inverse or itself) in both orders on 8 programs with one kind of word free')
ASSUMPTIONS = ['no move pushes or pulls less than 0.001 mm', 'coordinates have 3 decimals once rewritten (in the unit of the program)', 'in programs with arcs to detect or walls to stretch, their points are fixed']
MODULES = c34.MODULES
OPTS = dict(max_ticks=60000, query_ms=2000, int_literals=True)
BUDGET = {'quick': 100, 'thorough': 700}
T = {'x': ('gcode_mod', ['-x', '7.25']), 'y': ('gcode_mod', ['-y=-20']), 'xy': ('gcode_mod', ['-x', '5', '-y', '4']), 'back': ('gcode_mod', ['-x=-7.25']), 'e': ('gcode_mod', ['-e']),
     'p': ('gcode_mod', ['-p', '1']), 'arcs': ('gcode_optimize_arcs', []), 'stretch': ('gcode_stretch', ['--stretch_strength', '2']),
     'temp': ('gcode_tempcal', ['-s', '2', '230', '200']), 'tempc': ('gcode_tempcal', ['-c', '-z', '0.5', '200', '230'])}
PAIRS = ['x y', 'x temp', 'xy arcs', 'xy stretch', 'x tempc', 'e temp', 'e tempc', 'e p', 'p x', 'p arcs', 'p stretch', 'arcs temp', 'arcs tempc', 'stretch temp', 'e x', 'e stretch', 'y p']
SAME = ['e e', 'arcs arcs', 'x back', 'back x', 'e none', 'arcs none']
PROGRAMS = dict(c34.PROGRAMS)
PROGRAMS['layers'] = ['G90', 'M82', 'G28', 'G1 Z0.2 F900', 'G1 X Y1 E1', 'M106 S100', 'G1 X1 Y E2', 'G1 Z0.4', '; next', 'G1 X9 E', 'G92 E', 'G1 Z9', 'G91', 'G1 Y E1', 'G1 Z1', 'G1 X3 E2', 'G90']


def cases(tier):
    out = []
    for p in sorted(PROGRAMS):
        body = ' '.join(PROGRAMS[p][3:])
        for nq, q in enumerate(PAIRS + SAME):
            frees = [f for f in 'XYZEFIJ' if ' %s ' % f in body + ' ']
            for nf, f in enumerate(frees):
                if tier == 'quick' and (nq + nf) % 2:
                    continue
                out.append(dict(program=p, pair=q, free=f))
    return out


def run(h, case):
    free = case['free']
    fixed = {'X': '3', 'Y': '2.5', 'Z': '4', 'E': '12', 'F': '1200', 'I': '2', 'J': '-1'}
    ranges = {a: (-200, 200) for a in 'XYIJ'}
    ranges.update(E=(20, 90), Z=(5, 60), F=(60, 9000))
    text = []
    for k, t in enumerate(PROGRAMS[case['program']]):
        code, sep, com = t.partition(';')
        fixed['E'] = str(12 + k)
        ws = [w + fixed[w] if n and len(w) == 1 and w in fixed and w != free else w for n, w in enumerate(code.split(' '))]
        text.append(render(h, ' '.join(ws) + sep + com, k, ranges))
    m = Machine(h.read_num)
    for l in text:
        ev = m.step(l)
        if ev.op in ('G0', 'G1') and ev.cmd.has('E'):
            # rounding of E decides nothing
            h.assume(or_(ev.de >= Fraction(1, 1000), ev.de <= -Fraction(1, 1000)))
    a, b = case['pair'].split()
    try:
        one = tool(h, b, tool(h, a, text))
        if case['pair'] == 'e e' or b == 'none':
            other = tool(h, a, text)
        elif case['pair'] in SAME:
            other = text if 'back' in case['pair'] else tool(h, a, text)
        else:
            other = tool(h, a, tool(h, b, text))
    except RuntimeError:
        h.check('temp' in case['pair'], 'refused')
        return
    compare(h, one, other)


def tool(h, name, text):
    if name == 'none':
        return text
    return [l for l in h.cli('gcodeutils.' + T[name][0], list(T[name][1]), text) if l]


def compare(h, got, want):
    def trace(lines):
        m = Machine(h.read_num)
        evs = [(l, m.step(l)) for l in lines]
        return [(l, e) for l, e in evs if e.op not in ('M82', 'M83')]
    a, b = trace(got), trace(want)
    h.observe(len(a))
    h.check(len(a) == len(b), 'number of lines')
    if len(a) != len(b):
        return
    for (la, ea), (lb, eb) in zip(a, b):
        h.check(ea.op == eb.op, 'order of the lines: %s' % ea.op)
        if ea.op != eb.op:
            return
        h.check(comment(la) == comment(lb), 'comment')
        if ea.op is None or ea.op[0] != 'G':
            h.check(la.strip() == lb.strip(), 'line that is not a move')
            continue
        tol = Fraction(4, 1000) * (Fraction(254, 10) if 'G20' in got else 1)
        for x in 'XYZ':
            h.check_near(ea.end[x], eb.end[x], tol, 'position in %s' % x)
        h.check(sorted(ea.cmd.w) == sorted(eb.cmd.w), 'words')
        for x in 'IJ':
            if ea.cmd.has(x) and eb.cmd.has(x):
                h.check_near(ea.cmd.w[x], eb.cmd.w[x], tol, 'centre')
        h.check_near(ea.de, eb.de, Fraction(5, 10000), 'filament')
        h.check_near(ea.f, eb.f, tol, 'feedrate')

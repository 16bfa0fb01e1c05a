"""C10: translation moves the head by the requested amount, whatever the history of modes, offsets and homing."""
from fractions import Fraction

from symx.oracle import Machine
from .common import program, out_lines, meaningful

BOUNDS = ('programs of 6 (quick) / 7 (thorough) commands over absolute and relative moves, arcs, G90/G91, G92, G28, units, '
          'with symbolic coordinates in [-300, 300] and a symbolic translation in [-100, 100] on each axis')
ASSUMPTIONS = ['programs whose first positioning mode is explicit (G90 or G91); rewritten coordinates have 3 decimals, in '
               'the unit of the program']
MODULES = ('gcodeutils.filter.translate',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 110, 'thorough': 850}
ALL = ['G1 X Y', 'G1 X', 'G0 Y Z', 'G2 X Y I J', 'G1 Z E F', 'G90', 'G91', 'G92 X', 'G92 Y Z', 'G92 X Y E', 'G92', 'G92 E', 'G28',
       'G28 X0', 'G28 Y Z', 'G28 Z0', 'G20', 'G21', 'M83', 'G3 Y I J E']
MORE = ['G92 Y', 'G92 Z', 'G92 Z E', 'G28 X Y', 'G28 Y', 'G1 Y E F']
MOVES = ['G1 X Y', 'G0 Y Z', 'G1 X E']
START = [('G90',), ('G91',), ('G90', 'G1 X Y')]


def cases(tier):
    out = []
    for s in range(len(START)):
        for a in ALL + MORE:
            if tier == 'quick':
                out.append(dict(start=s, first=a, n=2))
            else:
                out += [dict(start=s, first=a, second=b, n=2) for b in ALL + MORE]
    return out


def translated_filter(h, which):
    f = h.load('gcodeutils.filter.translate').GCodeXYTranslateFilter
    t = {'X': None, 'Y': None}
    kw = {}
    for a in which:
        t[a] = h.num('t' + a.lower(), -100, 100)
        kw[a.lower()] = t[a].py
    return f(**kw), {a: (t[a].v if t[a] else Fraction(0)) for a in t}


def sequence(h, case):
    seq = list(START[case['start']]) + [case[k] for k in ('first', 'second') if k in case]
    for k in range(case['n']):
        seq.append(h.choose(MOVES if k == case['n'] - 1 else ALL, 'cmd%d' % k))
    return seq


def run(h, case):
    seq = sequence(h, case)
    text = program(h, seq)
    flt, t = translated_filter(h, 'XY')
    g = h.append_program(text)
    flt.filter(g)
    out = meaningful(out_lines(h, g))
    compare(h, text, out, t)


def compare(h, text, out, t):
    h.check(len(out) == len(text), 'number of commands')
    if len(out) != len(text):
        return
    a, b = Machine(h.read_num), Machine(h.read_num)
    done = {'X': False, 'Y': False}
    mode = None
    inch = False
    for la, lb in zip(text, out):
        ea, eb = a.step(la), b.step(lb)
        op = ea.op
        inch = inch or op == 'G20'
        tol = Fraction(4, 100) if inch else Fraction(2, 1000)
        if op in ('G90', 'G91'):
            mode = op
        elif op == 'G28':
            for x in done:
                if ea.cmd.has(x) or not any(ea.cmd.has(y) for y in 'XYZ'):
                    done[x] = False
        elif op in ('G0', 'G1', 'G2', 'G3') and mode == 'G90':
            for x in done:
                if x in ea.moved:
                    done[x] = True
        h.check(op == eb.op, 'command changed')
        for x in 'XY':
            want = ea.end[x] + (t[x] if done[x] else 0)
            h.check_near(eb.end[x], want, tol, 'position in %s after %s' % (x, op))
        h.check_near(eb.end['Z'], ea.end['Z'], tol, 'position in Z after %s' % op)
        h.check_near(eb.de, ea.de, tol, 'filament of %s' % op)
        h.check_near(eb.f, ea.f, tol, 'feedrate of %s' % op)
        for w in 'ij':
            h.check_near(getattr(eb, w), getattr(ea, w), tol, 'center of arc')
    h.observe(b.pos['X'], b.pos['Y'])

"""C26: several options of gcode_mod together do what they do one after another, in any order."""
from fractions import Fraction

from symx.harness import or_
from symx.oracle import Machine
from .common import render

BOUNDS = ('gcode_mod run on programs of 9 to 13 lines (2 or 3 printed layers at symbolic heights, absolute, relative and mixed modes, '
          'G92, homing, comments; symbolic X, Y and extruded lengths) with every combination of two options or more of -x, -y, -e and -p (layers -1 to 2), '
          'symbolic translations in [-100, 100]; against one run per option, in 2 orders')
ASSUMPTIONS = ['different heights are at least 0.02 mm apart', 'coordinates have at most 3 decimals of precision once rewritten (5 for E)',
               'lines selecting relative extrusion may be at another place when nothing is extruded in between']
MODULES = ('gcodeutils.gcode_mod', 'gcodeutils.filter.translate', 'gcodeutils.filter.relative_extrusion', 'gcodeutils.visit.pause_at_layer')
OPTS = dict(max_ticks=8000, query_ms=2000)
BUDGET = {'quick': 100, 'thorough': 800}
GAP = Fraction(1, 50)
HEADS = {
    'abs': ['G21', 'G90', 'M82', 'G28', 'G92 E0'],
    'rel': ['G90', 'M83', 'G1 X5 Y5'],
    'mixed': ['G90', 'M83', 'G1 E', 'M82', 'G92 X0', 'G92 E0'],
    'plain': ['G90'],
}
LAYERS = {
    'one': ['Z', 'G1 X Y5 E', 'G1 X4 Y6 E ; side'],
    'jump': ['Z E', 'G1 Y7 E', '; comment', 'G92 E0', 'G1 X3 Y E'],
    'moves': ['Z', 'G91', 'G1 X1 Y E', 'G90', 'M117 hello', 'G1 X E'],
    'travel': ['Z', 'G0 X Y9'],
    'reset': ['Z F', 'G1 X2 E', 'G92', 'G1 X E'],
}
AMOUNTS = [(5, 60), (-60, -5), (-.125, .125)]
FREE = ['X', 'Y', 'E', 'Z']
STACKS = [('one', 'jump'), ('jump', 'moves'), ('travel', 'one', 'jump'), ('moves', 'one'), ('reset', 'one'), ('jump', 'jump', 'travel')]
OPTIONS = ['xy', 'xe', 'ye', 'xp', 'yp', 'ep', 'xye', 'xyp', 'xep', 'yep', 'xyep']


def cases(tier):
    out = []
    n = c = 0
    for s in STACKS:
        for hd in HEADS:
            for o in OPTIONS:
                n += 1
                if tier == 'quick' and n % 3 and o not in ('xyep', 'ep'):
                    continue
                for fr in FREE:
                    for order in (0, 1):
                        c += 1
                        if tier == 'quick' and (c + n) % 5:
                            continue
                        out.append(dict(stack=list(s), head=hd, use=o, free=fr, order=order,
                                        t={a: AMOUNTS[(c // 5 + k * n) % 3] for k, a in enumerate('xy')}))
    return out


def run(h, case):
    text = []
    k = 0
    free = case['free']
    zs = []
    total, relative = Fraction(0), False

    def add(l):
        """E: extrusion by some length, whatever the mode"""
        nonlocal total, relative
        if l in ('M82', 'M83', 'G90', 'G91'):
            relative = l in ('M83', 'G91')
        elif l in ('G92', 'G92 E0'):
            total = Fraction(0)
        elif l.endswith(' E') or ' E ;' in l:
            d = h.num('e%d' % k, Fraction(1, 100), 5).v if 'E' in free else Fraction(5 + k, 8)
            if not relative:
                total = d = total + d
            l = l.replace(' E', ' E' + h.lin(d).t)
        ws = [w + str((ord(w) * 7 + 3 * k) % 50 + 1) if w in 'XYF' and (w == 'F' or w not in free) else w for w in l.partition(';')[0].split()]
        text.append(render(h, ' '.join(ws) + l[len(l.partition(';')[0]):], k, {'X': (10, Fraction(21, 2)), 'Y': (10, Fraction(21, 2))}))

    for l in HEADS[case['head']]:
        k += 1
        add(l)
    for name in case['stack']:
        for l in LAYERS[name]:
            k += 1
            if l.startswith('Z'):
                z = h.num('z%d' % k, 0, 50) if 'Z' in free else h.lin(Fraction(3 * k, 10))
                for o in zs:
                    h.assume(or_(z.v - o >= GAP, o - z.v >= GAP))
                zs.append(z.v)
                l = 'G1 Z' + z.t + l[1:]
            add(l)
    p = h.choose([0, 1, 2, -1], 'pause') if 'p' in case['use'] else None
    args = {'e': ['-e'], 'p': ['-p=%s' % p]}
    for a in 'xy':
        if a in case['use']:
            args[a] = ['-%s=' % a + h.num('t' + a, *case['t'][a]).t]
    order = sorted(case['use'], key='xyep'.index if case['order'] == 0 else 'peyx'.index)
    once = h.cli('gcodeutils.gcode_mod', [w for a in sorted(case['use'], key='peyx'.index) for w in args[a]], text)
    each = text
    for a in order:
        each = [l for l in h.cli('gcodeutils.gcode_mod', args[a], each) if l]
    compare(h, [l for l in once if l], each)


def compare(h, got, want):
    def trace(lines):
        m = Machine(h.read_num)
        evs = [(l, m.step(l)) for l in lines]
        return [(l, e) for l, e in evs if e.op not in ('M82', 'M83')], m
    (a, ma), (b, mb) = trace(got), trace(want)
    h.observe(len(a))
    h.check(len(a) == len(b), 'number of lines')
    if len(a) != len(b):
        return
    for (la, ea), (lb, eb) in zip(a, b):
        h.check(ea.op == eb.op, 'order of the lines: %s' % ea.op)
        if ea.op is None:
            h.check(la == lb, 'comment')
            continue
        for x in 'XYZ':
            h.check_near(ea.end[x], eb.end[x], Fraction(4, 1000), 'position in %s' % x)
        if ea.cmd.has('E') and ea.op in ('G0', 'G1'):
            h.check(ea.rel_e == eb.rel_e, 'mode of extrusion')
        h.check_near(ea.de, eb.de, Fraction(5, 100000), 'filament')
        h.check_near(ea.f, eb.f, Fraction(4, 1000), 'feedrate')

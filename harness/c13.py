"""C13: conversion to relative extrusion leaves the rest of the program alone; converting again changes nothing."""
from fractions import Fraction

from symx.oracle import Machine
from . import c12
from .common import program, out_lines, Cmd, same_words

BOUNDS = c12.BOUNDS.replace('units', 'units, comments, temperatures, unknown lines')
ASSUMPTIONS = c12.ASSUMPTIONS
MODULES = c12.MODULES
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 100, 'thorough': 850}
ALL = c12.ALL + c12.MORE + ['; c E5', 'M104 S200', 'G1 X Y Z E F ; c', 'M117 E', 'T0', '(e) ; f', 'G4 P', 'M82 ; abs', 'M84 E']


def cases(tier):
    return [dict(start=s, first=a, n=1 if tier == 'quick' else 2) for s in range(len(c12.START)) for a in ALL]


def run(h, case):
    seq = list(c12.START[case['start']]) + [case['first']] + [h.choose(ALL, 'cmd%d' % k) for k in range(case['n'])]
    seq.append(h.choose(c12.LAST, 'last'))
    text = program(h, seq)
    F = h.load('gcodeutils.filter.relative_extrusion').GCodeToRelativeExtrusionFilter
    g = h.append_program(text)
    F().filter(g)
    out = out_lines(h, g)
    m = Machine(h.read_num)
    for a, b in c12.align(h, text, out):
        if a is None:
            m.step(b)
            continue
        c = Cmd(a, h.read_num)
        if c.op == 'M82':
            h.check(b.split(';')[0].strip() == 'M83', 'absolute extrusion still selected')
        elif c.op in ('G0', 'G1', 'G2', 'G3') and c.has('E'):
            same_words(h, a, b, Fraction(501, 10 ** 6), c.op, skip='E')
            h.check(Cmd(b, h.read_num).has('E'), 'E lost')
        else:
            h.check(a == b, 'line changed: %s' % c.op)
    # again, from the text and from the lines in memory
    g2 = h.append_program(out)
    F().filter(g2)
    out2 = out_lines(h, g2)
    h.check(out2 == out, 'second conversion changes the program')

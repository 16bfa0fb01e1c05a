"""C12: conversion to relative extrusion keeps the filament pushed by every command."""
from fractions import Fraction

from symx.oracle import Machine
from .common import program, out_lines

BOUNDS = ('programs of 5 (quick) / 6 (thorough) commands over moves with and without E, M82/M83, G90/G91, G92 (E, bare, other '
          'axes), units, homing, tool changes, each number symbolic (E in [-100, 100]); converted once and twice')
ASSUMPTIONS = ['rewritten E have 5 decimals, other rewritten coordinates 3, in the unit of the program']
MODULES = ('gcodeutils.filter.relative_extrusion',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 110, 'thorough': 850}
ALL = ['G1 X E', 'G1 E', 'G0 E F', 'G2 X Y I J E', 'G1 X Y', 'M82', 'M83', 'G90', 'G91', 'G92 E', 'G92', 'G92 X', 'G92 X E', 'G20',
       'G21', 'G28', 'T1', 'G1 Z E', 'G3 I J E', 'G92 E0', 'G1 X E0']
MORE = ['G92 Y', 'G92 Z', 'G92 Z E0', 'G28 X0', 'G1 Y Z E F']
LAST = ['G1 X E', 'G3 I J E', 'G1 E F', 'G1 X Y']
START = [[], ['M82'], ['M83'], ['G91', 'G1 E']]


def cases(tier):
    out = []
    for s in range(len(START)):
        for a in ALL + MORE:
            if tier == 'quick':
                out.append(dict(start=s, first=a, n=2))
            else:
                out += [dict(start=s, first=a, second=b, n=2) for b in ALL + MORE]
    return out


def sequence(h, case):
    seq = list(START[case['start']]) + [case[k] for k in ('first', 'second') if k in case]
    for k in range(case['n']):
        seq.append(h.choose(ALL, 'cmd%d' % k))
    return seq + [h.choose(LAST, 'last')]


def run(h, case):
    text = program(h, sequence(h, case))
    g = h.append_program(text)
    F = h.load('gcodeutils.filter.relative_extrusion').GCodeToRelativeExtrusionFilter
    F().filter(g)
    out = out_lines(h, g)
    compare(h, text, out)


def align(h, text, out):
    """pairs (line, its rewritten line); commands selecting relative extrusion may be inserted"""
    pairs = []
    j = 0
    for l in text:
        op = Machine(h.read_num).step(l).op
        while j < len(out) and out[j].split(';')[0].strip() == 'M83' and op not in ('M82', 'M83'):
            pairs.append((None, out[j]))
            j += 1
        if j >= len(out):
            h.fail('command lost')
        pairs.append((l, out[j]))
        j += 1
    h.check(j == len(out), 'commands added')
    return pairs


def compare(h, text, out):
    a, b = Machine(h.read_num), Machine(h.read_num)
    inch = False
    tol = Fraction(1, 10 ** 5)
    for la, lb in align(h, text, out):
        if la is None:
            b.step(lb)
            continue
        at_zero = b.logical('E')
        ea, eb = a.step(la), b.step(lb)
        inch = inch or ea.op == 'G20'
        if ea.op in ('G0', 'G1', 'G2', 'G3') and la != lb:
            # rounding of relative coordinates adds up
            tol = tol + Fraction(501, 10 ** 6) * (Fraction(254, 10) if inch else 1)
        etol = Fraction(30, 10 ** 5) if inch else Fraction(11, 10 ** 6)
        h.check(eb.op == ea.op or (ea.op, eb.op) == ('M82', 'M83'), 'command changed')
        h.check_near(eb.de, ea.de, etol, 'filament of %s' % ea.op)
        h.observe(eb.de)
        for x in 'XYZ':
            h.check_near(eb.end[x], ea.end[x], tol, 'position in %s' % x)
        h.check_near(eb.f, ea.f, Fraction(13, 1000) if inch else Fraction(501, 10 ** 6), 'feedrate')
        for w in 'ij':
            h.check_near(getattr(eb, w), getattr(ea, w), tol, 'center of arc')
        if eb.cmd.get('E') is not None and eb.op in ('G0', 'G1', 'G2', 'G3') and not b.rel_e:
            # from 0, absolute and relative extrusion are the same thing
            h.check_near(at_zero, 0, etol, 'still in absolute extrusion')

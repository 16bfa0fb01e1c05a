"""C11: translation touches nothing but the X and Y of absolute moves and reference points."""
from fractions import Fraction

from . import c10
from .common import program, out_lines, Cmd, render, same_words

BOUNDS = ('programs of 5 commands over the alphabet of C10 plus comments, temperatures, tools and unknown lines; '
          'translations: none, zero, X only, Y only, both, symbolic in [-100, 100]')
ASSUMPTIONS = ['rewritten coordinates have 3 decimals (5 for E), in the unit of the program']
MODULES = ('gcodeutils.filter.translate',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 100, 'thorough': 700}
ALL = c10.ALL + c10.MORE + ['; a comment X5', 'M104 S200', '(c) ; d', 'M117 X', 'T1', 'G4 P', 'G1 X Y E F ; keep', 'M114', 'G1 F']
KINDS = ['none', 'zero', 'X', 'Y', 'XY']


def cases(tier):
    return [dict(kind=k, first=a, n=1 if tier == 'quick' else 2) for k in KINDS for a in ALL]


def run(h, case):
    seq = [h.choose(['G90', 'G91', 'M82'], 'mode'), h.choose(['G1 X Y Z E F', 'G92', 'G28', 'G92 Y', 'G20'], 'before'), case['first']]
    for k in range(case['n']):
        seq.append(h.choose(ALL, 'cmd%d' % k))
    text = program(h, seq)
    kind = case['kind']
    F = h.load('gcodeutils.filter.translate').GCodeXYTranslateFilter
    if kind == 'none':
        flt, t = F(), {}
    elif kind == 'zero':
        flt, t = F(x=0., y=0), {}
    else:
        flt, t = c10.translated_filter(h, kind)
    g = h.append_program(text)
    flt.filter(g)
    out = out_lines(h, g)
    h.check(len(out) == len(text), 'number of lines')
    if len(out) != len(text):
        return
    if not t:
        h.check(out == text, 'translation by nothing changes the program')
        return
    absolute = False
    for a, b in zip(text, out):
        c = Cmd(a, h.read_num)
        if c.op in ('G90', 'G91'):
            absolute = c.op == 'G90'
        may = ((c.op in ('G0', 'G1', 'G2', 'G3') and absolute and any(c.has(x) and x in kind for x in 'XY'))
               or (c.op == 'G92' and (not c.w or any(c.has(x) and x in kind for x in 'XY'))))
        if not may:
            h.check(a == b, 'line changed: ' + str(c.op))
            continue
        if c.op == 'G92' and not c.w:
            continue
        same_words(h, a, b, lambda w: Fraction(6, 10 ** 6) if w == 'E' else Fraction(501, 10 ** 6), str(c.op), skip=kind)
        d = Cmd(b, h.read_num)
        for x in kind:
            h.check(c.has(x) == d.has(x), 'word %s' % x)

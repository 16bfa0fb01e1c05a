"""C05: rewriting a line from its (changed) coordinates and reading it again gives these coordinates."""
from fractions import Fraction

from .common import Cmd, comment, render

BOUNDS = ('every subset pattern of X Y Z E F I J on G0-G3/G92, with and without comments, symbolic values in [-300, 300] (E in [-100, 100]), in '
          'millimetres and inches, rewritten unchanged, with changed values, with added and with removed words')
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 60, 'thorough': 300}
ALLW = 'XYZEFIJ'
TM = ['G1 X Y', 'G1 X', 'G1 Z F', 'G0 X Y Z', 'G1 X Y E', 'G1 E F', 'G1 E', 'G2 X Y I J E', 'G3 I J', 'G92 E', 'G92 X Y Z E',
      'G1 F', 'G1 Y Z E F ; comment', 'N5 G1 X Y', 'G92', 'G1 X Y E ; perimeter X5 (a)', 'G3 X Y I J;c', 'G92 X E ; ; d']


def cases(tier):
    return [dict(t=t, unit=u) for t in TM for u in ('G21', 'G20')]


def tol_of(w, unit):
    # three decimals in general, five for the filament, in the unit of the program
    return Fraction(6, 10 ** 6) if w == 'E' else Fraction(501, 10 ** 6)


def run(h, case):
    gc = h.gcoder
    unit = Fraction(254, 10) if case['unit'] == 'G20' else Fraction(1)
    first = render(h, 'G1 X Y Z E F', 'p')
    mode = h.choose(['G90', 'G91'], 'mode')
    text = render(h, case['t'], 0)
    g = h.gcoder.GCode()
    for l in (case['unit'], mode, first):
        g.append(l)
    line = g.append(text)
    want = {k: v for k, v in Cmd(text, h.read_num).w.items()}
    op = Cmd(text, h.read_num).op
    for w in ALLW:
        v = getattr(line, w.lower())
        if w in want:
            h.check(v is not None, 'word %s not read' % w)
            h.check_near(v, want[w] * unit, 0, 'value of %s in millimetres' % w)
        else:
            h.check(v is None, 'word %s appears' % w)
    edit = h.choose(['none', 'change', 'add', 'remove'], 'edit')
    if edit == 'change':
        for w in sorted(want):
            n = h.num('new' + w)
            setattr(line, w.lower(), n.py)
            want[w] = n.v / unit
    elif edit == 'add':
        w = h.choose([a for a in ALLW if a not in want], 'added')
        n = h.num('new' + w)
        setattr(line, w.lower(), n.py)
        want[w] = n.v / unit
    elif edit == 'remove':
        if not want:
            return
        w = h.choose(sorted(want), 'removed')
        setattr(line, w.lower(), None)
        del want[w]
    gc.unsplit(line)
    got = Cmd(line.raw, h.read_num)
    h.check(comment(line.raw) == comment(text), 'comment after rewriting')
    h.check(got.op == op, 'command after rewriting')
    h.check(sorted(got.w) == sorted(want), 'words after rewriting')
    for w in want:
        if w in got.w:
            h.check(got.w[w] is not None, 'numeral of %s' % w)
            h.check_near(got.w[w], want[w], tol_of(w, unit), 'value of %s after rewriting' % w)
            h.observe(got.w[w])
    # and read again by the tools themselves
    g2 = h.gcoder.GCode()
    for l in (case['unit'], mode, first):
        g2.append(l)
    line2 = g2.append(line.raw)
    h.check(line2.command == line.command, 'command read again')
    for w in ALLW:
        v = getattr(line2, w.lower())
        if w in want:
            h.check(v is not None, 'word %s lost' % w)
            if v is not None:
                h.check_near(v, want[w] * unit, tol_of(w, unit) * unit, 'value of %s read again' % w)
        else:
            h.check(v is None, 'word %s gained' % w)

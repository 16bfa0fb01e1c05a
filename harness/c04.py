"""C04: a line is read the same way whatever its layout."""
from fractions import Fraction

BOUNDS = ('lines of 13 kinds (moves, arcs, G92, G28, modes, tools, pauses, messages) with symbolic values, in every combination of letter case, number of '
          'the line, comment before, between and after the words (with words inside), separators, order of the words, unknown words, signs, '
          'surrounding blanks and ends of line; alone and between other lines, read at once and one by one')
ASSUMPTIONS = ['no blank between a letter and its number', 'the number of the command has no leading zero']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 100, 'thorough': 500}
KINDS = ['G1 X Y', 'G1 X Y E F', 'G0 Z F', 'G1 E', 'G2 X Y I J E', 'G92 X E', 'G28 X', 'G28', 'G91', 'G20', 'T1', 'M83', 'G92', 'G4 P', 'M117']
CASE = [str, str.lower]
NUMBER = ['', 'N5 ', 'N12']
BEFORE = ['', '(X1) ', '(c)']
GAP = [' ', '', '  ', '\t']
BETWEEN = [None, '(X9 Y8)', '(; X7)']
AFTER = ['', ' ; X9 Y8 E7', ';G28', ' (X7)', '*71', ' *2', ' ; a ; (b)', ' (open']
AROUND = [('', '\n'), ('  ', ' \r\n'), ('\t', '')]
ORDER = ['given', 'reverse', 'extra']
LETTERS = 'XYZEFIJ'


def cases(tier):
    out = [dict(kind=k, case=c, number=n, how=w) for k in KINDS for c in range(2) for n in range(3) for w in ('all', 'append')]
    for i, c in enumerate(out):
        if tier == 'quick':
            # one separator, one order and one kind of blanks around for each
            c.update(gap=i % 4, around=(i + i // 12) % 3, order=(i + i // 4) % 3)
            if c['how'] == 'all':
                c.update(before=i // 2 % 3, at=0)
    return out


def pick(h, case, n, options):
    k = case.get(n)
    return options[h.choose(range(len(options)), n) if k is None else k]


def run(h, case):
    words = case['kind'].split()
    op, want = words[0], {}
    parts = []
    for w in words[1:]:
        if op == 'G28':
            want[w] = None
            parts.append(w)
            continue
        n = h.num(w.lower(), Fraction(1, 100) if w in 'FP' else -300, 6000 if w in 'FP' else 300)
        want[w] = n.v
        plus = w == words[1] and h.choose([0, 1], 'plus')
        if plus:
            h.assume(n.v >= 0)
        parts.append(w + ('+' if plus else '') + n.t)
    order = pick(h, case, 'order', ORDER)
    if order == 'reverse':
        parts.reverse()
    elif order == 'extra':
        parts.insert(len(parts) // 2, 'S255' if op != 'G4' else 'S0')
    gap = pick(h, case, 'gap', GAP)
    between = pick(h, case, 'between', BETWEEN)
    if between is not None:
        parts.insert(pick(h, case, 'at', (0, len(parts))), between)
    line = gap.join([op] + parts)
    line = NUMBER[case['number']] + CASE[case['case']](line)
    line = pick(h, case, 'before', BEFORE) + line + pick(h, case, 'after', AFTER)
    a, b = pick(h, case, 'around', AROUND)
    text = ['G90', 'M82', 'G1 X10 Y20 Z3 E4 F600', a + line + b, 'G1 X1 Y2 E3']
    if case['how'] == 'all':
        g = h.gcoder.GCode(text)
    else:
        g = h.gcoder.GCode()
        for l in text:
            g.append(l)
    lines = g.lines
    h.check(len(lines) == 5, 'number of lines')
    l = lines[3]
    h.check(l.raw == line.strip(), 'text of the line')
    h.check(l.command == op, 'command read as %s' % l.command)
    if l.command != op:
        return
    h.check(bool(l.is_move) == (op in ('G0', 'G1', 'G2', 'G3')), 'move')
    h.check(g.current_tool == (1 if op == 'T1' else 0), 'tool')
    h.check(bool(g.imperial) == (op == 'G20'), 'unit')
    h.check(bool(g.relative) == (op == 'G91'), 'positioning')
    h.check(bool(g.relative_e) == (op in ('G91', 'M83')), 'extrusion mode')
    if op[0] == 'G' and op not in ('G28',):
        for w in LETTERS:
            v = getattr(l, w.lower())
            h.check((v is not None) == (w in want), 'word %s' % w)
            if v is not None and w in want:
                h.check_near(v, want[w], 0, 'value of %s' % w)
    if op == 'G4':
        v = h.gcoder.P(l)
        h.check(v is not None, 'pause')
        h.check_near(v or 0, want['P'], 0, 'duration of the pause')
    end = dict(X=Fraction(10), Y=Fraction(20), Z=Fraction(3))
    for x in 'XYZ':
        if op in ('G0', 'G1', 'G2', 'G3') and x in want:
            end[x] = want[x]
        if op == 'G28' and (x in want or not want):
            end[x] = Fraction(0)
        h.check_near(getattr(l, 'current_' + x.lower()), end[x], 0, 'position in %s' % x)

"""C01: reading a program and writing it back keeps every line; all views of the program agree."""
from .common import render, out_lines, parse

BOUNDS = ('programs of 4 (quick) / 6 (thorough) lines read at once, then 2 lines appended; every Z a symbolic real '
          '(any order: layers, hops, tiny steps), X/Y/E/F free of fixed values; plus blank, comment and unknown lines')
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000, query_ms=250)
BUDGET = {'quick': 100, 'thorough': 850}

ZS = ['G1 Z', 'G1 X1 Z F100', 'G1 X2 Y3 E1', 'G92 Z', 'G91', 'G28']
OTHER = ['', '; comment', '(c) G1 X1', 'M104 S200', '  G1 X5 Y5 E2 ; tail  ', 'T1', 'hello', 'N7 G1 Z', '%', 'G4 P100',
         'G90', 'M117 G1 Z9', 'G1 E-2 F1800', 'g1 x7 z8']


def cases(tier):
    if tier == 'quick':
        return [dict(first=a, n=2 if a in ZS else 3, kind=('lines', 'list')[i % 2]) for i, a in enumerate(ZS + OTHER)]
    return [dict(first=a, second=b, n=3) for a in ZS + OTHER for b in ZS + OTHER]


def run(h, case):
    pool = ZS + OTHER
    seq = [case['first']]
    if 'second' in case:
        seq.append(case['second'])
    rng = {'Z': (0, 50)}
    text = [render(h, t, k, rng) for k, t in enumerate(seq)]
    for k in range(case['n']):
        t = h.choose(ZS if k else pool, 'line%d' % k)
        text.append(render(h, t, 10 + k, rng))
    if not any(l.strip() for l in text):
        return
    keep = [l.strip() for l in text if l.strip()]
    kind = case.get('kind', 'lines')
    g = h.gcoder.GCode([l + '\n' for l in text] if kind == 'lines' else list(text))
    views(h, g, keep)
    for k, t in enumerate((' G1 X1 Z ', '; bye', '')):
        l = render(h, t.strip(), 20 + k, rng)
        got = g.append(' ' + l + '\t')
        if l:
            keep.append(l)
            h.check(got is not None and got.raw == l, 'append returns the line')
    views(h, g, keep)
    # a program only built by appending
    g2 = h.gcoder.GCode()
    for l in text:
        g2.append(l)
    views(h, g2, [l.strip() for l in text if l.strip()])


def views(h, g, keep):
    out = out_lines(h, g)
    h.observe(len(g.all_layers))
    h.check(out == keep, 'written lines differ from the lines read')
    h.check([l.raw for l in g.lines] == keep, 'flat list of lines')
    h.check([l.raw for l in g] == keep, 'iteration')
    h.check([l.raw for y in g.all_layers for l in y] == keep, 'lines by layer')
    h.check(len(g) == len(keep), 'length')
    h.check(len(g.layer_idxs) == len(keep) and len(g.line_idxs) == len(keep), 'size of the index')
    for i in range(min(len(keep), len(g.layer_idxs))):
        a, b = g.idxs(i)
        ok = 0 <= a < len(g.all_layers) and 0 <= b < len(g.all_layers[a])
        h.check(ok and g.all_layers[a][b] is g.lines[i], 'index of line %d' % i)

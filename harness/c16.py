"""C16: whatever the order of the lines of a program, stretching ends without error, keeps every line in its place and moves extruding
lines of walls only, within the limit of their type."""
from fractions import Fraction

from symx.harness import and_
from . import walls
from .common import Cmd, out_lines, parse

BOUNDS = ('any 3 (quick) or 4 (thorough) consecutive lines out of a list of 11 or 12 (points of walls of all types, travels, retractions, '
          'hops, marks of sections, infill, comments) after a wall, infill or nothing and before a wall, infill or the end of the program, '
          'read with or without layers; any place, width 0.1 to 2 mm (0.4 when read with layers), strength 0 to 3')
ASSUMPTIONS = ['the points are among 9 places relative to each other (some repeated), in widths', 'extrusion is relative, coordinates absolute']
MODULES = ('gcodeutils.stretch.stretch',)
OPTS = dict(max_ticks=60000, query_ms=2000, nra_ms=10000, validate=6, max_paths=100000)
BUDGET = {'quick': 200, 'thorough': 850}
PTS = [(0, 0), (3, 0), (3, 0), (3, 2), (0, 2), (0, 0), (9, 1), (9, 1), (12, 5)]
M1, M2 = 'edge_outside', 'edge_inside'
VOCAB = {
    'slic3r': ['G1 @ E0.1 ; perimeter', 'G1 @ E0.1 ; perimeter external', 'G1 @ F1800 ; move to first perimeter point', 'G1 @ E0.1 ; infill',
               'G1 @ F1800', 'G1 E-1 F2400 ; retract', 'G1 E1 F2400 ; unretract', 'G1 Z%d F1800', '; note', '; perimeters = 3', 'M106 S3'],
    'cura': [';TYPE:WALL-OUTER', ';TYPE:WALL-INNER', ';TYPE:SKIN', ';TYPE:FILL', ';TYPE:SUPPORT', 'G0 F9000 @', 'G1 @ E0.1', 'G1 F1200 @ E0.1',
             'G1 F2400 E-1', 'G1 Z%d F1800', ';LAYER:3', 'M106 S3'],
    'skeinforge': ['(<edge> outer )', '(<edge> inner )', '(<loop> inner )', '(</edge>)', '(</loop>)', 'M101', 'M103', 'G1 @ Z0.3 F1200',
                   'G1 Z%d F1800', '(<nestedRing>)', 'M106 S3'],
}
FIX = {
    'slic3r': {'wall': [2, 6, 1, 1, 1], 'fill': [4, 3, 3], 'none': []},
    'cura': {'wall': [5, 0, 6, 6, 6], 'fill': [3, 5, 6, 6], 'none': []},
    'skeinforge': {'wall': [0, 7, 5, 7, 7, 6, 3], 'fill': [7, 5, 7, 6], 'none': []},
}
ENDS = [('none', 'none'), ('wall', 'wall'), ('wall', 'none'), ('none', 'wall'), ('wall', 'fill'), ('fill', 'wall')]


def cases(tier):
    out = []
    for s in VOCAB:
        for a, b in ENDS:
            for lay in (False, True):
                for i in range(len(VOCAB[s])):
                    for j in range(len(VOCAB[s])) if tier != 'quick' else [None]:
                        out.append(dict(slicer=s, before=a, after=b, layers=lay, first=i, second=j))
    return out


def run(h, case):
    s, lay = case['slicer'], case['layers']
    v = VOCAB[s]
    seq = list(FIX[s][case['before']]) + [case['first']]
    if case['second'] is not None:
        seq.append(case['second'])
    for k in range(2):
        seq.append(h.choose(list(range(len(v)))))
    seq += FIX[s][case['after']]
    st = h.num('strength', 0, 3)
    if lay:
        width, cx, cy = Fraction(2, 5), Fraction(40), Fraction(30)
    else:
        width = Fraction(2, 5) if s == 'cura' else h.num('width', Fraction(1, 10), 2).v
        cx, cy = h.num('cx', -100, 100).v, h.num('cy', -100, 100).v
    wt = h.lin(width).t
    text = ['G90', 'M83']
    if s == 'slic3r':
        text.append('; external perimeters extrusion width = %smm' % wt)
    elif s == 'skeinforge':
        text.append('(<edgeWidth> %s </edgeWidth>)' % wt)
    text += ['G1 Z0.2 F1800']
    may = [None] * len(text)
    section = None
    np = 0
    for i in seq:
        t = v[i]
        if '%d' in t:
            t = t % (len(text))
        at = '@' in t
        if at:
            p = PTS[np % len(PTS)]
            np += 1
            t = t.replace('@', 'X%s Y%s' % (h.lin(cx + width * p[0]).t, h.lin(cy + width * p[1]).t))
        ok = None
        if s == 'slic3r':
            if at and 'perimeter' in t:
                ok = ('loop',) if t.endswith('; perimeter') else ('outer', 'inner') if 'external' in t else ('outer', 'inner', 'loop')
        elif s == 'cura':
            if t.startswith(';TYPE'):
                section = {'WALL-OUTER': 'outer', 'WALL-INNER': 'inner', 'SKIN': 'loop'}.get(t[6:])
            if section and at and 'E' in t:
                ok = (section,)
        else:
            if t.startswith('(<edge> outer'):
                section = 'outer'
            elif t.startswith('(<edge>'):
                section = 'inner'
            elif t.startswith('(<loop>'):
                section = 'loop'
            elif t.startswith('(</'):
                section = None
            if at and section:
                ok = (section,)
        text.append(t)
        may.append(ok)
    g = parse(h, text) if lay else h.append_program(text)
    m = h.load('gcodeutils.stretch.stretch')
    {'slic3r': m.Slic3rStretchFilter, 'cura': m.CuraStretchFilter, 'skeinforge': m.SkeinforgeStretchFilter}[s](stretch_strength=st.py).filter(g)
    out = out_lines(h, g)
    h.check(len(out) == len(text), 'number of lines')
    if len(out) != len(text):
        return
    tol = Fraction(7, 10000)
    for a, b, ok in zip(text, out, may):
        if ok is None:
            h.check(b.startswith(a), 'line outside of walls changed: ' + a)
            continue
        ca, cb = Cmd(a, h.read_num), Cmd(b, h.read_num)
        h.check(ca.op == cb.op, 'command')
        top = st.v * max(walls.RATIO[k] for k in ok) * width
        for x in 'XY':
            if cb.get(x) is None:
                h.fail('coordinate lost')
            d = cb.get(x) - ca.get(x)
            h.check(and_(d <= top + tol, -d <= top + tol), 'moved too far')

"""C32: no tool fails, hangs or drops commands on a well formed program."""
from fractions import Fraction

from .common import render

BOUNDS = ('programs of 2 free lines among 52 and 12 kinds (thorough: 3 among 52, 52 and 4), after nothing, a start sequence, a wall of Slic3r or Cura or a layer, '
          'with free numbers; gcode_mod with each option, gcode_optimize_arcs, gcode_stretch and (programs above the minimum height) gcode_tempcal')
ASSUMPTIONS = ['G-code words have a number, except axes of G28 and G92-like words of flags']
MODULES = ('gcodeutils.gcode_mod', 'gcodeutils.gcode_optimize_arcs', 'gcodeutils.gcode_stretch', 'gcodeutils.gcode_tempcal')
OPTS = dict(max_ticks=20000, query_ms=1500)
BUDGET = {'quick': 110, 'thorough': 780}
KINDS = ['G1 X Y E', 'G1 X', 'G1 Z', 'G0 X Y F', 'G1 E', 'G1 F', 'G1', 'G2 X Y I J E', 'G3 X5 I1', 'G2 I5 J0', 'G28', 'G28 X Y', 'G29', 'G92 E0', 'G92',
         'G92 X Y', 'G92 Z', 'G20', 'G21', 'G90', 'G91', 'M82', 'M83', 'M104 S200', 'M109 S200 T0', 'M106', 'M117 Printing... 5%', 'T0', 'G4 P100',
         'G4 S1', 'G4', 'G10', 'G11', 'M84 X Y', '; comment', '(comment)', ';TYPE:WALL-OUTER', ';TYPE:FILL', ';LAYER:1', ';', 'G1 X5 Y6 E1 ; perimeter',
         'G1 X1 Y1 F600 ; move to first perimeter point', '; external perimeters extrusion width = 0.5mm', 'N1 G1 X', 'M110 N0', '%', 'hello', 'G5 X Y',
         '(<edgeWidth> 0.5 </edgeWidth>)', '*', '/ G1 X5', 'G1 X5 Y6 E1 ; infill']
FEW = ['G1 X Y E', 'G1 Z', 'G91', 'G92 E0', 'G28', '; comment', ';TYPE:WALL-INNER', 'G1 X1 Y1 F600 ; move to first perimeter point', 'G1 X5 Y6 E1 ; perimeter',
       'G2 X Y I J E', 'G20', 'M83']
BEFORE = {
    'none': [], 'start': ['G21', 'G90', 'M82', 'G28', 'G92 E0', 'G1 Z0.3 F600'],
    'slic3r': ['G90', 'M82', 'G1 Z0.2 F900', 'G1 X1 Y1 F600 ; move to first perimeter point', 'G1 X9 Y1 E1 ; perimeter', 'G1 X9 Y9 E2 ; perimeter', 'G1 X1 Y9 E3 ; perimeter'],
    'cura': ['G90', 'M82', 'G0 F900 X0 Y0 Z0.2', ';TYPE:WALL-OUTER', 'G1 F600 X9 Y0 E1', 'G1 X9 Y9 E2', 'G1 X0 Y9 E3'],
}
AFTER = ['G1 Z5', 'G1 X3 Y4 E20']
TOOLS = {'x': ('gcode_mod', ['-x', '7.5']), 'y': ('gcode_mod', ['-y=-3']), 'e': ('gcode_mod', ['-e']), 'p': ('gcode_mod', ['-p', '0']), 'arcs': ('gcode_optimize_arcs', []),
         'stretch': ('gcode_stretch', []), 'temp': ('gcode_tempcal', ['220', '200']), 'tempc': ('gcode_tempcal', ['-c', '200', '220'])}


def cases(tier):
    out = []
    n = 0
    for a in KINDS:
        for b in sorted(BEFORE):
            for t in sorted(TOOLS):
                n += 1
                if tier == 'quick' and n % 5 != KINDS.index(a) % 5:
                    continue
                out.append(dict(first=a, before=b, tool=t, after=n % 2, deep=tier != 'quick'))
    return out


def run(h, case):
    if case['deep']:
        seq = [case['first'], h.choose(KINDS[case['after']::2], 'second'), h.choose(FEW[::3], 'third')]
    else:
        seq = [case['first'], h.choose(FEW, 'second')]
    body = [render(h, t, k, {'X': (0, 40), 'Y': (0, 40), 'Z': (Fraction(1, 2), 4), 'E': (-3, 9)}) if ';' not in t and t[0] not in '(/' and 'M' not in t else t
            for k, t in enumerate(seq)]
    text = BEFORE[case['before']] + body + (AFTER if case['after'] or 'temp' in case['tool'] else [])
    tool, args = TOOLS[case['tool']]
    try:
        out = h.cli('gcodeutils.' + tool, list(args), text)
    except RuntimeError:
        # too low for a gradient
        h.check(tool == 'gcode_tempcal', 'refused')
        return
    # commands other than moves all remain, in order
    h.observe(len(out))
    want = [w for w in (op(l) for l in text) if w and w not in ('M82', 'M83', 'G0', 'G1', 'G2', 'G3')]
    got = [w for w in (op(l) for l in out) if w and w not in ('M82', 'M83', 'G0', 'G1', 'G2', 'G3', 'M226')]
    if tool == 'gcode_tempcal':
        got = [w for w in got if w != 'M104']
        want = [w for w in want if w != 'M104']
    h.check(got == want, 'commands')
    if tool not in ('gcode_optimize_arcs',):
        moves = [len([l for l in p if op(l) in ('G0', 'G1', 'G2', 'G3')]) for p in (text, out)]
        h.check(moves[0] == moves[1], 'moves')


def op(line):
    """command of a line (comments: their text)"""
    l = line.strip()
    if not l:
        return None
    if l[0] in ';(':
        return l.partition(' ; ')[0].strip() if l[0] == '(' else l.split(' ; ')[0].strip()
    w = l.split(';')[0].split('(')[0].split()
    if not w:
        return None
    if w[0][0] == 'N' and len(w) > 1 and w[0][1:].isdigit():
        w = w[1:]
    return w[0]

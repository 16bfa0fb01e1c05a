"""C27: the commands read the file given or the standard input, and write the program to the file given, the standard output or in place."""
import gc
import os
import sys

from . import layered
from .common import parse

BOUNDS = ('gcode_mod, gcode_optimize_arcs, gcode_stretch and gcode_tempcal, without and with options, from a file or the standard input, '
          'to a file, the standard output or in place (gcode_optimize_arcs), any verbosity; programs of layers at symbolic heights with '
          'symbolic flow, comments, unknown, blank and indented lines, with and without a final end of line')
ASSUMPTIONS = ['the input and the output are not the same file, unless -i asks for it', 'different heights are at least 0.02 mm apart, 1 mm or more']
MODULES = ('gcodeutils.gcode_mod', 'gcodeutils.gcode_optimize_arcs', 'gcodeutils.gcode_stretch', 'gcodeutils.gcode_tempcal')
OPTS = dict(max_ticks=20000, query_ms=2000)
BUDGET = {'quick': 100, 'thorough': 600}
TOOLS = {
    'mod': ('gcode_mod', []), 'mod-x': ('gcode_mod', ['-x', '5']), 'mod-y': ('gcode_mod', ['-y=-2.5']), 'mod-e': ('gcode_mod', ['-e']),
    'mod-p': ('gcode_mod', ['-p', '1']),
    'arcs': ('gcode_optimize_arcs', []), 'stretch': ('gcode_stretch', []), 'tempcal': ('gcode_tempcal', ['200', '230']),
    'tempcal-c': ('gcode_tempcal', ['-c', '-z', '0.5', '230', '200']), 'tempcal-s': ('gcode_tempcal', ['-s', '3', '240', '190']),
}
WAYS = ['file file', 'file stdout', 'stdin stdout', 'file file -q', 'file stdout -v', 'stdin stdout -v -v']
IN_PLACE = ['file inplace', 'file inplace -q', 'stdin stdout inplace']
ARC = ['G1 X10 Y0', 'G1 X9.659258 Y2.588190 E1', 'G1 X8.660254 Y5 E2', 'G1 X7.071068 Y7.071068 E3', 'G1 X5 Y8.660254 E4',
       'G1 X2.588190 Y9.659258 E5', 'G1 X0 Y10 E6', 'G1 X-2.588190 Y9.659258 E7', 'G1 X-5 Y8.660254 E8', 'G1 X-7.071068 Y7.071068 E9',
       'G1 X-8.660254 Y5 E10', 'G92 E0']
WALL = ['; external perimeters extrusion width = 0.4mm', 'G1 X1 Y1 F600 ; move to first perimeter point', 'G1 X9 Y1 E1 ; perimeter', 'G1 X9 Y9 E2 ; perimeter',
        'G1 X1 Y9 E3 ; perimeter', 'G1 X1 Y1 E4 ; perimeter', 'G1 X5 Y5 ; move to first infill point', 'G92 E0']


def cases(tier):
    out = []
    for t in sorted(TOOLS):
        for w in WAYS + (IN_PLACE if t == 'arcs' else []):
            for end in ('\n', ''):
                out.append(dict(tool=t, way=w, end=end, shape='SLLP' if tier == 'quick' else 'SLHLP'))
    return out


def expected(h, tool, args, text):
    """what the filters give through their own interface"""
    if tool == 'gcode_tempcal':
        m = h.load('gcodeutils.gcode_tempcal')
        k = dict(min_z_change=.5, start_temp=230, end_temp=200, steps=10) if '-c' in args else \
            dict(min_z_change=.1, start_temp=240, end_temp=190, steps=3) if '-s' in args else \
            dict(min_z_change=.1, start_temp=200, end_temp=230, steps=10)
        cls = m.GCodeContinuousTempGradient if '-c' in args else m.GCodeStepTempGradient
        return h.text_of(cls(gcode=parse(h, text), **k))
    g = parse(h, text)
    if tool == 'gcode_optimize_arcs':
        h.load('gcodeutils.filter.arc_optimizer').GCodeArcOptimizerFilter().filter(g)
    if tool == 'gcode_stretch' or '-e' in args:
        h.load('gcodeutils.filter.relative_extrusion').GCodeToRelativeExtrusionFilter().filter(g)
    if tool == 'gcode_stretch':
        h.load('gcodeutils.stretch.stretch').Slic3rStretchFilter().filter(g)
    if '-x' in args:
        h.load('gcodeutils.filter.translate').GCodeXYTranslateFilter(x=5.).filter(g)
    if '-y=-2.5' in args:
        h.load('gcodeutils.filter.translate').GCodeXYTranslateFilter(y=-2.5).filter(g)
    if '-p' in args:
        h.load('gcodeutils.visit.iterator').GCodeIterator(g).accept(h.load('gcodeutils.visit.pause_at_layer').PauseAtLayer([1]))
    return h.text_of(g)


def run(h, case):
    text, pieces = layered.program(h, case['shape'])
    for p in pieces:
        if p.z is not None:
            # the temperature calibration refuses lower programs
            h.assume(p.z >= 1)
    tool, opts = TOOLS[case['tool']]
    k = next(i for i, l in enumerate(text) if l.startswith('G1 Z')) + 1
    text = ['G90', 'M82'] + text[:k] + (ARC if tool == 'gcode_optimize_arcs' else WALL) + ['', '  M117 some text', 'G1 X3 E' + h.num('e', 1, 5).t] + text[k:]
    want = expected(h, tool, opts, text)
    way = case['way'].split()
    d = h.scratch()
    inp, out = os.path.join(d, 'program.gcode'), os.path.join(d, 'out.gcode')
    content = '\n'.join(text) + case['end']
    for p, s in ((inp, content), (out, 'former content\n' * 500)):
        with open(p, 'w') as f:
            f.write(s)
    args = [w for w in way if w.startswith('-')] + list(opts)
    if 'inplace' in way:
        args.insert(0, ['-i', '--inplace'][len(case['end'])])
    if way[0] == 'file':
        args.append(inp)
        if way[1] == 'file':
            args.append(out)
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    shown = os.path.join(d, 'shown')
    m = h.load('gcodeutils.' + tool)
    with open(shown, 'w') as fo, open(os.devnull, 'w') as fe, open(inp) as fi:
        try:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = ['prog'] + args, fi, fo, fe
            m.main()
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    gc.collect()
    got = {}
    for n, p in (('file', out), ('stdout', shown), ('inplace', inp)):
        with open(p) as f:
            got[n] = f.read()
    where = way[1]
    h.observe(len(want))
    h.check(got[where].split('\n') == want, 'program written to the ' + where)
    if where != 'file':
        h.check(got['file'] == 'former content\n' * 500, 'another file was written')
    if where != 'stdout':
        h.check(got['stdout'] == '', 'something else was written to the standard output')
    if where != 'inplace':
        h.check(got['inplace'] == content, 'the original program was changed')

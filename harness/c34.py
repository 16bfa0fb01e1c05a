"""C34: lines written by the tools are well formed: a command, then words of a letter and a plain decimal number, each letter once."""
import re

from fractions import Fraction

from . import c27, c33
from .common import render

BOUNDS = ('9 uses of the tools on 7 programs (moves, arcs, walls of Slic3r and Cura, relative modes, inches, G92) with one kind of word free, in ranges around zero '
          '(down to 0) and away from it, free translations, strengths and temperatures around zero too')
ASSUMPTIONS = ['numbers of more than 16 digits before the point are outside']
MODULES = ('gcodeutils.gcode_mod', 'gcodeutils.gcode_optimize_arcs', 'gcodeutils.gcode_stretch', 'gcodeutils.gcode_tempcal')
OPTS = dict(max_ticks=60000, query_ms=2000, int_literals=True)
BUDGET = {'quick': 90, 'thorough': 600}
TINY = Fraction(1, 500)
PROGRAMS = {
    'abs': ['G21', 'G90', 'M82', 'G28', 'G1 Z0.3 F900', 'G1 X Y1', 'G1 X4 Y E', 'G1 Z9 F', 'G92 X Y2 E', 'G1 X1 Y2 E'],
    'rel': ['G90', 'M83', 'G1 Z0.3 F900', 'G91', 'G1 X Y', 'G1 X1 E', 'G1 Z', 'G90', 'G1 X5 Y E', 'G1 Z9 E'],
    'inch': ['G20', 'G90', 'M82', 'G1 Z0.1 F90', 'G1 X Y1 E', 'G92 E', 'G1 X1 Y E0.5', 'G1 Z F'],
    'arcs': ['G90', 'M82', 'G1 Z0.3 F900', 'G2 X Y I5 J E', 'G3 X5 Y6 I J1 E9', 'G1 Z9 E10'],
    'round': ['G90', 'M82', 'G1 Z1 F600'] + c27.ARC + ['G1 Z9', 'G1 X0 E'],
    'slic3r': ['G90', 'M83', 'G1 Z0.2 F900', 'G1 X1 Y1 F600 ; move to first perimeter point', 'G1 X1.8 Y1 E ; perimeter external', 'G1 X1.8 Y1.6 E ; perimeter external',
               'G1 X1 Y1.6 E3 ; perimeter external', 'G1 X1 Y1 E4 ; perimeter external', 'G1 X4 Y4 ; move to first infill point', 'G1 Z9 F'],
    'cura': ['G90', 'M82', 'G0 F900 X0 Y0 Z0.2', ';TYPE:WALL-OUTER', 'G1 F600 X1.8 Y0 E', 'G1 X1.8 Y1.6 E20', 'G1 X0 Y1.6 E', 'G1 X0 Y0 E41', ';TYPE:FILL', 'G0 X3 Y4', 'G1 Z9'],
}
USES = {'x': ('gcode_mod', ['-x', 'T']), 'y': ('gcode_mod', ['-y', 'T']), 'e': ('gcode_mod', ['-e']), 'p': ('gcode_mod', ['-p', '0']), 'all': ('gcode_mod', ['-x', 'T', '-y', '2', '-e', '-p', '1']),
        'arcs': ('gcode_optimize_arcs', []), 'stretch': ('gcode_stretch', ['--stretch_strength', 'S']), 'temp': ('gcode_tempcal', ['-s', '3', 'H', '200']),
        'tempc': ('gcode_tempcal', ['-c', '-z', '0.5', '200', 'H'])}
WORD = re.compile(r'^([A-Z])(-?[0-9]+(\.[0-9]+)?)$')


def cases(tier):
    out = []
    for p in sorted(PROGRAMS):
        for u in sorted(USES):
            body = ' '.join(PROGRAMS[p][3:])
            frees = [f for f in 'XYZEFIJ' if ' %s ' % f in body + ' ']
            if any(o in ('T', 'S', 'H') for o in USES[u][1]):
                frees.append('opt')
            for f in frees:
                for r in ('tiny', 'wide'):
                    out.append(dict(program=p, use=u, free=f, range=r))
    return out


def run(h, case):
    lo, hi = (-TINY, TINY) if case['range'] == 'tiny' else (-900, 900)
    free = case['free']
    fixed = {'X': '3', 'Y': '2.5', 'Z': '4', 'E': '12', 'F': '1200', 'I': '2', 'J': '-1'}
    ranges = {a: (lo, hi) for a in 'XYEIJ'}
    ranges['Z'] = (0, TINY) if case['range'] == 'tiny' else (1, 900)
    ranges['F'] = (TINY / 2, TINY) if case['range'] == 'tiny' else (60, 9000)
    text = []
    for k, t in enumerate(PROGRAMS[case['program']]):
        code, sep, com = t.partition(';')
        ws = [w + fixed[w] if n and len(w) == 1 and w in fixed and w != free else w for n, w in enumerate(code.split(' '))]
        text.append(render(h, ' '.join(ws) + sep + com, k, ranges))
    name, opts = USES[case['use']]

    def option(a):
        if a not in ('T', 'S', 'H'):
            return a
        if free != 'opt':
            return {'T': '7', 'S': '2', 'H': '230'}[a]
        v = {'T': (0, TINY) if case['range'] == 'tiny' else (0, 500), 'S': (0, TINY) if case['range'] == 'tiny' else (0, 3), 'H': (190, 250)}[a]
        return h.int('opt', *v).t if a == 'H' else h.num('opt', *v).t
    try:
        out = h.cli('gcodeutils.' + name, [option(a) for a in opts], text)
    except RuntimeError:
        h.check(name == 'gcode_tempcal', 'refused')
        return
    h.observe(len(out))
    known = set(text)
    for l in out:
        if l in known or not l.strip():
            continue
        code = l.partition(';')[0].strip()
        if not code:
            continue
        ws = code.split()
        seen = set()
        for w in ws:
            m = WORD.match(w)
            h.check(m is not None, 'plain words: ' + case['use'])
            if m is not None:
                h.check(m.group(1) not in seen, 'a word twice')
                seen.add(m.group(1))
        h.check(ws[0][0] in 'GMT', 'command first')

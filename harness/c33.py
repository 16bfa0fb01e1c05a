"""C33: what a tool makes of a program doesn't depend on the programs handled before."""
import os

from fractions import Fraction

from . import c27

BOUNDS = ('one or two programs among 8 (ending in relative mode, in inches, in an unfinished arc or wall, in the middle of layers, failing...) handled by any of 12 uses of the tools, '
          'then a program of 6 kinds with free numbers handled by any of the 12, twice; in the same process')
ASSUMPTIONS = ['every program is handled by new objects, as the tools do']
MODULES = ('gcodeutils.gcode_mod', 'gcodeutils.gcode_optimize_arcs', 'gcodeutils.gcode_stretch', 'gcodeutils.gcode_tempcal')
OPTS = dict(max_ticks=60000, query_ms=2000)
BUDGET = {'quick': 100, 'thorough': 800}
USES = {'x': ('gcode_mod', ['-x', '5']), 'y': ('gcode_mod', ['-y=-5']), 'e': ('gcode_mod', ['-e']), 'p': ('gcode_mod', ['-p', '1']), 'arcs': ('gcode_optimize_arcs', []),
        'stretch': ('gcode_stretch', []), 'strong': ('gcode_stretch', ['--stretch_strength=3', '--edge_outside_stretch_over_edge_width=0.5']), 'temp': ('gcode_tempcal', ['-s', '2', '220', '200']),
        'tempc': ('gcode_tempcal', ['-c', '-z', '0.5', '200', '220']), 'pstretch': ('stretch_plugin', dict(stretch_strength=2.)),
        'ptemp': ('tempcal_plugin', dict(start_temp=230., end_temp=190., min_z_change=.1, steps=3)), 'all': ('gcode_mod', ['-x', '1', '-y', '2', '-e', '-p', '0'])}
FORMER = {
    'relative': ['G90', 'G1 X1 Y1 Z1 F600', 'G92 X3 E2', 'G91', 'M83', 'G1 X1 E1', 'G1 Z1 E1', 'G1 X4'],
    'inches': ['G20', 'G90', 'M82', 'G1 X1 Z0.1 F60', 'G92 E3', 'G1 Z0.4', 'G1 X2 E5', 'T1'],
    'arc': ['G90', 'M83', 'G1 Z0.3 F500', 'G1 Z5'] + [l for l in c27.ARC[:8]],
    'wall': ['G90', 'M83', 'G1 Z0.3 F500', '; external perimeters extrusion width = 0.8mm', 'G1 X1 Y1 F600 ; move to first perimeter point', 'G1 X1.8 Y1 E1 ; perimeter external',
             'G1 X1.8 Y1.6 E1 ; perimeter external', 'G1 Z9'],
    'cura': ['G90', 'M83', 'G0 F9000 X0 Y0 Z0.3', ';TYPE:WALL-OUTER', 'G1 F700 X1.8 Y0 E1', 'G1 X1.8 Y1.6 E1', 'G1 X0 Y1.6 E1', 'G1 X0 Y0 E1', ';TYPE:FILL', 'G1 Z7',
             ';CURA_PROFILE_STRING:eJzLy6+qykmNL86sSrU10DPh4AEAPP4FoA=='],
    'bad': ['G91', 'G20', 'G1 X5 Z8 E3', 'G1 X-'],
    'layers': ['G90', 'G28', 'M82', 'G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X2 E2', 'G1 Z0.6', 'G1 X3 E3', 'G1 Z8', 'G1 X3 E4', 'G0 Z20'],
    'same': None,
}
LATER = {
    'plain': ['G1 Z0.3 F', 'G1 X Y1', 'G1 X4 Y5 E1', 'G1 Z', 'G1 X1 Y2 E'],
    'start': ['G21', 'G90', 'M82', 'G28', 'G92 E0', 'G1 Z0.3 F600', 'G1 X Y5', 'G1 X5 Y E', 'G1 Z', 'G1 X7 E9'],
    'rel': ['G91', 'G1 X1', 'G1 Z1', 'G1 X E', 'G90', 'G1 X5 E3', 'G1 Z'],
    'slic3r': ['G90', 'M82', 'G1 Z0.2 F900', 'G1 X1 Y1 F600 ; move to first perimeter point', 'G1 X1.8 Y1 E ; perimeter external', 'G1 X1.8 Y1.6 E20 ; perimeter external', 'G1 X1 Y1.6 E31 ; perimeter external',
               'G1 X1 Y1 E44 ; perimeter external', 'G1 X4 Y4 ; move to first infill point', 'G1 Z'],
    'cura': ['G90', 'M82', 'G0 F900 X0 Y0 Z0.2', ';TYPE:WALL-OUTER', 'G1 F600 X1.8 Y0 E', 'G1 X1.8 Y1.6 E20', 'G1 X0 Y1.6 E31', 'G1 X0 Y0 E41', ';TYPE:FILL', 'G0 X3 Y4', 'G1 Z',
             ';CURA_PROFILE_STRING:eJzLy6+qykmNL86sSrU10DPh4AEAPP4FoA=='],
    'arc': ['G90', 'M82', 'G1 Z1 F600'] + c27.ARC + ['G1 Z', 'G1 X0 E'],
}


def cases(tier):
    out = []
    n = 0
    for later in sorted(LATER):
        for u in sorted(USES):
            for f in sorted(FORMER):
                for v in sorted(USES):
                    n += 1
                    if v != u and n % (11 if tier == 'quick' else 2):
                        continue
                    out.append(dict(later=later, use=u, former=f, by=v))
    return out


def run(h, case):
    from .common import render
    text = [render(h, t, k, {'X': (0, 40), 'Y': (0, 40), 'Z': (2, 30), 'E': (10, 15), 'F': (60, 6000)}) if t[0] == 'G' else t for k, t in enumerate(LATER[case['later']])]
    first = handle(h, case['use'], text)
    h.observe(len(first) if first else -1)
    former = FORMER[case['former']]
    handle(h, case['by'], former if former is not None else text)
    again = handle(h, case['use'], text)
    h.check((first is None) == (again is None), 'refused')
    if first is not None and again is not None:
        h.check(first == again, 'another result')


def handle(h, use, text):
    name, opts = USES[use]
    try:
        if not isinstance(opts, dict):
            return h.cli('gcodeutils.' + name, list(opts), text)
        path = os.path.join(h.scratch(), 'p.gcode')
        with open(path, 'w') as f:
            f.write('\n'.join(text) + '\n')
        h.w.run_script(os.path.join(h.w.repo, 'cura_plugins', name + '.py'), dict(opts, filename=path))
        with open(path) as f:
            return f.read().split('\n')
    except (RuntimeError, ValueError):
        return None

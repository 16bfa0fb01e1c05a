"""C29: a program which can't be read or is refused is left as it was; a program is never emptied."""
import gc
import os
import sys
from fractions import Fraction

BOUNDS = ('gcode_optimize_arcs -i and the two Cura plugins (in place), gcode_mod, gcode_stretch and gcode_tempcal (from a file to another), on '
          'programs of 1 to 3 layers at symbolic heights (0 to 6 mm, any order), with any minimum height between 0.05 and 5 for the gradients, '
          'and at any place one line that may be malformed')
ASSUMPTIONS = ['different heights are at least 0.02 mm apart', 'the disk has place for the program']
MODULES = ('gcodeutils.gcode_mod', 'gcodeutils.gcode_optimize_arcs', 'gcodeutils.gcode_stretch', 'gcodeutils.gcode_tempcal')
OPTS = dict(max_ticks=8000, query_ms=2000)
BUDGET = {'quick': 150, 'thorough': 600}
TOOLS = ['tempcal_plugin', 'stretch_plugin', 'gcode_optimize_arcs', 'gcode_mod', 'gcode_stretch', 'gcode_tempcal']
BAD = [None, 'G1 X-', 'G1 X. Y1', 'T', 'M117 hello -', 'G1 E+', 'N3', ';CURA_PROFILE_STRING:x', '(<edgeWidth> .', 'G92 Z-', '; extrusion width = mm']
KINDS = ['L', 'LL', 'TL', 'LTL', 'LLL', 'T', '']


def cases(tier):
    return [dict(tool=t, shape=s, how=k) for t in TOOLS for s in (KINDS if tier != 'quick' else KINDS[:4] + ['']) for k in range(2)]


def run(h, case):
    text = ['G90', 'M82', 'G28']
    e = 0
    zs = []
    for k, s in enumerate(case['shape']):
        z = h.num('z%d' % k, 0, 6)
        for o in zs:
            h.assume(abs(z.v - o) >= Fraction(1, 50))
        zs.append(z.v)
        text.append('G1 Z' + z.t)
        if s == 'L':
            e += 1
            text.append('G1 X5 Y%d E%d' % (k, e))
        text.append('G1 X1 Y1')
    bad = h.choose(BAD, 'line')
    if bad is not None:
        text.insert(h.choose(range(len(text) + 1), 'place'), bad)
    name = case['tool']
    d = h.scratch()
    path, out = os.path.join(d, 'program.gcode'), os.path.join(d, 'out.gcode')
    content = '\n'.join(text) + '\n'
    with open(path, 'w') as f:
        f.write(content)
    low = h.num('low', Fraction(1, 20), 5) if 'tempcal' in name and bad is None else h.lin(Fraction(1, 10))
    place = 'inplace' if 'plugin' in name or name == 'gcode_optimize_arcs' else 'file'
    failed = False
    try:
        if name == 'tempcal_plugin':
            script(h, name, dict(filename=path, start_temp=230., end_temp=190., min_z_change=low.py if bad is None else .1, steps=10. if case['how'] else 5))
        elif name == 'stretch_plugin':
            script(h, name, dict(filename=path, stretch_strength=1. + case['how']))
        else:
            opts = {'gcode_optimize_arcs': [['-i'], ['-q', '--inplace']], 'gcode_mod': [['-x', '3'], ['-e', '-p', '0']],
                    'gcode_stretch': [[], ['-q', '--stretch_strength=2']],
                    'gcode_tempcal': [['-z', low.t, '230', '190'], ['-c', '-z', low.t, '190', '230']]}[name][case['how']]
            command(h, name, opts + [path] + ([out] if place == 'file' else []))
    except (RuntimeError, ValueError, KeyError, IndexError, TypeError, AttributeError):
        failed = True
    except Exception as ex:
        if not type(ex).__module__ in ('zlib', 'binascii', 'builtins'):
            raise
        failed = True
    gc.collect()
    with open(path) as f:
        got = f.read()
    h.observe(failed)
    if failed or place == 'file':
        h.check(got == content, 'the program was changed')
    if not failed:
        if place == 'file':
            with open(out) as f:
                got = f.read()
        h.check(len([l for l in got.split('\n') if l.strip()]) >= len([l for l in text if l.strip()]), 'lines were lost')


def script(h, name, var):
    old = sys.stdout
    try:
        with open(os.devnull, 'w') as f:
            sys.stdout = f
            h.w.run_script(os.path.join(h.w.repo, 'cura_plugins', name + '.py'), var)
    finally:
        sys.stdout = old


def command(h, name, args):
    old = sys.argv, sys.stderr
    m = h.load('gcodeutils.' + name)
    with open(os.devnull, 'w') as f:
        try:
            sys.argv, sys.stderr = ['prog'] + args, f
            m.main()
        finally:
            sys.argv, sys.stderr = old

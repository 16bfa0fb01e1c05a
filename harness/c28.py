"""C28: the options of gcode_stretch and the parameter of the Cura plugin have the effect documented, and filament is kept."""
import os
from fractions import Fraction

from symx.oracle import Machine
from . import walls

BOUNDS = ('gcode_stretch on walls of Slic3r and Cura programs and the Cura plugin; any strength (0 to 3) and ratios (0 to 1) of the '
          'three types of walls, reach of 1, 2 and 3 widths, limit of 3, 5 and 100 widths; any subset of options; absolute, relative or '
          'unknown extrusion mode; any place, size and flow of the walls')
ASSUMPTIONS = ['as in C14', 'what is documented for --stretch_from_distance_over_edge_width is the distance where the direction of the wall is taken', 'extrusion is relative from the second extruding line on, which is not in a wall']
MODULES = ('gcodeutils.gcode_stretch', 'gcodeutils.stretch.stretch')
OPTS = dict(max_ticks=60000, query_ms=2000, nra_ms=10000)
BUDGET = {'quick': 110, 'thorough': 700}
LOOPS = ['square', 'hexagon', 'triangle', 'L', 'dodecagon', 'fine', 'twice', 'grid']
NAMES = {'outer': '--edge_outside_stretch_over_edge_width', 'inner': '--edge_inside_stretch_over_edge_width', 'loop': '--loop_stretch_over_edge_width'}
DIRECT = '--stretch_from_distance_over_edge_width'
LIMIT = '--cross_limit_distance_over_edge_width'
ORDERS = [('outer', 'inner', 'loop', 'outer'), ('loop', 'outer', 'inner', 'outer'), ('outer', 'loop', 'inner', 'loop'),
          ('outer', 'inner', 'inner', 'loop'), ('outer', 'inner', 'loop', 'outer'), ('inner', 'loop', 'outer', 'outer'),
          ('loop', 'outer', 'outer', 'inner'), ('outer', 'outer', 'inner', 'loop')]
SETS = [(), ('s',), ('outer',), ('inner', 's'), ('loop',), ('outer', 'inner', 'loop', 's'), ('reach', 's'), ('limit', 's'), ('reach', 'limit', 'outer', 'loop')]


def cases(tier):
    out = []
    n = 0
    for s in ('slic3r', 'cura', 'plugin'):
        for a in LOOPS if tier != 'quick' else LOOPS[:6]:
            for o in SETS if s != 'plugin' else [('s',)]:
                for m in ('M82', 'M83', None):
                    n += 1
                    if tier == 'quick' and n % 4 and s != 'plugin':
                        continue
                    out.append(dict(slicer=s, loop=a, use=list(o), mode=m, reach=[1, 3][n % 2] if 'reach' in o else 2,
                                    limit=[3, 100][n % 2] if 'limit' in o else 5, width=None if n % 3 else '0.5', order=n // 4 % 4))
    return out


def run(h, case):
    a = case['loop']
    plugin = case['slicer'] == 'plugin'
    # the first external wall of a layer of Slic3r is its outer one
    kinds = ORDERS[case['order'] if case['slicer'] == 'slic3r' else case['order'] + 4]
    blocks = [(kinds[0], a), (kinds[1], 'triangle'), ('retract', None), (kinds[2], a), ('fill', 'open'), ('layer', None), (kinds[3], 'square')]
    w = walls.Walls(h, 'cura' if plugin else case['slicer'], blocks, width=case['width'] or '0.4', fixed_f=True, emode=case['mode'], place=(40, 100), absolute=case['mode'] != 'M83', late=case['slicer'] != 'slic3r' and case['order'] % 2 == 1)
    text = w.text()
    ratio = dict(walls.RATIO)
    strength = Fraction(1)
    args = []
    if 's' in case['use']:
        s = h.num('strength', 0, 3)
        strength = s.v
        args.append('--stretch_strength=' + s.t)
    for k in sorted(NAMES):
        if k in case['use']:
            r = h.num('ratio_' + k, 0, 1)
            ratio[k] = r.v
            args.append(NAMES[k] + '=' + r.t)
    if 'reach' in case['use']:
        args.append('%s=%d' % (DIRECT, case['reach']))
    if 'limit' in case['use']:
        args.append('%s=%d' % (LIMIT, case['limit']))
    if plugin:
        name = os.path.join(h.scratch(), 'cura.gcode')
        with open(name, 'w') as f:
            f.write('\n'.join(text) + '\n')
        h.w.run_script(os.path.join(h.w.repo, 'cura_plugins', 'stretch_plugin.py'), dict(filename=name, stretch_strength=s.py))
        with open(name) as f:
            out = f.read().split('\n')
    else:
        out = h.cli('gcodeutils.gcode_stretch', args, text)
    out = [l for l in out if l]
    ma, mb = Machine(h.read_num), Machine(h.read_num)
    items = list(w.items)
    j = 0
    tol = Fraction(7, 10000) * 2
    for it, l in zip(items, text):
        a = ma.step(l)
        if j < len(out) and out[j].split(';')[0].strip() == 'M83' and a.op not in ('M82', 'M83'):
            mb.step(out[j])
            j += 1
        h.check(j < len(out), 'line lost')
        if j >= len(out):
            return
        b = mb.step(out[j])
        if a.op in ('M82', 'M83'):
            h.check(b.op == 'M83', 'relative extrusion')
            j += 1
            continue
        h.check(a.op == b.op, 'order of the lines')
        if a.op is None:
            h.check(out[j].startswith(l), 'comment')
        j += 1
        h.check_near(a.f, b.f, Fraction(1, 1000), 'feedrate')
        h.check_near(a.end['Z'], b.end['Z'], Fraction(1, 1000), 'height')
        if it.ring:
            top = strength * ratio[it.kind] * w.w
            want = walls.ring_stretch(it.ring[0], it.ring[1], case['reach'], case['limit'])
        else:
            top, want = 0, (0, 0)
        if not it.ring:
            # the flow of walls follows the displacement (see C15)
            h.check_near(a.de, b.de, Fraction(2, 10 ** 5), 'filament')
        for x, c in zip('XY', want):
            if it.kind is None and not (a.cmd.has('X') or a.cmd.has('Y')):
                continue
            if it.kind and not it.ring:
                continue
            h.check_near(b.end[x] - a.end[x], top * c, tol, 'displacement of a point of an %s wall' % it.kind)
    h.check(j == len(out), 'lines added')

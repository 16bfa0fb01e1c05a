"""C31: light programs, deferred reading and progress callbacks tell the same as a program read at once."""
from fractions import Fraction

from symx.harness import or_
from . import layered
from .common import render

BOUNDS = ('programs of up to 4 (quick) / 5 (thorough) pieces (start, layers, travels, hops, parks) at free heights, and programs of 3 free lines among 19 kinds; '
          'full and light programs, read at once, later (deferred), twice, with both callbacks')
ASSUMPTIONS = ['different heights are at least 0.02 mm apart']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000, query_ms=1500)
BUDGET = {'quick': 100, 'thorough': 700}
SHAPES = ['L', 'SLL', 'LTL', 'LLR', 'NLV', 'SLHP', 'GLL']
LINES = ['G1 X Y E', 'G1 Z', 'G1 X Z E', 'G91', 'G92 E0', 'G92 Z', 'G92', 'G28', 'G28 X', 'G20', 'M83', 'T1', '; note', 'M117 hi', 'G2 X4 Y4 I1 J1 E', 'G4 P500', 'G1 F', '', 'N3 g1 y6']
STATE = ['imperial', 'relative', 'relative_e', 'current_tool', 'current_x', 'current_y', 'current_z', 'current_e', 'current_f', 'offset_x', 'offset_y',
         'offset_z', 'offset_e', 'total_e', 'max_e', 'filament_length', 'xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax', 'width', 'depth',
         'height', 'layers_count', 'est_layer_height']
LINE = ['x', 'y', 'z', 'e', 'f', 'i', 'j', 'current_x', 'current_y', 'current_z', 'current_e', 'extruding', 'relative', 'relative_e', 'imperial', 'command', 'raw']
HOW = ['light', 'light deferred', 'deferred', 'callbacks', 'light callbacks', 'again', 'home']


def cases(tier):
    out = [dict(shape=s, how=w) for s in SHAPES + ([] if tier == 'quick' else ['SLLLP', 'LHLR', 'TLVL']) for w in HOW]
    for i, a in enumerate(LINES):
        for j, b in enumerate(LINES):
            if tier != 'quick' or (i + j) % 3 == 0:
                out.append(dict(lines=[a, b], how=HOW[(i + 2 * j) % len(HOW)]))
    return out


def run(h, case):
    if 'shape' in case:
        text, pieces = layered.program(h, case['shape'])
    else:
        seq = ['G1 X1 Y1 Z0.5 E1 F600'] + case['lines'] + ['G1 X4 Z E5']
        text = [render(h, t, k, {'E': (-5, 9), 'Z': (1, 40), 'F': (60, 9000)}) for k, t in enumerate(seq)]
    gc = h.gcoder
    how = case['how'].split()
    data = [l + '\n' for l in text]
    home = [3, Fraction(-4), 7] if 'home' in how else None
    if home:
        home = [h.num('home' + x, -50, 50).py for x in 'xyz']
    want = gc.GCode(data, home_pos=home)
    cls = gc.LightGCode if 'light' in how else gc.GCode
    layers, lines = [], []

    def new_layer(g, n):
        # the layer is complete
        layers.append((g, n, [l.raw for l in g.all_layers[n]]))

    def new_line(l):
        lines.append(l)

    if 'callbacks' in how:
        g = cls(data, layer_callback=new_layer, line_callback=new_line)
    elif 'again' in how:
        g = cls(data)
        # prepared again (with another program in between)
        h2 = cls(deferred=True)
        h2.prepare(['G91', 'G1 X5'])
        g = cls(deferred=True)
        g.prepare(iter(data))
    elif 'deferred' in how:
        g = cls(data, deferred=True)
        h.check(g.lines is None, 'read too early')
        g.prepare(data)
    else:
        g = cls((l for l in data), home_pos=home)
    h.observe(len(g.all_layers))
    h.check([[l.raw for l in y] for y in g.all_layers] == [[l.raw for l in y] for y in want.all_layers], 'lines of the layers')
    h.check([l.raw for l in g.lines] == [l.strip() for l in text if l.strip()], 'lines')
    h.check([l.raw for l in g] == [l.raw for l in g.lines] and len(g) == len(want), 'iteration and length')
    h.check(h.text_of(g) == h.text_of(want), 'program written')
    for n in range(len(g)):
        h.check(tuple(g.idxs(n)) == tuple(want.idxs(n)), 'place of a line')
    for a in STATE:
        x, y = getattr(g, a), getattr(want, a)
        same(h, x, y, a)
    if home:
        h.check(tuple(g.home_pos) == tuple(home), 'home')
    h.check(tuple(g.abs_pos) == tuple(want.abs_pos) and tuple(g.current_pos) == (want.current_x, want.current_y, want.current_z), 'position')
    h.check(g.duration == want.duration, 'duration')
    for y, w in zip(g.all_layers, want.all_layers):
        same(h, y.z, w.z, 'height of a layer')
        same(h, y.duration, w.duration, 'duration of a layer')
    if 'callbacks' in how:
        # every line, in order, with its state
        h.check([l.raw for l in lines] == [l.raw for l in want.lines], 'lines told')
        for a, b in zip(lines, want.lines):
            for n in LINE:
                same(h, getattr(a, n), getattr(b, n), 'line told: ' + n)
        # every layer but the last one, once complete
        full = want.all_layers[:-1]
        h.check(all(l[0] is g for l in layers), 'program told')
        h.check([l[1] for l in layers] == list(range(max(0, len(full) - 1))), 'layers told')
        for (_, n, ls), y in zip(layers, full):
            h.check(ls == [l.raw for l in y], 'layer told before its last line')


def same(h, x, y, what):
    if what.endswith('extruding'):
        h.check((x is None) == (y is None) and bool(x) == bool(y), what)
    elif x is None or y is None or isinstance(x, (str, bool)):
        h.check(x is y or x == y, what)
    else:
        h.check_near(x, y, 0, what)

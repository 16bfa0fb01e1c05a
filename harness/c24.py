"""C24: inserting commands at the start of a layer and rewriting a layer keep all views of the program consistent."""
from . import layered
from .common import parse
from .c01 import views

BOUNDS = ('programs of up to 4 (quick) / 5 (thorough) pieces at symbolic heights; histories of 2 (quick) / 3 (thorough) operations: '
          'insertion of 0 to 3 commands at the start of any layer with lines, rewriting of any of them, appending')
ASSUMPTIONS = ['different heights are at least 0.02 mm apart', 'the layer operated on has at least one line']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000, query_ms=1500)
BUDGET = {'quick': 100, 'thorough': 850}
SHAPES = ['L', 'SL', 'LT', 'SLLP', 'LHL', 'LRP']
DEEP = ['SLHL', 'LLLP', 'SLTLP', 'SHRL', 'LLRLP']
CMDS = [['M226'], ['M104 S190', '; note', 'G1 X1 Y2 E3'], ['', '  M117 hello  ', 'G4 P10'], ['G92 E0', 'G92 E0'], []]


def cases(tier):
    return [dict(shape=s, op=o, n=1 if tier == 'quick' else 2) for s in (SHAPES if tier == 'quick' else SHAPES + DEEP)
            for o in ('prepend', 'rewrite', 'append')]


def run(h, case):
    text, pieces = layered.program(h, case['shape'])
    g = parse(h, text)
    keep = [[l.raw for l in y] for y in g.all_layers]
    h.check(sum(keep, []) == text, 'lines read')
    h.observe(len(keep))
    step(h, g, keep, case['op'])
    for k in range(case['n']):
        step(h, g, keep, h.choose(['prepend', 'rewrite', 'append'], 'op%d' % k))


def step(h, g, keep, op):
    if not any(keep):
        return
    if op == 'append':
        g.append(' M999 ')
        keep[-1].append('M999')
    else:
        cmds = h.choose(CMDS, 'commands')
        clean = [c.strip() for c in cmds if c.strip()]
        n = h.choose([k for k, y in enumerate(keep) if y], 'layer')
        ret = (g.prepend_to_layer if op == 'prepend' else g.rewrite_layer)(list(cmds), n)
        h.check(list(ret) == clean, 'commands returned')
        keep[n] = clean + keep[n] if op == 'prepend' else clean
    h.check([[l.raw for l in y] for y in g.all_layers] == keep, 'lines of the layers after ' + op)
    views(h, g, sum(keep, []))
    for y in g.all_layers:
        for l in y:
            h.check(l.command is not None or l.raw.startswith(';'), 'command of a line')

"""C23: visiting a program: every layer and every line once, in order, with the right numbers."""
from . import layered
from .common import parse

BOUNDS = ('programs of up to 4 (quick) / 6 (thorough) pieces: start lines, printed layers at symbolic heights in any order, '
          'identical layers, travel layers, hops, a layer entered again, final park')
ASSUMPTIONS = ['different heights are at least 0.02 mm apart']
MODULES = ('gcodeutils.visit.iterator',)
OPTS = dict(max_ticks=4000, query_ms=1500)
BUDGET = {'quick': 100, 'thorough': 850}
from .c22 import SHAPES, DEEP  # noqa: E402


def cases(tier):
    return [dict(shape=s) for s in (SHAPES if tier == 'quick' else SHAPES + DEEP)]


def run(h, case):
    text, pieces = layered.program(h, case['shape'])
    g = parse(h, text)
    ranks, n = layered.rank(h, pieces)
    itm = h.load('gcodeutils.visit.iterator')
    base = h.load('gcodeutils.visit.visitor').GCodeVisitor
    log = []

    class V(base):
        def will_visit_layer(self, layer, info):
            log.append(('will', layer, None, info))

        def visit_line(self, line, info):
            log.append(('line', None, line, info))

        def did_visit_layer(self, layer, info):
            log.append(('did', layer, None, info))

    itm.GCodeIterator(g).accept(V())
    itm.GCodeIterator(g).accept(base())
    k = 0
    nline = 0
    np = 0
    for idx, layer in enumerate(g.all_layers):
        last = idx == len(g.all_layers) - 1
        piece = None
        if len(layer):
            piece = np
            np += 1
        want = ranks[piece] if piece is not None and piece < len(ranks) else None
        seq = [('will', layer, None)] + [('line', None, l) for l in layer] + [('did', layer, None)]
        for kind, a, b in seq:
            h.check(k < len(log), 'visit missing: ' + kind)
            if k >= len(log):
                return
            gk, ga, gb, info = log[k]
            k += 1
            h.check(gk == kind and ga is a and gb is b, 'order of the visits')
            h.check(info.gcode is g, 'program of the visit')
            h.check(info.layer_index == idx, 'index of the layer')
            h.check(info.is_printed == (want is not None), 'printed layer')
            h.check(info.layer_number == (want if want is not None else idx), 'number of the layer')
            if kind == 'did':
                h.check(info.line_number == nline - 1, 'number of the last line')
            else:
                h.check(info.line_number == nline, 'number of the line')
            if kind == 'line':
                h.check(nline < len(text) and b.raw == text[nline], 'visited line')
                nline += 1
    h.check(k == len(log), 'more visits than lines and layers')
    h.check(nline == len(text), 'lines not visited')
    h.observe(nline, n)

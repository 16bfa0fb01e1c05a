"""C22: the pause comes exactly once, before the first line of the requested layer; nothing else changes."""
from . import layered
from .common import parse, out_lines

BOUNDS = ('programs of up to 4 (quick) / 6 (thorough) pieces: start lines, printed layers at symbolic heights in any order, '
          'travel layers, hops (to new or known heights), a printed layer entered again, final park; every requested layer number; '
          'through the API (one or several pauses) and the command line')
ASSUMPTIONS = ['different heights are at least 0.02 mm apart']
MODULES = ('gcodeutils.visit.iterator', 'gcodeutils.visit.pause_at_layer', 'gcodeutils.gcode_mod')
OPTS = dict(max_ticks=4000, query_ms=1500)
BUDGET = {'quick': 100, 'thorough': 850}
SHAPES = ['L', 'SL', 'LL', 'SLLP', 'LTL', 'SLHL', 'LLH', 'LLR', 'SLVL', 'VV', 'SLLL', 'TL', 'LRP', 'LLHR', 'NLL', 'SNVL', 'GLL', 'GVVV', 'SGLLL']
DEEP = ['SLLLP', 'LHLHL', 'SLTLHP', 'LLLR', 'SLLHRL', 'VVVV', 'LLLLL', 'SLHLHP', 'TLTLT', 'SLVLVP', 'GLLLL', 'GLHLR', 'SGVLVP', 'GTLLP']
PAUSES = [[0], [1], [2], [3], [-1], [0, 1], [1, 1], [7], [0, 2]]


def cases(tier):
    return [dict(shape=s, how=w) for s in (SHAPES if tier == 'quick' else SHAPES + DEEP) for w in ('api', 'cli')]


def expected(h, text, pieces, wanted):
    ranks, n = layered.rank(h, pieces)
    before = {}
    done = set()
    for p, r in zip(pieces, ranks):
        if r is not None and r in wanted and r not in done:
            done.add(r)
            before[p.start] = 1
    out = []
    for k, l in enumerate(text):
        if k in before:
            out.append('M226')
        out.append(l)
    return out


def run(h, case):
    text, pieces = layered.program(h, case['shape'])
    if case['how'] == 'cli':
        n = h.choose([0, 1, 2, -1, 5], 'pause')
        lines = h.cli('gcodeutils.gcode_mod', ['-p', str(n)] if n >= 0 else ['-p=%d' % n], text)
        wanted = [n]
    else:
        wanted = h.choose(PAUSES, 'pauses')
        g = parse(h, text)
        it = h.load('gcodeutils.visit.iterator').GCodeIterator(g)
        v = h.load('gcodeutils.visit.pause_at_layer').PauseAtLayer(list(wanted))
        it.accept(v)
        lines = out_lines(h, g)
        h.check([l.raw for l in g.lines] == lines, 'flat list of lines')
    got = [l for l in lines if l.strip()]
    h.observe(len(got))
    want = expected(h, text, pieces, wanted)
    h.check(len(got) == len(want), 'number of lines (missing or additional pause)')
    h.check(got == want, 'place of the pause')

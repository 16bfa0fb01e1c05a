"""C07: layers are the maximal runs of lines at the same height."""
from fractions import Fraction

from symx.oracle import Machine
from symx.harness import or_
from .common import Cmd, render, parse

BOUNDS = ('programs of 5 (quick) / 6 (thorough) lines, each one of: absolute or relative Z moves (symbolic heights, up and down, '
          'with or without X/Y/E), planar moves, retractions, mode changes, G92 Z, comments and other commands; millimetres and inches')
ASSUMPTIONS = ['two heights of a program are the same or at least 0.02 mm apart (the tool merges smaller steps on purpose)',
               'programs home before the first height, not in the middle',
               'a move with a free E extrudes or retracts at least 1e-6 mm']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000, query_ms=1500)
BUDGET = {'quick': 100, 'thorough': 850}

TINY = Fraction(1, 10 ** 6)
ZL = ['G1 Z', 'G1 X1 Z', 'G1 X2 Z E', 'G0 Z E2']
OTHER = ['G1 X3 Y4 E', 'G1 X3 Y4 E2', 'G1 E-1', '; c Z9', 'M104 S200', 'G91', 'G90', 'G92 Z', 'G92 E0', 'G92', 'G20', 'G28', 'N3 G1 Z', 'G1 X7 Y1', 'M83', 'T1',
         'G4 P100', 'G2 X4 Y4 I1 E']


SMALL = ['G1 X2 Z E3', 'G1 X3 Y4 E1', 'G92 Z']


def cases(tier):
    pool = ZL + OTHER
    if tier == 'quick':
        return [dict(first=a, n=2) for a in pool]
    return [dict(first=a, second=b, n=2) for a in pool for b in pool]


def run(h, case):
    pool = ZL + OTHER
    seq = [case['first']] + ([case['second']] if 'second' in case else [])
    seq += [h.choose(pool if k == 0 or case['n'] == 3 else SMALL, 'line%d' % k) for k in range(case['n'])]
    seq += ['G1 Z E4', 'G1 X0 Y5 E5']
    text = [render(h, t, k, {'Z': (-20, 40), 'E': (-5, 9)}) for k, t in enumerate(seq)]
    # reference: the height is the Z coordinate in the current coordinates
    z = None
    rel = False
    m = Machine(h.read_num)
    runs = []
    printed = []
    seen = []
    for l in text:
        ev = m.step(l)
        c = ev.cmd
        nz = z
        v = c.get('Z')
        if c.op == 'G92' and not c.w:
            nz = Fraction(0)
        elif v is not None and c.op[0] == 'G':
            v = v * m.unit
            if c.op == 'G92':
                nz = v
            elif c.op in ('G0', 'G1', 'G2', 'G3'):
                nz = z + v if m.rel and z is not None else v
        if c.op == 'G28' and z is not None:
            return
        if nz is not z:
            # same or clearly different from all heights so far
            same = None
            for s in seen:
                if bool(s == nz):
                    same = s
                    break
            if same is None:
                for s in seen:
                    h.assume(or_(nz - s >= Fraction(1, 50), s - nz >= Fraction(1, 50)))
                seen.append(nz)
                same = nz
            nz = same
        if not runs or nz is not z:
            runs.append([nz, []])
        z = nz
        runs[-1][1].append(l)
        if h.symbolic and not isinstance(ev.de, Fraction):
            h.assume(or_(ev.de >= TINY, ev.de <= -TINY))
        if c.op in ('G0', 'G1', 'G2', 'G3') and c.get('E') is not None and bool(ev.de > 0):
            if not any(p is z for p in printed):
                printed.append(z)
    g = parse(h, text)
    got = [y for y in g.all_layers if len(y)]
    h.check([[l.raw for l in y] for y in got] == [r[1] for r in runs], 'boundaries of the layers')
    if len(got) == len(runs):
        for k, (y, r) in enumerate(zip(got, runs)):
            if r[0] is None:
                h.check(y.z is None, 'height of the lines before any height')
            else:
                h.check(y.z is not None, 'layer without height')
                if y.z is not None:
                    h.check_near(y.z, r[0], Fraction(5, 1000), 'height of a layer')
    h.observe(len(got))
    h.check(g.layers_count == len(printed), 'number of printed layers')
    h.check(g.estimate_duration()[0] == len(printed), 'number of printed layers (estimate)')
    hs = [p for p in printed if p is not None]
    zmin, zmax = Fraction(0), Fraction(0)
    for p in hs:
        zmin, zmax = h.min(zmin, p), h.max(zmax, p)
    h.check_near(g.zmin, zmin, 0, 'lowest height')
    h.check_near(g.zmax, zmax, 0, 'highest printed height')
    h.check_near(g.height, zmax - zmin, 0, 'height of the print')

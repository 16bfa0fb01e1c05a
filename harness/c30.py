"""C30: the summary of a program printed by the gcoder command."""
import os
import sys
from fractions import Fraction

from symx.harness import or_
from symx.oracle import Machine

BOUNDS = ('programs of 1 to 4 layers (heights free, in hundredths in relative mode, in any order, 0.02 mm apart, some printed again) with 1 or 2 extruding moves to free points in each, travels, '
          'retractions, other commands, free feedrate; absolute, relative and relative extrusion modes, inches, offsets')
ASSUMPTIONS = ['figures are printed with 2 decimals, durations in seconds']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000, query_ms=1500)
BUDGET = {'quick': 100, 'thorough': 500}
HEADS = {'abs': ['G21', 'G90', 'G28', 'G92 E0'], 'rel': ['G91'], 'm83': ['G90', 'M83'], 'inch': ['G20', 'G90'], 'shift': ['G90', 'G92 X5 Y-5', 'G92 E0'], 'none': []}
SHAPES = ['L', 'LL', 'LR', 'TL', 'LLT', 'LLL', 'LRL', '', 'T']


def cases(tier):
    return [dict(head=a, shape=s, free=f) for a in sorted(HEADS) for s in SHAPES + ([] if tier == 'quick' else ['LLLL', 'LTLRL'])
            for f in ('X', 'Y', 'Z', 'E', 'F')]


def run(h, case):
    text = list(HEADS[case['head']])
    free = case['free']
    rel = case['head'] == 'rel'
    rel_e = case['head'] in ('rel', 'm83')
    unit = Fraction(254, 10) if case['head'] == 'inch' else Fraction(1)
    at = dict(X=Fraction(0), Y=Fraction(0), Z=Fraction(0), E=Fraction(0))
    heights = []

    def go(op='G1', **kw):
        l = op
        for a in 'XYZEF':
            if a not in kw:
                continue
            v = kw[a]
            if a == 'F':
                l += ' F' + h.lin(v).t
                continue
            if a == 'E':
                t = v if rel_e else at['E'] + v
                at['E'] = at['E'] + v
            else:
                t = v - at[a] if rel else v
                at[a] = v
            l += ' ' + a + h.lin(t).t
        text.append(l)

    def val(a, k, fixed):
        if a != free:
            return Fraction(fixed)
        if a == 'E':
            return h.num('e%s' % k, Fraction(1, 100), 5).v
        if a == 'F':
            return h.num('f%s' % k, 60, 9000).v
        return h.num('%s%s' % (a.lower(), k), -100, 100).v

    printed = []
    first = None
    for k, s in enumerate(case['shape']):
        if s == 'R':
            z = first
        else:
            z = Fraction(k + 1, 4)
            if free == 'Z':
                # sums of floats around half a hundredth are rounded either way
                z = h.int('z%d' % k, 10, 4000).v / 100 if rel else h.num('z%d' % k, Fraction(1, 10), 40).v
            for o in heights:
                h.assume(or_(z * unit - o * unit >= Fraction(1, 50), o * unit - z * unit >= Fraction(1, 50)))
            heights.append(z)
        go(Z=z, F=val('F', k, 1200 + k))
        go('G0', X=Fraction(9), Y=Fraction(-k))
        if s in 'LR':
            first = z if first is None else first
            if not any(z is p for p in printed):
                printed.append(z)
            go(X=val('X', k, 10 + k), Y=val('Y', k, k), E=val('E', k, Fraction(3, 2)))
            text.append('M106 S100 ; fan')
            go(X=val('X', 'b%d' % k, 3) if len(case['shape']) < 3 else Fraction(3), Y=Fraction(7), E=Fraction(1))
            go(E=Fraction(-1))
            go(E=Fraction(1))
    if len(case['shape']) % 2 and any(c in case['shape'] for c in 'LR'):
        # less filament than was pushed
        go(E=Fraction(-2))
    text += ['M84']
    d = h.scratch()
    path, shown = os.path.join(d, 'p.gcode'), os.path.join(d, 'shown')
    with open(path, 'w') as f:
        f.write('\n'.join(text) + '\n')
    old = sys.argv, sys.stdout
    with open(shown, 'w') as f:
        try:
            sys.argv, sys.stdout = ['gcoder.py', path], f
            h.gcoder.main()
        finally:
            sys.argv, sys.stdout = old
    with open(shown) as f:
        out = [l.strip() for l in f.read().split('\n')]
    fig = {}
    for l in out:
        n, sep, v = l.partition(':')
        if sep and v.strip():
            fig[n] = v.strip()
    # the machine
    m = Machine(h.read_num)
    pushed, moved = [], []
    for l in text:
        ev = m.step(l)
        if ev.op in ('G0', 'G1'):
            moved.append(ev.end)
            if bool(ev.de > 0):
                pushed.append(ev.end)
    total = Fraction(0)
    top = Fraction(0)
    m = Machine(h.read_num)
    for l in text:
        total = total + m.step(l).de
        top = h.max(top, total)
    pts = pushed or moved
    half = Fraction(51, 10000)
    for a in 'XY':
        vs = [p[a] for p in pts] or [Fraction(0)]
        lo, hi = vs[0], vs[0]
        for v in vs:
            lo, hi = h.min(lo, v), h.max(hi, v)
        figures(h, fig, a, lo, hi, half)
    lo = hi = Fraction(0)
    for z in printed:
        # heights of the moves that push filament, and the bed
        hi = h.max(hi, z * unit)
    figures(h, fig, 'Z', lo, hi, half)
    n = fig.get('Filament used', '')
    h.check(n.endswith('mm'), 'filament is printed')
    if n.endswith('mm'):
        h.check_near(h.read_num(n[:-2]), top, half, 'filament')
    h.check(fig.get('Number of layers') == str(len(printed)), 'number of layers: %s' % fig.get('Number of layers'))
    g = h.gcoder.GCode([l + '\n' for l in text])
    h.check(fig.get('Estimated duration') == str(g.duration), 'duration')
    h.observe(len(out))


def figures(h, fig, a, lo, hi, half):
    t = fig.get(a, '').replace('(', '').replace(')', '').split()
    # low - high (size)
    h.check(len(t) == 4 and t[1] == '-', 'line of %s' % a)
    if len(t) != 4:
        return
    for v, w, n in ((t[0], lo, 'lowest'), (t[2], hi, 'highest'), (t[3], hi - lo, 'size')):
        h.check_near(h.read_num(v), w, half, '%s in %s' % (n, a))

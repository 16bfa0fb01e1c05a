"""C18: filament of arcs: what the segments pushed, in proportion of the lengths; the other moves push what they pushed."""
import math
from fractions import Fraction

from symx.oracle import Machine
from . import arcs
from .arcs import Shape

BOUNDS = ('one or two arcs of 8 to 18 (quick) / 40 (thorough) segments, symbolic place, radius (2 to 150 mm), flow (0.01 to 0.3 mm of '
          'filament per mm) and starting E; flows constant or uneven by up to 30 %, or retracting; absolute extrusion, M83, G91, E shifted '
          'by G92, inches; followed by a move, a retraction, a reset of E or another arc')
ASSUMPTIONS = ['rounding to 7 decimals or more is taken as exact', 'the points of the circles are rational points (exactly on the circle)']

MODULES = ('gcodeutils.filter.arc_optimizer',)
OPTS = dict(max_ticks=60000, query_ms=2000, nra_ms=10000, round_exact=7)
BUDGET = {'quick': 110, 'thorough': 850}
MODES = ['abs', 'absoff', 'M83', 'G91', 'inch', 'inchM83']
STEPS = [(0, 15, 10), (100, -12, 9), (45, 40, 8), (10, -45, 8), (80, 6, 14), (-30, 44, 8)]
DEEP = [(5, 3, 40), (77, -9, 36), (-33, 20, 18), (160, 10, 30), (0, -36, 10), (215, -18, 20), (120, 30, 8), (17, 25, 9)]
FLOWS = {'even': lambda k: 1, 'uneven': lambda k: Fraction([100, 104, 97, 101, 95, 103][k % 6], 100),
         'jump': lambda k: Fraction(130 if k == 5 else 100, 100), 'none': lambda k: 0 if k == 4 else 1}
AFTER = {'move': ['G1 X5 Y5 E'], 'retract': ['G1 E', 'G1 X5 Y5'], 'reset': ['G92 E0', 'G1 X5 Y5 E'], 'comment': ['; x', 'G1 X5 Y5 E'],
         'arc': ['ARC', 'G1 X5 Y5 E'], 'm83': ['M83', 'G1 X2 Y2 E']}


def cases(tier):
    out = []
    for n, st in enumerate(STEPS + (DEEP if tier != 'quick' else [])):
        for m in MODES:
            for f in FLOWS:
                for a in AFTER:
                    if tier == 'quick' and (hash3(n, MODES.index(m), sorted(FLOWS).index(f), sorted(AFTER).index(a)) % 4):
                        continue
                    out.append(dict(arc=st, mode=m, flow=f, after=a))
    return out


def hash3(*a):
    v = 7
    for x in a:
        v = v * 5 + x * 3 + (v >> 2)
    return v


def run(h, case):
    mode = case['mode']
    u = arcs.INCH if 'inch' in mode else Fraction(1)
    s = h.num('flow', Fraction(1, 100), Fraction(3, 10)).v
    r = h.num('r', 2, 150).v
    e0 = h.num('e0', -50, 50).v
    relative = mode in ('M83', 'G91', 'inchM83')
    st = case['arc']
    sh = Shape().arc(*st)
    tail = list(AFTER[case['after']])
    if tail[0] == 'ARC':
        sh.then(st[0] + st[1] * st[2] + 180, -st[1], st[2], Fraction(13, 10))
        del tail[0]
    w = FLOWS[case['flow']]
    state = [e0, relative]

    def word(de):
        """E word pushing this much"""
        state[0] = state[0] + de
        return ' E' + h.lin(de if state[1] else state[0]).t

    def e(k):
        (x0, y0), (x1, y1) = sh.pts[k - 1], sh.pts[k]
        c = Fraction(math.hypot(x1 - x0, y1 - y0)).limit_denominator(10 ** 7)
        return word(s * r * c * w(k) / u)
    p0 = 'G1 E' + h.lin(e0).t
    before = {'abs': [p0], 'absoff': ['G1 E5', 'G92 E' + h.lin(e0).t], 'M83': ['M83'], 'G91': [], 'inch': [p0],
              'inchM83': ['M83']}[mode]
    p = arcs.Program(h, sh, {'absoff': 'shift', 'G91': 'rel'}.get(mode, 'inch' if u != 1 else 'abs'), e,
                     before=before + ['M84'], after=())
    # the head then goes to the middle of the arc
    x, y = sh.circles[-1][2:4]
    x0, y0 = sh.pts[-1]
    vx, vy = r * (x - x0) / u, r * (y - y0) / u
    if mode != 'G91':
        m = Machine(h.read_num)
        for l in p.text:
            m.step(l)
        vx, vy = m.logical('X') / u + vx, m.logical('Y') / u + vy
    for l in tail:
        if l == 'G92 E0':
            state[0] = Fraction(0)
        elif l == 'M83':
            state[1] = True
        l = l.replace('X5 Y5', 'X%s Y%s' % (h.lin(vx).t, h.lin(vy).t))
        if l.endswith(' E'):
            l = l[:-2] + word(s * r * (Fraction(-1, 5) if l == 'G1 E' else Fraction(7, 10)) / u)
        p.text.append(l)
    p.text.append('M84')
    if p.optimise() is None:
        return
    h.observe(len(p.merges))
    odd = {'jump': 5, 'none': 4}.get(case['flow'])
    if odd is None:
        # an arc right after another one starts at its first point, once the other one is done
        h.check(len(p.merges) == (2 if case['after'] == 'arc' and st[2] > 8 else 1), 'number of arcs')
    for x in p.merges:
        ab = p.points(x)
        if ab is None:
            return
        h.check(odd is None or not ab[0] < odd <= ab[1], 'arc over segments of different flows')
    filament(h, p, sh, relative, u)


def filament(h, p, sh, relative, u):
    mo, mt = Machine(h.read_num), Machine(h.read_num)
    at = {x.at: x for x in p.merges}
    tol = Fraction(2, 10 ** 5) * u
    slack = Fraction(0)
    for k, l in enumerate(p.out):
        ev = mo.step(l)
        if k in at:
            x = at[k]
            ab = p.points(x)
            if ab is None:
                return
            want = chords = Fraction(0)
            for t, kk in zip(p.text[x.first:x.last + 1], range(ab[0] + 1, ab[1] + 1)):
                de = mt.step(t).de
                chords = chords + de
                want = want + de * ratio(sh, kk)
            h.observe(ev.de)
            if any(f <= ab[0] and ab[1] <= l for f, l, _, _, _ in sh.circles):
                h.check_near(ev.de - slack, want, tol, 'filament of an arc')
            else:
                # an arc may overlap a little the next one
                h.check(h.le(h.abs(ev.de - slack - want), chords / 100, tol), 'filament of an arc')
            # absolute extrusion: the next move is short of at most 1 % of the filament of the arc
            slack = Fraction(0) if relative else mt.pos['E'] - mo.pos['E']
            if not relative:
                g92 = k + 1 < len(p.out) and p.kept.get(k + 1, 0) is None
                if g92:
                    slack = Fraction(0)
                else:
                    h.check(h.le(want - chords, chords / 100, Fraction(2, 10 ** 5) * u), 'E not corrected after an arc')
        elif p.kept[k] is not None:
            et = mt.step(p.text[p.kept[k]])
            if et.op in ('G92', 'M83', 'G91'):
                slack = Fraction(0)
            has = et.cmd.get('E') is not None and et.op in ('G0', 'G1', 'G2', 'G3')
            h.check_near(ev.de - (slack if has else 0), et.de, tol, 'filament of a move that is not in an arc')
            if has:
                slack = Fraction(0)


def ratio(sh, k):
    """length of the arc over length of the chord, segment ending at point k"""
    for f, l, cx, cy, r in sh.circles:
        if f < k <= l:
            break
    x0, y0 = sh.pts[k - 1][0] - cx, sh.pts[k - 1][1] - cy
    x1, y1 = sh.pts[k][0] - cx, sh.pts[k][1] - cy
    t = abs(math.atan2(float(x0 * y1 - y0 * x1), float(x0 * x1 + y0 * y1)))
    return Fraction(t / (2 * math.sin(t / 2))).limit_denominator(10 ** 9)

"""C17: an arc follows the segments it replaces: same start, same end, same centre and direction, never more than a turn."""
import math
from fractions import Fraction

from symx.harness import and_, or_, not_
from . import arcs
from .arcs import Shape
from symx.oracle import Machine

BOUNDS = ('paths of 6 to 20 (quick) / 40 (thorough) segments at a symbolic place and of a symbolic size (radius 2 to 150 mm): arcs in '
          'both directions from several start angles with steps of 3 to 60 degrees, whole turns and more, curves turning one way then '
          'the other, lines before and after, uneven steps, points off the circle, back and forth moves; as travels or extruding, in '
          'absolute, relative and shifted (G92) coordinates and in inches')
ASSUMPTIONS = ['rounding to 7 decimals or more is taken as exact', 'the points of the circles are rational points (exactly on the circle)']
MODULES = ('gcodeutils.filter.arc_optimizer',)
OPTS = dict(max_ticks=60000, query_ms=2000, nra_ms=10000, round_exact=7)
BUDGET = {'quick': 110, 'thorough': 850}
MODES = ['abs', 'rel', 'shift', 'inch', 'relinch']

# name: (shape, number of arcs or None)
SHAPES = {}


def shape(name, arcs_=None, deep=False):
    def reg(f):
        SHAPES[name] = (f, arcs_, deep)
        return f
    return reg


def _plain():
    for start, step, n in ((0, 15, 10), (100, -12, 9), (45, 30, 12), (-170, 40, 8), (10, -45, 8), (80, 6, 14), (200, 25, 7), (0, 36, 10),
                           (123, -3, 20), (-90, 44, 8)):
        SHAPES['arc%d/%d/%d' % (start, step, n)] = (lambda a=start, b=step, c=n: Shape().arc(a, b, c), 1 if n >= 8 else 0, False)
    for start, step, n in ((5, 3, 40), (77, -9, 36), (-33, 20, 18), (160, 10, 30), (0, -36, 10), (215, -18, 20), (300, 5, 25), (10, 45, 6)):
        SHAPES['arc%d/%d/%d' % (start, step, n)] = (lambda a=start, b=step, c=n: Shape().arc(a, b, c), 1 if n >= 8 else 0, True)


_plain()
SHAPES['turns'] = (lambda: Shape().arc(0, 31, 18), None, False)
SHAPES['turns-'] = (lambda: Shape().arc(30, -41, 17), None, False)
SHAPES['s-curve'] = (lambda: Shape().arc(0, 15, 10).then(150 + 180, -15, 10, 1), 2, False)
SHAPES['s-curve2'] = (lambda: Shape().arc(10, -20, 9).then(10 - 180 + 180, 20, 10, Fraction(1, 2)), None, False)
SHAPES['growing'] = (lambda: Shape().arc(0, 12, 9).then(108, 12, 10, 2), None, False)
SHAPES['line-arc'] = (lambda: Shape().to((-3, 0), (-2, Fraction(1, 2)), (-1, 1)).arc(120, -15, 10), None, False)
SHAPES['arc-line'] = (lambda: Shape().arc(30, 15, 9).to((-2, 2), (-3, -1), (0, -2)), None, False)
SHAPES['arc-line-arc'] = (lambda: Shape().arc(30, 15, 8).to((-2, 2)).arc(-60, -15, 9, 5, 5), None, False)
SHAPES['bump'] = (lambda: Shape().arc(0, 12, 12, bump=(6, Fraction(21, 20))), 0, False)
SHAPES['bump-first'] = (lambda: Shape().arc(0, 12, 10, bump=(0, Fraction(21, 20))), None, False)
SHAPES['bump-last'] = (lambda: Shape().arc(0, 12, 10, bump=(10, Fraction(21, 20))), None, False)
SHAPES['small-bump'] = (lambda: Shape().arc(0, -14, 11, bump=(5, Fraction(1001, 1000))), None, False)
SHAPES['uneven'] = (lambda: Shape().arc(0, 16, 11, ragged=7), 0, False)
SHAPES['uneven-little'] = (lambda: Shape().arc(0, 16, 11, ragged=2), 1, False)
SHAPES['back'] = (lambda: Shape().arc(0, 20, 6).arc(100, -20, 6), 0, False)
SHAPES['line'] = (lambda: Shape().to(*[(k, 2 * k) for k in range(12)]), 0, False)
SHAPES['square'] = (lambda: Shape().to(*[(0, 0), (1, 0), (1, 1), (0, 1)] * 4), 0, False)
SHAPES['gap'] = (lambda: Shape().arc(0, 15, 6).arc(150, 15, 6), None, False)
SHAPES['zigzag'] = (lambda: Shape().to(*[(k, k % 2) for k in range(14)]), 0, False)


def noisy(start, step, n, f):
    """points off the circle by f(k) times the radius"""
    s = Shape().arc(start, step, n, bump=(-1, 1))
    s.pts = [(x * (1 + f(k)), y * (1 + f(k))) for k, (x, y) in enumerate(s.pts)]
    return s


def ellipse(start, step, n, q):
    s = Shape().arc(start, step, n, bump=(-1, 1))
    s.pts = [(x, y * q) for x, y in s.pts]
    return s


N1 = [3, -5, 2, 7, -6, 1, -2, 5, -7, 4, -1, 6, -3, 2]
SHAPES['noise1'] = (lambda: noisy(0, 14, 13, lambda k: Fraction(N1[k], 30000)), None, False)
SHAPES['noise2'] = (lambda: noisy(50, -25, 13, lambda k: Fraction(N1[k], 5000)), None, False)
SHAPES['noise3'] = (lambda: noisy(-20, 9, 12, lambda k: Fraction(N1[k] ** 2, 400000)), None, False)
SHAPES['spiral'] = (lambda: noisy(10, 20, 12, lambda k: Fraction(k, 5000)), None, False)
SHAPES['spiral-'] = (lambda: noisy(10, -30, 12, lambda k: Fraction(-k, 30000)), None, False)
SHAPES['ellipse'] = (lambda: ellipse(10, 24, 12, Fraction(1003, 1000)), None, False)
SHAPES['ellipse-'] = (lambda: ellipse(100, -24, 14, Fraction(9997, 10000)), None, False)


def cases(tier):
    out = []
    for name in sorted(SHAPES):
        f, n, deep = SHAPES[name]
        if deep and tier == 'quick':
            continue
        for mode in MODES:
            for travel in (True, False):
                if tier == 'quick' and mode not in ('abs', 'rel') and (travel or not name.startswith('arc')):
                    continue
                out.append(dict(shape=name, mode=mode, travel=travel))
    return out


def run(h, case):
    sh, want, _ = SHAPES[case['shape']]
    sh = sh()
    # filament in proportion of the length, absolute extrusion
    total = [0.0]

    def e(k):
        (x0, y0), (x1, y1) = sh.pts[k - 1], sh.pts[k]
        total[0] += math.hypot(x1 - x0, y1 - y0)
        return ' E%.5f' % total[0]
    p = arcs.Program(h, sh, case['mode'], None if case['travel'] else e,
                     before=('M84', 'M82') if 'rel' not in case['mode'] else ('M84',))
    if 'rel' in case['mode'] and not case['travel']:
        # G91 makes E relative
        def de(k):
            (x0, y0), (x1, y1) = sh.pts[k - 1], sh.pts[k]
            return ' E%.5f' % math.hypot(x1 - x0, y1 - y0)
        p = arcs.Program(h, sh, case['mode'], de)
    if p.optimise() is None:
        return
    h.observe(len(p.merges))
    if want is not None:
        h.check(len(p.merges) == want, 'number of arcs')
    geometry(h, p)


def geometry(h, p):
    text = p.text
    mo, mt = Machine(h.read_num), Machine(h.read_num)
    at = {x.at: x for x in p.merges}
    tol = Fraction(15, 10000) * p.unit
    for k, l in enumerate(p.out):
        if k in at:
            x = at[k]
            for t in text[len_done(p, k):x.first]:
                mt.step(t)
            h.check_near(mo.pos['X'], mt.pos['X'], tol, 'start of the arc (x)')
            h.check_near(mo.pos['Y'], mt.pos['Y'], tol, 'start of the arc (y)')
            ev = mo.step(l)
            for t in text[x.first:x.last + 1]:
                mt.step(t)
            ab = p.points(x)
            h.check(ev.i is not None and ev.j is not None, 'arc without centre')
            if ab is None or ev.i is None or ev.j is None:
                return
            follow(h, p, ev, ab, tol)
        else:
            ev = mo.step(l)
            if p.kept[k] is not None:
                mt.step(text[p.kept[k]])
        for c in 'XYZ':
            h.check_near(mo.pos[c], mt.pos[c], tol, 'position %s after %s' % (c, ev.op))


def len_done(p, k):
    """text lines consumed before output line k (they have been stepped)"""
    for x in p.merges:
        if x.at == k:
            return x.first
    return 0


def follow(h, p, ev, ab, tol):
    a, b = ab
    pts = p.shape.pts
    h.check(b - a >= 8, 'fewer than 8 segments replaced')
    # centre: of the exact circle the points are on, or of the circle through the points
    for f, l, cx, cy, r in p.shape.circles:
        if f <= a and b <= l:
            break
    else:
        cx, cy = fit(pts[a:b + 1])
        cx, cy = Fraction(cx).limit_denominator(10 ** 9), Fraction(cy).limit_denominator(10 ** 9)
        tol = tol + Fraction(3, 100)
    h.check_near(ev.i, p.r * (cx - pts[a][0]), tol, 'centre of the arc (x)')
    h.check_near(ev.j, p.r * (cy - pts[a][1]), tol, 'centre of the arc (y)')
    # direction: every segment turns the way of the arc, at most a turn in all
    turn = 0.0
    for k in range(a, b):
        x0, y0 = pts[k][0] - cx, pts[k][1] - cy
        x1, y1 = pts[k + 1][0] - cx, pts[k + 1][1] - cy
        t = math.atan2(float(x0 * y1 - y0 * x1), float(x0 * x1 + y0 * y1))
        h.check((t > 0) == (ev.op == 'G3') and abs(t) > 1e-6, 'direction of the arc')
        turn += t
    h.check(abs(turn) <= 2 * math.pi + 1e-4, 'more than a turn')
    # distance of the points to the circle
    for k in range(a, b + 1):
        d = (math.hypot(float(pts[k][0] - cx), float(pts[k][1] - cy))
             - math.hypot(float(pts[a][0] - cx), float(pts[a][1] - cy)))
        d = Fraction(d).limit_denominator(10 ** 9)
        h.check(h.le(p.r * abs(d), Fraction(35, 1000)), 'point away from the arc')


def fit(pts):
    """centre of the circle closest to points (algebraic fit, floats)"""
    n = len(pts)
    P = [(float(x), float(y)) for x, y in pts]
    mx, my = sum(x for x, _ in P) / n, sum(y for _, y in P) / n
    sxx = sxy = syy = sx = sy = 0.0
    for x, y in P:
        x, y = x - mx, y - my
        q = (x * x + y * y) / 2
        sxx += x * x
        sxy += x * y
        syy += y * y
        sx += x * q
        sy += y * q
    d = sxx * syy - sxy * sxy
    if abs(d) < 1e-12:
        return mx, my
    return mx + (sx * syy - sy * sxy) / d, my + (sy * sxx - sx * sxy) / d

"""C20: the temperature profile of a calibration program."""
import io
import math
from fractions import Fraction

from symx.harness import and_, or_, not_, implies
from symx.oracle import Machine
from .common import parse, Cmd

BOUNDS = ('programs of 2 to 4 (quick) / 5 (thorough) layers at symbolic heights (steps of 0.05 to 20 mm), with travel hops, a '
          'start height, a final park move; symbolic start and end temperatures in [100, 300], symbolic minimum height; '
          'discrete gradients of 1, 2, 3, 5 and 10 steps and the continuous one')
ASSUMPTIONS = ['layers are at least 0.05 mm apart', 'in a discrete gradient, a layer within 1e-6 of the limit of a step may get '
               'the temperature of either step']
MODULES = ('gcodeutils.gcode_tempcal',)
OPTS = dict(max_ticks=4000, query_ms=4000)
BUDGET = {'quick': 120, 'thorough': 850}
SHAPES = ['LL', 'LLL', 'LHL', 'LLP', 'SLL', 'SLLP', 'LDL']
KINDS = ['c', 1, 2, 3, 5, 10]


def cases(tier):
    shapes = SHAPES if tier == 'quick' else SHAPES + ['LLLL', 'LDLL', 'LHLHL', 'LLLLL', 'SLHLHLP', 'LLLPL']
    kinds = KINDS if tier == 'quick' else KINDS + [4, 7]
    out = []
    for s in shapes:
        for k in kinds:
            if tier == 'quick' and len(s) > 3 and k in (2, 5, 10):
                continue
            out.append(dict(shape=s, kind=k, temps='safe', minz='low'))
            if len(s) <= (3 if tier != 'quick' else 2):
                out.append(dict(shape=s, kind=k, temps='wide', minz='low'))
            if len(s) <= 3 or tier != 'quick':
                out.append(dict(shape=s, kind=k, temps='safe', minz='wide'))
            if tier != 'quick':
                out.append(dict(shape=s, kind=k, temps='wide', minz='wide'))
    return out


def layers_program(h, shape, extra=()):
    """text of a program: L printed layer, S start move above, H hop and back, P park, D extrusion while going down"""
    text = ['G28', 'G90', 'M82', 'G92 E0'] + list(extra)
    z = Fraction(0)
    e = 0
    for k, s in enumerate(shape):
        if s in 'LD':
            z = z + h.num('dz%d' % k, Fraction(1, 20), 1 if 'S' in shape else 20).v
            text.append('G1 Z' + h.lin(z).t)
            e += 1
            text += ['G1 X10 Y%d E%d' % (k, e), 'G1 X0 Y%d' % k]
            if s == 'D':
                text.append('G1 E%s' % (e - 0.5))
        else:
            lo, hi = {'S': (10, 30), 'P': (21, 40), 'H': (Fraction(1, 20), 20)}[s]
            up = z + h.num('up%d' % k, lo, hi).v
            text.append('G1 Z' + h.lin(up).t)
            text.append('G1 X5 Y5')
            if s == 'H':
                text.append('G1 Z' + h.lin(z).t)
                e += 1
                text.append('G1 X7 Y7 E%d' % e)
    return text


def analyse(h, text):
    """[(height or None, [lines])] by runs of the same height, printed heights"""
    m = Machine(h.read_num)
    runs = []
    z = None
    printed = []
    for l in text:
        ev = m.step(l)
        nz = ev.end['Z'] if ev.cmd.op in ('G0', 'G1') and ev.cmd.has('Z') else z
        if z is None and nz is None:
            if not runs:
                runs.append([None, []])
        elif z is None or nz is not z:
            runs.append([nz, []])
        z = nz
        runs[-1][1].append(l)
        if z is not None and ev.op in ('G0', 'G1') and ev.cmd.get('E') is not None:
            if bool(ev.de > 0):
                printed.append(z)
    return runs, printed


def run(h, case):
    mod = h.load('gcodeutils.gcode_tempcal')
    text = layers_program(h, case['shape'])
    tl, th = (100, 300) if case['temps'] == 'wide' else (150, 250)
    start, end = h.int('start', tl, th), h.int('end', tl, th)
    minz = h.num('minz', 0, 30 if case['minz'] == 'wide' else Fraction(4, 100))
    g = parse(h, text)
    kw = dict(gcode=g, start_temp=start.py, end_temp=end.py, min_z_change=minz.py)
    kind = case['kind']
    runs, printed = analyse(h, text)
    zmax = printed[0]
    for p in printed[1:]:
        zmax = h.max(zmax, p)
    above = []
    for z, ls in runs:
        if z is not None and bool(z > minz.v):
            above.append(z)
    zmin = None
    for z in above:
        zmin = z if zmin is None else h.min(zmin, z)
    possible = zmin is not None and bool(zmin < zmax)
    if kind == 'c':
        grad = mod.GCodeContinuousTempGradient(steps=10, **kw)
    else:
        grad = mod.GCodeStepTempGradient(steps=kind, **kw)
    out = Out()
    try:
        grad.write(out)
    except RuntimeError:
        h.check(not possible, 'refused although there are layers above the minimum height')
        return
    h.check(possible, 'accepted without layers above the minimum height')
    if not possible:
        return
    lines = out.lines()
    pos = 0
    cur, fresh = None, True
    half = Fraction(5, 100)
    lo, hi = h.min(start.v, end.v), h.max(start.v, end.v)
    for z, ls in runs:
        em = []
        while pos < len(lines) and lines[pos] != ls[0]:
            if lines[pos].strip():
                em.append(lines[pos])
            pos += 1
        h.check(lines[pos:pos + len(ls)] == ls, 'lines of a layer')
        pos += len(ls)
        h.check(len(em) <= 1, 'several lines inserted')
        t = None
        if em:
            c = Cmd(em[0], h.read_num)
            h.check(c.op == 'M104' and sorted(c.w) == ['S'] and c.w['S'] is not None, 'inserted line ' + str(c.op))
            t = c.get('S')
            if t is None:
                return
            h.observe(t)
            h.check(and_(t >= 150, t <= 250), 'temperature out of the safe range')
            h.check(and_(t - lo >= -half, t - hi <= half), 'temperature out of the requested range')
            if cur is not None and fresh:
                h.check(or_(t - cur > half, cur - t > half), 'same temperature set again')
        inside = z is not None and bool(z >= zmin) and bool(z <= zmax)
        if not inside:
            h.check(not em, 'temperature set outside of the calibrated heights')
            continue
        frac = (z - zmin) / (zmax - zmin)
        if kind == 'c':
            targets = [start.v + (end.v - start.v) * frac]
        else:
            targets = steps_at(h, start.v, end.v, frac, kind)
        if t is not None:
            cur, fresh = t, True
        for tg in targets[:1] if len(targets) == 1 else []:
            safe = and_(tg >= 150, tg <= 250)
            unsafe = or_(tg < 150 - half, tg > 250 + half)
            if t is not None:
                h.check(not_(unsafe), 'temperature set for an unsafe target')
            if cur is None:
                # (0.1 degree roundings of a target of 149.95 or 250.05 and more are out of the range)
                h.check(not_(safe), 'no temperature set')
            else:
                h.check(implies(safe, h.near(cur, tg, half + Fraction(1, 10 ** 5))), 'temperature in force')
        if t is None and not bool(and_(*[and_(x >= 150, x <= 250) for x in targets])):
            fresh = False
        if len(targets) > 1 and cur is not None:
            h.check(or_(*[or_(h.near(cur, tg, half), not_(and_(tg >= 150, tg <= 250))) for tg in targets]),
                    'temperature in force at the limit of a step')
    h.check(pos == len(lines), 'lines after the end')


def steps_at(h, start, end, frac, n):
    """temperatures allowed at this fraction of the height: n + 1 equal bands"""
    eps = Fraction(1, 10 ** 6)
    x = frac * (n + 1)
    ks = []
    for k in range(n + 1):
        if k == 0 or bool(x >= k - eps):
            if k == n or not bool(x >= k + 1 + eps):
                ks.append(k)
    return [start + (end - start) * Fraction(k, n) for k in ks]


class Out(io.StringIO):
    def lines(self):
        return self.getvalue().split('\n')[:-1]

"""C06: two programs are equal exactly when their commands are, up to a micrometre in every coordinate."""
from fractions import Fraction

from symx.harness import and_, not_, implies
from .common import Cmd, render, parse

BOUNDS = ('pairs of programs of up to 4 (quick) / 5 (thorough) lines, equal up to symbolic coordinates, or edited: a line '
          'removed, added, changed of command, given one more word; with comments, blank lines, line numbers, other '
          'spacing and case')
ASSUMPTIONS = ['differences of coordinates within 1e-5 of the tolerance (1e-3 mm) are left open']
MODULES = ('gcodeutils.gcoder',)
OPTS = dict(max_ticks=4000)
BUDGET = {'quick': 100, 'thorough': 700}
LINES = ['G1 X Y', 'G1 E F', 'G92 E', 'M104 S200', 'G28', 'G2 X Y I J', 'G1 Z', 'T1', 'G20']
EDITS = ['none', 'drop', 'append', 'insert', 'command', 'word', 'swap', 'dup']
NOISE = ['; comment', '(note) ', '']


def cases(tier):
    return [dict(a=a, edit=e, n=n) for n in ((1, 2) if tier == 'quick' else (1, 2, 3)) for a in LINES for e in EDITS]


def build(h, text, how):
    if how == 'read':
        return parse(h, text)
    return h.append_program(text)


def run(h, case):
    seq = [case['a']] + [h.choose(LINES[:6], 'l%d' % k) for k in range(case['n'])]
    edit = case['edit']
    rng = {'Z': (0, 50)}
    a = [render(h, t, 'a%d_' % k, rng) for k, t in enumerate(seq)]
    b = [render(h, t, 'b%d_' % k, rng) for k, t in enumerate(seq)]
    where = h.choose(range(len(seq)), 'where') if edit not in ('none', 'append') else 0
    if edit == 'drop':
        del b[where]
    elif edit == 'append':
        b.append(h.choose(['G1 X1', 'M84'], 'extra'))
    elif edit == 'insert':
        b.insert(where, 'M106')
    elif edit == 'command':
        c = Cmd(b[where], h.read_num)
        b[where] = b[where].replace(c.op, 'G4' if c.op[0] == 'G' else 'M9', 1)
    elif edit == 'word':
        c = Cmd(b[where], h.read_num)
        if c.op[0] != 'G' or 'E' in c.w:
            return
        b[where] += ' E0'
    elif edit == 'swap':
        if where + 1 < len(b):
            b[where], b[where + 1] = b[where + 1], b[where]
    elif edit == 'dup':
        b.insert(where, b[where])
    noisy = h.choose([0, 1, 2, 3], 'noise')
    bb = list(b)
    if noisy == 1:
        bb.insert(min(1, len(bb)), '; comment')
        bb.append('(G1 X5)')
        bb.insert(0, ';head')
    elif noisy == 2:
        bb = ['N%d %s ; c' % (k, l.lower().replace(' ', '  ')) for k, l in enumerate(bb)]
    elif noisy == 3:
        bb = [l.replace(' ', '') for l in bb]
        a = a + [';end']
    zs = case['n'] > 1 or any('Z' in l or 'F' in l for l in a + b)
    ga = build(h, a, 'append' if zs else 'read')
    gb = build(h, bb, 'append' if noisy == 1 or zs else 'read')
    a = [l for l in a if not l.startswith(';')]
    # expected
    ta, tb = Fraction(1, 1000) - Fraction(1, 100000), Fraction(1, 1000) + Fraction(1, 100000)
    if len(a) != len(b):
        same = close = False
    else:
        close, same = [], []
        ua = ub = Fraction(1)
        for la, lb in zip(a, b):
            ca, cb = Cmd(la, h.read_num), Cmd(lb, h.read_num)
            if ca.op == 'G20':
                ua = Fraction(254, 10)
            if cb.op == 'G20':
                ub = Fraction(254, 10)
            if ca.op != cb.op or sorted(ca.w) != sorted(cb.w):
                close = same = False
                break
            for k in ca.w:
                if ca.w[k] is None or ca.op[0] != 'G':
                    continue
                d = h.abs(ca.w[k] * ua - cb.w[k] * ub)
                same.append(d <= ta)
                close.append(d <= tb)
        if same is not False:
            same, close = and_(*same), and_(*close)
    eq = ga == gb
    qe = gb == ga
    h.observe(eq)
    h.check(implies(same, eq), 'equal programs found different')
    h.check(implies(not_(close), not_(eq)), 'different programs found equal')
    h.check(implies(same, qe), 'equal programs found different (reversed)')
    h.check(implies(not_(close), not_(qe)), 'different programs found equal (reversed)')
    ne = ga != gb
    h.check(implies(same, not_(ne)), 'equal programs found not equal by !=')
    h.check(implies(not_(close), ne), 'different programs not found different by !=')
    d, e = ga.diff(gb), gb.diff(ga)
    for x in (d, e):
        h.check(implies(same, x is None), 'difference reported between equal programs')
        h.check(implies(not_(close), x is not None), 'no difference reported')
    h.check(ga == ga and ga.diff(ga) is None, 'a program equals itself')
    h.check(not (ga == 'text'), 'a program is not a string')

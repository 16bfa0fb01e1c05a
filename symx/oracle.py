"""Reference interpreter of G-code programs (written from the RepRap G-code documentation and the
comments/README of the project; shares no code with /repo)."""
from fractions import Fraction

MOVES = ('G0', 'G1', 'G2', 'G3')
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def strip_comment(raw):
    out = []
    depth = 0
    for ch in raw:
        if depth:
            if ch == ')':
                depth -= 1
            continue
        if ch == ';':
            break
        if ch == '(':
            depth += 1
            continue
        out.append(ch)
    return ''.join(out)


def words(raw, num):
    """[(letter, numeral text, value or None)]; leading N word removed"""
    s = strip_comment(raw).upper()
    s = s.split('*')[0]
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in LETTERS:
            j = i + 1
            while j < n and s[j] in '+-.0123456789':
                j += 1
            t = s[i + 1:j]
            out.append((c, t, num(t) if t else None))
            i = j
        else:
            i += 1
    if out and out[0][0] == 'N':
        out = out[1:]
    return out


class Cmd(object):
    __slots__ = ('op', 'w', 'raw', 'all')

    def __init__(self, raw, num):
        ws = words(raw, num)
        self.raw = raw
        self.all = ws
        if ws:
            self.op = ws[0][0] + ws[0][1]
            self.w = {}
            for l, t, v in ws[1:]:
                self.w[l] = v if t else None
        else:
            self.op = None
            self.w = {}

    def get(self, l):
        return self.w.get(l)

    def has(self, l):
        return l in self.w


class Ev(object):
    """one executed command"""
    __slots__ = ('cmd', 'op', 'start', 'end', 'moved', 'de', 'f', 'i', 'j', 'e_total', 'tool', 'rel', 'rel_e')


class Machine(object):
    """x,y,z,e: physical position; o*: physical minus logical; f in mm/min."""

    def __init__(self, num, home=(Fraction(0),) * 3, rel_e=False):
        self.num = num
        self.home = dict(zip('XYZ', home))
        self.pos = dict(self.home)
        self.pos['X'] = self.pos['Y'] = self.pos['Z'] = Fraction(0)
        self.pos['E'] = Fraction(0)
        self.off = {'X': Fraction(0), 'Y': Fraction(0), 'Z': Fraction(0), 'E': Fraction(0)}
        self.rel = False
        self.rel_e = rel_e
        self.unit = Fraction(1)
        self.f = None
        self.tool = 0

    def logical(self, a):
        return self.pos[a] - self.off[a]

    def step(self, raw):
        c = Cmd(raw, self.num)
        ev = Ev()
        ev.cmd = c
        ev.op = c.op
        ev.start = dict(self.pos)
        ev.de = Fraction(0)
        ev.moved = ()
        ev.i = ev.j = None
        op = c.op
        if op is None:
            pass
        elif op in MOVES:
            moved = []
            for a in 'XYZ':
                v = c.get(a)
                if v is not None:
                    v = v * self.unit
                    if self.rel:
                        self.pos[a] = self.pos[a] + v
                    else:
                        self.pos[a] = v + self.off[a]
                    moved.append(a)
            ev.moved = tuple(moved)
            v = c.get('E')
            if v is not None:
                v = v * self.unit
                old = self.pos['E']
                if self.rel_e:
                    self.pos['E'] = old + v
                else:
                    self.pos['E'] = v + self.off['E']
                ev.de = self.pos['E'] - old
            v = c.get('F')
            if v is not None:
                self.f = v * self.unit
            for a in 'IJ':
                v = c.get(a)
                if v is not None:
                    setattr(ev, a.lower(), v * self.unit)
        elif op == 'G90':
            self.rel = self.rel_e = False
        elif op == 'G91':
            self.rel = self.rel_e = True
        elif op == 'M82':
            self.rel_e = False
        elif op == 'M83':
            self.rel_e = True
        elif op == 'G20':
            self.unit = Fraction(254, 10)
        elif op == 'G21':
            self.unit = Fraction(1)
        elif op == 'G28':
            axes = [a for a in 'XYZ' if c.has(a)] or list('XYZ')
            for a in axes:
                self.pos[a] = self.home[a]
                self.off[a] = Fraction(0)
        elif op == 'G92':
            axes = [a for a in 'XYZE' if c.get(a) is not None]
            if axes:
                for a in axes:
                    self.off[a] = self.pos[a] - c.get(a) * self.unit
            else:
                for a in 'XYZE':
                    self.off[a] = self.pos[a]
        elif op[0] == 'T' and op[1:].isdigit():
            self.tool = int(op[1:])
        ev.end = dict(self.pos)
        ev.f = self.f
        ev.tool = self.tool
        ev.rel = self.rel
        ev.rel_e = self.rel_e
        return ev

    def run(self, lines):
        return [self.step(l) for l in lines]

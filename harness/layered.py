"""Layered programs with symbolic heights for C22, C23, C24, C26."""
from fractions import Fraction

from symx.harness import or_


class Piece(object):
    """maximal run of lines at one height"""

    def __init__(self, z, start):
        self.z, self.start, self.lines, self.prints = z, start, [], False


def program(h, shape, noise=()):
    """G: relative moves from there on, S: lines before any height, N: priming before any height, L: printed layer, T: layer of travels only, H: hop (up, travel, back) inside of a layer,
    R: print again at the height of the first layer, P: final park. Returns text, pieces.
    Heights are symbolic, in any order, 0.02 mm apart at least."""
    text, pieces, seen = [], [], []
    e = 0

    def height(k, lo=Fraction(1, 10), hi=50):
        z = h.num('z%s' % k, lo, hi).v
        for s in seen:
            h.assume(or_(z - s >= Fraction(1, 50), s - z >= Fraction(1, 50)))
        seen.append(z)
        return z

    def go(z, words=''):
        nonlocal at
        text.append('G1 Z' + h.lin(z - at if relative else z).t + words)
        at = z
        if pieces and pieces[-1].z is z:
            pieces[-1].lines.append(text[-1])
            return
        pieces.append(Piece(z, len(text) - 1))
        pieces[-1].lines.append(text[-1])

    def line(l):
        text.append(l)
        if not pieces:
            pieces.append(Piece(None, 0))
        pieces[-1].lines.append(l)

    first = None
    relative, at = False, 0
    for k, s in enumerate(shape):
        if s == 'G':
            line('G91')
            relative = True
        elif s == 'S':
            line('G28')
            line('; start')
            line('M104 S200')
        elif s == 'N':
            # no height yet: this isn't a printed layer
            line('M83')
            line('G1 E5 F300')
            line('M82')
            line('G92 E0')
        elif s in 'LR':
            if s == 'R':
                z = first
            else:
                z = height(k)
                first = z if first is None else first
            e += 2
            go(z, ' F600' if s == 'L' and not relative else '')
            if relative:
                # the same lines in every layer
                line('G1 X10 Y5 E1')
                line('G1 X-10 Y-5 E1 ; back')
                pieces[-1].prints = True
                continue
            line('G1 X10 Y%d E%d' % (k, e - 1))
            line('G1 X0 Y%d E%d ; l%d' % (k, e, k))
            pieces[-1].prints = True
        elif s == 'V':
            # the move changing of height extrudes
            z = height(k)
            e += 1
            go(z, ' X1 E%d' % (1 if relative else e))
            pieces[-1].prints = True
        elif s == 'T':
            go(height(k))
            line('G1 X3 Y3')
            line('G1 E%d' % (-1 if relative else e - 1))
            line('G1 X4')
            line('G92 E%d' % e)
        elif s == 'H':
            z = pieces[-1].z
            up = h.choose([None] + [p.z for p in pieces if p.z is not None and p.z is not z], 'hop%d' % k)
            go(height(k) if up is None else up)
            line('G1 X7 Y7')
            go(z)
            e += 1
            line('G1 X5 Y5 E%d' % (1 if relative else e))
            pieces[-1].prints = True
        elif s == 'P':
            go(height(k))
            line('G1 X0 Y0')
            line('M84')
    return text, pieces


def rank(h, pieces):
    """number of each printed piece: rank of its height among the printed heights; None when nothing is printed"""
    hs = []
    for p in pieces:
        if p.prints and not any(p.z is z for z in hs):
            hs.append(p.z)
    out = []
    for p in pieces:
        if not p.prints:
            out.append(None)
            continue
        n = 0
        for z in hs:
            if z is not p.z and bool(z < p.z):
                n += 1
        out.append(n)
    return out, len(hs)

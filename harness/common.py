"""Shared pieces of the harnesses: program templates, reference runs, text comparison."""
from symx import oracle
from symx.oracle import Machine, Cmd, words, strip_comment  # noqa: F401

RANGES = {'F': (1, 6000), 'P': (1, 5000), 'E': (-100, 100)}


def render(h, tmpl, k, ranges=None):
    """'G1 X Y; c' -> 'G1 X<n> Y<n>; c': every bare letter gets a fresh symbolic number.
    A word written with its number ('X0') stays; bare letters of G28 stay."""
    code, sep, com = tmpl.partition(';')
    parts = code.split(' ')
    out = []
    for n, p in enumerate(parts):
        if n and len(p) == 1 and p.isalpha() and not tmpl.startswith('G28'):
            lo, hi = (ranges or {}).get(p) or RANGES.get(p, (-300, 300))
            p = p + h.num('%s%s' % (p.lower(), k), lo, hi).t
        out.append(p)
    return ' '.join(out) + sep + com


def program(h, seq, ranges=None, start=0):
    return [render(h, t, k, ranges) for k, t in enumerate(seq, start)]


def out_lines(h, g):
    t = h.text_of(g)
    assert t[-1] == ''
    return t[:-1]


def meaningful(lines):
    return [l for l in lines if l.strip()]


def letters(cmd):
    return [l for l, t, v in cmd.all]


def comment(line):
    return line.partition(';')[2].strip()


def same_words(h, a, b, tol, msg, skip=()):
    """two program lines carry the same command with the same words (values within tol) and the same comment"""
    ca, cb = Cmd(a, h.read_num), Cmd(b, h.read_num)
    h.check(ca.op == cb.op, msg + ': command changed')
    if ca.op != cb.op:
        return
    h.check(comment(a) == comment(b), msg + ': comment changed')
    ks = sorted(k for k in ca.w if k not in skip)
    h.check(ks == sorted(k for k in cb.w if k not in skip), msg + ': words changed')
    for k in ks:
        if k in cb.w:
            va, vb = ca.w[k], cb.w[k]
            if va is None or vb is None:
                h.check(va is vb, msg + ': word %s changed' % k)
            else:
                h.check_near(va, vb, tol(k) if callable(tol) else tol, msg + ': value of %s changed' % k)


def parse(h, text):
    """the program as the tools read it (layers, bounding box and duration included)"""
    return h.gcoder.GCode([l + '\n' for l in text])

"""C25: Vector3 is a vector space with the usual products; operators never alter their operands."""
import operator
from fractions import Fraction

from symx.harness import and_, or_, not_, implies

BOUNDS = 'vectors of symbolic components and symbolic scalars (each component may be fixed to 0, to another one, or free)'
ASSUMPTIONS = ['divisors are at least 1e-3 away from 0; the normal of a reflexion is a unit vector']
MODULES = ('gcodeutils.stretch.vector3',)
OPTS = dict(max_ticks=4000, query_ms=4000, nra_ms=30000)
BUDGET = {'quick': 100, 'thorough': 700}
TEST = ['add', 'sub', 'neg', 'mul', 'div', 'rdiv', 'floordiv', 'inplace', 'dot', 'cross', 'cross3', 'mag', 'dist', 'norm', 'reflect', 'minmax',
        'eq', 'bool', 'copy', 'drop', 'set']


def cases(tier):
    return [dict(t=t) for t in TEST]


def vec(h, V, n, free='xyz', lo=-300):
    ns = {a: h.num(n + a, lo, 300) for a in free}
    v = V(*[ns[a].py if a in ns else 0.0 for a in 'xyz'])
    return v, [ns[a].v if a in ns else Fraction(0) for a in 'xyz']


def same(h, v, want, msg, tol=0):
    for a, w in zip('xyz', want):
        h.check_near(getattr(v, a), w, tol, msg + ' ' + a)
        h.observe(getattr(v, a))


def scalar(h, n='s', lo=-50):
    k = h.num(n, lo, 50)
    h.assume(or_(k.v >= Fraction(1, 1000), k.v <= Fraction(-1, 1000)))
    return k


def run(h, case):
    V = h.load('gcodeutils.stretch.vector3').Vector3
    t = case['t']
    free = h.choose(['xyz', 'xy', 'z', 'yz'], 'free') if t not in ('floordiv', 'cross3') else 'xyz'
    a, av = vec(h, V, 'a', free)
    b, bv = vec(h, V, 'b')
    dot = lambda p, q: p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
    if t == 'add':
        same(h, a + b, [p + q for p, q in zip(av, bv)], 'sum')
        same(h, b + a, [p + q for p, q in zip(av, bv)], 'sum (other way)')
    elif t == 'sub':
        same(h, a - b, [p - q for p, q in zip(av, bv)], 'difference')
        same(h, (a - b) + b, av, 'difference then sum')
    elif t == 'neg':
        same(h, -a, [-p for p in av], 'opposite')
        same(h, +a, av, 'plus')
    elif t == 'mul':
        k = scalar(h)
        same(h, a * k.py, [p * k.v for p in av], 'product')
        same(h, k.py * a, [p * k.v for p in av], 'product (other way)')
        same(h, a * 3, [p * 3 for p in av], 'product by an integer')
    elif t == 'div':
        k = scalar(h)
        same(h, a / k.py, [p / k.v for p in av], 'quotient', Fraction(1, 10 ** 4))
        same(h, a / 4, [p / 4 for p in av], 'quotient by an integer')
    elif t == 'rdiv':
        c, cv = vec(h, V, 'c', 'xyz', 1)
        k = scalar(h)
        same(h, k.py / c, [k.v / p for p in cv], 'inverse')
    elif t == 'floordiv':
        for c in (2, 5, 0.5):
            q = a // c
            for n, p in zip('xyz', av):
                r = p - h.exact(getattr(q, n)) * Fraction(c)
                h.check(and_(r >= 0, r < Fraction(c)), 'remainder of floor division')
        keep = a.copy()
        a //= 2
        h.check(a == keep // 2, 'floor division in place')
    elif t == 'inplace':
        k = scalar(h)
        for op, other, want in ((operator.iadd, b, [p + q for p, q in zip(av, bv)]),
                                (operator.isub, b, [p - q for p, q in zip(av, bv)]),
                                (operator.imul, k.py, [p * k.v for p in av]),
                                (operator.itruediv, 8, [p / 8 for p in av])):
            c = a.copy()
            d = op(c, other)
            h.check(d is c, 'in place operator returns another vector')
            same(h, c, want, 'in place')
    elif t == 'dot':
        h.check_near(a.dot(b), dot(av, bv), Fraction(1, 10 ** 4), 'dot product')
        h.check_near(b.dot(a), dot(av, bv), Fraction(1, 10 ** 4), 'dot product (other way)')
        h.check_near(a.magnitudeSquared(), dot(av, av), Fraction(1, 10 ** 4), 'square of the magnitude')
    elif t == 'cross':
        c = a.cross(b)
        same(h, c, [av[1] * bv[2] - av[2] * bv[1], av[2] * bv[0] - av[0] * bv[2], av[0] * bv[1] - av[1] * bv[0]],
             'cross product', Fraction(1, 10 ** 4))
        d = b.cross(a)
        same(h, d, [-h.exact(getattr(c, n)) for n in 'xyz'], 'antisymmetry', Fraction(1, 10 ** 4))
    elif t == 'cross3':
        c = a.cross(b)
        h.check_near(c.dot(a), 0, Fraction(1, 100), 'cross product orthogonal to the first vector')
        h.check_near(c.dot(b), 0, Fraction(1, 100), 'cross product orthogonal to the second vector')
    elif t == 'mag':
        for m in (abs(a), a.magnitude()):
            m = h.exact(m)
            h.check(m >= 0, 'negative magnitude')
            h.check_near(m * m, dot(av, av), Fraction(1, 1000), 'magnitude')
            h.observe(m)
    elif t == 'dist':
        dv = [p - q for p, q in zip(av, bv)]
        for m in (a.distance(b), b.distance(a)):
            m = h.exact(m)
            h.check(m >= 0, 'negative distance')
            h.check_near(m * m, dot(dv, dv), Fraction(1, 1000), 'distance')
        h.check_near(a.distanceSquared(b), dot(dv, dv), Fraction(1, 1000), 'square of the distance')
    elif t == 'norm':
        m = h.sqrt(dot(av, av))
        h.assume(or_(m == 0, m >= Fraction(1, 100)))
        n = a.getNormalized()
        nv = [h.exact(getattr(n, x)) for x in 'xyz']
        for p, q in zip(nv, av):
            h.check_near(p * m, q, Fraction(1, 10 ** 4), 'direction of the normalized vector')
        c = a.copy()
        c.normalize()
        h.check(and_(*[h.near(getattr(c, x), getattr(n, x), 0) for x in 'xyz']), 'normalized in place')
    elif t == 'reflect':
        n = h.choose([(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -0.6, 0.8), (0.6, 0.8, 0.0)], 'normal')
        nv = [Fraction(repr(x)) for x in n]
        r = a.reflect(V(*n))
        d = dot(av, nv)
        same(h, r, [p - 2 * d * q for p, q in zip(av, nv)], 'reflexion', Fraction(1, 10 ** 4))
        same(h, r.reflect(V(*n)), av, 'reflected twice', Fraction(1, 10 ** 4))
    elif t == 'minmax':
        c = a.copy()
        c.maximize(b)
        same(h, c, [h.max(p, q) for p, q in zip(av, bv)], 'maximum')
        c = a.copy()
        c.minimize(b)
        same(h, c, [h.min(p, q) for p, q in zip(av, bv)], 'minimum')
    elif t == 'eq':
        want = and_(*[p == q for p, q in zip(av, bv)])
        h.check(implies(want, a == b), 'equal vectors found different')
        h.check(implies(not_(want), not_(a == b)), 'different vectors found equal')
        h.check(implies(want, not_(a != b)), 'equal vectors found different by !=')
        h.check(a == a.copy() and not (a != a.copy()), 'a vector differs from its copy')
        h.check(not (a == None) and a != None and not (a == 'x') and not (a == 0), 'vector equal to another object')  # noqa
        if bool(want):
            h.check(hash(a) == hash(b), 'equal vectors with different hashes')
            h.check(len(set([a, b])) == 1, 'equal vectors both in a set')
    elif t == 'bool':
        null = and_(*[p == 0 for p in av])
        h.check(bool(null) == (not bool(a)), 'truth')
        h.check(a.getIsDefault() == bool(null), 'default vector')
        h.check(not V() and V().getIsDefault(), 'null vector')
    elif t == 'copy':
        import copy
        for c in (a.copy(), copy.copy(a)):
            h.check(c is not a and c == a, 'copy')
            c.x += 1
            c.setToXYZ(1, 2, 3)
        same(h, a, av, 'vector changed through its copy')
    elif t == 'drop':
        for w, (i, j) in enumerate(((1, 2), (0, 2), (0, 1))):
            c = a.dropAxis(w)
            h.check_near(c.real, av[i], 0, 'first coordinate after dropping an axis')
            h.check_near(c.imag, av[j], 0, 'second coordinate after dropping an axis')
        c = a.dropAxis()
        h.check_near(c.imag, av[1], 0, 'default axis dropped')
        for p, q in zip(a.getFloatList(), av):
            h.check_near(p, q, 0, 'list of floats')
    elif t == 'set':
        c = V()
        c.setToVector3(a)
        same(h, c, av, 'set')
        c.setToXYZ(b.x, b.y, b.z)
        same(h, c, bv, 'set xyz')
        h.check(c._getAccessibleAttribute('y') is c.y and c._getAccessibleAttribute('w') is None, 'attribute')
        c._setAccessibleAttribute('z', a.x)
        h.check_near(c.z, av[0], 0, 'attribute set')
    # operands are left alone
    if t != 'floordiv':
        same(h, a, av, 'left operand changed')
        same(h, b, bv, 'right operand changed')

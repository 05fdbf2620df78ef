"""Reads and writes objects of the pure Python package."""
import os, sys, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.join(os.environ['GINV_REPO'], 'pyginv'))
import sympy
from fractions import Fraction
from refpy import *
from monomial import Monom
from polynomial import Poly, PolyDiff, PolySchem

NAMES = ['POTlex', 'TOPlex', 'POTdeglex', 'TOPdeglex']
VAR = ['x', 'y', 'z', 't']
FUN = ['u', 'v', 'w']
X = sympy.symbols(VAR, real=True)                # what PolyDiff.init uses
A, B = sympy.symbols('a b', real=True)
FIELD = sympy.QQ.frac_field(*(list(X) + [A, B]))


def init(cls, n, k, name):
    if k:
        cls.init(VAR[:n], FUN[:k])
    else:
        cls.init(VAR[:n])
    Monom.cmp = getattr(Monom, name)


def mkmon(m):
    return Monom(m[1]) if m[0] < 0 else Monom(m[1], pos=m[0])


def rdmon(m):
    return (m.position(), tuple(int(x) for x in m))


def num(q):
    """number or field element to sympy"""
    if isinstance(q, Fraction):
        return sympy.Rational(q.numerator, q.denominator)
    if isinstance(q, int):
        return sympy.Integer(q)
    return FIELD.to_sympy(q)


def val(c):
    """sympy to Fraction, or to an element of the field"""
    if isinstance(c, int):
        return Fraction(c)
    if c.is_Rational:
        return Fraction(int(c.p), int(c.q))
    return FIELD.from_sympy(sympy.sympify(c))


def mkpoly(p, cls=Poly):
    """term by term, from the outside of the class: only the constructor and append"""
    r = cls()
    for m in sorted(p, key=py_key(Monom.cmp.__name__), reverse=True):
        r.append([mkmon(m), num(p[m])])
    return r


def rdpoly(c, p, cls=None, zeros=False):
    """the polynomial, with its canonical form checked"""
    key = py_key(Monom.cmp.__name__)
    r, last = {}, None
    for m, k in p:
        c.check(isinstance(m, Monom), 'a term without monomial', repr(m))
        m = rdmon(m)
        k = val(k)
        c.check(last is None or key(m) < key(last), 'terms out of order:', repr(p)[:300])
        last = m
        if k == 0:
            c.check(zeros, 'a zero coefficient in', repr(p)[:300])
        else:
            r[m] = k
    if cls:
        c.check(type(p) is cls, 'the type is', type(p).__name__, 'instead of', cls.__name__)
    return r


def field(p):
    return {m: FIELD.from_sympy(num(k)) if not hasattr(k, 'numer') else k for m, k in p.items()}


def inv(k):
    return Fraction(1)/k if isinstance(k, (int, Fraction)) else FIELD.one/k


def scaled(p, k):
    return {m: k*v for m, v in p.items()}


def proportional(p, q):
    """p is a non-zero multiple of q, by a number or rational function"""
    if set(p) != set(q):
        return False
    if not p:
        return True
    m = next(iter(p))
    return all(p[i]*q[m] == q[i]*p[m] for i in p)


def dprolong(p, v, n):
    """derivative by variable number v, product rule"""
    r = {}
    for m, k in p.items():
        if m[0] >= 0 or any(m[1]):
            e = (m[0], tuple(x + (i == v) for i, x in enumerate(m[1])))
            r[e] = r.get(e, 0) + k
        if not isinstance(k, (int, Fraction)):
            d = k.diff(FIELD.from_sympy(X[v]))
            r[m] = r.get(m, 0) + d
    return clean(r)


def prolong(cls, p, v, n):
    if cls is PolyDiff:
        return dprolong(p, v, n)
    return shift(p, (-1, tuple(int(i == v) for i in range(n))), 1)


def lift(cls, p, e, n):
    """multiple (or derivative) of p by the exponents e"""
    for v, k in enumerate(e):
        for i in range(k):
            p = prolong(cls, p, v, n)
    return p


def normal(cls, p, G, key, n, start=0, head=False):
    """reduces term by term with the first element of G whose leading monomial divides"""
    p = dict(p)
    done = 0
    fixed = []
    while True:
        L = sorted((m for m in p if m not in fixed), key=key, reverse=True)
        if not L:
            return p
        m = L[0]
        if len(fixed) < start:
            fixed.append(m)
            continue
        for g in G:
            l = lm(g, key)
            if l[0] == m[0] and divides(l, m):
                h = lift(cls, g, tuple(a - b for a, b in zip(m[1], l[1])), n)
                p = clean(padd(p, h, -(p[m]*inv(h[m]))))
                assert m not in p
                break
        else:
            if head:
                return p
            fixed.append(m)


def same(c, what, got, want):
    c.check(got == want, what, 'is', got, 'instead of', want)


def samepoly(c, what, got, want):
    c.check(got == want, what, 'is', show(got), 'instead of', show(want))


def refused(c, what, f):
    try:
        r = f()
    except (AssertionError, TypeError, ValueError, IndexError, AttributeError, ZeroDivisionError):
        return
    c.fail(what, 'is accepted and gives', repr(r)[:80])


class Set:
    """a set of polynomials searched in order"""
    def __init__(self, L):
        self.L = L

    def find(self, m):
        for p in self.L:
            if p.lm().position() == m.position() and m.divisible(p.lm()):
                return p

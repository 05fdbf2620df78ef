"""Boring reference models for the Python explorations; nothing here uses GInv.
A monomial is (pos, exponents) with pos -1 outside a module; a polynomial is a
dict from monomials to Fractions (or sympy numbers) without zero values."""
from fractions import Fraction
from itertools import product
from math import gcd


def monomials(n, d0, d1, pos=(-1,)):
    out = []
    for d in range(d0, d1 + 1):
        def rec(k, left):
            if k == 1:
                yield (left,)
                return
            for i in range(left, -1, -1):
                for r in rec(k - 1, left - i):
                    yield (i,) + r
        for e in rec(n, d):
            for p in pos:
                out.append((p, e))
    return out


def deg(m):
    return sum(m[1])


def mmul(a, b):
    assert a[0] < 0 or b[0] < 0
    return (max(a[0], b[0]), tuple(x + y for x, y in zip(a[1], b[1])))


def divides(d, m):
    return (d[0] == -1 or d[0] == m[0]) and all(x <= y for x, y in zip(d[1], m[1]))


def mquo(m, d):
    assert divides(d, m)
    return (-1 if d[0] == m[0] else m[0], tuple(x - y for x, y in zip(m[1], d[1])))


def mlcm(a, b):
    return (max(a[0], b[0]), tuple(max(x, y) for x, y in zip(a[1], b[1])))


def core_key(pot, order):
    """sort key of the C++ core's orders"""
    if order == 'lex':
        k = lambda e: e
    elif order == 'deglex':
        k = lambda e: (sum(e), tuple(-x for x in reversed(e)))
    else:
        k = lambda e: (-sum(e), e)
    if pot == 'POT':
        return lambda m: (m[0], k(m[1]))
    return lambda m: (k(m[1]), m[0])


def py_key(name):
    """sort key of the orders of pyginv: component -1 is smallest, then a larger number is smaller"""
    if name.endswith('deglex'):
        k = lambda e: (sum(e), tuple(-x for x in reversed(e)))
    else:
        k = lambda e: tuple(e)
    c = lambda p: -10**9 if p == -1 else -p
    if name.startswith('POT'):
        return lambda m: (c(m[0]), k(m[1]))
    return lambda m: (k(m[1]), c(m[0]))


def clean(p):
    return {m: c for m, c in p.items() if c != 0}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k*c
    return clean(r)


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1*c2
    return clean(r)


def ppow(a, n, one):
    r = {one: 1}
    for i in range(n):
        r = pmul(r, a) if i else dict(a)
    return r


def shift(a, m, c=1):
    return {mmul(x, m): v*c for x, v in a.items()}


def lm(p, key):
    return max(p, key=key)


def monic(p, key):
    c = Fraction(p[lm(p, key)])
    return {m: Fraction(v)/c for m, v in p.items()}


def nf(p, G, key):
    """full normal form modulo a list"""
    p, r = dict(p), {}
    L = [(lm(g, key), g) for g in G]
    while p:
        m = lm(p, key)
        for l, g in L:
            if l[0] == m[0] and divides(l, m):
                p = padd(p, shift(g, mquo(m, l)), -Fraction(p[m])/g[l])
                break
        else:
            r[m] = p.pop(m)
    return r


def spoly(a, b, key):
    x, y = lm(a, key), lm(b, key)
    l = mlcm(x, y)
    return padd(shift(a, mquo(l, x), 1/Fraction(a[x])), shift(b, mquo(l, y), 1/Fraction(b[y])), -1)


def groebner(F, key):
    """the reduced Groebner basis, monic, ascending"""
    G, P = [], []

    def push(p):
        p = monic(p, key)
        m = lm(p, key)
        for i, g in enumerate(G):
            if lm(g, key)[0] == m[0]:
                P.append((i, len(G)))
        G.append(p)
    for f in F:
        r = nf(f, G, key)
        if r:
            push(r)
    while P:
        P.sort(key=lambda ij: key(mlcm(lm(G[ij[0]], key), lm(G[ij[1]], key))))
        i, j = P.pop(0)
        x, y = lm(G[i], key), lm(G[j], key)
        if x[0] < 0 and all(a == 0 or b == 0 for a, b in zip(x[1], y[1])):
            continue
        r = nf(spoly(G[i], G[j], key), G, key)
        if r:
            push(r)
    L = [lm(g, key) for g in G]
    keep = [i for i in range(len(G)) if not any(j != i and L[j][0] == L[i][0] and divides(L[j], L[i]) and (L[j] != L[i] or j < i) for j in range(len(G)))]
    M = [G[i] for i in keep]
    R = [monic(nf(M[i], M[:i] + M[i+1:], key), key) for i in range(len(M))]
    return sorted(R, key=lambda g: key(lm(g, key)))


def primitive(p):
    """integer multiple with content 1 and unchanged sign"""
    l = 1
    for c in p.values():
        d = Fraction(c).denominator
        l = l*d//gcd(l, d)
    g = 0
    for c in p.values():
        g = gcd(g, int(Fraction(c)*l))
    return {m: Fraction(c)*l/g for m, c in p.items()}


def janet_nm(U, u):
    nm = [False]*len(u[1])
    for v in U:
        if v[0] != u[0]:
            continue
        for i in range(len(nm)):
            if v[1][i] > u[1][i]:
                nm[i] = True
                break
            if v[1][i] < u[1][i]:
                break
    return nm


def inv_divides(nm, u, m):
    return u[0] == m[0] and all(b >= a and not (b > a and f) for a, b, f in zip(u[1], m[1], nm))


def show(p):
    return ' + '.join('%s*%s%s' % (c, '' if m[0] < 0 else '%d:' % m[0], list(m[1])) for m, c in sorted(p.items(), reverse=True)) or '0'

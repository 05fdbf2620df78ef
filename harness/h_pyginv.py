"""C28: the completions of the pure Python package."""
from pyglue import *
import mcpy
from ginv import ginvMin, ginvBlockLow, Q
from janet import Wrap, Janet, JanetCache, Forest

F = Fraction
THOROUGH = 'thorough' in sys.argv
a, b, x, y = [FIELD.from_sympy(s) for s in (A, B, X[0], X[1])]


def basis(cls, G0, key, n):
    """the reduced Groebner basis (for linear differential operators too), monic, ascending; nothing of refinement"""
    def monic(p):
        return scaled(p, inv(p[lm(p, key)]))
    G, P = [], []

    def push(p):
        p = normal(cls, p, G, key, n)
        if p:
            p = monic(p)
            l = lm(p, key)
            for g in G:
                if lm(g, key)[0] == l[0]:
                    P.append((g, p))
            G.append(p)
    for p in G0:
        push(p)
    while P:
        P.sort(key=lambda gp: key(mlcm(lm(gp[0], key), lm(gp[1], key))))
        g, p = P.pop(0)
        l = mlcm(lm(g, key), lm(p, key))

        def up(q):
            return lift(cls, q, tuple(i - j for i, j in zip(l[1], lm(q, key)[1])), n)
        push(clean(padd(up(g), up(p), -1)))
    L = [lm(g, key) for g in G]
    keep = [i for i in range(len(G)) if not any(j != i and L[j][0] == L[i][0] and divides(L[j], L[i]) and (L[j] != L[i] or j < i) for j in range(len(G)))]
    M = [G[i] for i in keep]
    R = [monic(normal(cls, M[i], M[:i] + M[i+1:], key, n)) for i in range(len(M))]
    return sorted(R, key=lambda g: key(lm(g, key)))


def P(*terms):
    """terms (coefficient, exponents) or (coefficient, component, exponents)"""
    return {((t[1], t[2]) if len(t) == 3 else (-1, t[1])): F(t[0]) if isinstance(t[0], int) else t[0] for t in terms}


def ring2(t):
    Z, X1, Y1, XX, XY, YY, XXY = (0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1)
    return [P((2, XX), (-1, Y1)), P((1, XY), (-1, Z)), P((1, YY), (3, X1), (-2, Z)), P((3, X1)), P((1, Y1), (-2, X1)), P((1, XXY), (2, Y1)), P((2, XX), (1, XY), (1, YY)),
            P((1, YY)), P((1, XY), (1, X1), (1, Y1)), P((4, Z)), P((1, XX), (1, YY), (-1, Z)), P((F(1, 2), (0, 3)), (F(-2, 3), X1)),
            P((1, (3, 0)), (1, (0, 3))), P((5, XY)), P((1, (1, 2)), (-1, XX)), P((6, XX), (-10, (0, 0)))]


def ring3(t):
    return [P((1, (1, 0, 0)), (1, (0, 1, 0)), (1, (0, 0, 1))), P((1, (1, 1, 0)), (1, (0, 1, 1)), (1, (1, 0, 1))), P((1, (1, 1, 1)), (-1, (0, 0, 0))), P((1, (2, 0, 0)), (-1, (0, 1, 0))),
            P((1, (0, 2, 0)), (-2, (0, 0, 1))), P((1, (0, 1, 1)), (-1, (1, 0, 0))), P((1, (0, 0, 2)), (-1, (1, 1, 0))), P((1, (1, 0, 1)), (3, (0, 0, 0)))]


def mod2(t):
    Z, X1, Y1, XX, XY, YY = (0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)
    return [P((2, 0, X1), (-1, 1, Y1)), P((1, 0, Z), (3, 1, Z)), P((1, 1, X1)), P((1, 0, YY), (1, 1, X1), (-2, 0, Z)), P((1, 1, XY), (-1, 0, Z)), P((1, 0, XY)), P((1, 1, Z), (1, 0, Y1)),
            P((3, 0, Z)), P((1, 0, X1), (1, 0, Y1)), P((2, 1, XX), (1, 1, Y1)), P((1, 0, XX), (-1, 1, YY))]


def dif(t):
    Z, X1, Y1, XX, XY, YY = (0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)
    one = FIELD.one
    return [P((one, 0, XX), (x, 1, Z)), P((one, 0, Y1), (y, 0, Z)), P((x, 0, X1), (-one, 1, Z)), P((one, 1, Y1)), P((y, 1, XX), (-one, 0, Y1)), P((one, 0, XY), (-x*y, 0, Z)),
            P((one, 0, YY), (x, 0, X1)), P((one, 1, Z), (-x*x, 0, Z)), P((one, 0, X1), (one, 1, Y1), (-one, Z)), P((one, 0, Y1), (-one, 1, X1), (x, Z)), P((one, 0, YY), (one, 0, XX)),
            P((a, 1, X1), (b, 0, Z)), P((one, 0, Z), (-y, Z))]


def par(t):
    Z, X1, Y1, XX, XY, YY = (0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)
    one = FIELD.one
    return [P((a, X1), (b, Z)), P((one, XY), (-a, Z)), P((one, YY), (-b, X1)), P((a + b, XX), (one, Y1)), P((a*b, Y1), (-one, X1)), P((one, XX), (b, XY), (one, YY))]


def binomials(n, d, pos=(-1,), coefs=(1, -2)):
    M = monomials(n, 0, d, pos)
    return [{M[i]: F(coefs[(i + j) % 2]), M[j]: F(1)} for i in range(len(M)) for j in range(i)]


# name: class, variables, components, polynomials
FAMS = {
    'plane': (Poly, 2, 0, ring2),
    'space': (Poly, 3, 0, ring3),
    'module': (Poly, 2, 2, mod2),
    'shifts': (PolySchem, 2, 2, lambda t: mod2(t)[:8]),
    'derivatives': (PolyDiff, 2, 2, dif),
    'parameters': (Poly, 2, 0, par),
}


def settings(c, k):
    """order, completion, tree, printing"""
    o = c.pick(NAMES + ['block'])
    kind = (Janet, JanetCache)[c.choose(2)]
    return ('TOPdeglex' if o == 'block' else o), (ginvBlockLow if o == 'block' else ginvMin), kind


def complete(c, cls, n, k, polys, o, run, kind, level, again=False):
    init(cls, n, k, o)
    key = py_key(o)
    comps = tuple(range(k)) if k else (-1,)
    if cls is PolyDiff:
        polys = [field(p) for p in polys]
    c.note(cls.__name__, o, run.__name__, kind.__name__, [show(p) for p in polys])
    G = basis(cls, polys, key, n)
    T = Forest(kind) if k else kind()
    gens = [mkpoly(p, cls) for p in polys]
    if again:
        gens.append(gens[0])
    if k and any(lm(g, key)[0] < 0 for g in G):
        # the inhomogeneous system has no solution
        refused(c, 'an inconsistent system', lambda: run(gens, T, level))
        c.count('inconsistent')
        return
    r = run(gens, T, level)
    c.check(isinstance(r, tuple) and len(r) == 3 and r[0] >= 0 and r[1] >= 0 and r[2] >= 0, 'the completion returns', r)
    for p, g in zip(polys, gens):
        g = rdpoly(c, g, cls)
        samepoly(c, 'a generator after the completion', field(g) if cls is PolyDiff else g, p)
    W = list(T)
    c.count('completions')
    c.count('elements', len(W))
    same(c, 'count', T.count(), len(W))
    H = {}
    for w in W:
        p = rdpoly(c, w.poly, cls)
        m = rdmon(w.lm)
        c.check(p and lm(p, key) == m, 'the leading monomial', m, 'of', show(p))
        c.check(m not in H, 'two elements with leading monomial', m)
        H[m] = p
        q = normal(cls, p, G, key, n)
        c.check(not q, 'the element', show(p), 'is not in the ideal; its normal form is', show(q))
    L = sorted(H)
    NM = {m: janet_nm(L, m) for m in L}
    for w in W:
        m = rdmon(w.lm)
        same(c, 'non-multiplicative variables of %s in %s' % (m, L), list(map(bool, w.nonmult)), NM[m])
        for v in range(n):
            if NM[m][v]:
                e = (m[0], tuple(t + (i == v) for i, t in enumerate(m[1])))
                c.check(any(inv_divides(NM[l], l, e) for l in L), 'the prolongation of', m, 'by variable', v, 'has no divisor among', L)
        t = [t for t in H[m] if t != m and any(inv_divides(NM[l], l, t) for l in L)]
        c.check(not t, 'the tail of', show(H[m]), 'is reducible')
        if all(isinstance(q, (int, Fraction)) for q in H[m].values()):
            z = primitive(H[m])
            c.check(H[m] == z or H[m] == scaled(z, -1), 'the element', show(H[m]), 'is not primitive')
    small = sorted(m for m in L if not any(l != m and l[0] == m[0] and divides(l, m) for l in L))
    same(c, 'minimal leading monomials', small, sorted(lm(g, key) for g in G))
    flagged = sorted(rdmon(w.lm) for w in T.GB())
    same(c, 'elements flagged as minimal', flagged, small)
    for g in G:
        m = lm(g, key)
        c.check(proportional(H[m], g), 'the minimal element', show(H[m]), 'instead of', show(g))
    # normal forms with the tree decide membership
    box = monomials(n, 0, 3 if n == 2 else 2, comps)[:20]
    for p in [{m: F(1)} for m in box] + polys:
        if cls is PolyDiff:
            p = field(p)
        q = mkpoly(p, cls)
        q = q.NF(T)
        q = rdpoly(c, q, cls, zeros=True)
        samepoly(c, 'the normal form of ' + show(p), field(q) if cls is PolyDiff else q, normal(cls, p, G, key, n))
    for m in L:
        c.check(proportional(rdpoly(c, T.findWrap(mkmon(m)).poly, cls), H[m]), 'an element changed by a normal form')
    # Hilbert polynomial
    hp = T.HP()
    s0 = max(map(deg, L))
    for s in range(s0, s0 + 2):
        want = sum(1 for m in monomials(n, 0, s, comps) if not any(l[0] == m[0] and divides(l, m) for l in L))
        same(c, 'Hilbert polynomial at %d' % s, Fraction(str(hp.subs(sympy.Integer(s)))), want)
    c.outcome((o, run.__name__, L))


FAMS['binomials in the plane'] = Poly, 2, 0, lambda t: binomials(2, 3)
FAMS['binomials in space'] = Poly, 3, 0, lambda t: binomials(3, 2)
FAMS['binomials of a module'] = Poly, 2, 2, lambda t: binomials(2, 2, (0, 1))
FAMS['binomials of shifts'] = PolySchem, 2, 2, lambda t: binomials(2, 2, (0, 1))[::1 if t else 3]
FAMS['derivatives with numbers'] = PolyDiff, 2, 2, lambda t: binomials(2, 2, (0, 1))[::2 if t else 5]
FAMS['monomials'] = Poly, 3, 0, lambda t: [{m: F(1)} for m in monomials(3, 1, 3)]
FAMS['four variables'] = Poly, 4, 0, lambda t: [P(*[(1 - 2*(i*j % 2), tuple(int(v in (i, j)) + (v == j == i) for v in range(4))), (1, tuple(int(v == (i + j) % 4) for v in range(4)))]) for i in range(4) for j in range(i + 1)]


def famous(c):
    """well-known ideals, every order of their generators"""
    from itertools import permutations

    def v(*e):
        return tuple(e)
    L = {
        'cyclic 3': (3, [P((1, (1, 0, 0)), (1, (0, 1, 0)), (1, (0, 0, 1))), P((1, (1, 1, 0)), (1, (0, 1, 1)), (1, (1, 0, 1))), P((1, (1, 1, 1)), (-1, (0, 0, 0)))]),
        'cyclic 4': (4, [P(*[(1, tuple(int((i - s) % 4 < d) for i in range(4))) for s in range(4)]) for d in (1, 2, 3)] + [P((1, (1, 1, 1, 1)), (-1, (0, 0, 0, 0)))]),
        'katsura 2': (3, [P((1, (1, 0, 0)), (2, (0, 1, 0)), (2, (0, 0, 1)), (-1, (0, 0, 0))), P((1, (2, 0, 0)), (2, (0, 2, 0)), (2, (0, 0, 2)), (-1, (1, 0, 0))), P((2, (1, 1, 0)), (2, (0, 1, 1)), (-1, (0, 1, 0)))]),
        'twisted cubic': (4, [P((1, (1, 0, 1, 0)), (-1, (0, 2, 0, 0))), P((1, (0, 1, 0, 1)), (-1, (0, 0, 2, 0))), P((1, (1, 0, 0, 1)), (-1, (0, 1, 1, 0)))]),
        'symmetric': (3, [P((1, (2, 0, 0)), (1, (0, 1, 0)), (1, (0, 0, 1)), (-1, (0, 0, 0))), P((1, (1, 0, 0)), (1, (0, 2, 0)), (1, (0, 0, 1)), (-1, (0, 0, 0))), P((1, (1, 0, 0)), (1, (0, 1, 0)), (1, (0, 0, 2)), (-1, (0, 0, 0)))]),
        'powers': (3, [P((1, (3, 0, 0)), (-1, (0, 1, 1))), P((1, (0, 3, 0)), (-1, (1, 0, 1))), P((1, (0, 0, 3)), (-1, (1, 1, 0)))]),
    }
    nm = c.pick(sorted(L))
    n, polys = L[nm]
    o, run, kind = settings(c, 0)
    perms = list(permutations(polys))
    polys = perms[c.choose(len(perms))]
    complete(c, Poly, n, 0, list(polys), o, run, kind, 0)


def sets(name, size, levels=False, only=None):
    cls, n, k, fam = FAMS[name]

    def f(c):
        polys = fam(THOROUGH)
        if only:
            polys = polys[:only]
        o, run, kind = settings(c, k)
        L = [c.pick(polys) for i in range(size)]
        level = c.choose(2) if levels else (len(show(L[0])) + len(show(L[-1]))) % 2
        complete(c, cls, n, k, L, o, run, kind, level, again=levels and c.choose(2))
    return f


for nm in FAMS:
    mcpy.part('one ' + nm, sets(nm, 1, True), split=3)
    mcpy.part('two ' + nm, sets(nm, 2), split=3)
for nm, k in (('plane', 12), ('space', 8), ('module', 10), ('shifts', 8), ('derivatives', 4), ('monomials', 10), ('four variables', 10), ('parameters', 5)):
    mcpy.part('three ' + nm, sets(nm, 3, only=k), split=3)
    mcpy.part('three of all ' + nm, sets(nm, 3, only=6 if nm == 'derivatives' else None), split=3, tiers=('thorough',))
mcpy.part('famous', famous, split=3)
if __name__ == '__main__':
    mcpy.main()

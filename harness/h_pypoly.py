"""C26: the polynomials of the pure Python package."""
from pyglue import *
import mcpy

THOROUGH = 'thorough' in sys.argv
F = Fraction
Z2 = (0, 0)
a, b, x, y = [FIELD.from_sympy(s) for s in (A, B, X[0], X[1])]


def fam(mons, coefs, lo, hi):
    """all polynomials with lo to hi terms"""
    out = []
    for cs in product([0] + coefs, repeat=len(mons)):
        if lo <= sum(1 for k in cs if k != 0) <= hi:
            out.append({m: k for m, k in zip(mons, cs) if k != 0})
    return out


RING = [(-1, e) for e in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2))]
MOD = [(-1, (0, 0)), (-1, (1, 0)), (0, (0, 0)), (0, (0, 1)), (1, (0, 0)), (1, (1, 0)), (2, (0, 0))]
DIF = [(-1, (0, 0)), (0, (0, 0)), (0, (1, 0)), (0, (0, 1)), (1, (0, 0)), (1, (1, 1))]
# name: class, variables, functions, numbers, symbolic
FAMS = {
    'ring': (Poly, 2, 0, fam(RING, [F(2), F(-3)], 0, 2) + fam(RING[:4], [F(1), F(-1, 2)], 3, 3)),
    'module': (Poly, 2, 3, fam(MOD, [F(2), F(-3)], 0, 2)),
    'shifts': (PolySchem, 2, 2, fam(MOD[2:6], [F(2), F(-3)], 0, 2) + [{(0, (0, 0)): a, (1, (1, 0)): b}, {(0, (0, 0)): -a, (0, (0, 1)): F(1)}, {(0, (0, 0)): a + b}]),
    'derivatives': (PolyDiff, 2, 2, fam(DIF, [F(2), F(-3)], 0, 1) + [{(0, (0, 0)): x, (1, (1, 1)): F(1)}, {(0, (0, 0)): -x, (1, (1, 1)): y, (-1, Z2): F(1)}, {(0, (1, 0)): x*y, (0, (0, 0)): -y}, {(-1, Z2): x*x}, {(0, (0, 1)): a, (-1, Z2): x*a},
                                                                 {(0, (1, 0)): y*y, (1, (0, 0)): F(2)}, {(1, (0, 0)): a*x + b, (-1, Z2): -x}]),
    'parameters': (Poly, 2, 0, [{}, {(-1, Z2): a}, {(-1, (1, 0)): a, (-1, Z2): b}, {(-1, (1, 0)): F(2), (-1, (0, 1)): -a}, {(-1, (1, 0)): -a, (-1, (0, 1)): F(1)}, {(-1, (0, 1)): a + b, (-1, Z2): -b}, {(-1, (1, 1)): a*b, (-1, (1, 0)): F(1), (-1, Z2): F(3)},
                                {(-1, (0, 1)): a*a - b*b}, {(-1, (0, 2)): F(1), (-1, (0, 1)): b, (-1, Z2): F(-1)},
                                {(-1, (1, 0)): a + b, (-1, Z2): -b}, {(-1, (0, 1)): a + b, (-1, Z2): -a}, {(-1, (1, 0)): F(1), (-1, (0, 1)): F(1), (-1, Z2): F(-1)}]),
}


def scramble(c, r):
    """changes a polynomial in place in every way there is"""
    if r:
        r.pp()
        q = type(r)()
        q.append([r[-1][0], sympy.Integer(7)])
        r.reduction(len(r) - 1, q)


def mulable(p, q):
    return all(m[0] < 0 or l[0] < 0 for m in p for l in q)


def scalars(symbolic):
    s = [(0, F(0)), (1, F(1)), (-2, F(-2)), (sympy.Integer(3), F(3)), (sympy.Integer(1), F(1)), (sympy.Integer(0), F(0)), (sympy.Rational(-3, 2), F(-3, 2)), (2**70, F(2**70))]
    if symbolic:
        s += [(A, a), (A*B - 1, a*b - 1), (-A, -a)]
    return s


def arith(name):
    cls, n, k, polys = FAMS[name]
    symbolic = name not in ('ring', 'module')

    def f(c):
        o = c.pick(NAMES)
        init(cls, n, k, o)
        key = py_key(o)
        p, q = c.pick(polys), c.pick(polys)
        P, Q = mkpoly(p, cls), mkpoly(q, cls)
        c.note(o, show(p), '|', show(q))
        one = {(-1, (0,)*n): F(1)}

        def step(what, f, want, zeros=False):
            r = f()
            samepoly(c, what, rdpoly(c, r, cls, zeros or symbolic), want)
            samepoly(c, 'the left operand of ' + what, rdpoly(c, P, cls), p)
            samepoly(c, 'the right operand of ' + what, rdpoly(c, Q, cls), q)
            scramble(c, r)
            samepoly(c, 'the left operand, after the result of %s was reduced,' % what, rdpoly(c, P, cls), p)
            samepoly(c, 'the right operand, after the result of %s was reduced,' % what, rdpoly(c, Q, cls), q)
            c.count('operations')
        neg = scaled(p, -1)
        if q is polys[0]:
            step('+p', lambda: +P, p)
            step('-p', lambda: -P, neg)
            step('copy', lambda: cls(P), p)
            same(c, 'truth', bool(P), bool(p))
            w = one
            for e in range(4):
                if mulable(p, w):
                    step('power %d' % e, lambda: P**e, w)
                    w = pmul(w, p)
            refused(c, 'negative power', lambda: P**-1)
            for s, v in scalars(symbolic):
                const = clean({(-1, (0,)*n): v})
                step('p + %s' % s, lambda: P + s, padd(p, const))
                step('%s + p' % s, lambda: s + P, padd(p, const))
                step('p - %s' % s, lambda: P - s, padd(p, const, -1))
                step('%s - p' % s, lambda: s - P, padd(neg, const))
                step('p * %s' % s, lambda: P*s, clean(scaled(p, v)))
                step('%s * p' % s, lambda: s*P, clean(scaled(p, v)))
                if v != 0:
                    step('p / %s' % s, lambda: P/s, clean(scaled(p, inv(v))))
                if p:
                    refused(c, '%s / p' % s, lambda: s/P)

                def incr():
                    r = P
                    r += s
                    return r

                def decr():
                    r = P
                    r -= s
                    return r

                def imul():
                    r = P
                    r *= s
                    return r
                step('p += %s' % s, incr, padd(p, const))
                step('p -= %s' % s, decr, padd(p, const, -1))
                step('p *= %s' % s, imul, clean(scaled(p, v)))
                if v != 0:
                    step('p.mult(1, %s)' % s, lambda: P.mult(Monom(), sympy.sympify(s)), scaled(p, v))
            if p:
                l = lm(p, key)
                same(c, 'lm', rdmon(P.lm()), l)
                same(c, 'lc', val(P.lc()), p[l])
                for m in monomials(n, 0, 2, range(-1, k)):
                    r = P.find(mkmon(m))
                    same(c, 'find', r is P and r is not None, divides(l, m))
            else:
                refused(c, 'lm of zero', P.lm)
                refused(c, 'lc of zero', P.lc)
            for v in range(n):
                w = prolong(cls, p, v, n)
                step('prolong %d' % v, lambda: P.prolong(v), w)
            for s, v in ((A, a), (X[0], x), (X[1], y)):
                step('derivative by %s' % s, lambda: P.diff(s), clean({m: (u.diff(v) if not isinstance(u, F) else F(0)) for m, u in p.items()}))
            if cls is not PolyDiff:
                for m in monomials(n, 0, 1, range(-1, k)):
                    if mulable(p, {m: 1}):
                        step('mult', lambda: P.mult(mkmon(m), sympy.Integer(-5)), shift(p, m, F(-5)))
            text(c, cls, P, p, n, k)
        step('p + q', lambda: P + Q, padd(p, q))
        step('p - q', lambda: P - Q, padd(p, q, -1))
        if mulable(p, q) and (cls is not PolyDiff or not any(any(m[1]) for m in list(p) + list(q) if m[0] < 0)):
            step('p * q', lambda: P*Q, pmul(p, q))
        elif not mulable(p, q):
            refused(c, 'product of two module elements', lambda: P*Q)

        def isum():
            r = P
            r += Q
            return r

        def idif():
            r = P
            r -= Q
            return r
        step('p += q', isum, padd(p, q))
        step('p -= q', idif, padd(p, q, -1))
        step('sum', lambda: sum([P, Q, P], cls()), padd(scaled(p, F(2)), q))
        same(c, 'equality', (P == Q, P != Q), (p == q, p != q))
        if p and q:
            s = (key(lm(p, key)) > key(lm(q, key))) - (key(lm(p, key)) < key(lm(q, key)))
            same(c, 'cmp', P.cmp(Q), s)
            if cls is not PolyDiff and lm(p, key)[0] == lm(q, key)[0]:
                got = rdpoly(c, cls.S(P, Q), cls, symbolic)
                want = spoly(p, q, key) if not symbolic else padd(shift(p, mono(p, q, key), inv(p[lm(p, key)])), shift(q, mono(q, p, key), inv(q[lm(q, key)])), -1)
                c.check(proportional(got, want), 'S-polynomial', show(got), 'instead of a multiple of', show(want))
                samepoly(c, 'operand of S', rdpoly(c, P), p)
                samepoly(c, 'operand of S', rdpoly(c, Q), q)
        c.outcome((o, sorted((m, str(k)) for m, k in p.items()), sorted((m, str(k)) for m, k in q.items())))
    return f


def mono(p, q, key):
    l, r = lm(p, key), lm(q, key)
    return (-1, tuple(max(i, j) - i for i, j in zip(l[1], r[1])))


class D(dict):
    """polynomials of the evaluated text"""
    def __add__(s, o):
        return D(padd(s, s.co(o)))
    __radd__ = __add__

    def __mul__(s, o):
        return D(pmul(s, s.co(o)))

    def __rmul__(s, o):
        return D(pmul(s.co(o), s))

    def co(s, o):
        if isinstance(o, D):
            return o
        n = s.n
        return clean({(-1, (0,)*n): val(sympy.sympify(o))})

    def __pow__(s, k):
        return D(ppow(s, k, (-1, (0,)*s.n)))


def text(c, cls, P, p, n, k):
    """the text forms denote the polynomial"""
    D.n = n
    ns = {'a': A, 'b': B, '__builtins__': {}}
    s = str(P)

    def der(u, *vs):
        (p0, e), = u
        e = list(e)
        i = 0
        while i < len(vs):
            v = X.index(vs[i])
            d = 1
            if i + 1 < len(vs) and isinstance(vs[i + 1], int):
                d = vs[i + 1]
                i += 1
            e[v] += d
            i += 1
        return D({(p0, tuple(e)): F(1)})
    for i in range(k):
        ns[FUN[i]] = D({(i, (0,)*n): F(1)})
    if cls is Poly:
        for i in range(n):
            ns[VAR[i]] = D({(-1, tuple(int(i == j) for j in range(n))): F(1)})
    else:
        for i in range(n):
            ns[VAR[i]] = X[i]
        ns['df' if cls is PolyDiff else 'T'] = der
    # coefficients are printed after the monomial without brackets: only sums are ambiguous
    if all(isinstance(v, F) or len(list(v.numer)) == 1 for v in p.values()):
        r = eval(rational(s), dict(ns, Q=lambda x, y: sympy.Rational(x, y)))
        r = r if isinstance(r, D) else D(clean({(-1, (0,)*n): val(sympy.sympify(r))}))
        samepoly(c, 'str %s' % s, dict(r), p)
        if cls is PolyDiff:
            funs = sympy.symbols(FUN[:k], cls=sympy.Function, real=True)
            env = dict({'a': A, 'b': B}, **{v: X[i] for i, v in enumerate(VAR[:n])})
            env.update({FUN[i]: funs[i] for i in range(k)})
            e = sympy.sympify(eval(rational(P.df_sympy()), dict(env, Q=lambda x, y: sympy.Rational(x, y), __builtins__={})))
            fs = [g(*X[:n]) for g in funs]
            want = 0
            for m, v in p.items():
                t = num(v)
                if m[0] >= 0:
                    g = fs[m[0]]
                    for i, d in enumerate(m[1]):
                        if d:
                            g = g.diff(X[i], d)
                    t = t*g
                want = want + t
            same(c, 'df_sympy', sympy.expand(e - want), 0)
            samepoly(c, 'diff2poly of %s' % want, rdpoly(c, PolyDiff.diff2poly(sympy.sympify(want)), PolyDiff, True), p)
            samepoly(c, 'diff2poly of df_sympy', rdpoly(c, PolyDiff.diff2poly(sympy.expand(e)), PolyDiff, True), p)


def rational(s):
    import re
    return re.sub(r'(?<![\w*])(\d+)/(\d+)', r'Q(\1,\2)', s)


RATS = [F(1), F(-2), F(3, 2), F(-5, 6), F(7), F(10**20)]


def content(c):
    """cancel and pp on rational and symbolic coefficients"""
    o = c.pick(NAMES)
    init(Poly, 2, 0, o)
    kind = c.choose(2)
    alpha = RATS if kind == 0 else [F(2), a, a*b, F(3)*(a + b), a/b, F(1)/(a + b), (a*a - b*b), F(1, 2)*a]
    k = 1 + c.choose(3)
    p = {m: c.pick(alpha) for m in RING[1:1 + k]}
    P = mkpoly(p)
    what = c.choose(3)
    if what != 1:
        P.cancel()
        q = rdpoly(c, P, Poly)
        c.check(proportional(q, p), 'cancel of', show(p), 'is', show(q))
        if kind == 0:
            c.check(all(v.denominator == 1 for v in q.values()), 'cancel of', show(p), 'leaves', show(q))
        else:
            c.check(all(isinstance(v, F) and v.denominator == 1 or not isinstance(v, F) and v.denom == 1 for v in q.values()), 'cancel of', show(p), 'leaves', show(q))
    if what != 0:
        P.pp()
        q = rdpoly(c, P, Poly)
        c.check(proportional(q, p), 'pp of', show(p), 'is', show(q))
        if kind == 0 and (what == 2 or all(v.denominator == 1 for v in p.values())):
            c.check(all(v.denominator == 1 for v in q.values()) and gcd(*[int(v) for v in q.values()]) == 1, 'pp of', show(p), 'is', show(q))
        elif kind == 1 and what == 2:
            g = FIELD.field.ring.zero
            for v in q.values():
                g = g.gcd(v.numer if not isinstance(v, F) else FIELD.field.ring.ground_new(sympy.QQ(v.numerator, v.denominator)))
            c.check(g.is_ground, 'pp of', show(p), 'has the common factor', g)
    c.outcome((o, what, [str(v) for v in p.values()]))


def reductions(name, three=False):
    cls, n, k, polys = FAMS[name]
    polys = [p for p in polys if p]
    if name in ('module', 'ring'):
        polys = [p for p in polys if len(p) > 1][::(5 if three else 2) if not THOROUGH else 1 + three]

    def f(c):
        o = c.pick(NAMES if k or THOROUGH else NAMES[::3])
        init(cls, n, k, o)
        key = py_key(o)
        G = [c.pick(polys)]
        if three:
            G.append(c.pick(polys if name == 'parameters' else polys[::2]))
        p = c.pick(polys[::3] if three and not THOROUGH and name != 'parameters' else polys)
        c.note(o, [show(g) for g in G], '|', show(p))
        if lm(G[0], key)[0] < 0 and cls is PolyDiff:
            return
        if any(lm(g, key)[0] < 0 and cls is PolyDiff for g in G):
            return
        # what is reduced: p itself, multiplied up so that something happens
        for e in ((0,)*n, (1, 0), (1, 1)):
            P = lift(cls, p, e, n)
            if P:
                reduce1(c, cls, n, key, P, G, three)
        c.outcome((o, [sorted((m, str(v)) for m, v in g.items()) for g in G], sorted((m, str(v)) for m, v in p.items())))
    return f


def reduce1(c, cls, n, key, p, G, three):
    M = [mkpoly(g, cls) for g in G]
    S = Set(M)
    g = G[0]
    l = lm(g, key)
    terms = sorted(p, key=key, reverse=True)

    def kept():
        for h, H in zip(G, M):
            samepoly(c, 'the reductor', rdpoly(c, H, cls), h)
    if not three:
        for i, m in enumerate(terms):
            if divides(l, m) and l[0] == m[0] and (cls is not PolyDiff or l == m):
                want = padd(p, shift(g, (-1, tuple(s - t for s, t in zip(m[1], l[1])))), -(p[m]*inv(g[l])))
                P = mkpoly(p, cls)
                P.reduction(i, M[0])
                q = rdpoly(c, P, cls)
                c.check(proportional(q, want), 'reduction at', m, 'gives', show(q), 'instead of a multiple of', show(want))
                kept()
                P = mkpoly(p, cls)
                P.redRat(i, M[0])
                samepoly(c, 'redRat', rdpoly(c, P, cls), want)
                kept()
            elif not divides(l, m):
                refused(c, 'reduction of a term which is not divisible', lambda: mkpoly(p, cls).reduction(i, M[0]))
        for i in (-1, len(terms)):
            refused(c, 'reduction at %d' % i, lambda: mkpoly(p, cls).reduction(i, M[0]))
        refused(c, 'reduction by itself', lambda: M[0].reduction(0, M[0]))
        P = mkpoly(p, cls)
        P.reduce(M[0])
        q = rdpoly(c, P, cls)
        want = padd(p, g, -(p[l]*inv(g[l]))) if l in p else p
        c.check(proportional(q, want), 'reduce gives', show(q), 'instead of a multiple of', show(want))
        kept()
    for sets in ([S] if three else [S, M[0]]):
        if sets is not S and l[0] < 0 and any(m[0] >= 0 for m in list(p) + list(g)):
            continue        # an element of the ring reduces module elements too
        P = mkpoly(p, cls)
        P.NFhead(sets)
        q = rdpoly(c, P, cls)
        want = normal(cls, p, G, key, n, head=True)
        c.check(proportional(q, want), 'NFhead gives', show(q), 'instead of a multiple of', show(want))
        kept()
        P = mkpoly(p, cls)
        P.NFtail(sets)
        q = rdpoly(c, P, cls)
        want = normal(cls, p, G, key, n, start=1)
        c.check(proportional(q, want), 'NFtail gives', show(q), 'instead of a multiple of', show(want))
        kept()
        P = mkpoly(p, cls)
        r = P.NF(sets)
        want = normal(cls, p, G, key, n)
        samepoly(c, 'NF', rdpoly(c, r, cls), want)
        c.check(r is P, 'NF gives another object')
        kept()
        c.count('normal forms', 3)


def notation(c):
    """df and T with every list of variables and numbers"""
    cls = c.pick([PolyDiff, PolySchem])
    init(cls, 3, 3, 'POTlex')
    vs, fs = cls.init(VAR[:3], FUN)
    same(c, 'variables', list(vs), list(X[:3]))
    f = cls.df if cls is PolyDiff else cls.T
    u = c.choose(3)
    args, e = [], [0, 0, 0]
    for i in range(c.choose(4)):
        v = c.choose(3)
        d = c.choose(4)
        args.append(vs[v])
        if d:
            args.append(d + 1 if d < 3 else 1)
            e[v] += args[-1]
        else:
            e[v] += 1
    samepoly(c, 'derivative', rdpoly(c, f(fs[u], *args), cls), {(u, tuple(e)): F(1)})
    refused(c, 'an unknown function', lambda: f(sympy.Symbol('q')))
    refused(c, 'an unknown variable', lambda: f(fs[0], sympy.Symbol('q')))
    c.outcome((cls.__name__, u, str(args)))


class Machine:
    """three polynomials under every operation, each also in place"""
    def init(self, c):
        init(Poly, 2, 2, 'TOPdeglex')
        s = {'r': [{(-1, (1, 0)): F(2), (-1, Z2): F(4)}, {(-1, (0, 1)): F(1), (-1, Z2): F(-3)}, {(0, (0, 1)): F(6), (1, (1, 0)): F(4), (1, Z2): F(2)}]}
        s['g'] = [mkpoly(p) for p in s['r']]
        return s

    def ops(self, s):
        o = []
        for i in range(3):
            o += [('pp', i), ('cancel', i), ('half', i), ('neg', i), ('pos', i), ('pow1', i), ('x1', i), ('+0', i), ('prolong', i)]
            for j in range(3):
                o += [('+', i, j), ('-', i, j), ('*', i, j)]
                if i != j:
                    o += [('=', i, j), ('NFtail', i, j), ('NFhead', i, j), ('reduce', i, j), ('NF', i, j)]
        return o

    def apply(self, c, s, op):
        r, g = s['r'], s['g']
        key = py_key('TOPdeglex')
        i = op[1]
        p, P = r[i], g[i]
        j = op[2] if len(op) > 2 else 0
        q, Q = r[j], g[j]
        o = op[0]
        big = sum(map(len, r)) > 14 or any(deg(m) > 4 for x in (p, q) for m in x)
        if o in ('pp', 'cancel'):
            if p:
                getattr(P, o)()
                w = rdpoly(c, P, Poly)
                c.check(proportional(w, p), o)
                r[i] = w
        elif o == 'half':
            g[i], r[i] = P/2, scaled(p, F(1, 2))
        elif o == 'neg':
            g[i], r[i] = -P, scaled(p, F(-1))
        elif o == 'pos':
            g[(i + 1) % 3], r[(i + 1) % 3] = +P, p
        elif o == 'pow1' and all(m[0] < 0 for m in p):
            g[(i + 1) % 3], r[(i + 1) % 3] = P**1, p
        elif o == 'x1':
            g[(i + 1) % 3], r[(i + 1) % 3] = P*1, p
        elif o == '+0':
            g[(i + 1) % 3], r[(i + 1) % 3] = P + 0, p
        elif o == 'prolong' and not big:
            g[i], r[i] = P.prolong(1), shift(p, (-1, (0, 1)))
        elif o == '+' and not big:
            g[i], r[i] = P + Q, padd(p, q)
        elif o == '-' and not big:
            g[i], r[i] = P - Q, padd(p, q, -1)
        elif o == '*' and mulable(p, q) and not big:
            g[i], r[i] = P*Q, pmul(p, q)
        elif o == '=':
            g[i], r[i] = Poly(Q), q
        elif o in ('NFtail', 'NFhead', 'NF', 'reduce') and p and q and not big:
            if o == 'reduce':
                P.reduce(Q)
                l = lm(q, key)
                want = padd(p, q, -(p[l]*inv(q[l]))) if l in p else p
            else:
                getattr(P, o)(Set([Q]))
                want = normal(Poly, p, [q], key, 2, start=1 if o == 'NFtail' else 0, head=o == 'NFhead')
            w = rdpoly(c, P, Poly)
            c.check(proportional(w, want) if o != 'NF' else w == want, o, 'of', show(p), 'by', show(q), 'gives', show(w), 'instead of', show(want))
            r[i] = w
        for k in range(3):
            samepoly(c, 'polynomial %d' % k, rdpoly(c, g[k], Poly), r[k])

    def key(self, s):
        # two polynomials which are one object would behave differently
        ids = [[k for k in range(3) if s['g'][k] is s['g'][l]] for l in range(3)]
        return (tuple(tuple(sorted((m, v.numerator, v.denominator) for m, v in p.items())) for p in s['r']), str(ids))


for nm in FAMS:
    mcpy.part('arithmetic ' + nm, arith(nm), split=2)
    mcpy.part('reduction ' + nm, reductions(nm), split=2)
    mcpy.part('reduction by two ' + nm, reductions(nm, True), split=2)
mcpy.part('content', content, split=3)
mcpy.part('notation', notation, split=2)
mcpy.bfs('registers', Machine(), 3, tiers=('quick',))
mcpy.bfs('registers deep', Machine(), 4, tiers=('thorough',))
if __name__ == '__main__':
    mcpy.main()

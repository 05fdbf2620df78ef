"""C27: the Janet trees, forests and Hilbert polynomials of the pure Python package."""
from pyglue import *
import mcpy
from itertools import combinations
from math import comb
from janet import Wrap, Janet, JanetCache, Forest, CombRepet, HilbertPoly

F = Fraction


def wrap(m, k=1):
    return Wrap(mkpoly({m: F(k)}))


def lms(ws):
    return sorted(rdmon(w.lm) for w in ws)


def hpvalue(h, s):
    return Fraction(str(h.subs(sympy.Integer(s))))


def checkhp(c, hp, n, s0, wants, what):
    for i, w in enumerate(wants):
        same(c, 'the Hilbert polynomial %s at %d' % (what, s0 + i), hpvalue(hp, s0 + i), w)
    # the printed form denotes the same polynomial
    t = str(hp)
    import re
    e = re.sub(r'(?<=[\d)])(?=[s(])', '*', t.replace('^', '**'))
    e = sympy.sympify(re.sub(r'(?<=s)(?=s|\()', '*', e))
    for i, w in enumerate(wants):
        same(c, 'the Hilbert polynomial printed as %s, at %d' % (t, s0 + i), Fraction(str(e.subs(sympy.Symbol('s'), s0 + i))), w)


def judge(c, T, U, n, comps, D):
    """the tree or forest T holds the wraps of U (monomial -> wrap)"""
    forest = T.is_forest()
    same(c, 'elements', lms(T), sorted(U))
    for w in T:
        c.check(w is U[rdmon(w.lm)], 'iteration gives another object')
    same(c, 'count', T.count(), len(U))
    same(c, 'GB', lms(T.GB()), sorted(m for m in U if rdmon(U[m].ansector) == m))
    L = sorted(U)
    NM = {m: janet_nm(L, m) for m in L}
    for m in L:
        same(c, 'non-multiplicative variables of %s' % (m,), list(map(bool, U[m].nonmult)), NM[m])
        same(c, 'multi', U[m].multi(), n - sum(NM[m]))
    todo = [(deg(m), m, v) for m in L for v in range(n) if NM[m][v] and not U[m].prolong[v]]
    same(c, 'degMinProlong', T.degMinProlong(), min([d for d, m, v in todo] or [0]))
    for m in monomials(n, 0, D + 1, comps):
        want = [l for l in L if inv_divides(NM[l], l, m)]
        c.check(len(want) <= 1, 'the set is not reduced:', L)
        w = T.findWrap(mkmon(m))
        if want:
            c.check(w is U[want[0]], 'the divisor of', m, 'is', w and rdmon(w.lm), 'instead of', want[0])
        else:
            c.check(w is None, 'the divisor of', m, 'is', w and rdmon(w.lm), 'instead of none')
        p = T.find(mkmon(m))
        if want:
            c.check(rdpoly(c, p) and set(rdpoly(c, p)) == {m if isinstance(T[0] if forest else T, JanetCache) else want[0]}, 'the polynomial found for', m, 'is', p)
        else:
            c.check(p is None, 'a polynomial is found for', m)
    # Hilbert polynomial of closed trees
    if L and all(any(inv_divides(NM[b], b, (a[0], tuple(x + (i == v) for i, x in enumerate(a[1])))) for b in L) for a in L for v in range(n) if NM[a][v]) \
       or forest and not L:
        c.count('closed')
        s0 = max([deg(m) for m in L] + [0])

        def cnt(pos, s):
            return sum(1 for m in monomials(n, 0, s, (pos,)) if not any(divides(l, m) and l[0] == pos for l in L))
        for k in range(len(comps) + 1) if forest else (None,):
            hp = T.HP() if k is None or k == len(comps) else T.HP(verge=k)
            if k == 0:
                same(c, 'the Hilbert polynomial of no component', [int(x) for x in hp], [0]*(n + 1))
                continue
            checkhp(c, hp, n, s0, [sum(cnt(p, s) for p in (comps if k is None else comps[:k])) for s in range(s0, s0 + 3)], 'of %s' % (L,))
    elif not L and not forest:
        checkhp(c, T.HP(), n, 0, [comb(s + n, n) for s in range(3)], 'of nothing')


def machine(kind, n, D, k=0, batch=False, prol=True):
    comps = tuple(range(k)) if k else (-1,)
    box = monomials(n, 0, D, comps)

    class M:
        def init(self, c):
            init(Poly, n, k, 'TOPdeglex')
            return {'T': Forest(kind) if k else kind(), 'U': {}}

        def ops(self, s):
            o = [('i', m) for m in box]
            if batch:
                o += [('ii', m, l) for m, l in combinations(box[:8], 2)] + [('ii', l, m) for m, l in combinations(box[:8], 2)]
            if prol:
                o += [('pd', d) for d in range(D + 1)] + [('pa',)] + [('pm', m) for m in box[1::3]]
            return o

        def displace(self, U, m):
            """those which m divides and which agree with it before its last variable"""
            last = max([i for i in range(n) if m[1][i]] or [0])
            return [(l, U.pop(l)) for l in list(U) if l != m and l[0] == m[0] and l[1][:last] == m[1][:last] and l[1][last] >= m[1][last]]

        def divisor(self, U, m):
            L = list(U)
            return [l for l in L if inv_divides(janet_nm(L, l), l, m)]

        def apply(self, c, s, op):
            T, U = s['T'], s['U']
            if op[0] in ('i', 'ii'):
                new, ws = [], []
                V = dict(U)
                gone = []
                for m in op[1:]:
                    if self.divisor(V, m):
                        return
                    w = wrap(m, 2)
                    ws.append(w)
                    V[m] = w
                    gone += self.displace(V, m)
                lst = T.insert(ws) if len(ws) == 2 or sum(op[1][1]) % 2 else T.insert(w for w in ws)
                same(c, 'displaced', sorted(rdmon(w.lm) for w in lst), sorted(l for l, w in gone))
                for l, w in gone:
                    c.check(any(x is w for x in lst), 'the element handed back is another object')
                    c.check(self.divisor(V, l), 'an element without divisor was displaced')
                U.clear()
                U.update(V)
            else:
                L = list(U)
                NM = {m: janet_nm(L, m) for m in L}
                key = py_key('TOPdeglex')
                todo = [(m, v) for m in L for v in range(n) if NM[m][v] and not U[m].prolong[v]]
                if op[0] == 'pd':
                    todo = [(m, v) for m, v in todo if op[1] in (0, deg(m))]
                    q = T.prolongDeg(op[1])
                elif op[0] == 'pa':
                    q = T.prolongAll()
                else:
                    todo = [(m, v) for m, v in todo if key((m[0], tuple(x + (i == v) for i, x in enumerate(m[1])))) <= key(op[1])]
                    q = T.prolongMonom(mkmon(op[1]))
                same(c, 'prolongations', sorted((rdmon(w.lm), rdmon(w.ansector), tuple(rdpoly(c, w.poly))) for w in q),
                     sorted(((m[0], tuple(x + (i == v) for i, x in enumerate(m[1]))), rdmon(U[m].ansector), ((m[0], tuple(x + (i == v) for i, x in enumerate(m[1]))),)) for m, v in todo))
                for m, v in todo:
                    c.check(U[m].prolong[v], 'a prolongation is not remembered')
                for w in q:
                    same(c, 'flags of a new element', (list(w.prolong), list(w.nonmult)), ([False]*n, [False]*n))
                # those without divisor go into the tree
                for w in q:
                    m = rdmon(w.lm)
                    if not self.divisor(U, m) and deg(m) <= D:
                        U[m] = w
                        same(c, 'displaced by a prolongation', sorted(rdmon(x.lm) for x in T.insert([w])), sorted(l for l, x in self.displace(U, m)))
            judge(c, T, U, n, comps, D)
            c.count('trees')

        def key(self, s):
            U = s['U']
            return tuple((m, tuple(U[m].nonmult), tuple(U[m].prolong), rdmon(U[m].ansector)) for m in sorted(U)), shape(s['T'])
    return M()


def shape(T):
    """the tree itself, as far as it can be seen from outside"""
    def tr(r):
        return tuple(tr(x) if isinstance(x, list) else rdmon(x.lm) for x in r)
    try:
        return tr(T.root) if not T.is_forest() else tuple(tr(t.root) for t in list.__iter__(T))
    except Exception:
        return None


def subsets(kind, n, D, k, size):
    """every sequence of distinct monomials inserted in turn"""
    comps = tuple(range(k)) if k else (-1,)
    box = monomials(n, 1, D, comps)
    M = machine(kind, n, D, k)

    def f(c):
        s = M.init(c)
        left = list(box)
        for i in range(size):
            m = left.pop(c.choose(len(left)))
            M.apply(c, s, ('i', m))
        # complete: prolong until closed
        for i in range(30):
            T, U = s['T'], s['U']
            q = T.prolongAll()
            if not q:
                break
            for w in sorted(q):
                if not T.findWrap(w.lm):
                    U[rdmon(w.lm)] = w
                    same(c, 'displaced', sorted(rdmon(x.lm) for x in T.insert([w])), sorted(l for l, x in M.displace(U, rdmon(w.lm))))
            judge(c, T, U, n, comps, D)
        c.check(i < 29, 'the completion does not end')
        c.outcome(sorted(s['U']))
    return f


def wraps(c):
    """the element: order, update, refresh"""
    n = 2
    init(Poly, n, 0, 'TOPdeglex')
    key = py_key('TOPdeglex')
    box = monomials(n, 0, 3)
    a, b = c.pick(box), c.pick(box)
    v, w = wrap(a), wrap(b)
    same(c, 'attributes', (rdmon(v.lm), rdmon(v.ansector), v.degree(), v.isGB(), list(v.prolong), list(v.nonmult)), (a, a, deg(a), True, [False]*n, [False]*n))
    c.check(v.lm is not v.poly.lm() and v.ansector is not v.poly.lm(), 'the monomials are shared with the polynomial')
    x, y = (key(a), 0), (key(b), 1)
    same(c, 'order', (v < w, v > w, w < v, w > v, v == w, v != w, v == v, v != v), (x < y, x > y, y < x, y > x, False, True, True, False))
    for i in range(n):
        refused(c, 'prolongation by a multiplicative variable', lambda: Wrap(v, i))
        v.nonmult[i] = True
        p = Wrap(v, i)
        m = (-1, tuple(t + (i == j) for j, t in enumerate(a[1])))
        same(c, 'prolongation', (rdmon(p.lm), rdmon(p.ansector), p.degree(), p.isGB(), list(rdpoly(c, p.poly))), (m, a, deg(m), False, [m]))
        same(c, 'remembered', [bool(t) for t in v.prolong], [j <= i for j in range(n)])
        refused(c, 'the same prolongation again', lambda: Wrap(v, i))
        same(c, 'multi', v.multi(), n - 1 - i)
        # refresh: p takes the smaller ancestor of the other
        r = wrap(b)
        anc = b
        p.refresh(r)
        if divides(a, b) and a != b:
            anc = a
        same(c, 'ancestor after refresh', rdmon(r.ansector), anc)
        same(c, 'ancestor of the refreshing one', rdmon(p.ansector), a)
        c.check(repr(p) and str(p), 'no text')
        p.poly.NFhead(Set([mkpoly({m: F(1), (-1, (0, 0)): F(1)})]))
        if p.poly:
            p.update()
            same(c, 'update', (rdmon(p.lm), rdmon(p.ansector), list(p.prolong), list(p.nonmult)), ((-1, (0, 0)), (-1, (0, 0)), [False]*n, [False]*n))
    old = (list(v.prolong), list(v.nonmult), rdmon(v.ansector))
    v.update()
    same(c, 'update of an unchanged element', (list(v.prolong), list(v.nonmult), rdmon(v.ansector)), old)
    c.outcome((a, b))


Z2 = (0, 0)
x = FIELD.from_sympy(X[0])
y = FIELD.from_sympy(X[1])
CACHED = {
    'ring': (Poly, 0, [{(-1, (1, 0)): F(2), (-1, Z2): F(3)}, {(-1, (0, 1)): F(1), (-1, Z2): F(-1, 2)}, {(-1, (1, 1)): F(1), (-1, (0, 1)): F(5), (-1, (1, 0)): F(1)},
                       {(-1, (2, 0)): F(-3), (-1, (0, 1)): F(2)}, {(-1, (0, 2)): F(1), (-1, (1, 0)): F(7)}, {(-1, Z2): F(4)}, {(-1, (0, 3)): F(1), (-1, (1, 1)): F(2)}]),
    'module': (Poly, 2, [{(0, (1, 0)): F(2), (1, Z2): F(3)}, {(1, (0, 1)): F(1), (0, Z2): F(-1, 2)}, {(1, (1, 1)): F(1), (0, (0, 1)): F(5)}, {(0, (2, 0)): F(-3), (0, (0, 1)): F(2), (1, Z2): F(1)},
                         {(1, (0, 2)): F(1), (0, (1, 0)): F(7)}, {(0, Z2): F(4), (1, Z2): F(1)}]),
    'shifts': (PolySchem, 2, [{(0, (1, 0)): F(2), (0, Z2): F(3)}, {(1, (0, 1)): F(1), (0, Z2): F(-1, 2)}, {(1, (1, 1)): F(1), (0, (0, 1)): F(5)}, {(0, (0, 2)): F(1), (1, Z2): F(1)}]),
    'derivatives': (PolyDiff, 2, [{(0, (1, 0)): F(2), (0, Z2): x}, {(0, (0, 1)): y, (1, Z2): x*x}, {(1, (0, 1)): F(1), (1, Z2): x*y}, {(1, (1, 1)): x + 1, (0, (0, 1)): F(5)},
                                  {(0, (0, 2)): x, (1, (1, 0)): F(1), (-1, Z2): y}, {(1, (2, 0)): F(1), (0, Z2): y}]),
}


def cached(name):
    cls, k, polys = CACHED[name]

    def f(c):
        n = 2
        o = c.pick(NAMES)
        init(cls, n, k, o)
        key = py_key(o)
        comps = tuple(range(k)) if k else (-1,)
        plain = c.choose(2)
        kind = (Janet, JanetCache)[plain]
        T = Forest(kind) if k else kind()
        G, ever = {}, []
        ask = c.choose(2)

        def look():
            L = sorted(G)
            NM = {m: janet_nm(L, m) for m in L}

            def involutive(p):
                # normal form of the tail, every divisor being the one of the division
                p, done = dict(p), {}
                first = True
                p0 = lm(p, key)[0]      # every tree of a forest reduces by its own elements
                while p:
                    m = lm(p, key)
                    l = [] if first else [l for l in L if inv_divides(NM[l], l, m) and l[0] == p0]
                    first = False
                    if l:
                        h = lift(cls, G[l[0]][0], tuple(a - b for a, b in zip(m[1], l[0][1])), n)
                        p = clean(padd(p, h, -(p[m]*inv(h[m]))))
                    else:
                        done[m] = p.pop(m)
                return done
            for m in monomials(n, 0, 3, comps) + [(k - 1, Z2)]:
                want = [l for l in L if inv_divides(NM[l], l, m)]
                p = T.find(mkmon(m))
                if not want:
                    c.check(p is None, 'a polynomial is found for', m)
                    continue
                c.check(p is not None, 'no polynomial is found for', m)
                g = G[want[0]][0]
                r = rdpoly(c, p, cls)
                if kind is Janet or m == want[0]:
                    c.check(p is G[want[0]][1].poly, 'the polynomial found is not the one in the tree')
                    c.check(proportional(r, g), 'the polynomial in the tree changed to', p)
                elif not ask:
                    h = lift(cls, g, tuple(a - b for a, b in zip(m[1], want[0][1])), n)
                    c.check(proportional(r, involutive(h)), 'the multiple found for', m, 'is', p, 'instead of', show(involutive(h)))
                else:
                    # remembered multiples may be older than the elements
                    c.check(lm(r, key) == m, 'the multiple found for', m, 'is', p)
                    c.check(not any(l[0] == m[0] and inv_divides(NM[l], l, t) for t in r if t != m for l in L), 'the multiple found for', m, 'has a reducible tail:', p)
                    if cls is not PolyDiff:
                        samepoly(c, 'modulo the elements, the multiple found for %s' % (m,), nf(r, groebner(ever, key), key), {})
                c.count('polynomials found')
        L = [c.choose(len(polys)) for i in range(3 + ('thorough' in sys.argv))]
        c.note(o, kind.__name__, [show(polys[i]) for i in L])
        for i in L:
            p = field(polys[i]) if cls is PolyDiff else polys[i]
            P = mkpoly(p, cls)
            w = Wrap(P)
            m = rdmon(w.lm)
            if T.findWrap(w.lm):
                continue
            for x in T.insert([w]):
                del G[rdmon(x.lm)]
            G[m] = (p, w)
            ever.append(p)
            if ask:
                look()
            # the caller's polynomial is its own
            samepoly(c, 'the polynomial the element was made of', rdpoly(c, P, cls), p)
        look()
        look()
        if ask:
            # the elements keep their meaning when their own tails are reduced
            for w in T:
                w.poly.NFtail(T)
                w.poly.pp()
        samepoly(c, 'the polynomial the last element was made of', rdpoly(c, P, cls), p)
        if k:
            # elements of no component have no tree
            one = Wrap(mkpoly({(-1, Z2): F(1)}, cls))
            c.check(T.findWrap(one.lm) is None and T.find(one.lm) is None, 'a divisor of no component')
            m = lms(T)
            refused(c, 'an element without component in a forest', lambda: T.insert([one]))
            same(c, 'elements', lms(T), m)
        c.outcome((o, L))
    return f


def criteria(c):
    """the criteria may drop a pair of elements only if its S-polynomial is known to reduce"""
    n = 2
    k = c.choose(2)*2
    cls = c.pick((Poly, PolySchem, PolyDiff)) if k else Poly
    init(cls, n, k, 'TOPdeglex')
    box = monomials(n, 0, 2, (0,) if k else (-1,))
    a, b = c.pick(box), c.pick(box)
    v, w = Wrap(mkpoly({a: F(1)}, cls)), Wrap(mkpoly({b: F(1)}, cls))

    def up(w):
        for i in range(n):
            for j in range(c.choose(3)):
                w.nonmult[i], w.prolong[i] = True, False
                w = Wrap(w, i)
        return w
    v, w = up(v), up(w)
    l, A, B = rdmon(v.lm), rdmon(v.ansector), rdmon(w.ansector)
    co = not k and all(i == 0 or j == 0 for i, j in zip(A[1], B[1]))
    c.check(not v.crit1(w) or co, 'the product criterion holds for', A, B, 'in', cls.__name__)
    c.count('product' if v.crit1(w) else 'no product')
    # the lcm of the ancestors properly divides the monomial at hand
    m = mlcm(A, B)
    chain = cls is Poly and divides(m, l) and m != l
    if divides(rdmon(w.lm), l):
        c.check(not v.crit2(w) or chain, 'the chain criterion holds for', A, B, 'at', l, 'in', cls.__name__)
        c.count('chain' if v.crit2(w) else 'no chain')
    c.outcome((k, a, b, l, rdmon(w.lm)))


def binomials(c):
    """the polynomials counting combinations"""
    n, d = c.choose(7), c.choose(7)
    for i in range(2):          # twice: the class remembers what it has computed
        h = CombRepet(n + 1, d=d) if c.choose(2) else CombRepet(n + 1, d)
        for s in range(-3, 12):
            w = F(1)
            for j in range(1, n + 1):
                w = w*(s - d + j)/j
            same(c, 'combinations with repetition %d %d at %d' % (n, d, s), hpvalue(h, s), w)
    if n:
        H = HilbertPoly(n)
        G = HilbertPoly(n, init=False)
        same(c, 'zero', [int(x) for x in G], [0]*(n + 1))
        G += H
        H -= CombRepet(n, d=d)
        for s in range(0, 8):
            w = F(1)
            for j in range(1, n):
                w = w*(s - d + j)/j
            same(c, 'sum', hpvalue(G, s), comb(s + n, n))
            same(c, 'difference', hpvalue(H, s), comb(s + n, n) - w)
        checkhp(c, G, n, 0, [comb(s + n, n) for s in range(4)], 'of everything')
        again = CombRepet(n + 1)
        for s in range(0, 5):
            same(c, 'combinations afterwards', hpvalue(again, s), comb(s + n, n))
    c.outcome((n, d))


for K in (Janet, JanetCache):
    nm = K.__name__
    mcpy.bfs('plane ' + nm, machine(K, 2, 3, batch=K is Janet, prol=False), 12)
    mcpy.bfs('plane with prolongations ' + nm, machine(K, 2, 3), 5 if K is Janet else 3)
    mcpy.bfs('space ' + nm, machine(K, 3, 2, prol=False), 3 if K is JanetCache else 6)
mcpy.bfs('large plane', machine(Janet, 2, 4, prol=False), 6)
mcpy.bfs('larger plane', machine(Janet, 2, 5, prol=False), 6, tiers=('thorough',))
mcpy.bfs('large space', machine(Janet, 3, 3, prol=False), 4, tiers=('thorough',))
mcpy.bfs('forest', machine(Janet, 2, 2, 3), 3)
mcpy.bfs('deep forest', machine(Janet, 2, 2, 3), 4, tiers=('thorough',))
mcpy.bfs('forest Cache', machine(JanetCache, 2, 2, 2), 4)
mcpy.bfs('line', machine(Janet, 1, 6), 8)
mcpy.part('sequences in space', subsets(Janet, 3, 3, 0, 2), split=2)
mcpy.part('triples in space', subsets(Janet, 3, 3, 0, 3), split=2, tiers=('thorough',))
mcpy.part('triples in the plane', subsets(Janet, 2, 4, 0, 3), split=2)
mcpy.part('four variables', subsets(Janet, 4, 2, 0, 3), split=2)
mcpy.part('components', subsets(JanetCache, 2, 3, 2, 3), split=2)
mcpy.part('wraps', wraps, split=1)
for nm in CACHED:
    mcpy.part('found ' + nm, cached(nm), split=3)
mcpy.part('criteria', criteria, split=3)
mcpy.part('binomials', binomials, split=2)
if __name__ == '__main__':
    mcpy.main()

"""C24: the basis object of the Python bindings."""
import gc, time
from fractions import Fraction
from cyglue import *
import mcpy

THOROUGH = 'thorough' in sys.argv
GO = [(a, b) for a in ('TOP', 'POT') for b in ('lex', 'deglex')]      # alex is no well-order


def same(c, what, got, want):
    c.check(got == want, what, 'is', got, 'instead of', want)


def refused(c, what, f):
    try:
        r = f()
    except (TypeError, AssertionError, ValueError, OverflowError, AttributeError, IndexError):
        return
    c.fail(what, 'is accepted and gives', repr(r)[:80])


def evalpoly(cs, s):
    return sum(Fraction(x)*s**i for i, x in enumerate(cs))


def frac(s):
    return Fraction(s)


def judge(c, B, F, order, n, comps, deep=True):
    """everything the basis object says, for the generators F"""
    key = core_key(*order)
    R = groebner(F, key)
    unit = any(deg(lm(r, key)) == 0 and lm(r, key)[0] == -1 for r in R)
    same(c, 'isOne', bool(B.isOne()), unit)
    W = list(B)
    same(c, 'truth', bool(B), len(B) > 0)
    # the core keeps the element 1 apart: it is counted and found, and not listed
    same(c, 'length', (len(B), len(W)), (1, 0) if unit else (len(W), len(W)))
    if unit:
        refused(c, 'the Hilbert polynomial of the whole ring', B.HilbertPoly)
        for m in monomials(n, 0, 2):
            c.check(B.find(mkmon(m)) is not None, 'nothing found for', m, 'in the whole ring')
            g = mkpoly({m: 3}, order, n)
            c.check(not B.nf(g), 'normal form of', m, 'modulo the whole ring is not zero')
            same(c, 'the argument of nf', rdpoly(c, g), {m: 3})
        return W
    G = [rdpoly(c, w.poly(), order) for w in W]
    L = []
    for w, g in zip(W, G):
        c.check(g, 'a basis element is zero')
        l = lm(g, key)
        L.append(l)
        same(c, 'lm', rdmon(w.lm()), l)
        same(c, 'lm of poly', rdmon(w.poly().lm()), l)
        c.check(divides(rdmon(w.ansector()), l) and rdmon(w.ansector())[0] == l[0], 'ancestor', rdmon(w.ansector()), 'of', l)
        same(c, 'isGB', bool(w.isGB()), rdmon(w.ansector()) == l)
        same(c, 'primitive', gcd(*g.values()), 1)
        c.check(not nf(g, R, key), 'basis element', show(g), 'is not in the ideal')
    c.check(len(set(L)) == len(L), 'two elements share a leading monomial')
    for r in R:
        c.check(any(x[0] == lm(r, key)[0] and divides(x, lm(r, key)) for x in L), 'no leading monomial divides', lm(r, key), ': not a Groebner basis')
    # the minimal ones are those whose leading monomial generates
    NM = [janet_nm(L, l) for l in L]
    for w, l, nm in zip(W, L, NM):
        same(c, 'NM of %s' % (l,), [bool(w.NM(v)) for v in range(n)], nm)
        same(c, 'str', str(w), '%s%s[%s]' % (w.lm(), w.ansector(), ''.join('*' if x else ' ' for x in nm)))
        for v in range(n):
            w.build(v)
            if nm[v]:
                m = (l[0], tuple(x + (i == v) for i, x in enumerate(l[1])))
                c.check(any(inv_divides(a, b, m) for a, b in zip(NM, L)), 'the prolongation', m, 'has no Janet divisor')
        refused(c, 'variable %d' % n, lambda: w.NM(n))
        refused(c, 'variable -1', lambda: w.build(-1))
    D = max([deg(l) for l in L] + [1]) + 1
    for m in monomials(n, 0, D, comps):
        want = [i for i in range(len(L)) if inv_divides(NM[i], L[i], m)]
        f = B.find(mkmon(m))
        if f is None:
            c.check(not want, 'find', m, 'gives nothing, the divisor is', [L[i] for i in want])
        else:
            c.check(want and rdmon(f.lm()) == L[want[0]], 'find', m, 'gives', rdmon(f.lm()), 'instead of', [L[i] for i in want])
            same(c, 'the polynomial found', rdpoly(c, f.poly()), G[want[0]])
        if deep:
            p = {m: 6}
            g = mkpoly(p, order, n)
            checknf(c, B, g, p, R, key, order)
    if deep:
        # a dense polynomial, basis elements and their successors
        p = {m: 2*i + 1 for i, m in enumerate(monomials(n, 0, min(D, 3), comps))}
        checknf(c, B, mkpoly(p, order, n), p, R, key, order)
        for w, g in zip(W, G):
            checknf(c, B, w.poly(), g, R, key, order)
            checknf(c, B, w.poly()*2 - 0, {m: 2*x for m, x in g.items()}, R, key, order)
        for w, g in zip(W, G):
            same(c, 'the basis after normal forms', rdpoly(c, w.poly()), g)
    hilbert(c, B, L, NM, n, comps, max(m[0] for p in F for m in p))
    return W


def checknf(c, B, g, p, R, key, order):
    r = B.nf(g)
    want = nf(p, R, key)
    got = rdpoly(c, r, order)
    if want:
        c.check(got and monic(got, key) == monic(want, key), 'the normal form of', show(p), 'is', show(got), 'instead of a multiple of', show(want))
    else:
        c.check(not got, 'the normal form of', show(p), 'is', show(got), 'instead of 0')
    same(c, 'the argument of nf afterwards', rdpoly(c, g, order), p)
    c.check(r is not g, 'nf gives its argument')
    c.count('normal forms')


def hilbert(c, B, L, NM, n, comps, top):
    real = sorted({l[0] for l in L})
    if not L:
        refused(c, 'the Hilbert polynomial of an empty basis', B.HilbertPoly)
        return
    same(c, 'maxPos', B.maxPos(), top)
    D = max(deg(l) for l in L)
    total = [frac(x) for x in B.HilbertPoly()]
    ambient = range(-1, 0) if top < 0 else range(0, top + 1)
    for s in (D, D + 1, D + 2):
        cnt = {}
        for pos in ambient:
            k = 0
            for m in monomials(n, 0, s, (pos,)):
                if not any(l[0] == pos and divides(l, m) for l in L):
                    k += 1
            cnt[pos] = k
        if not (min(real) < 0 <= top):
            same(c, 'the Hilbert polynomial at %d' % s, evalpoly(total, s), sum(cnt.values()))
        for pos in real:
            t = [frac(x) for x in B.janet(pos).HilbertPoly()]
            if pos in cnt:
                same(c, 'the Hilbert polynomial of component %d at %d' % (pos, s), evalpoly(t, s), cnt[pos])
    for pos in real:
        same(c, 'size of the tree of component %d' % pos, B.janet(pos).size(), sum(1 for l in L if l[0] == pos))
    for pos in range(-1, top + 1):
        if pos not in real:
            same(c, 'size of the tree of component %d' % pos, B.janet(pos).size(), 0)
            same(c, 'the Hilbert polynomial of an empty tree', B.janet(pos).HilbertPoly(), [])
    for pos in (top + 1, -2, 50):
        refused(c, 'janet(%d)' % pos, lambda: B.janet(pos))


def counters(c, B):
    for nm in ('reduction', 'maxEqualLm', 'critI', 'critII', 'isZeroNf'):
        v = getattr(B, nm)()
        c.check(isinstance(v, int) and v >= 0, nm, 'is', v)
    t = B.timer()
    same(c, 'str of the timer', str(t), 'userTime: %.2f, sysTime: %.2f, realTime: %.2f' % (t.userTime(), t.sysTime(), t.realTime()))


def fam(mons, coefs, maxterms):
    out = []
    for cs in product([0] + coefs, repeat=len(mons)):
        if 0 < sum(1 for k in cs if k) <= maxterms:
            out.append({m: k for m, k in zip(mons, cs) if k})
    return out


M2 = monomials(2, 0, 2)
FAMS = {
    'ideals': (2, fam(M2, [1, -2], 2), (-1,)),
    'cubic': (2, [{(-1, (3, 0)): 1, (-1, (0, 1)): -1}, {(-1, (1, 2)): 2, (-1, (0, 0)): 3}, {(-1, (2, 1)): 1}, {(-1, (0, 3)): 1, (-1, (1, 0)): 5}, {(-1, (1, 1)): 4, (-1, (0, 1)): -6}, {(-1, (0, 0)): 7}], (-1,)),
    'space': (3, [{(-1, (1, 1, 0)): 1, (-1, (0, 0, 1)): -1}, {(-1, (0, 2, 0)): 2, (-1, (1, 0, 0)): 3}, {(-1, (0, 1, 1)): 1, (-1, (0, 0, 0)): -1}, {(-1, (2, 0, 0)): 1, (-1, (0, 0, 2)): 1}, {(-1, (1, 0, 1)): 2}], (-1,)),
    'modules': (2, fam([(0, (1, 0)), (1, (0, 0)), (1, (0, 2)), (0, (0, 1)), (0, (0, 0))], [1, -3], 2), (0, 1)),
}


def generators(name, k):
    n, A, comps = FAMS[name]

    def f(c):
        order = c.pick(GO)
        F, i = [], 0
        for j in range(k):
            i = i + c.choose(len(A) - i)
            F.append(A[i])
        c.note(order, [show(p) for p in F])
        B = ginv.janet_poly_int()
        G = []
        for p in F:
            g = mkpoly(p, order, n)
            same(c, 'comparable', bool(B.comparable(g)), True)
            c.check(B.push(g) is B, 'push gives another object')
            G.append(g)
        B.build()
        for p, g in zip(F, G):
            same(c, 'a generator afterwards', rdpoly(c, g, order), p)
        del G
        # building again changes nothing
        judge(c, B, F, order, n, comps)
        counters(c, B)
        x = [rdpoly(c, w.poly()) for w in B]
        B.build()
        same(c, 'the basis built again', [rdpoly(c, w.poly()) for w in B], x)
        if B.isOne():
            # everything lies in the whole ring and compares with it
            c.outcome((order, [sorted(p.items()) for p in F]))
            return
        for o2 in ORDERS:
            h = mkpoly({(-1, (1,)*n): 5}, o2, n)
            same(c, 'comparable', bool(B.comparable(h)), o2 == order)
            if o2 != order:
                refused(c, 'push of another order', lambda: B.push(h))
                refused(c, 'nf of another order', lambda: B.nf(h))
        h = mkpoly({(-1, (1,)*(n + 1)): 5}, order, n + 1)
        refused(c, 'push of another size', lambda: B.push(h))
        refused(c, 'nf of another size', lambda: B.nf(h))
        refused(c, 'find of another size', lambda: B.find(mkmon((-1, (1,)*(n + 1)))))
        for d in (None, 1, ginv.poly_int(), ginv.monom()):
            refused(c, 'push(%r)' % type(d), lambda: B.push(d))
            refused(c, 'nf(%r)' % type(d), lambda: B.nf(d))
            refused(c, 'find(%r)' % type(d), lambda: B.find(d))
        same(c, 'the basis afterwards', [rdpoly(c, w.poly()) for w in B], x)
        c.outcome((order, [sorted(p.items()) for p in F]))
    return f


def incremental(c):
    """pushes and builds in every interleaving"""
    name = c.pick(['cubic', 'space', 'modules'])
    n, A, comps = FAMS[name]
    A = A if len(A) < 8 else A[::7]
    order = c.pick(GO)
    B = ginv.janet_poly_int()
    F = []
    for k in range(3):
        p = c.pick(A)
        B.push(mkpoly(p, order, n))
        F.append(p)
        if c.choose(2):
            B.build()
            judge(c, B, F, order, n, comps, deep=False)
    B.build()
    judge(c, B, F, order, n, comps, deep=False)
    c.outcome((name, order, [sorted(p.items()) for p in F]))


def lifetime(c):
    """views of a basis outlive its variable"""
    name = c.pick(['cubic', 'space', 'modules'])
    n, A, comps = FAMS[name]
    A = A if len(A) < 8 else A[::7]
    order = c.pick(GO)
    F = [c.pick(A), c.pick(A)]

    def mk():
        B = ginv.janet_poly_int()
        for p in F:
            B.push(mkpoly(p, order, n))
        B.build()
        return B
    B = mk()
    key = core_key(*order)
    want = [rdpoly(c, w.poly()) for w in B]
    lms = [rdmon(w.lm()) for w in B]
    how = c.choose(5)
    if how == 0:
        v = list(B)
    elif how == 1:
        v = [w.poly() for w in B]
    elif how == 2:
        v = [(w.lm(), w.ansector(), w.poly().lm(), w.poly().lc(), list(w.poly())) for w in B]
    elif how == 3:
        v = [B.find(mkmon(m)) for m in lms] if not B.isOne() else list(B)
    else:
        v = (B.timer(), None if B.isOne() else B.janet(max(m[0] for m in lms)), iter(B), B.nf(mkpoly({(comps[0], (2,)*n): 1}, order, n)))
        nfw = rdpoly(c, v[3])
        jw = v[1] and (v[1].size(), v[1].HilbertPoly())
        tw = v[0].realTime()
    del B
    gc.collect()
    keep = []
    for i in range(3):       # use the memory which was given back
        keep.append(mk())
        p = mkpoly({m: 7**(30 + i) + j for j, m in enumerate(monomials(n, 0, 3, comps))}, order, n)
        keep.append(p*3)
    if how == 0 or how == 3:
        same(c, 'elements kept', [(rdmon(w.lm()), rdpoly(c, w.poly())) for w in v], list(zip(lms, want)))
    elif how == 1:
        same(c, 'polynomials kept', [rdpoly(c, p) for p in v], want)
    elif how == 2:
        same(c, 'leading terms kept', [(rdmon(a), rdmon(d), int(str(e)), {rdmon(m): int(str(x)) for m, x in t}) for a, b, d, e, t in v], [(l, l, p[l], p) for l, p in zip(lms, want)])
    else:
        same(c, 'timer kept', v[0].realTime(), tw)
        same(c, 'tree kept', v[1] and (v[1].size(), v[1].HilbertPoly()), jw)
        same(c, 'iterator kept', [rdpoly(c, w.poly()) for w in v[2]], want)
        same(c, 'normal form kept', rdpoly(c, v[3]), nfw)
    c.outcome((name, order, how, lms))


def empty(c):
    """a basis without generators, and one with zeros only"""
    order = c.pick(GO)
    how = c.choose(4)
    B = ginv.janet_poly_int()
    n = 2
    z = mkpoly({}, order, n)
    if how & 1:
        B.push(z)
    if how & 2:
        B.build()
    same(c, 'length', (len(B), bool(B), list(B), bool(B.isOne())), (0, False, [], False))
    for m in monomials(n, 0, 2, (-1, 0)):
        c.check(B.find(mkmon(m)) is None, 'something is found in the empty basis')
        g = mkpoly({m: 4}, order, n)
        r = rdpoly(c, B.nf(g))
        c.check(list(r) == [m], 'normal form modulo nothing', show(r))
    refused(c, 'Hilbert polynomial of nothing', B.HilbertPoly)
    refused(c, 'tree of a component which is not there', lambda: B.janet(0))
    if how & 2:
        same(c, 'tree of nothing', (B.janet(-1).size(), B.janet(-1).HilbertPoly()), (0, []))
    counters(c, B)
    p = {(-1, (1, 0)): 1, (-1, (0, 0)): 2}
    B.push(mkpoly(p, order, n))
    B.build()
    judge(c, B, [p], order, n, (-1,))
    for cls in (ginv.wrap_poly_int, ginv.const_janet, ginv.const_timer):
        o = cls()
        for nm in ('lm', 'ansector', 'isGB', 'poly', 'size', 'HilbertPoly', 'userTime', 'sysTime', 'realTime', '__str__'):
            if nm in cls.__dict__:
                refused(c, 'empty %s.%s' % (cls.__name__, nm), getattr(o, nm))
    for nm in ('NM', 'build'):
        refused(c, 'empty wrap.' + nm, lambda: getattr(ginv.wrap_poly_int(), nm)(0))


def clocks(c):
    """the timer of a basis measures its own completions"""
    n = 6
    order = c.pick([('TOP', 'deglex'), ('POT', 'deglex')])
    X = [mkpoly({(-1, tuple(int(i == j) for j in range(n))): 1}, order, n) for i in range(n)]
    B, E = ginv.janet_poly_int(), ginv.janet_poly_int()
    for k in range(1, n):
        s = None
        for i in range(n):
            t = X[i]
            for j in range(1, k):
                t = t*X[(i + j) % n]
            s = t if s is None else s + t
        B.push(s)
    t = X[0]
    for j in range(1, n):
        t = t*X[j]
    B.push(t - 1)
    same(c, 'times before', [(x.timer().userTime(), x.timer().sysTime(), x.timer().realTime()) for x in (B, E)], [(0, 0, 0)]*2)
    t0, p0 = time.time(), time.process_time()
    B.build()
    w, p = time.time() - t0, time.process_time() - p0
    T = B.timer()
    c.note('elapsed', w, 'cpu', p, T)
    c.check(w/2 - 0.02 <= T.realTime() <= w + 0.02, 'the basis took', w, 's, its timer says', T.realTime())
    u = T.userTime() + T.sysTime()
    c.check(p/2 - 0.03 <= u <= p + 0.03, 'the basis took', p, 's of the processor, its timer says', u)
    g = ginv.allocator.GC_timer()
    c.check(0 <= g.realTime() <= w + 60, 'GC timer', str(g))
    same(c, 'times of the other basis', (E.timer().userTime(), E.timer().sysTime(), E.timer().realTime()), (0, 0, 0))
    same(c, 'size of cyclic 6', sorted({deg(rdmon(x.lm())) for x in B if x.isGB()})[:3], [1, 2, 3])


for nm in FAMS:
    mcpy.part('one generator ' + nm, generators(nm, 1), split=2)
    mcpy.part('two generators ' + nm, generators(nm, 2), split=3)
mcpy.part('three generators cubic', generators('cubic', 3), split=3)
mcpy.part('three generators space', generators('space', 3), split=3)
mcpy.part('three generators ideals', generators('ideals', 3), split=3, tiers=('thorough',))
mcpy.part('incremental', incremental, split=4)
mcpy.part('lifetime', lifetime, split=4)
mcpy.part('empty', empty, split=2)
mcpy.part('clocks', clocks, split=1)
if __name__ == '__main__':
    mcpy.main()

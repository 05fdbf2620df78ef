"""C23: the Python bindings of monomials, integers and polynomials."""
import gc
from fractions import Fraction
from cyglue import *
import mcpy

THOROUGH = 'thorough' in sys.argv


def sign(x):
    return (x > 0) - (x < 0)


def refused(c, what, f, ok=(TypeError, AssertionError, ValueError, OverflowError, AttributeError, IndexError)):
    """f must end with an error"""
    try:
        r = f()
    except ok:
        c.count('refused')
        return
    c.check(r is NotImplemented, what, 'is accepted and gives', repr(r)[:80])


def same(c, what, got, want):
    c.check(got == want, what, 'is', got, 'instead of', want)


# ---------------------------------------------------------------- monomials
def mon_check(c, name, g, m):
    """every query of a monomial"""
    same(c, name, rdmon(g), m)
    same(c, 'degree of ' + name, g.degree(), deg(m))
    same(c, 'len of ' + name, len(g), len(m[1]))
    same(c, 'truth of ' + name, bool(g), deg(m) > 0)
    same(c, 'items of ' + name, tuple(g[i] for i in range(len(m[1]))), m[1])
    e = ' '.join(map(str, m[1]))
    same(c, 'str of ' + name, str(g), '[%s]' % e if m[0] < 0 else '[%d:%s]' % (m[0], e))
    same(c, 'repr of ' + name, repr(g), '[%d %d:%s]' % (m[0], deg(m), e))


MONS = [m for n, d in ((2, 3), (3, 2)) for m in monomials(n, 0, 4 if THOROUGH and n == 2 else d, (-1, 0, 2))]
MONS += [(-1, (0, 0, 0, 5)), (1, (7, 0, 1, 2))]


def monom_pairs(c):
    a = c.pick(MONS)
    b = c.pick(MONS)
    ga, gb = mkmon(a), mkmon(b)
    if c.choose(2):   # the same through the leading monomial of a polynomial
        ga = ginv.poly_int.to_monom('TOP', 'lex', ga).lm()
        gb = ginv.poly_int.to_monom('POT', 'alex', gb).lm()
    c.note(a, b)
    mon_check(c, 'a', ga, a)
    n = len(a[1])
    if n != len(b[1]):
        for nm in ('divisiable', 'lex', 'deglex', 'alex', '__mul__', '__truediv__'):
            refused(c, nm + ' of different sizes', lambda: getattr(ga, nm)(gb))
    else:
        same(c, 'divisiable', bool(ga.divisiable(gb)), divides(b, a))
        for o in ('lex', 'deglex', 'alex'):
            k = core_key('POT', o)
            x, y = k((-1, a[1])), k((-1, b[1]))
            same(c, o, sign(getattr(ga, o)(gb)), (x > y) - (x < y))
        if a[0] >= 0 and b[0] >= 0:
            refused(c, 'product of two components', lambda: ga*gb)
        else:
            mon_check(c, 'a*b', ga*gb, mmul(a, b))
            x = ga
            x *= gb
            mon_check(c, 'a*=b', x, mmul(a, b))
        if divides(b, a):
            mon_check(c, 'a/b', ga/gb, mquo(a, b))
        else:
            refused(c, 'quotient by a non-divisor', lambda: ga/gb)
    mon_check(c, 'a afterwards', ga, a)
    mon_check(c, 'b afterwards', gb, b)
    c.outcome((a, b))


def monom_single(c):
    a = c.pick(MONS)
    g = mkmon(a)
    n = len(a[1])
    for k in range(4):
        if a[0] < 0:
            mon_check(c, 'a**%d' % k, g**k, (-1, tuple(x*k for x in a[1])))
        else:
            refused(c, 'power of a module element', lambda: g**k)
    refused(c, 'negative power', lambda: g**-1)
    for k in (-1, n, n + 1, 100, -n, 10**30, None, 'x'):
        refused(c, 'item %r' % (k,), lambda: g[k])
    for k in (None, 1, 2.0, 'x', [1], ginv.monom(), ginv.const_monom()):
        for nm in ('*', '/', 'divisiable', 'lex', 'deglex', 'alex'):
            if nm == '*':
                refused(c, 'a*%r' % type(k), lambda: g*k)
                refused(c, '%r*a' % type(k), lambda: k*g)
            elif nm == '/':
                refused(c, 'a/%r' % type(k), lambda: g/k)
            else:
                refused(c, nm, lambda: getattr(g, nm)(k))
    for v in (-1, n, n + 5):
        refused(c, 'variable %d of %d' % (v, n), lambda: ginv.monom.variable(v, n, -1))
    refused(c, 'position -2', lambda: ginv.monom.zero(n, -2))
    refused(c, 'a + a', lambda: g + g)
    for v in range(n):
        mon_check(c, 'variable', ginv.monom.variable(v, n, a[0]), (a[0], tuple(int(i == v) for i in range(n))))
    mon_check(c, 'zero', ginv.monom.zero(n, a[0]), (a[0], (0,)*n))
    p = ginv.randpermutation(n)
    for k in range(c.choose(4)):
        p.next()
    q = tuple(p[i] for i in range(n))
    c.check(sorted(q) == list(range(n)), 'not a permutation', q)
    g2 = g.permutation(p)
    # which of the two conventions is C11's business: here the exponents are the same and the two agree on variables
    same(c, 'exponents after a permutation', sorted(g2), sorted(a[1]))
    conv = [tuple(a[1][q[i]] for i in range(n)), tuple(a[1][q.index(i)] for i in range(n))]
    c.check(tuple(g2) in conv and g2.pos() == a[0], 'permutation', q, 'of', a, 'gives', rdmon(g2))
    mon_check(c, 'a afterwards', g, a)
    same(c, 'setPos gives itself', g.setPos(3) is g, True)
    mon_check(c, 'a in component 3', g, (3, a[1]))
    refused(c, 'setPos(-2)', lambda: g.setPos(-2))
    mon_check(c, 'a in component 3', g, (3, a[1]))


# -------------------------------------------------------------- polynomials
def int_check(c, name, g, v):
    same(c, 'str of ' + name, str(g), str(v))
    same(c, 'repr of ' + name, repr(g), hex(v))
    same(c, 'sgn of ' + name, g.sgn(), sign(v))
    same(c, 'isZero of ' + name, bool(g.isZero()), v == 0)
    same(c, 'isOne of ' + name, bool(g.isOne()), v == 1)
    same(c, 'isAbsOne of ' + name, bool(g.isAbsOne()), abs(v) == 1)
    same(c, 'truth of ' + name, bool(g), v != 0)
    c.check((g.norm() > 0) == (v != 0), 'norm of', name, g.norm())


def poly_check(c, name, g, p, order, n):
    """every query of a polynomial"""
    key = core_key(*order)
    got = rdpoly(c, g, order)
    c.check(got == p, name, 'is', show(got), 'instead of', show(p))
    same(c, 'order of ' + name, g.order(), order)
    same(c, 'size of ' + name, g.size(), n)
    same(c, 'isZero of ' + name, bool(g.isZero()), not p)
    same(c, 'truth of ' + name, bool(g), bool(p))
    if not p:
        refused(c, 'lm of zero', g.lm)
        refused(c, 'lc of zero', g.lc)
        refused(c, 'degree of zero', g.degree)
        same(c, 'str of zero', (str(g), repr(g)), ('0', '0'))
        return
    l = lm(p, key)
    mon_check(c, 'lm of ' + name, g.lm(), l)
    int_check(c, 'lc of ' + name, g.lc(), p[l])
    same(c, 'degree of ' + name, g.degree(), deg(l))   # of the leading monomial
    same(c, 'isPp of ' + name, bool(g.isPp()), gcd(*p.values()) == 1)
    same(c, 'str of ' + name, str(g), '%s*%s + ...' % (g.lm(), p[l]))
    same(c, 'repr of ' + name, repr(g), '%r*%s + ...' % (g.lm(), hex(p[l])))


def polys(n, mons, coefs, maxterms):
    out = []
    for cs in product([0] + coefs, repeat=len(mons)):
        if sum(1 for k in cs if k) <= maxterms:
            out.append({m: k for m, k in zip(mons, cs) if k})
    return out


FAM = {
    'ring': (2, polys(2, [(-1, (0, 0)), (-1, (1, 0)), (-1, (0, 1)), (-1, (1, 1))], [1, -2], 3 if not THOROUGH else 4)),
    'big': (2, polys(2, [(-1, (0, 0)), (-1, (0, 2)), (-1, (1, 0))], [3, -2**64, 6*2**63], 3)),
    'module': (2, polys(2, [(0, (0, 0)), (1, (0, 0)), (0, (1, 0)), (1, (0, 1))], [1, -2], 3)),
    'mixed': (2, polys(2, [(-1, (0, 0)), (1, (0, 0)), (0, (1, 0)), (-1, (1, 0))], [-1, 3], 2)),
    'three': (3, polys(3, [(-1, (0, 0, 0)), (-1, (1, 0, 0)), (-1, (0, 1, 0)), (-1, (0, 0, 1))], [1, -1], 2)),
}


def ring(p):
    return all(m[0] < 0 for m in p)


def pairs(fam, fam2=None):
    n, A = FAM[fam]
    B = FAM[fam2 or fam][1]

    def f(c):
        order = c.pick(ORDERS)
        a, b = c.pick(A), c.pick(B)
        c.note(order, show(a), '|', show(b))
        ga, gb = mkpoly(a, order, n), mkpoly(b, order, n)
        poly_check(c, 'a', ga, a, order, n)
        S, D = padd(a, b), padd(a, b, -1)
        poly_check(c, 'a+b', ga + gb, S, order, n)
        poly_check(c, 'a-b', ga - gb, D, order, n)
        poly_check(c, 'a.add(b)', ga.add(gb), S, order, n)
        poly_check(c, 'a.sub(b)', ga.sub(gb), D, order, n)
        poly_check(c, '-a', -ga, {m: -k for m, k in a.items()}, order, n)
        if ring(a) or ring(b):
            P = pmul(a, b)
            poly_check(c, 'a*b', ga*gb, P, order, n)
            poly_check(c, 'b.mul(a)', gb.mul(ga), P, order, n)
        else:
            refused(c, 'product of module elements', lambda: ga*gb)
        same(c, 'comparable', bool(ga.comparable(gb)), True)
        x = ga
        x += gb
        poly_check(c, 'a+=b', x, S, order, n)
        x = ga
        x -= gb
        poly_check(c, 'a-=b', x, D, order, n)
        poly_check(c, 'a-a', ga - ga, {}, order, n)
        poly_check(c, 'a+a', ga + ga, {m: 2*k for m, k in a.items()}, order, n)
        key = core_key(*order)
        if a and b:
            la, lb = lm(a, key), lm(b, key)
            if divides(lb, la) and (ring(b) or (la[0] == lb[0])):
                r = ga - gb + gb   # a copy
                c.check(r.reduction(gb) is r, 'reduction gives another object')
                g = gcd(a[la], b[lb])
                want = padd({m: k*(b[lb]//g) for m, k in a.items()}, shift(b, mquo(la, lb)), -(a[la]//g)) if ring({mquo(la, lb): 1}) or ring(b) else None
                if want is not None:
                    got = rdpoly(c, r, order)
                    c.check(got == want or got == {m: -k for m, k in want.items()}, 'reduction gives', show(got), 'instead of', show(want))
                c.count('reductions')
            elif not divides(lb, la):
                refused(c, 'reduction by a non-divisor', lambda: (ga + gb - gb).reduction(gb))
        if a and gcd(*a.values()) != 1:
            r = ga + gb - gb
            c.check(r.pp() is r, 'pp gives another object')
            got = rdpoly(c, r, order)
            g = gcd(*a.values())
            c.check(got in ({m: k//g for m, k in a.items()}, {m: -k//g for m, k in a.items()}), 'pp gives', show(got), 'of', show(a))
        poly_check(c, 'a afterwards', ga, a, order, n)
        poly_check(c, 'b afterwards', gb, b, order, n)
        c.outcome((order, sorted(a.items()), sorted(b.items())))
    return f


INTS = [0, 1, -1, 2, -7, 255, 2**31, -2**31, 2**32 - 1, 2**63 - 1, 2**63, -2**63, 2**64 - 1, 2**64, -2**64, 2**64 + 1, -(2**128) + 1, 10**40, -10**40, 3**300, True, False]


def integers(c):
    fam = c.pick(['ring', 'module', 'big'])
    n, A = FAM[fam]
    order = c.pick(ORDERS)
    a = c.pick(A)
    k = c.pick(INTS)
    c.note(order, show(a), k)
    g = mkpoly(a, order, n)
    one = {(-1, (0,)*n): 1}
    K = {m: v*k for m, v in one.items() if k}
    neg = {m: -v for m, v in a.items()}
    cases = [('p+k', lambda: g + k, padd(a, K)), ('k+p', lambda: k + g, padd(a, K)), ('p-k', lambda: g - k, padd(a, K, -1)), ('k-p', lambda: k - g, padd(neg, K)),
             ('p*k', lambda: g*k, clean({m: v*k for m, v in a.items()})), ('k*p', lambda: k*g, clean({m: v*k for m, v in a.items()})),
             ('p.add(k)', lambda: g.add(k), padd(a, K)), ('p.sub(k)', lambda: g.sub(k), padd(a, K, -1)), ('p.mul(k)', lambda: g.mul(k), clean({m: v*k for m, v in a.items()}))]
    for name, f, want in cases:
        try:
            r = f()
        except AssertionError:
            c.check(not a, name, 'is refused for', show(a), 'and', k)
            continue
        poly_check(c, name, r, want, order, n)
        poly_check(c, 'p after ' + name, g, a, order, n)
    c.outcome((order, sorted(a.items()), k))


def powers(c):
    fam = c.pick(['ring', 'module', 'big', 'three'])
    n, A = FAM[fam]
    order = c.pick(ORDERS)
    a = c.pick(A)
    g = mkpoly(a, order, n)
    one = (-1, (0,)*n)
    for k in range(4):
        if k > 1 and not ring(a):
            refused(c, 'power of a module element', lambda: g**k)
        else:
            poly_check(c, 'p**%d' % k, g**k, ppow(a, k, one), order, n)
    refused(c, 'negative power', lambda: g**-1)
    refused(c, 'power of a polynomial', lambda: 2**g)
    poly_check(c, 'p afterwards', g, a, order, n)


BAD = [None, 1.5, 'x', b'1', [1], (1,), {}, Fraction(1, 2), 1j, object(), ginv.monom.zero(2, -1), ginv.monom(), ginv.poly_int(), ginv.const_poly_int(), ginv.janet_poly_int(), float('nan'), type]


def unsupported(c):
    import operator as op
    order = c.pick(ORDERS)
    a = c.pick([FAM['ring'][1][k] for k in (0, 1, 7, -1)])
    n = 2
    g = mkpoly(a, order, n)
    b = c.pick(BAD)
    for f in (op.add, op.sub, op.mul):
        refused(c, 'p %s %r' % (f.__name__, type(b)), lambda: f(g, b))
        refused(c, '%r %s p' % (type(b), f.__name__), lambda: f(b, g))
    for f in (op.truediv, op.floordiv, op.mod, op.matmul, op.lshift, op.and_, op.or_, op.xor, op.lt, op.le, op.gt, op.ge):
        refused(c, 'p %s %r' % (f.__name__, type(b)), lambda: f(g, b))
        refused(c, 'p %s p' % f.__name__, lambda: f(g, g))
        refused(c, 'p %s 2' % f.__name__, lambda: f(g, 2))
    for nm in ('add', 'sub', 'mul', 'reduction', 'comparable'):
        refused(c, 'p.%s(%r)' % (nm, type(b)), lambda: getattr(g, nm)(b))
    for d in (ginv.poly_int(), ginv.const_poly_int()):
        for nm in ('isZero', 'degree', 'norm', 'lm', 'lc', 'order', 'size', '__neg__', '__len__', '__bool__', '__str__', 'isPp', 'pp'):
            if hasattr(d, nm):
                refused(c, 'empty.' + nm, getattr(d, nm))
        refused(c, 'empty iteration', lambda: list(d))
        refused(c, 'empty**2', lambda: d**2)
        refused(c, 'empty+1', lambda: d + 1)
        refused(c, '1-empty', lambda: 1 - d)
        refused(c, 'empty*p', lambda: d*g)
        refused(c, 'p-empty', lambda: g - d)
        refused(c, 'comparable(empty)', lambda: g.comparable(d))
        refused(c, 'empty.comparable', lambda: d.comparable(g))
    for o2 in ORDERS:
        for n2 in (2, 3):
            h = mkpoly({(-1, (1,)*n2): 5}, o2, n2)
            ok = o2 == order and n2 == n
            same(c, 'comparable', bool(g.comparable(h)), ok)
            if not ok:
                for f in (op.add, op.sub, op.mul):
                    refused(c, 'operands of different rings', lambda: f(g, h))
                refused(c, 'reduction in another ring', lambda: g.reduction(h))
    poly_check(c, 'p afterwards', g, a, order, n)


# ------------------------------------------------------------------ lifetime
def churn(k):
    """uses the memory which was given back"""
    t = []
    for i in range(k):
        p = ginv.poly_int.to_monom('POT', 'alex', ginv.monom.variable(i % 3, 3, 1)**(i % 5 + 1) if False else (ginv.monom.variable(i % 3, 3, -1)**(i % 5 + 1)))
        p = (p*(7**(20 + i)) + 11**(5*i + 1))
        t.append(p)
    for i in range(0, k, 2):
        t[i] = t[i]*t[i - 1] if i else t[i]
    return t


TERMS = [(-1, (1, 1)), (-1, (2, 0)), (-1, (0, 0))]


def lifetime(c):
    """an object obtained from another one outlives its variable"""
    order = c.pick(ORDERS)
    key = core_key(*order)
    k = c.pick([1, -5, 2**70 + 3, -10**60])
    p = {m: k + i for i, m in enumerate(TERMS)}
    L = lm(p, key)
    how = c.choose(9)
    if how == 0:
        v, chk = mkpoly(p, order, 2).lm(), lambda v: mon_check(c, 'lm', v, L)
    elif how == 1:
        v, chk = mkpoly(p, order, 2).lc(), lambda v: int_check(c, 'lc', v, p[L])
    elif how == 2:
        v = list(mkpoly(p, order, 2))
        chk = lambda v: same(c, 'terms', {rdmon(m): int(str(x)) for m, x in v}, p)
    elif how == 3:
        it = iter(mkpoly(p, order, 2))
        v = [next(it)]
        v.append(it)

        def chk(v):
            v[1:] = list(v[1]) if len(v) == 2 else v[1:]   # the rest is read after the polynomial was dropped
            same(c, 'terms', {rdmon(m): int(str(x)) for m, x in v}, p)
    elif how == 4:
        v = (mkpoly(p, order, 2)*3).lm()/mkmon(L)
        chk = lambda v: mon_check(c, 'quotient', v, (-1, (0, 0)))
    elif how == 5:
        v = (mkpoly(p, order, 2) + 0).lm()
        v = (v*v, v)
        chk = lambda v: (mon_check(c, 'square', v[0], mmul(L, L)), mon_check(c, 'lm', v[1], L))
    elif how == 6:
        v = -mkpoly(p, order, 2), (mkpoly(p, order, 2) - 0)
        chk = lambda v: (poly_check(c, '-p', v[0], {m: -x for m, x in p.items()}, order, 2), poly_check(c, 'p', v[1], p, order, 2))
    elif how == 7:
        v = ginv.poly_int.to_monom(order[0], order[1], mkpoly(p, order, 2).lm())
        chk = lambda v: poly_check(c, 'to_monom(lm)', v, {L: 1}, order, 2)
    else:
        a = mkpoly(p, order, 2)
        v = [(m, x) for m, x in a] + [(a.lm(), a.lc())]
        del a
        chk = lambda v: same(c, 'terms', {rdmon(m): int(str(x)) for m, x in v}, p)
    gc.collect()
    x = churn(c.pick([0, 6, 40]))
    chk(v)
    del x
    gc.collect()
    y = churn(9)
    chk(v)
    c.outcome((order, k, how))


class Machine:
    """two polynomials and the views taken from them, under every operation"""
    ORDER = ('TOP', 'deglex')
    N = 2

    def init(self, c):
        s = {'r': [{(-1, (1, 0)): 2, (-1, (0, 0)): -1}, {(-1, (0, 1)): 1}], 'v': []}
        s['g'] = [mkpoly(p, self.ORDER, self.N) for p in s['r']]
        s['gv'] = []
        return s

    def ops(self, s):
        o = []
        for i in (0, 1):
            j = 1 - i
            for nm in ('+', '-', '*', 'r-'):
                o.append((nm, i, j))
            for k in (3, -2**65):
                for nm in ('+k', 'k-', '*k'):
                    o.append((nm, i, k))
            o += [('neg', i), ('pow', i), ('pp', i), ('red', i, j), ('view', i), ('copy', i, j), ('pow0', i)]
        return o

    def apply(self, c, s, op):
        nm, i = op[0], op[1]
        r, g = s['r'], s['g']
        a, ga = r[i], g[i]
        key = core_key(*self.ORDER)
        big = lambda p: len(p) > 12 or any(abs(x) > 2**200 for x in p.values()) or any(deg(m) > 8 for m in p)
        try:
            if nm in ('+', '-', '*', 'r-'):
                b, gb = r[op[2]], g[op[2]]
                if nm == '+':
                    n, h = padd(a, b), ga + gb
                elif nm == '-':
                    n, h = padd(a, b, -1), ga - gb
                elif nm == 'r-':
                    n, h = padd(b, a, -1), gb - ga
                else:
                    if big(a) or big(b):
                        return
                    n, h = pmul(a, b), ga*gb
                r[i], g[i] = n, h
            elif nm in ('+k', 'k-', '*k'):
                k = op[2]
                K = {(-1, (0, 0)): k}
                if big(a):
                    return
                if nm == '+k':
                    n, h = padd(a, K), ga + k
                elif nm == 'k-':
                    n, h = padd(K, a, -1), k - ga
                else:
                    n, h = {m: x*k for m, x in a.items()}, ga*k
                r[i], g[i] = n, h
            elif nm == 'neg':
                r[i], g[i] = {m: -x for m, x in a.items()}, -ga
            elif nm == 'pow':
                if big(a):
                    return
                r[i], g[i] = pmul(a, a), ga**2
            elif nm == 'pow0':
                r[i], g[i] = {(-1, (0, 0)): 1}, ga**0
            elif nm == 'copy':
                r[i], g[i] = r[op[2]], g[op[2]]      # the two variables name one object
            elif nm == 'view':
                if a and len(s['gv']) < 3:
                    l = lm(a, key)
                    s['v'].append((l, a[l]))
                    s['gv'].append((ga.lm(), ga.lc(), ga))
            elif nm == 'pp':
                if not a or gcd(*a.values()) == 1:
                    return
                d = gcd(*a.values())
                h = ga + 0
                h.pp()
                n = {m: x//d for m, x in a.items()}
                if rdpoly(c, h) != n:
                    n = {m: -x for m, x in n.items()}
                r[i], g[i] = n, h
            elif nm == 'red':
                b, gb = r[op[2]], g[op[2]]
                if not a or not b or big(a):
                    return
                la, lb = lm(a, key), lm(b, key)
                if not divides(lb, la):
                    return
                h = ga + 0
                h.reduction(gb)
                d = gcd(a[la], b[lb])
                n = padd({m: x*(b[lb]//d) for m, x in a.items()}, shift(b, mquo(la, lb)), -(a[la]//d))
                if rdpoly(c, h) != n:
                    n = {m: -x for m, x in n.items()}
                r[i], g[i] = n, h
        except AssertionError:
            c.check(not a, op, 'is refused for', show(a))
            return
        for k in (0, 1):
            poly_check(c, 'register %d' % k, g[k], r[k], self.ORDER, self.N)
        for (m, x), (gm, gx, _) in zip(s['v'], s['gv']):
            mon_check(c, 'a kept lm', gm, m)
            int_check(c, 'a kept lc', gx, x)

    def key(self, s):
        return (tuple(sorted(s['r'][0].items())), tuple(sorted(s['r'][1].items())), s['g'][0] is s['g'][1], tuple(s['v']))


mcpy.part('monomials', monom_single, split=1)
mcpy.part('monomial pairs', monom_pairs)
for f in ('ring', 'big', 'module', 'mixed', 'three'):
    mcpy.part('pairs ' + f, pairs(f))
mcpy.part('pairs module ring', pairs('module', 'ring'))
mcpy.part('integers', integers, split=3)
mcpy.part('powers', powers, split=3)
mcpy.part('unsupported', unsupported)
mcpy.part('lifetime', lifetime, split=3)
mcpy.bfs('registers', Machine(), 4, tiers=('quick',))
mcpy.bfs('registers deep', Machine(), 5, tiers=('thorough',))
if __name__ == '__main__':
    mcpy.main()

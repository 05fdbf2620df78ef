"""C25: the monomials of the pure Python package."""
import os, re, sys
from itertools import permutations
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, os.path.join(os.environ['GINV_REPO'], 'pyginv'))
import mcpy
from refpy import *
from monomial import Monom

THOROUGH = 'thorough' in sys.argv
NAMES = ['POTlex', 'TOPlex', 'POTdeglex', 'TOPdeglex']
FUN = ['u', 'v', 'w']


def var(n):
    return ['x', 'y1', 'beta', 'zz'][:n]


def init(n, k, name='POTlex'):
    if k:
        Monom.init(var(n), FUN[:k])
    else:
        Monom.init(var(n))
    Monom.cmp = getattr(Monom, name)


def mk(m):
    return Monom(m[1]) if m[0] < 0 else Monom(m[1], pos=m[0])


def rd(m):
    return (m.position(), tuple(int(x) for x in m))


def same(c, what, got, want):
    c.check(got == want, what, 'is', got, 'instead of', want)


def refused(c, what, f):
    try:
        r = f()
    except (AssertionError, TypeError, ValueError, IndexError):
        return
    c.fail(what, 'is accepted and gives', repr(r)[:80])


class F:
    """stands for a monomial in evaluated text"""
    def __init__(self, m):
        self.m = m

    def __mul__(self, o):
        return F(mmul(self.m, o.m if isinstance(o, F) else self.m and (-1, (0,)*len(self.m[1]))))

    def __pow__(self, k):
        assert self.m[0] < 0
        return F((-1, tuple(x*k for x in self.m[1])))

    def __call__(self, *a):
        assert [x.m for x in a] == [(-1, tuple(int(i == j) for j in range(len(self.m[1])))) for i in range(len(self.m[1]))]
        return self

    def diff(self, *a):
        e = list(self.m[1])
        i = 0
        while i < len(a):
            k = 1
            if i + 1 < len(a) and isinstance(a[i + 1], int):
                k = a[i + 1]
                i += 1
                v = a[i - 1]
            else:
                v = a[i]
            e[v.m[1].index(1)] += k
            i += 1
        return F((self.m[0], tuple(e)))


def names(n, k):
    ns = {v: F((-1, tuple(int(i == j) for j in range(n)))) for i, v in enumerate(var(n))}
    for p in range(k):
        ns[FUN[p]] = F((p, (0,)*n))
    f = lambda u, *a: u.diff(*a)
    ns.update(df=f, T=f, __builtins__={})
    return ns


def value(c, text, ns, n):
    r = eval(text, dict(ns))
    return (-1, (0,)*n) if isinstance(r, int) and r == 1 else r.m


def latexmon(c, s, n, k):
    """{x}^{12} {y} with an optional function in front"""
    e, pos = [0]*n, -1
    t = s.split()
    if t == ['1']:
        return (-1, (0,)*n)
    if t and t[0].strip('{}') in FUN[:k]:
        pos = FUN.index(t.pop(0).strip('{}'))
    for w in t:
        m = re.fullmatch(r'\{?(\w+?)\}?(?:\^(?:(\d)|\{(\d+)\}))?', w)
        c.check(m and m.group(1) in var(n), 'LaTeX', repr(s), 'has the strange factor', w)
        e[var(n).index(m.group(1))] += int(m.group(2) or m.group(3) or 1)
    return (pos, tuple(e))


def texts(c, m, M, n, k):
    ns = names(n, k)
    same(c, f'str {M}', value(c, str(M), ns, n), m)
    r = re.fullmatch(r'\[(?:(\d+);)?([\d ]*)\]', repr(M))
    c.check(r, 'repr', repr(M))
    same(c, 'repr', (int(r.group(1)) if r.group(1) else -1, tuple(int(x) for x in r.group(2).split())), m)
    same(c, 'latex %s' % M.latex(), latexmon(c, M.latex(), n, k), m)
    if m[0] >= 0:
        same(c, 'df %s' % M.df(), value(c, M.df(), ns, n), m)
        same(c, 'T %s' % M.T(), value(c, M.T(), ns, n), m)
        same(c, 'df_sympy %s' % M.df_sympy(), value(c, M.df_sympy(), ns, n), m)
        s = M.df_latex()
        r = re.fullmatch(r'\{(\w+)\}(?:_\{((?:\{\w+\} ?)+)\})?', s)
        c.check(r, 'df_latex', s)
        vs = re.findall(r'\{(\w+)\}', r.group(2) or '')
        same(c, 'df_latex %s' % s, (FUN.index(r.group(1)), tuple(vs.count(v) for v in var(n)), len(vs)), m + (deg(m),))
        s = M.T_latex()
        r = re.fullmatch(r'\{(\w+)\}_\{(.*)\}', s)
        c.check(r, 'T_latex', s)
        e = [0]*n
        for i, w in enumerate(r.group(2).split('\\,')):
            q = re.fullmatch(r'\s*\{(\w+)\}(?: \+ (\d+))?\s*', w)
            c.check(q and q.group(1) == var(n)[i], 'T_latex', s)
            e[i] = int(q.group(2) or 0)
        same(c, 'T_latex %s' % s, (FUN.index(r.group(1)), tuple(e)), m)
    else:
        for f in (M.df, M.df_sympy, M.df_latex, M.T, M.T_latex):
            if deg(m):
                refused(c, 'derivative of no function', f)
            else:
                same(c, 'constant', f(), '1')


def single(n, k, D, big):
    alpha = monomials(n, 0, D, range(-1, k))
    alpha += [(p, e) for p in range(-1, k) for e in product(big, repeat=n)]

    def f(c):
        init(n, k)
        m = c.pick(alpha)
        M = mk(m)
        same(c, 'monomial', rd(M), m)
        same(c, 'degree', M.degree(), deg(m))
        same(c, 'truth', bool(M), m != (-1, (0,)*n))
        for i in range(n):
            same(c, 'item', M[i], m[1][i])
            same(c, 'prolong', rd(M.prolong(i)), (m[0], tuple(x + (i == j) for j, x in enumerate(m[1]))))
        same(c, 'monomial after prolong', rd(M), m)
        refused(c, 'prolong', lambda: M.prolong(n))
        refused(c, 'prolong', lambda: M.prolong(-1))
        C = M.copy()
        same(c, 'copy', rd(C), m)
        c.check(C is not M and C == M and hash(C) == hash(M), 'copy differs')
        if deg(m) < 100:
            same(c, 'expand', M.expand(), [i for i in range(n) for j in range(m[1][i])])
        for e in range(5):
            if m[0] < 0:
                same(c, 'power %d' % e, rd(M**e), (-1, tuple(x*e for x in m[1])))
            else:
                refused(c, 'power of a module element', lambda: M**e)
        refused(c, 'negative power', lambda: M**-1)
        texts(c, m, M, n, k)
        same(c, 'monomial afterwards', rd(M), m)
        # the named ones
        for i in range(n):
            same(c, 'variable', rd(Monom(i)), (-1, tuple(int(i == j) for j in range(n))))
        same(c, 'unit', rd(Monom()), (-1, (0,)*n))
        for p in range(k):
            same(c, 'function', rd(Monom(pos=p)), (p, (0,)*n))
        same(c, 'monomial afterwards', rd(M), m)
        c.outcome(m)
    return f


def pairs(n, k, D):
    alpha = monomials(n, 0, D, range(-1, k))

    def f(c):
        name = c.pick(NAMES)
        init(n, k, name)
        key = py_key(name)
        a, b = c.pick(alpha), c.pick(alpha)
        A, B = mk(a), mk(b)
        c.note(name, a, b)
        if a[0] < 0 or b[0] < 0:
            same(c, 'product', rd(A*B), mmul(a, b))
        else:
            refused(c, 'product of two module elements', lambda: A*B)
        d = divides(b, a)
        same(c, 'divisible', A.divisible(B), d)
        same(c, 'divisibleTrue', A.divisibleTrue(B), d and deg(a) > deg(b))
        if d:
            same(c, 'quotient', rd(A/B), mquo(a, b))
            same(c, 'quotient times divisor', rd((A/B)*B), a)
            c.check(key(a) >= key(b), 'reference')
        else:
            refused(c, 'quotient', lambda: A/B)
        if a[0] < 0 or b[0] < 0 or a[0] == b[0]:
            # the exponents only; a component is dropped, which the documentation relies on
            same(c, 'lcm', rd(A.lcm(B))[1], tuple(map(max, a[1], b[1])))
            same(c, 'gcd', rd(A.gcd(B))[1], tuple(map(min, a[1], b[1])))
            if a[0] == b[0]:
                same(c, 'component of the lcm', rd(A.lcm(B))[0], -1)
                same(c, 'component of the gcd', rd(A.gcd(B))[0], -1)
        else:
            refused(c, 'lcm', lambda: A.lcm(B))
            refused(c, 'gcd', lambda: A.gcd(B))
        s = (key(a) > key(b)) - (key(a) < key(b))
        same(c, 'comparison', A.cmp(B), s)
        same(c, 'relations', (A < B, A <= B, A > B, A >= B, A == B, A != B), (s < 0, s <= 0, s > 0, s >= 0, s == 0, s != 0))
        same(c, 'equality', A == B, a == b)
        if a == b:
            c.check(hash(A) == hash(B), 'equal monomials have different hashes')
        same(c, 'in a set', len({A, B}), len({a, b}))
        same(c, 'lex', A.lex(B), (a[1] > b[1]) - (a[1] < b[1]))
        x, y = (deg(a), [-v for v in reversed(a[1])]), (deg(b), [-v for v in reversed(b[1])])
        same(c, 'deglex', A.deglex(B), (x > y) - (x < y))
        if a[0] == b[0] and any(p < q for p, q in zip(a[1], b[1])):
            same(c, 'nonmult', A.nonmult(B), [p < q for p, q in zip(a[1], b[1])].index(True))
        else:
            refused(c, 'nonmult', lambda: A.nonmult(B))
        same(c, 'operands', (rd(A), rd(B)), (a, b))
        c.outcome((name, a, b))
    return f


def triples(n, k, D):
    alpha = monomials(n, 0, D, range(-1, k))

    def f(c):
        name = c.pick(NAMES)
        init(n, k, name)
        a, b, d = c.pick(alpha), c.pick(alpha), c.pick(alpha)
        A, B, C = mk(a), mk(b), mk(d)
        x, y, z = A.cmp(B), B.cmp(C), A.cmp(C)
        same(c, 'antisymmetry', x, -B.cmp(A))
        if x >= 0 and y >= 0:
            c.check(z >= 0 and (z > 0 or (x == 0 and y == 0)), 'not transitive', a, b, d)
        if d[0] < 0 or (a[0] < 0 and b[0] < 0):
            same(c, 'comparison after multiplication', (A*C).cmp(B*C), x)
        if d[0] < 0 or a[0] < 0:
            c.check((A*C).cmp(A) >= (1 if deg(d) and d[0] < 0 else 0) or d[0] >= 0, 'a multiple is smaller', a, d)
        if all(p < 0 or q < 0 for p, q in ((a[0], b[0]), (b[0], d[0]), (a[0], d[0]))):
            same(c, 'associativity', rd((A*B)*C), rd(A*(B*C)))
        c.outcome((name, a, b, d))
    return f


def enumerate_(c):
    n, k, d = 1 + c.choose(4), c.choose(3), c.choose(6)
    init(n, k)
    for p in range(-1, k):
        L = [rd(m) for m in (Monom.gradus(d) if p < 0 else Monom.gradus(d, p))]
        same(c, 'gradus', sorted(L), sorted(monomials(n, d, d, (p,))))
        same(c, 'gradus with pos', [rd(m) for m in Monom.gradus(d, pos=p)], L)
        same(c, 'repetitions', len(set(Monom.gradus(d, p))), len(L))
    refused(c, 'negative degree', lambda: list(Monom.gradus(-1)))
    c.outcome((n, k, d))


def inits(c):
    """what init returns, and that a new init replaces the old one"""
    seq = []
    for i in range(2):
        n, k = 1 + c.choose(4), c.choose(4)
        r = Monom.init(var(n), FUN[:k]) if k else Monom.init(var(n))
        vs, fs = r if k else (r, ())
        same(c, 'variables', [rd(v) for v in vs], [(-1, tuple(int(a == b) for b in range(n))) for a in range(n)])
        same(c, 'functions', [rd(v) for v in fs], [(p, (0,)*n) for p in range(k)])
        same(c, 'names', ([str(v) for v in vs], [str(v) for v in fs]), (var(n), FUN[:k]))
        refused(c, 'wrong length', lambda: Monom((0,)*(n + 1)))
        refused(c, 'negative exponent', lambda: Monom((-1,) + (0,)*(n - 1)))
        refused(c, 'variable out of range', lambda: Monom(n))
        refused(c, 'function out of range', lambda: Monom(pos=k))
        refused(c, 'function out of range', lambda: Monom((0,)*n, pos=k))
        refused(c, 'function out of range', lambda: Monom((0,)*n, pos=-1))
        seq.append((n, k))
    refused(c, 'repeated variables', lambda: Monom.init(['x', 'x']))
    refused(c, 'repeated functions', lambda: Monom.init(['x'], ['u', 'u']))
    c.outcome(tuple(seq))


def products(n, k):
    gens = [(-1, tuple(int(i == j) for j in range(n))) for i in range(n)] + [(p, (0,)*n) for p in range(k)]

    class M:
        def init(self, c):
            init(n, k)
            return [Monom(), (-1, (0,)*n)]

        def ops(self, s):
            return [('*', g) for g in gens] + [('/', g) for g in gens] + [('p', i) for i in range(n)] + [('^', 2), ('c', 0)]

        def apply(self, c, s, op):
            M_, m = s
            o, g = op
            if o == '*':
                if m[0] >= 0 and g[0] >= 0 or deg(m) > 5:
                    return
                r = (M_*mk(g) if deg(m) % 2 else mk(g)*M_, mmul(m, g))
            elif o == '/':
                if not divides(g, m):
                    refused(c, 'quotient', lambda: M_/mk(g))
                    return
                r = (M_/mk(g), mquo(m, g))
            elif o == 'p':
                if deg(m) > 5:
                    return
                r = (M_.prolong(g), (m[0], tuple(x + (i == g) for i, x in enumerate(m[1]))))
            elif o == '^':
                if m[0] >= 0 or deg(m) > 3:
                    return
                r = (M_**g, (-1, tuple(x*g for x in m[1])))
            else:
                r = (M_.copy(), m)
            same(c, 'result of %s %s' % (o, g), rd(r[0]), r[1])
            same(c, 'operand', rd(M_), m)
            c.check(r[0] == mk(r[1]) and hash(r[0]) == hash(mk(r[1])), 'not equal to the monomial built directly')
            texts(c, r[1], r[0], n, k)
            s[:] = r

        def key(self, s):
            return s[1]
    return M()


mcpy.part('single', single(3, 3, 4, (0, 1, 10, 123)), split=1)
mcpy.part('one variable', single(1, 1, 12, (0, 1, 10, 99)), split=1)
mcpy.part('four variables', single(4, 0, 4, (0, 1, 11)), split=1)
mcpy.part('pairs', pairs(2, 3, 5), split=2)
mcpy.part('pairs in a ring', pairs(3, 0, 3), split=2)
mcpy.part('pairs of three variables', pairs(3, 2, 4), split=2)
mcpy.part('pairs of three variables to degree 6', pairs(3, 2, 6), split=2, tiers=('thorough',))
mcpy.part('pairs of four variables', pairs(4, 1, 3), split=2)
mcpy.part('triples', triples(2, 2, 3), split=2)
mcpy.part('triples of three variables', triples(3, 1, 3), split=2, tiers=('thorough',))
mcpy.part('enumeration', enumerate_, split=1)
mcpy.part('initialisation', inits, split=1)
mcpy.bfs('products', products(3, 2), 9, tiers=('quick',))
mcpy.bfs('products deep', products(3, 2), 12, tiers=('thorough',))
if __name__ == '__main__':
    mcpy.main()

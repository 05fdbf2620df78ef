"""Which explorations decide which property.  runs(tier) lists them."""

def cpp(src, variant='std', **kw):
    return dict(kind='cpp', src=src, variant=variant, **kw)

def py(src, module=False, **kw):
    return dict(kind='py', src=src, module=module, **kw)

CHECKS = {}
def check(pid, runs, technique, note, **kw):
    CHECKS[pid] = dict(runs=runs if callable(runs) else (lambda tier: runs), technique=technique, note=note, **kw)

DIRECT = 'bounded-exhaustive exploration of the real code (stateless model checking over all choice vectors), judged by a reference model'
BFS = 'explicit-state model checking of the real code (breadth-first over operation histories, deduplicated by canonical state), judged by a reference model'
TRUST = ' Trusted: the reference model in harness/ref.hpp, GMP, the compiler.'

GB = {
    'C01': (1, 'All multisets of generators from finite alphabets (dense, sparse, univariate, huge coefficients, modules with up to 3 components, n up to 4), every order and all four completion algorithms; compared with a textbook Buchberger over Q.'),
    'C02': (2, 'Same input families as C01; Janet division recomputed by its definition on the leading monomials of the result, every lookup up to a degree compared.'),
    'C03': (3, 'Every interleaving of pushes (all orders, repetitions, negatives, consequences, zero) and completions over the generator families; every intermediate and final basis judged.'),
    'C04': (4, 'Same input families; every monomial up to a degree, a dense probe and members / members plus a monomial are reduced and compared with the reference normal form.'),
    'C05': (5, 'Same input families; the polynomial is evaluated at three degrees past the basis and compared with the counted irreducible monomials, per basis and per component.'),
}
for pid, (k, note) in GB.items():
    check(pid, [cpp('h_groebner.cpp', flags=['-DPROP=%d' % k])], DIRECT, note + TRUST)
MIX = 'explicit-state and stateless bounded-exhaustive exploration of the real code, judged by a reference model'
NOTES = {
    'C06': (6, BFS, 'States are insertion histories of a Janet tree up to order of equal outcomes; every monomial of the box is an operation; after every transition the whole tree, every lookup, a copy, a swap and a compaction are compared with the Janet division computed from its definition.'),
    'C07': (7, DIRECT, 'All subsets (with repetitions and rounds) of the monomial boxes, tree and list completion under every list ordering; closure, ancestors and lookups recomputed from the definition.'),
    'C20': (20, BFS, 'States are forests reached by pushing monomials and prolongations, including ancestors of degree past the initial number of trees; every lookup compared with a scan over the inserted elements.'),
}
for pid, (k, tech, note) in NOTES.items():
    check(pid, [cpp('h_janet.cpp', flags=['-DPROP=%d' % k])], tech, note + TRUST)
POLY = {
    'C08': (8, MIX, 'All pairs of polynomials over small monomial and coefficient alphabets (with coefficients around limb boundaries), every order, ring and module, every operator and its integer forms; and a three-register machine explored breadth-first over operation histories.'),
    'C09': (9, DIRECT, 'All pairs of polynomials over alphabets with multi-limb coefficients, every reduction entry point; combination checked by exact rational arithmetic on dense vectors.'),
    'C10': (10, DIRECT, 'All pairs and shifts of monomials up to a degree, every order, every component pattern; product comparison exercised through the reduction that uses it.'),
    'C11': (11, DIRECT, 'All pairs of monomials up to a degree with up to 17 variables, every operation, every permutation.'),
}
for pid, (k, tech, note) in POLY.items():
    check(pid, [cpp('h_poly.cpp', flags=['-DPROP=%d' % k])], tech, note + TRUST)
UTIL = {
    'C12': ('h_util.cpp', MIX, 'All pairs of integers at limb boundaries (values 2^k-1, 2^k, 2^k+1 and negatives), every operation and text form, and register machines explored breadth-first over operation histories; oracle: mpz_class computed independently.'),
    'C15': ('h_util.cpp', BFS, 'Reachable trees (shape and colours) of two registers closed under every operation with up to K keys, then all insertion and removal orders of a block and large deterministic histories; oracle: std::set plus the red-black invariants seen as height.'),
    'C16': ('h_util.cpp', BFS, 'Reachable pairs of lists closed under every operation of list and iterator, up to K elements; oracle: std::vector; allocator use after destruction.'),
    'C17': ('h_util.cpp', BFS, 'Reachable pairs of stacks including the capacity they grew to, closed under every operation, and growth through 5 reallocations; oracle: std::vector.'),
    'C18': ('h_util.cpp', DIRECT, 'The generator is replaced by one which returns chosen numbers: every vector of draws for sizes up to 5 (6 thorough), from every start; counts how often each permutation is reached.'),
    'C19': ('h_util.cpp', MIX, 'All (a, b) up to the dimension and every argument s of a range, operation sequences breadth-first, long polynomials with multi-limb coefficients, printed text parsed back; oracle: exact rationals.'),
    'C21': ('h_util.cpp', DIRECT, 'The clocks are replaced by controlled ones; every sequence of start, continue, stop up to a length and every advance from an alphabet including carries over the second.'),
    'C13': ('h_mem.cpp', MIX, 'Reachable states of two allocators under allocation of every size class, release in any order and swap; each block filled and verified; every limit around the reserved size, in child processes.'),
    'C14': ('h_mem.cpp', DIRECT, 'Every history of operations on a compactable list, polynomial and tree with compaction, copy and destruction at every point.'),
}
for pid, (src, tech, note) in UTIL.items():
    check(pid, [cpp(src, flags=['-DPROP=%d' % int(pid[1:])])], tech, note + TRUST)


def memory(tier):
    # (source, property, reduction for the sanitizers, for Memcheck; search depth, for Memcheck)
    T = tier == 'thorough'
    rows = [('h_poly.cpp', 8, 6, 60, 3, 2), ('h_poly.cpp', 9, 4, 60, 0, 0), ('h_poly.cpp', 11, 4, 12, 0, 0),
            ('h_janet.cpp', 6, 4, 12, 4, 2), ('h_janet.cpp', 7, 4, 20, 0, 0), ('h_janet.cpp', 20, 4, 12, 4, 2),
            ('h_groebner.cpp', 5, 80, 6000, 0, 0), ('h_groebner.cpp', 3, 400, 0, 0, 0), ('h_groebner.cpp', 4, 400, 0, 0, 0),
            ('h_util.cpp', 12, 4, 12, 3, 2), ('h_util.cpp', 15, 2, 12, 5, 3), ('h_util.cpp', 16, 2, 12, 6, 4), ('h_util.cpp', 17, 2, 12, 6, 4),
            ('h_util.cpp', 19, 4, 12, 3, 2), ('h_mem.cpp', 13, 3, 0, 4, 0), ('h_mem.cpp', 14, 3, 0, 0, 0)]
    skip = {19: ['binomials', 'sequences*'], 12: ['pairs', 'powers', 'bases', 'registers*'],
            5: ['dense*', 'box*', 'bigcoef*', 'monomials*', 'modules*', 'binomials*']}
    r = []
    for src, k, lite, vlite, d, vd in rows:
        for v in ('asan', 'asanint', 'asanarena'):
            r.append(cpp(src, v, flags=['-DPROP=%d' % k], tag=str(k), workers=3, args=['--lite', str(max(1, lite//(4 if T else 1)))] + (['--depth', str(d + (1 if T else 0))] if d else [])))
        r.append(cpp(src, 'noint', flags=['-DPROP=%d' % k], tag=str(k), workers=3, args=['--lite', str(max(2, lite//(8 if T else 2)))] + (['--depth', str(d + (2 if T else 0))] if d else [])))
        if T:
            for v in ('malloc', 'plain'):
                r.append(cpp(src, v, flags=['-DPROP=%d' % k], tag=str(k), workers=3, args=['--lite', str(max(1, lite//8))] + (['--depth', str(d + 2)] if d else [])))
        if vlite:
            r.append(cpp(src, 'vg', flags=['-DPROP=%d' % k], tag=str(k), workers=3, wrap=['valgrind', '-q', '--leak-check=no'], parts=skip.get(k, ()),
                         args=['--lite', str(max(1, vlite//(4 if T else 1)))] + (['--depth', str(vd + (1 if T else 0))] if vd else [])))
    return r
check('C22', memory, jobs=4, technique=MIX, note='The explorations of the other checks over reduced alphabets and depths in every configuration of the allocator and the integers: with address and undefined-behaviour sanitizers, with the heap compared before and after every execution, and under Memcheck for undefined values; results judged by the same references in each configuration. Trusted: the sanitizers and Memcheck notice what they are made for (an access inside a page of the pool that hits another block is noticed only where blocks are allocated one by one).')
check('C23', [py('h_cython.py', module=True)], MIX, 'The extension module is rebuilt from the tree. All pairs of operands (polynomials over small alphabets in every order, module components, integers around word boundaries on either side, views, wrong types) under every operator, and register machines explored breadth-first; objects released and their memory reused while views are held; oracle: polynomials as dictionaries in Python.' + TRUST)
check('C24', [py('h_cybasis.py', module=True)], DIRECT, 'All sets of one and two (three) generators over small families of ideals and modules, the orders of the core which are well-orders, and every interleaving of pushes and completions; every basis judged by a reference Groebner basis computed in Python, every view kept past its basis.' + TRUST)
check('C25', [py('h_pymonom.py')], MIX, 'All pairs (up to 210 x 210) and triples of monomials of up to 4 variables and 3 components under every operation and order, text forms parsed back, every initialisation followed by another; products explored breadth-first until closed.' + TRUST)
check('C26', [py('h_pypoly.py')], MIX, 'All pairs of polynomials of five families (ring, module, shifts, derivatives with coefficients in the variables, parameters) under every operator with numbers and expressions on either side; results are reduced in place and the operands looked at again; reductions by every one and two polynomials; three registers under all operations breadth-first. Oracle: dictionaries over the rationals or the field of rational functions.' + TRUST)
check('C27', [py('h_pyjanet.py')], MIX, 'States are insertion and prolongation histories of a tree or forest, explored breadth-first over all monomials of a box until closed or to a depth; after every transition every lookup, flag, displaced element and, for closed trees, the Hilbert polynomial is compared with the Janet division computed from its definition; all sequences of insertions completed until closed; caching trees over all pairs and triples of polynomials of four families.' + TRUST)
check('C28', [py('h_pyginv.py')], DIRECT, 'All sequences of one, two and three generators over families of ring, module, difference, differential (coefficients in the variables) and parametric polynomials, well-known ideals under every order of their generators, the four orders, both completions, both kinds of trees, printing or not; every result judged by a reference Groebner basis over the field of coefficients computed with the definitions.' + TRUST)

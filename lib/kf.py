#!/usr/bin/python3
"""known_findings.json is written by hand through this table; nothing adds to it at run time."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C08', '36a0a6c', 'PolyInt::pow(0) gave 0 instead of 1'),
 ('C08', '5e66f6e', 'PolyInt::mult by a single term leaked the old terms of the other length'),
 ('C08', 'ec98836', 'add/sub of an integer appended the constant regardless of the term order, and adding 0 made a zero term'),
 ('C11', '0239f0a', 'the quotient of two monomials of one component kept the component'),
 ('C11', 'c52b489', 'monomials of different components compared equal'),
 ('C03', '22060ed', 'Wrap::update missed a change of the component of a leading monomial'),
 ('C01', '6a8d4c4', 'constants of a module were taken for the unit ideal, constants arising inside a block were not noticed'),
 ('C01', 'd9cb2ae', 'completion ended although prolongations had not been considered'),
 ('C02', 'a35b694', 'tails of newly added basis elements stayed reducible'),
 ('C01', 'bb8cdb9', 'algorithmTQ2 threw basis elements away when the degree dropped'),
 ('C01', '56625b8', "Buchberger's product criterion was applied to modules: critical pairs were lost"),
 ('C02', '525ef75', 'algorithmTQ, TQ1, TQ2 listed elements which are not primitive (an assertion of the project fails in a debug build)'),
 ('C03', 'c20b714', 'algorithmTQ2 without generators crashed in buildHP'),
 ('C05', '13913f6', 'the Hilbert polynomial of a module counted a component that does not exist'),
 ('C06', '1b96f1c', 'a copy of a Janet tree lost the subtree of the last degree'),
 ('C07', '77a18d4', 'MCompletion::insert read a duplicate after destroying it'),
 ('C10', 'e75485c', 'comparing with a product used the component of one factor: a module polynomial reduced by a ring polynomial had terms out of order'),
 ('C08', '3a017dd', 'assigning a GCPolyInt copied the pointer to the allocator of the source: double free'),
 ('C15', '9acaf8a', 'moving an RBTree left both trees owning the nodes, and assigning from an empty tree crashed'),
 ('C16', '789693f', 'assigning a List from an expiring list took it as constant and did not compile'),
 ('C22', '56ad207', 'HilbertPoly::binomial leaked the rational number it computes with'),
 ('C22', 'c55c6a4', 'moving an Integer leaked its old digits when integers live outside the allocator'),
 ('C23', 'e52e84d', 'polynomial minus an integer gave the sum'),
 ('C23', '7402847', 'an integer on the left of + - * was refused by the operators (written for an older Cython)'),
 ('C24', '0a9d3b7', 'the timer of a basis was the timer of the allocator'),
 ('C24', 'ffcc7dd', 'computing a normal form overwrote the polynomial passed in and gave an empty object'),
 ('C23', '4e7fcb1', 'dividing a monomial which is a view was refused'),
 ('C23', '4189e9f', 'objects taken from a polynomial or a basis dangled when it was released'),
 ('C23', '3ba0b72', 'arguments out of range, None and empty objects crashed the interpreter or read foreign memory'),
 ('C23', '6e4cdce', 'products of two module elements were computed'),
 ('C25', '4092ca9', 'the LaTeX form of a power showed only the first digit of the exponent'),
 ('C26', '10484bb', 'a number minus a polynomial gave the polynomial minus the number'),
 ('C26', '78b15dd', 'a number divided by a polynomial gave the polynomial divided by the number'),
 ('C26', '26d0e77', 'sums shared their terms with the operands, and +p, p+0, p*1, p**1 were the operand itself'),
 ('C26', 'a5ecaad', 'p += q extended the list of terms of p'),
 ('C26', 'a24d273', 'the S-polynomial of two module elements failed'),
 ('C26', '05359d6', 'normal forms over parameters kept coefficients which are zero'),
 ('C27', '2ac0e96', 'the elements of a tree reduced the polynomials of the caller in place'),
 ('C27', '458a5f4', 'a forest put elements without component into the tree of the last component'),
 ('C27', '227d83b', 'JanetCache multiplied differential polynomials instead of differentiating them'),
 ('C27', '09e9ed1', "Buchberger's product criterion was applied to modules"),
 ('C27', 'ff5e81c', 'a JanetCache inside a forest failed on tails with other components'),
 ('C28', '36abdf4', 'ginvBlockLow ignored elements of degree 0 in the queue'),
 ('C28', 'c0bafd9', 'ginvMin considered prolongations only when printing its progress'),
 ('C28', '68ac3ca', 'JanetCache reduced elements by themselves, with multiples remembered from before an insertion'),
]
KNOWN = []
out = [dict(status='fixed', entry='fixed: property=%s %s %s' % f) for f in FIXED] + KNOWN
json.dump(out, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)

"""Reads and writes objects of the Cython module."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ['GINV_MODULE'])
import ginv
from refpy import *

ORDERS = [(a, b) for a in ('TOP', 'POT') for b in ('lex', 'deglex', 'alex')]


def mkmon(m):
    r = ginv.monom.zero(len(m[1]), -1)
    for i, d in enumerate(m[1]):
        if d:
            r = r*ginv.monom.variable(i, len(m[1]), -1)**d
    return r.setPos(m[0])


def rdmon(m):
    return (m.pos(), tuple(m))


def mkpoly(p, order, n):
    """built from single terms with multiplication by an integer and addition only"""
    r = None
    for m in sorted(p):
        t = ginv.poly_int.to_monom(order[0], order[1], mkmon(m))
        if p[m] != 1:
            t = t*int(p[m])
        r = t if r is None else r + t
    if r is None:
        t = ginv.poly_int.to_monom(order[0], order[1], ginv.monom.zero(n, -1))
        r = t - t
    return r


def rdpoly(c, p, order=None):
    """the polynomial, with its canonical form checked"""
    key = core_key(*(order or p.order()))
    r, last = {}, None
    for m, k in p:
        m, k = rdmon(m), int(str(k))
        c.check(k != 0, 'a term with coefficient zero')
        c.check(last is None or key(last) > key(m), 'terms out of order:', last, m)
        last = m
        r[m] = k
    c.check(len(p) == len(r), 'len is', len(p), 'terms', len(r))
    return r

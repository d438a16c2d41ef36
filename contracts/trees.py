"""shared specification of the tree functions"""
from .callers import *

TC = 'bayeso.trees.trees_common.'


def mk_leaf(c, name, d, n=None, lo=1):
    """a leaf: n (input, response) pairs"""
    I = c.I
    n = n if n is not None else c.dim('n' + name, lo)
    i = T.fresh('i', 'I', '>=', n)
    k = T.fresh('k', 'I', '>=', d)
    z = T.fresh('z', 'I', '>=', T.ONE)
    bx = FArr(T.mklam([k], [P(d)], P(T.App('lx' + name, (P(i), P(k)), 'R'))), 'f')
    by = FArr(T.mklam([z], [T.ONE], P(T.App('ly' + name, (P(i),), 'R'))), 'f')
    return I.new_list([Seg(P(n), i, (bx, by))]), P(n), (lambda j: P(T.App('ly' + name, (P(j),), 'R')))


def mean_std(c, n, y):
    m = c.sum1(n, y) / n
    return m, T.tsqrt(c.sum1(n, lambda i: (y(i) - m) ** 2) / n)


def combine(c, m, mu, sd, floor=T.ZERO):
    """forest mean and deviation of m trees"""
    g = lambda i: T.tmax(sd(i), floor)
    mean = c.sum1(m, mu) / m
    var = c.sum1(m, lambda i: mu(i) ** 2 + g(i) ** 2) / m - mean ** 2
    return mean, T.tsqrt(T.tmax(var, T.ZERO))

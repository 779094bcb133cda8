# encoding: utf-8
"""finite sets of grammars and inputs"""
import itertools
from functools import lru_cache


def strings(alphabet, n, start=0):
    for k in range(start, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


def trees(n, leaves, unary, binary, ternary=()):
    """
    every expression of exactly n nodes
    :param leaves: tuple of terminal expressions
    :param unary: tuple of functions e -> expression
    :param binary: tuple of functions e, f -> expression
    """

    @lru_cache(None)
    def gen(k):
        if k == 1:
            return tuple(leaves)
        out = []
        for e in gen(k - 1):
            for u in unary:
                x = u(e)
                if x is not None:
                    out.append(x)
        for i in range(1, k - 1):
            for e in gen(i):
                for f in gen(k - 1 - i):
                    for b in binary:
                        x = b(e, f)
                        if x is not None:
                            out.append(x)
        if k > 3:
            for i in range(1, k - 2):
                for j in range(1, k - 1 - i):
                    h = k - 1 - i - j
                    if h < 1:
                        continue
                    for e in gen(i):
                        for f in gen(j):
                            for g in gen(h):
                                for t in ternary:
                                    x = t(e, f, g)
                                    if x is not None:
                                        out.append(x)
        return tuple(out)

    return gen(n)


def chunks(items, n):
    """n interleaved shards: (i, n)"""
    return [(i, n) for i in range(n)]


def part(items, i, n):
    return itertools.islice(items, i, None, n)

"""A few large instances, deterministic: many trees, rows, features, leaves or levels, negative and repeated values.
They reach what small spaces cannot: fixed-size buffers, narrow counters, work split over more rows than threads."""
from core import *


class Lcg(object):
    def __init__(self, seed):
        self.s = seed * 2654435761 % 2 ** 32

    def __call__(self, n):
        self.s = (self.s * 1664525 + 1013904223) % 2 ** 32
        return (self.s >> 8) % n


LEVELS = [-2., -1., -.5, 0., .25, .5, 1., 1.5, 2., 3.]
CUTS = [-1.5, -.5, .25, .5, 1.5]


def tree(g, feats, depth, full=False):
    if depth == 0 or (not full and g(7) == 0):
        return None
    f = feats[g(len(feats))]
    return [f, CUTS[g(len(CUTS))], tree(g, feats, depth - 1, full), tree(g, feats, depth - 1, full)]


def chain(order, turns):
    s = None
    for i, f in enumerate(reversed(order)):
        t = CUTS[(i * 3 + f) % len(CUTS)]
        s = [f, t, s, None] if turns[i % len(turns)] else [f, t, None, s]
    return s


def instance(name):
    """(forest, number of features, background, rows)"""
    g = Lcg(len(name) + 17)
    if name == "wide":          # more features, trees and rows than a byte or a word of flags can count
        d, n, nx = 70, 300, 13
        F = [tree(g, [(7 * t + j * 11) % d for j in range(5)], 3) or [t, .5, None, None] for t in range(20)]
    elif name == "deep":        # a path through nine features, and a tree of more than 256 leaves
        d, n, nx = 11, 70, 5
        F = [chain([(i * 4 + 1) % d for i in range(9)], [0, 1, 1, 0, 1]), tree(g, list(range(5)), 9, True)]
    elif name == "many":        # more trees than threads or bytes count
        d, n, nx = 4, 40, 11
        F = [tree(g, [0, 1, 2, 3], 2) for t in range(260)]
    elif name == "mid":
        d, n, nx = 12, 270, 3
        F = [tree(g, list(range(12)), 4, t % 2 == 0) for t in range(9)]
    elif name == "mid8":
        d, n, nx = 7, 270, 11
        F = [tree(g, list(range(7)), 3, t % 2 == 0) or [t, .5, None, None] for t in range(6)]
    data = [[LEVELS[g(10)] for _ in range(d)] for _ in range(n)]
    X = [list(data[(i * 37) % n]) if i % 3 else [LEVELS[g(10)] for _ in range(d)] for i in range(nx)]
    return F, d, data, X


def chosen_sets(d, most=60):
    """nested sets in a mixed order, all single features and their complements (thinned), the empty and the full set"""
    order = sorted(range(d), key=lambda i: (i * 13) % d * d + i)
    out = [sorted(order[:k]) if k % 2 else order[:k] for k in range(d + 1)]
    out += [[f] for f in range(d)] + [[f for f in range(d) if f != e] for e in range(0, d, 3)] + [list(range(e, d, 3)) for e in range(3)]
    step = max(1, len(out) // most)
    return out if step == 1 else [[]] + out[1:-1:step] + [list(range(d))]

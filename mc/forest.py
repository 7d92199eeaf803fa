"""Projected forests: the real ACXplainer driven with enumerated forests, and the reference semantics of a projected cell."""
import itertools
import numpy as np
import core
from core import *


def nodes_of(spec, order="pre"):
    """(children_left, children_right, feature, threshold) lists; numbered in preorder or level by level"""
    if order == "pre":
        cl, cr, f, th, lf = flat(spec)
        return cl, cr, f, th
    cl, cr, f, th = [], [], [], []
    level, n = [spec], 1
    while level:
        nxt = []
        for s in level:
            if s is None:
                cl.append(-1); cr.append(-1); f.append(-2); th.append(-2.0)
            else:
                cl.append(n); cr.append(n + 1); n += 2
                f.append(s[0]); th.append(s[1])
                nxt += [s[2], s[3]]
        level = nxt
    return cl, cr, f, th


class FakeTree(object):
    pass


def fake_tree(spec, K, order):
    cl, cr, f, th = nodes_of(spec, order)
    n = len(cl)
    t = FakeTree()
    t.children_left = np.array(cl, dtype=np.int32)
    t.children_right = np.array(cr, dtype=np.int32)
    t.feature = np.array(f, dtype=np.int32)
    t.threshold = np.array(th, dtype=np.float64)
    t.value = np.ones((n, 1, K), dtype=np.float64)
    t.weighted_n_node_samples = np.ones(n)
    e = FakeTree()
    e.tree_ = t
    return e


_classes = {}


def fake_model(specs, classifier, K=2, order="pre", importances=None):
    import skranger.ensemble.classifier as sc, skranger.ensemble.regressor as sr
    if not _classes:
        class FakeC(sc.RangerForestClassifier):
            feature_importances_ = None
            estimators_ = None

            def __init__(self):
                pass

        class FakeR(sr.RangerForestRegressor):
            feature_importances_ = None
            estimators_ = None

            def __init__(self):
                pass
        _classes["c"], _classes["r"] = FakeC, FakeR
    m = _classes["c" if classifier else "r"]()
    trees = [fake_tree(s, K if classifier else 1, order) for s in specs]
    m.__dict__["estimators_"] = trees
    m.__dict__["feature_importances_"] = importances
    m.__dict__["enable_tree_details"] = True
    return m


def acx(specs, classifier, d, order="pre", importances=None):
    from acv_explainers import ACXplainer
    a = ACXplainer(classifier=classifier)
    a.model = fake_model(specs, classifier, order=order, importances=importances)
    a.d = d
    return a


# ---------------------------------------------------------------- reference
BIG = 1e10


def descend(nodes, x, S, rows, data, minsize=0, box=None, cond=None, intv=False):
    """rows selected by one tree.  S: known features (set).  Levels are visited in node order; the descent ends as soon as
    fewer than minsize rows are selected.  cond: a closed box on the features that are not known: splits it decides are
    followed on the decided side.  intv: both sides of splits on S are followed."""
    cl, cr, f, th = nodes
    level = [0]
    while level:
        nxt = []
        for n in level:
            if cl[n] < 0:
                continue
            a, t = f[n], th[n]
            side = None
            if a in S:
                if not intv:
                    side = 0 if x[a] <= t else 1
            elif cond is not None:
                if cond[a][1] <= t:
                    side = 0
                elif cond[a][0] > t:
                    side = 1
            if side is None:
                nxt += [cl[n], cr[n]]
            elif side == 0:
                nxt.append(cl[n])
                rows = [r for r in rows if data[r][a] <= t]
                if box is not None:
                    box[a][1] = min(box[a][1], t)
            else:
                nxt.append(cr[n])
                rows = [r for r in rows if data[r][a] > t]
                if box is not None:
                    box[a][0] = max(box[a][0], t)
            if len(rows) < minsize:
                return rows
        level = sorted(nxt)
    return rows


def cells(forest, x, S, data, minsize=0, cond=None, intv=False):
    """(selected rows per tree, box) for one row"""
    S = set(S)
    d = len(x)
    box = [[-BIG, BIG] for _ in range(d)]
    out = [descend(n, x, S, list(range(len(data))), data, minsize, box, cond, intv) for n in forest]
    return out, box


class Prob(float):
    """a probability that the arithmetic cannot have rounded (every cell size and the number of trees are powers of two) is exact"""
    exact = True


class Ambiguous(Exception):
    pass


def reaches(p, pi):
    if abs(p - pi) < 1e-9 and not getattr(p, "exact", True):
        raise Ambiguous()
    return p >= pi


def average(cs, good):
    """average over trees of the share of selected rows r with good(r) (a number)"""
    T = float(len(cs))
    s = 0.0
    for c in cs:
        if c:
            s += sum(good(r) for r in c) / (T * len(c))
    s = Prob(s)
    s.exact = all(n & (n - 1) == 0 for n in [len(cs)] + [len(c) for c in cs])
    return s


def weights(cs, n):
    w = [0.0] * n
    T = float(len(cs))
    for c in cs:
        for r in c:
            w[r] += 1.0 / (T * len(c))
    return w


# ---------------------------------------------------------------- enumeration
SP1 = [(0, .5), (1, .5), (2, .5)]
SP2 = [(0, .5), (0, 1.5), (1, .5), (1, 1.5)]
PARTS = [None, [0, .5, None, None], [2, .5, None, None], [1, .5, None, [2, .5, None, None]],
         [1, .5, [0, .5, None, None], [2, .5, None, None]], [2, .5, [2, .5, None, None], [0, .5, None, None]],
         [0, .5, [1, .5, None, [2, .5, None, None]], None],
         [1, .5, [0, .5, [2, .5, None, None], None], [2, .5, None, [0, .5, None, None]]]]


def small_trees(thorough, step=2):
    ts = tree_specs(SP1, 2)
    return ts if thorough else ts[::step]


def forests3(thorough):
    """forests over 3 features"""
    out = [[s] for s in small_trees(thorough)]
    for i, a in enumerate(PARTS):
        for j, b in enumerate(PARTS):
            if thorough or (i + j) % 2 == 1 or i == j:
                out.append([a, b])
    out.append([PARTS[4], PARTS[7], PARTS[3]])
    out.append([PARTS[7]])
    out.append([PARTS[6], PARTS[5], PARTS[1], PARTS[7]])
    if thorough:
        out += [[s] for s in tree_specs(SP1, 3, distinct=True) if depth_of(s) == 3]
    return out


def forests2(thorough):
    ts = tree_specs(SP2, 2)
    return [[s] for s in (ts if thorough else ts[1::7])]


def bg3(tier):
    b = grid([0, 1], 3)
    t = grid([0, .5, 1], 3)
    out = [[b[0]], [b[5], b[2]], [b[1], b[1], b[6]], [t[13], t[4], b[7]], b]
    if tier == "thorough":
        out += multisets(b, 2) + [[t[i], t[(i * 7 + 5) % 27], t[(i * 11 + 3) % 27]] for i in range(27)]
    return out


def bg2(tier):
    g = grid([0, .5, 1, 2], 2)
    out = [[g[3]], [g[5], g[8], g[2]], g]
    if tier == "thorough":
        out += [[g[i], g[(3 * i + 2) % 16], g[(5 * i + 1) % 16], g[(7 * i) % 16]] for i in range(16)]
    return out


def labelings(n, K, tier):
    if K ** n <= (27 if tier == "thorough" else 8):
        return [list(p) for p in itertools.product(range(K), repeat=n)]
    out = []
    for s in range(8 if tier == "thorough" else 3):
        out.append([(i * (s + 1) + (i >> s) + s) % K for i in range(n)])
    return out

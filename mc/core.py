"""Shared pieces: enumeration of small trees / forests / backgrounds, real-object construction, comparison."""
import itertools, math, sys
import numpy as np


class Bar(object):
    """progress bars are console noise: a stand-in without the global instance registry, which races with PyPy's collector"""
    def __init__(self, iterable=None, *a, **k):
        self.it = iterable if iterable is not None else ()

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        return lambda *a, **k: None


import tqdm as _tqdm
_tqdm.tqdm = Bar


class ApiError(Exception):
    pass


def quiet():
    """no progress bars (kept for callers; the stand-in is installed on import)"""


def jsonable(x):
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


# ---------------------------------------------------------------- enumeration
def tree_specs(splits, depth, distinct=False, used=()):
    """Every binary tree over the given (feature, threshold) splits, of depth <= depth.  A leaf is None."""
    out = [None]
    if depth == 0:
        return out
    for s in splits:
        if distinct and s in used:
            continue
        sub = tree_specs(splits, depth - 1, distinct, used + (s,))
        for l in sub:
            for r in sub:
                out.append([s[0], s[1], l, r])
    return out


def mirror_class(spec):
    return spec


def n_leaves(spec):
    return 1 if spec is None else n_leaves(spec[2]) + n_leaves(spec[3])


def depth_of(spec):
    return 0 if spec is None else 1 + max(depth_of(spec[2]), depth_of(spec[3]))


def feats_of(spec):
    return set() if spec is None else {spec[0]} | feats_of(spec[2]) | feats_of(spec[3])


def leaf_boxes(spec, box=None):
    """[(box, ...)] left to right; box: {feature: (lo, hi)} meaning lo < x <= hi"""
    box = box or {}
    if spec is None:
        return [box]
    f, t, l, r = spec
    lo, hi = box.get(f, (-math.inf, math.inf))
    bl = dict(box); bl[f] = (lo, min(hi, t))
    br = dict(box); br[f] = (max(lo, t), hi)
    return leaf_boxes(l, bl) + leaf_boxes(r, br)


def in_box(x, box, S=None):
    for f, (lo, hi) in box.items():
        if S is None or f in S:
            v = x[f]
            if not (lo < v <= hi):
                return False
    return True


def route(spec, x):
    """index of the leaf (left to right) that x falls in"""
    k = 0
    while spec is not None:
        f, t, l, r = spec
        if x[f] <= t:
            spec = l
        else:
            k += n_leaves(l)
            spec = r
    return k


def grid(levels, d):
    return [list(p) for p in itertools.product(levels, repeat=d)]


def multisets(points, k):
    return [list(c) for c in itertools.combinations_with_replacement(points, k)]


def subsets(items, lo=0, hi=None):
    items = list(items)
    hi = len(items) if hi is None else hi
    return [list(c) for k in range(lo, hi + 1) for c in itertools.combinations(items, k)]


def set_partitions(items):
    items = list(items)
    if not items:
        return [[]]
    first, rest = items[0], items[1:]
    out = []
    for p in set_partitions(rest):
        out.append([[first]] + p)
        for i in range(len(p)):
            out.append(p[:i] + [[first] + p[i]] + p[i + 1:])
    return out


# ---------------------------------------------------------------- real objects
def flat(spec):
    """preorder arrays (children_left, children_right, feature, threshold, leaf_number or -1)"""
    cl, cr, f, th, lf = [], [], [], [], []
    c = [0]

    def rec(s):
        i = len(cl)
        cl.append(-1); cr.append(-1); f.append(-2); th.append(-2.0); lf.append(-1)
        if s is None:
            lf[i] = c[0]
            c[0] += 1
        else:
            f[i] = s[0]
            th[i] = s[1]
            cl[i] = rec(s[2])
            cr[i] = rec(s[3])
        return i
    rec(spec)
    return cl, cr, f, th, lf


def dict_tree(spec, leafvals, default="left", weights=None):
    """leafvals: one row (list of outputs) per leaf"""
    cl, cr, f, th, lf = flat(spec)
    K = len(leafvals[0])
    v = [leafvals[l] if l >= 0 else [0.0] * K for l in lf]
    cd = [cl[i] if default == "left" else cr[i] for i in range(len(cl))]
    return dict(children_left=np.array(cl, dtype=np.int32), children_right=np.array(cr, dtype=np.int32),
                children_default=np.array(cd, dtype=np.int32), features=np.array(f, dtype=np.int32),
                thresholds=np.array(th, dtype=np.float64), values=np.array(v, dtype=np.float64),
                node_sample_weight=np.ones(len(cl)))


def arr(rows, d=None):
    a = np.array(rows, dtype=np.float64)
    return a


class Stub(object):
    """stands for the trained model: class probabilities from the very trees that are explained"""
    def __init__(self, specs, vals):
        self.specs, self.vals = specs, vals
        self.K = len(vals[0][0])

    def proba(self, x):
        out = [0.0] * self.K
        for s, v in zip(self.specs, self.vals):
            row = v[route(s, x)]
            for k in range(self.K):
                out[k] += row[k]
        return out

    def predict_proba(self, X):
        return np.array([self.proba(x) for x in np.asarray(X).tolist()])

    def predict(self, X):
        return np.argmax(self.predict_proba(X), axis=1)


def dict_acv(specs, vals, data, stub=True, **kw):
    from acv_explainers import ACVTree
    a = ACVTree({"trees": [dict_tree(s, v) for s, v in zip(specs, vals)]}, arr(data), **kw)
    if stub:
        a.model = Stub(specs, vals)
    return a


def one_feature(th=False):
    """forests over a single feature, and backgrounds for them"""
    s = tree_specs([(0, .5), (0, 1.5)], 2)
    return [[t] for t in s] + [[s[i], s[(3 * i + 1) % len(s)]] for i in range(0, len(s), 1 if th else 2)]


BG1 = [[[0], [1]], [[0], [.5], [1], [1.5], [2]], [[2], [2], [0]], [[1]], [[0], [0], [1], [2]]]


def one_hot_vals(specs):
    """one output per leaf of the forest: everything linear in the leaf values is decided for all leaf values at once"""
    K = sum(n_leaves(s) for s in specs)
    out, k = [], 0
    for s in specs:
        rows = []
        for _ in range(n_leaves(s)):
            r = [0.0] * K
            r[k] = 1.0
            k += 1
            rows.append(r)
        out.append(rows)
    return out


def sk_tree(spec, nfeat, leafvals, regression=False):
    """a genuine sklearn.tree._tree.Tree with exactly this structure"""
    from sklearn.tree._tree import Tree
    cl, cr, f, th, lf = flat(spec)
    K = len(leafvals[0])
    n = len(cl)
    t = Tree(nfeat, np.array([1 if regression else K], dtype=np.intp), 1)
    st = t.__getstate__()
    dt = st["nodes"].dtype if "nodes" in st else None
    nodes = np.zeros(n, dtype=dt)
    nodes["left_child"] = cl
    nodes["right_child"] = cr
    nodes["feature"] = f
    nodes["threshold"] = th
    nodes["n_node_samples"] = 1
    nodes["weighted_n_node_samples"] = 1.0
    v = np.array([leafvals[l] if l >= 0 else leafvals[0] for l in lf], dtype=np.float64).reshape(n, 1, K)
    t.__setstate__({"max_depth": depth_of(spec), "node_count": n, "nodes": nodes, "values": v})
    return t


# ---------------------------------------------------------------- comparison
def close(a, b, tol=1e-9):
    if a == b:
        return True
    if a != a or b != b:
        return False
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))


def diff(a, b, tol=1e-9, path=()):
    """first position at which two nested lists differ, or None"""
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return path, a, b
        for i in range(len(b)):
            d = diff(a[i], b[i], tol, path + (i,))
            if d is not None:
                return d
        return None
    if not close(a, b, tol):
        return path, a, b
    return None


def tolist(x):
    return x.tolist() if hasattr(x, "tolist") else [tolist(v) for v in x] if isinstance(x, (list, tuple)) else x


# ---------------------------------------------------------------- boosted binary classifiers
def gb_classifier(specs, margins, d, prior=0.5):
    """a genuine sklearn GradientBoostingClassifier with exactly these trees (margins: leaf values, learning rate 1)"""
    from sklearn.ensemble import GradientBoostingClassifier
    from sklearn.dummy import DummyClassifier

    class Est(object):
        pass
    m = GradientBoostingClassifier(learning_rate=1.0, n_estimators=len(specs))
    es = []
    for s, v in zip(specs, margins):
        e = Est()
        e.tree_ = sk_tree(s, d, v, regression=True)
        es.append(e)
    m.estimators_ = np.empty((len(es), 1), dtype=object)
    m.estimators_[:, 0] = es
    ini = DummyClassifier(strategy="prior")
    ini.classes_ = np.array([0, 1])
    ini.class_prior_ = np.array([1 - prior, prior])
    ini.n_classes_, ini.n_outputs_, ini._strategy, ini.sparse_output_ = 2, 1, "prior", False
    m.init_ = ini
    m.classes_, m.n_classes_, m.n_features_in_ = np.array([0, 1]), 2, d

    class GB(GradientBoostingClassifier):
        def predict_proba(self, X):
            out = []
            for x in X:
                z = math.log(prior / (1 - prior)) + sum(v[route(s, x)][0] for s, v in zip(specs, margins))
                p = 1 / (1 + math.exp(-z))
                out.append([1 - p, p])
            return np.array(out)
    m.__class__ = GB
    return m


def gb_acv(specs, margins, data, d, prior=0.5, **kw):
    from acv_explainers import ACVTree
    return ACVTree(gb_classifier(specs, margins, d, prior), arr(data), **kw)


def gb_class_values(margins):
    """per-class leaf values of a boosted binary classifier: each tree's own probabilities, averaged over trees"""
    T = float(len(margins))
    out = []
    for m in margins:
        o = []
        for v in m:
            p = 1 / (1 + math.exp(-v[0]))
            o.append([(1 - p) / T, p / T])
        out.append(o)
    return out

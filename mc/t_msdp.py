"""Model-agnostic marginal Same Decision Probability and its searches (G01): every small labelling as the model."""
import itertools
import numpy as np
import core
from core import *
import large
from forest import Prob
from t_forest import check_search, units_of


class Model(object):
    """a model known by its predictions only: a table over the grid"""
    def __init__(self, table, out=float, shape=1):
        self.table, self.out, self.shape = table, out, shape

    def value(self, x):
        return self.table[tuple(float(v) for v in x)]

    def predict(self, X):
        assert X.ndim == 2
        return np.array([self.value(x) for x in X.tolist()])


def bgs(g, th):
    n = len(g)
    out = [g, [g[1], g[n - 1], g[1]], [g[n // 2], g[0], g[n - 1], g[n // 2 - 1]], [g[2]]]
    return out


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    for t in itertools.product((0, 1), repeat=4):
        out.append(dict(d=2, lv=[0, 1], t=list(t)))
    for t in itertools.product((0, 1, 2), repeat=4):
        out.append(dict(d=2, lv=[0, 1], t=list(t), names=1))
    lab9 = list(itertools.product((0, 1), repeat=9))
    for i, t in enumerate(lab9):
        if th or i % 32 == 3:
            out.append(dict(d=2, lv=[0, .5, 2], t=list(t)))
    for i, t in enumerate(itertools.product((0, 1), repeat=8)):
        if t[0] == 0 or th:
            out.append(dict(d=3, lv=[0, 1], t=list(t)))
    for i, t in enumerate(itertools.product((0, 1, 2.5), repeat=8)):
        if i % (9 if th else 243) == 5:
            out.append(dict(d=3, lv=[0, 1], t=list(t)))
    for i in range(0, 65536, 17 if th else 1543):
        out.append(dict(d=4, lv=[0, 1], t=[(i >> k) & 1 for k in range(16)]))
    out += [dict(d=7, large=k) for k in ("clf", "reg")]
    out.append(dict(d=16, wide=1))
    out.append(dict(d=17, wide=1))
    return out


def groups(d):
    if d == 2:
        return [[[]], [[1, 0]]]
    if d == 7:
        return [[[]], [[5, 2], [0, 1, 6]]]
    if d == 4:
        return [[[]], [[0, 3]], [[1, 2], [3, 0]], [[2, 0, 1]]]
    return [[[]], [[0, 1]], [[2, 0]], [[1, 2], [0]], [[2, 1, 0]]]


def ref_table(model, X, data, ok):
    memo = {}

    def table(i, S):
        S = tuple(sorted(S))
        if (i, S) not in memo:
            x = X[i]
            fx = model.value(x)
            n = 0
            if len(S) == len(x):
                memo[i, S] = Prob(1.0)
            else:
                for z in data:
                    y = list(z)
                    for f in S:
                        y[f] = x[f]
                    n += bool(ok(model.value(y), fx))
                memo[i, S] = Prob(n / float(len(data)))
        return memo[i, S]
    return table


def unchanged(ctx, name, before, arrays, det):
    for b, a in zip(before, arrays):
        if a.tobytes() != b:
            ctx.violate("%s modifies the arrays passed to it" % name, **det)
            return False
    return True


NAMES = {0: "lo", 1: "hi", 2: "mid"}


def run(prop, task, ctx):
    from acv_explainers.acv_tree import ACVTree, ACVTreeAgnostic
    from acv_explainers.acv_agnosticX import ACXplainer
    if task.get("large"):
        return run_large(task, ctx)
    if task.get("wide"):
        return run_wide(task, ctx)
    d = task["d"]
    g = grid(task["lv"], d)
    X = g
    N = len(X)
    th0 = ctx.thorough or d == 4
    for bi, data in enumerate(bgs(g, ctx.thorough)):
        for names in (0, 1) if task.get("names") else (0,):
            t = {tuple(float(v) for v in x): (NAMES[y] if names else y) for x, y in zip(g, task["t"])}
            m = Model(t)
            own = dict_acv([None], [[[0.5, 0.5]]], [[float(v) for v in x] for x in data], stub=False)
            own.model = m
            # the arrays may be of different numeric types
            for dx, dd in ((np.float64, np.float64), (np.float64, np.int64), (np.int64, np.float64), (np.float32, np.float32)) if bi == 0 else ((np.float64, np.float64),):
                if .5 in task["lv"] and dx is np.int64:
                    continue
                back = data
                if dd is np.int64:
                    back = [x for x in data if all(v == int(v) for v in x)]
                A, D = np.array(X, dtype=dx), np.array(back, dtype=dd)
                tab = ref_table(m, X, back, lambda a, b: a == b)
                det = dict(predictions=[[list(k), v] for k, v in sorted(t.items())], background=back, rows=X)
                bef = [A.tobytes(), D.tobytes()]
                for S in subsets(range(d)):
                    for name, got in (("compute_msdp_clf", own.compute_msdp_clf(A, np.array(S[::-1], dtype=int), D)), ("ACVTreeAgnostic.compute_msdp_clf", ACVTreeAgnostic.compute_msdp_clf(A, list(S), D, m))) + ((("ACXplainer.compute_msdp_clf", ACXplainer.compute_msdp_clf(A, list(S), D, m)),) if bi == 0 else ()):
                        got = got.tolist()
                        ctx.count(states=N, transitions=N, traces=1)
                        for i in range(N):
                            if not close(got[i], tab(i, S)):
                                ctx.violate("%s: row %s given features %s has %r, by definition %r" % (name, X[i], S, got[i], float(tab(i, S))), **det)
                                return
                if not unchanged(ctx, "compute_msdp_clf", bef, (A, D), det):
                    return
                if dx is not np.float64 and not ctx.thorough:
                    continue
                if not names and (bi < 2 or th0) and not search_all(ctx, task, d, A, D, N, tab, m, own, ACVTreeAgnostic, det, "clf", None):
                    return
            if names:
                continue
            back = data
            A, D = arr(X), arr(back)
            other = Model({k: 7 for k in t})
            for thr in (0.0, 1.0, 1.5) if bi < 2 else (1.0,):
                tab = ref_table(m, X, back, lambda a, b: abs(a - b) <= thr)
                det = dict(predictions=[[list(k), v] for k, v in sorted(t.items())], background=back, rows=X, tolerance=thr)
                bef = [A.tobytes(), D.tobytes()]
                for S in subsets(range(d)):
                    own.model = other       # an explicitly passed model is used instead of the tree's own
                    r = own.compute_msdp_reg(A, np.array(S, dtype=int), D, m, threshold=thr)
                    own.model = m
                    for name, got in (("compute_msdp_reg", r), ("compute_msdp_reg (own model)", own.compute_msdp_reg(A, list(S), D, threshold=thr)),
                                      ("ACVTreeAgnostic.compute_msdp_reg", ACVTreeAgnostic.compute_msdp_reg(A, list(S), D, m, thr))) + ((("ACXplainer.compute_msdp_reg", ACXplainer.compute_msdp_reg(A, list(S), D, m, thr)),) if bi == 0 else ()):
                        got = got.tolist()
                        ctx.count(states=N, transitions=N, traces=1)
                        for i in range(N):
                            if not close(got[i], tab(i, S)):
                                ctx.violate("%s: row %s given features %s has %r, by definition %r" % (name, X[i], S, got[i], float(tab(i, S))), **det)
                                return
                if not unchanged(ctx, "compute_msdp_reg", bef, (A, D), det):
                    return
                if thr == 1.0 and max(task["t"]) > 1 or ctx.thorough:
                    if not search_all(ctx, task, d, A, D, N, tab, m, own, ACVTreeAgnostic, det, "reg", thr):
                        return
    ctx.sample(dict(model=task["t"], background=back, row=X[1], given=S, probability=got[1]))


def search_all(ctx, task, d, A, D, N, tab, m, own, agn, det, kind, thr):
    from acv_explainers.acv_agnosticX import ACXplainer
    th = ctx.thorough
    bef = [A.tobytes(), D.tobytes()]
    for ci, C in enumerate(groups(d)):
        units = units_of(C, list(range(d)))
        Cb = [list(c) for c in C]
        for pi in (0.5, 0.75, 1.0) if ci == 0 or th else (0.75,):
            for minimal, stop in ((1, False), (1, True), (0, True), (2, False)) if pi == 0.75 else ((1, True),):
                if minimal > len(units):
                    continue
                if kind == "clf":
                    calls = [("importance_msdp_clf", lambda: own.importance_msdp_clf(A, D, None, C, pi, minimal, stop), None),
                             ("ACVTreeAgnostic.importance_msdp_clf_search", lambda: agn.importance_msdp_clf_search(A, D, m, C, minimal, pi, None, stop), None),
                             ("ACXplainer.importance_msdp_clf_search", lambda: ACXplainer.importance_msdp_clf_search(A, D, m, C, minimal, pi, None, stop), None)]
                    sp = lambda s: agn.importance_msdp_clf_search(A, D, m, C, minimal, pi, s, stop)
                else:
                    calls = [("importance_msdp_reg", lambda: own.importance_msdp_reg(A, D, None, C, pi, minimal, thr, stop), None),
                             ("ACVTreeAgnostic.importance_msdp_reg_search", lambda: agn.importance_msdp_reg_search(A, D, m, C, minimal, pi, thr, None, stop), None),
                             ("ACXplainer.importance_msdp_reg_search", lambda: ACXplainer.importance_msdp_reg_search(A, D, m, C, minimal, pi, thr, None, stop), None)]
                    sp = lambda s: agn.importance_msdp_reg_search(A, D, m, C, minimal, pi, thr, s, stop)
                if minimal == 1 and d == 3:
                    calls.append(("search within features 2, 0", lambda: sp([2, 0]), [2, 0]))
                for k, (name, call, space) in enumerate(calls):
                    if k in (1, 2) and not th and (ci or pi != 0.75 or (k == 2 and minimal != 1)):
                        continue
                    u = units if space is None else units_of(C, space)
                    res = call()
                    ctx.count(states=N, traces=1, transitions=N * 2 ** len(u))
                    dd = dict(det, groups=C, pi_level=pi, minimal=minimal, stop=stop, space=space)
                    if not check_search(ctx, name, task, tab, N, d, u, minimal, stop, pi, res, dd, floor=True, half=d / 2.0):
                        return False
                    if C != Cb or not unchanged(ctx, name, bef, (A, D), dd):
                        return False
    return True


class Rule(object):
    """decision by three of many features"""
    def __init__(self, fs):
        self.fs = fs

    def value(self, x):
        a, b, c = self.fs
        return int((x[a] > 0 and x[b] > 0) or x[c] > 1)

    def predict(self, X):
        return np.array([self.value(x) for x in X.tolist()])


class Score(object):
    """a decision or a score computed from the values of the row"""
    def __init__(self, clf):
        self.clf = clf

    def value(self, x):
        v = 2. * x[0] - x[1] + x[2] * (x[3] > .25) - .5 * x[4] * x[5] + .25 * x[6]
        return int(v > 0) + int(v > 2) if self.clf else v

    def predict(self, X):
        return np.array([self.value(x) for x in X.tolist()])


def run_large(task, ctx):
    from acv_explainers.acv_tree import ACVTreeAgnostic
    F, d, data, X = large.instance("mid8")
    kind, thr = task["large"], None if task["large"] == "clf" else 1.75
    X = X[:5]
    A, D, N = arr(X), arr(data), 5
    m = Score(kind == "clf")
    own = dict_acv([None], [[[0.5, 0.5]]], data, stub=False)
    own.model = m
    tab = ref_table(m, X, data, (lambda a, b: a == b) if kind == "clf" else (lambda a, b: abs(a - b) <= thr))
    for S in large.chosen_sets(d):
        got = (own.compute_msdp_clf(A, np.array(S, dtype=int), D) if kind == "clf" else own.compute_msdp_reg(A, np.array(S, dtype=int), D, threshold=thr)).tolist()
        ctx.count(states=N, transitions=N, traces=1)
        for i in range(N):
            if not close(got[i], tab(i, S)):
                return ctx.violate("compute_msdp_%s: large background, row %s given features %s has %r, by definition %r" % (kind, X[i], S, got[i], float(tab(i, S))))
    search_all(ctx, task, d, A, D, N, tab, m, own, ACVTreeAgnostic, dict(rows=X), kind, thr)


def run_wide(task, ctx):
    """more than fifteen features: the search runs over the fifteen features the trees test most often"""
    from acv_explainers.acv_tree import ACVTreeAgnostic
    d = task["d"]
    data = [[float((j >> (i % 3)) & 1) for i in range(d)] for j in (0, 3, 5, 6)]
    X = [data[1], [1.0] * d]
    A, D = arr(X), arr(data)
    m = Rule((2, 9, d - 1))
    spec = [2, .5, [9, .5, None, None], [d - 1, .5, None, [4, .5, None, None]]]
    own = dict_acv([spec], [[[float(i), 1.0] for i in range(5)]], data, stub=False)
    own.model = m
    used = [2, 9, d - 1, 4]
    tab = ref_table(m, X, data, lambda a, b: a == b)
    det = dict(background=data, rows=X)
    for name, res in (("importance_msdp_clf", own.importance_msdp_clf(A, D, None, [[]], 0.75, 1, False)),
                      ("importance_msdp_reg", own.importance_msdp_reg(A, D, None, [[]], 0.75, 1, 0.5, False))):
        ctx.count(states=len(X), traces=1, transitions=len(X) * 16)
        if not check_search(ctx, name, task, tab, len(X), d, [[f] for f in used], 1, False, 0.75, res, det, floor=True, half=d / 2.0):
            return
    # the enumeration of candidates is cut off at 2^15 sets: a search that finds nothing in them must still end
    if d == 17:
        one = A[:1]
        for name, call in (("importance_msdp_clf_search", lambda: ACVTreeAgnostic.importance_msdp_clf_search(one, D[:1], m, [[]], 8, 1.5, None, False)),
                           ("importance_msdp_reg_search", lambda: ACVTreeAgnostic.importance_msdp_reg_search(one, D[:1], m, [[]], 8, 1.5, 0.5, None, False))):
            imp, idx, size, sdp = [tolist(r) for r in call()]
            ctx.count(states=1, traces=1, transitions=24310)
            if any(imp) or sdp[0] > 1 or not 0 <= size[0] < d:
                ctx.violate("%s: a search cut short reports importances %s, explanation %s of size %d" % (name, imp, idx[0], size[0]), **det)
                return

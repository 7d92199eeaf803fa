"""The forest estimators of a tree explainer (R01): the same projected cells as in t_forest, through ACVTree, whose level of variation is a
number, plus its quantiles and the slower estimators written in Python."""
import itertools
import numpy as np
import core
from core import *
from forest import *
from t_forest import big, sets_of, rows_of, bgs, batch, compare, label_sets, check_search, check_family, units_of, group_choices, search_space

LEVELS = [0, .25, 1.0, None, 4]


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    for i, F in enumerate(forests3(th)):
        if th or len(F) > 1 or i % 2 == 0:
            out.append({"F": F, "d": 3, "clf": i % 2, "order": "pre", "lv": [0, .5, 1], "i": i})
    for i, F in enumerate(one_feature(th)):
        out.append({"F": F, "d": 1, "clf": i % 2, "order": "pre", "lv": [0, .5, 1, 1.5, 2], "i": i})
    for i, F in enumerate(forests2(th)):
        if th or i % 2 == 0:
            out.append({"F": F, "d": 2, "clf": (i // 2) % 2, "order": "pre", "lv": [0, .5, 1, 1.5, 2], "i": i})
    cats = [[0, .5, [1, .5, None, [2, .5, [3, .5, None, None], None]], None], [3, .5, None, [2, .5, None, [0, .5, [1, .5, None, None], None]]]]
    for i, s in enumerate(cats):
        out.append({"F": [s, cats[1 - i]], "d": 4, "clf": i, "order": "pre", "lv": [0, 1], "i": i})
    wide = [0, .5, [7, .5, None, [4, .5, None, None]], [10, .5, None, [3, .5, None, None]]]
    for i in range(2):
        out.append({"F": [wide, [2, .5, [9, .5, None, None], None]], "d": 11, "clf": i, "order": "pre", "lv": "wide", "i": i, "imp": i})
    for i in range(2):
        out.append(dict(big("mid8", i), order="pre", i=i + 1))
        if th:
            out.append(dict(big("mid", i), order="pre", i=i + 1, imp=1))
    for i in range(64 if th else 16):
        out.append({"grown": i, "clf": i % 2, "d": 3, "lv": [0, .5, 1], "order": "pre", "i": i})
    return out


class Named(object):
    """stands for a trained model that knows how important its features are"""
    def __init__(self, imp):
        self.feature_importances_ = np.array(imp)


def explainer(task, data):
    """(explainer, node lists)"""
    if "grown" not in task:
        a = dict_acv(task["F"], [[[float(l % 2), 1.0 - l % 2] for l in range(n_leaves(s))] for s in task["F"]], data, stub=False)
        return a, [nodes_of(s, "pre") for s in task["F"]]
    from acv_explainers import ACVTree
    from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor, ExtraTreesRegressor
    i = task["grown"]
    X = grid([0, .5, 1], 3)
    y = [(sum(int(2 * v) * (3 * j + 1 + i) for j, v in enumerate(r)) + k * (i // 4)) % 3 for k, r in enumerate(X)]
    cls = RandomForestClassifier if task["clf"] else RandomForestRegressor if i % 4 else ExtraTreesRegressor
    m = cls(n_estimators=1 + i % 3, max_depth=2 + i % 3, random_state=i).fit(arr(X), np.array(y))
    a = ACVTree(m, arr(data))
    nodes = []
    for e in m.estimators_:
        t = e.tree_
        nodes.append((t.children_left.tolist(), t.children_right.tolist(), t.feature.tolist(), t.threshold.tolist()))
    task["F"] = [list(n) for n in nodes]
    return a, nodes


def percentile(vals, ws, q):
    """weighted percentile with each value in the middle of its weight, linear in between"""
    o = sorted((v, w) for v, w in zip(vals, ws) if w > 1e-12)
    tot = sum(w for v, w in o)
    c, at = 0.0, []
    for v, w in o:
        at.append(100.0 * (c + w / 2.0) / tot)
        c += w
    if q <= at[0]:
        return o[0][0]
    if q > at[-1]:
        return o[-1][0]
    for k in range(len(o) - 1):
        if at[k] < q <= at[k + 1] or (q == at[k]):
            return o[k][0] + (q - at[k]) / (at[k + 1] - at[k]) * (o[k + 1][0] - o[k][0])
    return o[-1][0]


def run(prop, task, ctx):
    d, clf, ti = task["d"], task["clf"], task["i"]
    X = rows_of(task)
    Ss = subsets(range(d)) if d < 5 else sets_of(task)[::4] if task.get("large") else [[], [0], [0, 2, 10], [9], [3, 4, 7], list(range(11))]
    keys0 = batch(task, X, Ss)
    for data in bgs(task, ctx.tier):
        n = len(data)
        if "grown" in task and n < 4:
            continue
        D = arr(data)
        a, nodes = explainer(task, data)
        full0 = [cells(nodes, x, S, data)[0] for x, S in keys0]
        for li, yd in enumerate(label_sets(task, data, ctx.tier)):
            Y = np.array(yd, dtype=np.float64)
            K = 2 if clf and n > 3 else 3
            ys0 = [(i + i // len(Ss)) % K for i in range(len(keys0))]
            tl = LEVELS[(ti + li) % 5]
            kw0 = {} if tl is None else dict(t=tl)
            lim = 20 if tl is None else tl
            hit = (lambda a, b: 1.0 if a == b else 0.0) if clf else (lambda a, b: 1.0 if (a - b) ** 2 <= lim else 0.0)
            det = dict(background=data, targets=yd, t=tl, classifier=clf)
            for ms in (0, None):
                m = 5 if ms is None else ms
                keep = [i for i, c in enumerate(full0) if all(len(r) >= m for r in c)]
                if not keep:
                    continue
                keys, cs, ys = [keys0[i] for i in keep], [full0[i] for i in keep], [ys0[i] for i in keep]
                A, SL, y = arr([k[0] for k in keys]), [k[1] for k in keys], np.array(ys, dtype=np.float64)
                kw = dict(kw0, classifier=clf)
                if ms is not None:
                    kw["min_node_size"] = ms
                elif clf:
                    del kw["classifier"]
                ctx.count(states=len(keys) * len(nodes), traces=1, transitions=3 * len(keys))
                want = [average(c, lambda r: hit(yd[r], ys[i])) for i, c in enumerate(cs)]
                dd = dict(det, min_node_size=ms)
                if not compare(ctx, "compute_sdp_rf", a.compute_sdp_rf(A, y, D, Y, SL, **kw), want, keys, task, **dd):
                    return
                if not clf:
                    iv = [(.5 * (i % 3), .5 + .5 * (i % 4)) for i in range(len(keys))]
                    wi = [average(c, lambda r: 1.0 if iv[i][0] <= yd[r] <= iv[i][1] else 0.0) for i, c in enumerate(cs)]
                    if not compare(ctx, "compute_sdp_rf(intervals)", a.compute_sdp_rf(A, y, D, Y, SL, **dict(kw, t=np.array(iv))), wi, keys, task, **dd):
                        return
                we = [average(c, lambda r: yd[r]) for c in cs]
                if not compare(ctx, "compute_exp_rf", a.compute_exp_rf(A, y, D, Y, SL, **kw), we, keys, task, **dd):
                    return
                wc = [average(c, lambda r: 1.0 if yd[r] <= ys[i] else 0.0) for i, c in enumerate(cs)]
                if not compare(ctx, "compute_cdf_rf", a.compute_cdf_rf(A, y, D, Y, SL, **kw), wc, keys, task, **dd):
                    return
                # cells without any row have no quantile
                q = [i for i, c in enumerate(cs) if all(c)][::1 if ctx.thorough else 3]
                if not q:
                    continue
                kq, cq, yq = [keys[i] for i in q], [cs[i] for i in q], y[q]
                yy = [v + .125 * j for j, v in enumerate(yd)]
                if len(set(yy)) == n and not li:
                    YY = np.array(yy)
                    Q = (5, 50, 80, 95)[(ti + li) % 4]
                    wts = [weights(c, n) for c in cq]
                    wq = [percentile(yy, w, Q) for w in wts]
                    kk = dict(kw, quantile=Q)
                    kk.pop("t", None)
                    g = tolist(a.compute_quantile_rf(A[q], yq, D, YY, [k[1] for k in kq], **kk))
                    bad = [i for i in range(len(kq)) if abs(g[i] - wq[i]) > 1e-4]
                    if bad:
                        ctx.violate("compute_quantile_rf: the %d%% quantile for %s is %r instead of %r" % (Q, kq[bad[0]], g[bad[0]], wq[bad[0]]), forest=task["F"], background=data, targets=yy)
                        return
                    wq = [percentile([yq[i] - v for v in yy], w, Q) for i, w in enumerate(wts)]
                    g = tolist(a.compute_quantile_diff_rf(A[q], yq, D, YY, [k[1] for k in kq], **kk))
                    bad = [i for i in range(len(kq)) if abs(g[i] - wq[i]) > 1e-4]
                    if bad:
                        ctx.violate("compute_quantile_diff_rf: the %d%% quantile for %s is %r instead of %r" % (Q, kq[bad[0]], g[bad[0]], wq[bad[0]]), forest=task["F"], background=data, targets=yy)
                        return
                    ctx.count(transitions=2 * len(kq))
                if li:
                    continue
                # the estimators written in Python take one set for all rows
                sub = dict(min_node_size=m) if ms is not None else {}
                for S in Ss:
                    ii = [i for i, k in enumerate(kq) if k[1] == S][:9]
                    if not ii:
                        continue
                    ks, yl = [kq[i] for i in ii], [float(yq[i]) for i in ii]
                    B = A[q][ii]
                    one = lambda g: [v[0] for v in tolist(g)]
                    if not compare(ctx, "compute_exp_shaff", one(a.compute_exp_shaff(B, D, Y, S, **sub)), [average(cq[i], lambda r: yd[r]) for i in ii], ks, task, **dd):
                        return
                    ws = [average(cq[i], lambda r: 1.0 if yd[r] == yl[j] else 0.0) for j, i in enumerate(ii)]
                    if not compare(ctx, "compute_sdp_clf_shaff", one(a.compute_sdp_clf_shaff(B, np.array(yl), D, Y, S, **sub)), ws, ks, task, **dd):
                        return
                    ws = [average(cq[i], lambda r: 1.0 if (yd[r] - yl[j]) ** 2 <= lim else 0.0) for j, i in enumerate(ii)]
                    if not compare(ctx, "compute_sdp_shaff", one(a.compute_sdp_shaff(B, np.array(yl), lim, D, Y, S, **sub)), ws, ks, task, **dd):
                        return
                    ctx.count(transitions=3 * len(ii))
            if li == 0:
                if not searches(task, ctx, a, nodes, data, yd, X, hit, kw0, det):
                    return
    ctx.sample({"forest": task["F"], "row": keys0[-2][0], "known": keys0[-2][1], "background": data, "selected": full0[-2]})


def searches(task, ctx, a, nodes, data, yd, X, hit, kw0, det):
    d, clf, F = task["d"], task["clf"], task["F"]
    X = X if ctx.thorough or len(X) < 10 else X[::2]
    A, D, Y, N = arr(X), arr(data), np.array(yd, dtype=np.float64), len(X)
    ys = [(i * 2 + i // 3) % 2 for i in range(N)]
    y = np.array(ys, dtype=np.float64)
    space = list(range(d))
    if d > 10:
        if task["imp"]:
            imp = [1.0 / (1 + ((f * 7) % d)) for f in range(d)]
            a.model = Named(imp)
            space = search_space(d, imp)
        else:
            space = [0, 2, 3, 4, 7, 9, 10]    # the features the forest uses
    memo = {}

    def table(i, S):
        if (i, S) not in memo:
            memo[i, S] = average(cells(nodes, X[i], S, data)[0], lambda r: hit(yd[r], ys[i]))
        return memo[i, S]
    for k, C in enumerate(group_choices(d, ctx.tier)):
        units = units_of(C, space)
        for pi in (0.5, 0.8, 0.999) if d < 11 else (0.9,):
            for minimal, stop in ((1, False), (1, True), (2, False), (0, False)) if ctx.thorough else ((1, False), (1, True), (2, False), (0, False))[k % 2::2]:
                if minimal > len(units):
                    continue
                kw = dict(kw0, min_node_size=0, classifier=clf, C=C, pi_level=pi)
                dd = dict(det, forest=F, rows=X, row_targets=ys, groups=C, pi_level=pi, minimal=minimal, stop=stop)
                res = a.importance_sdp_rf(A, y, D, Y, minimal=minimal, stop=stop, **kw)
                ctx.count(states=N, traces=1, transitions=N * 2 ** len(units))
                if not check_search(ctx, "importance_sdp_rf", task, table, N, d, units, minimal, stop, pi, res, dd):
                    return False
            e, p, g = a.sufficient_expl_rf(A, y, D, Y, minimal=1, stop=False, **kw)
            ctx.count(states=N * 2 ** len(units), traces=1, transitions=N)
            # each family starts with a placeholder
            if [f[0] for f in e] != [[-1]] * N or [v[0] for v in p] != [-1.0] * N:
                ctx.violate("sufficient_expl_rf: a family does not start with the placeholder: %s %s" % (e, p), **dd)
                return False
            if not check_family(ctx, "sufficient_expl_rf", table, N, d, units, 1, pi, [f[1:] for f in e], [v[1:] for v in p], g, dd):
                return False
    return True

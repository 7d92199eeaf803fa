"""Tree-based minimal sufficient explanation searches (T05): every admissible set of every row, against the leaf-based probabilities."""
import numpy as np
import core
from core import *
import large
from forest import Ambiguous, reaches
from t_shap import FOREST_PARTS, caterpillars
from t_sdp import Ref, mask, clf_vals, reg_vals, clf_models, decisions
from t_forest import check_search, units_of


class P(float):
    exact = False


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    specs = tree_specs([(0, .5), (1, .5), (2, .5)], 2)
    for i, s in enumerate(specs):
        if th or i % 3 == 0:
            out.append({"f": [s], "d": 3, "lv": [0, .5, 1]})
    for i, a in enumerate(FOREST_PARTS):
        for j, b in enumerate(FOREST_PARTS):
            if th or (2 * i + j) % 3 == 0:
                out.append({"f": [a, b], "d": 3, "lv": [0, 1] if not th else [0, .5, 1]})
    out.append({"f": [FOREST_PARTS[4], FOREST_PARTS[7], FOREST_PARTS[3]], "d": 3, "lv": [0, 1]})
    for f in one_feature(th):
        out.append({"f": f, "d": 1, "lv": [0, .5, 1, 1.5, 2]})
    cats = caterpillars(4)
    for i, s in enumerate(cats):
        if th or i % 40 == 7:
            out.append({"f": [s], "d": 4, "lv": [0, 1]})
    out.append({"f": [cats[3], cats[50 % len(cats)]], "d": 4, "lv": [0, 1]})
    out.append({"f": large.instance("mid8")[0], "d": 7, "large": "mid8"})
    # more than ten features: the search runs over the ten features the trees test most often
    w = [[3, .5, [7, .5, None, [1, .5, None, None]], [0, .5, None, None]], [7, .5, [9, .5, None, None], [5, .5, [2, .5, None, None], None]],
         [10, .5, [8, .5, None, None], [3, .5, [4, .5, None, None], None]]]
    out.append({"f": w, "d": 11, "lv": [0, 1], "wide": 1})
    out.append({"f": w[:2], "d": 12, "lv": [0, 1], "wide": 1})
    if th:
        for s in tree_specs([(0, .5), (1, .5), (2, .5)], 3, distinct=True)[::3]:
            if depth_of(s) == 3:
                out.append({"f": [s], "d": 3, "lv": [0, .5, 1]})
    # the cut-off of the enumeration of candidates (more than 2^15 sets): searches that end without an explanation must end
    out.append({"f": [[0, .5, None, None]], "d": 17, "lv": [0, 1], "cut": 1})
    return out


def bgs(d, tier):
    if d == 1:
        return BG1
    if d == 7:
        return [large.instance("mid8")[2]]
    b = grid([0, 1], min(d, 4))
    n = len(b)
    if d > 4:
        r = [[(j * (i + 1) // (1 + i % 3) + i * j // 2 + j) % 2 for i in range(d)] for j in range(9)]
        return [r, r[2:6]]
    t = grid([0, .5, 1], d)
    out = [b, [b[1], b[n - 1]], [t[1], t[-1], t[len(t) // 2], b[2]], [b[0], b[0], b[n - 2], b[n // 2], b[1]]]
    return out if tier == "thorough" else out[:3]


def group_choices(d, th):
    if d > 10:
        return [[[]], [[0, 10], [3, 4, 7]], [[6, 3]]]
    if d == 1:
        return [[[]], [[0]]]
    if d == 4:
        return [[[]], [[0, 3]], [[1, 2], [3, 0]], [[2, 0, 1]]]
    return [[[]], [[0, 1]], [[2, 0]], [[1, 2], [0]], [[2, 1, 0]]]


def frequent(specs, d):
    """the ten features that occur most often in the leaves' path lists (ties: any order, so the choice must be forced)"""
    cnt = [0] * d
    for s in specs:
        for box in leaf_boxes(s):
            for f in box:
                cnt[f] += 1
    return cnt


def run(prop, task, ctx):
    if task.get("cut"):
        return run_cut(task, ctx)
    if task.get("wide"):
        return run_wide(task, ctx)
    specs, d = task["f"], task["d"]
    X = large.instance("mid8")[3][:4] if task.get("large") else grid(task["lv"], d)
    A = arr(X)
    N = len(X)
    th = ctx.thorough
    for data in bgs(d, ctx.tier)[:2 if len(specs) > 1 and not th else None]:
        D = arr(data)
        for a, vals in clf_models(specs, data, d, clf_vals(specs, False, 2)[1:] if not th else clf_vals(specs, False)):
            cx, cd = decisions(a, X), decisions(a, data)
            ref = Ref(specs, vals, data, X, d)
            ups = [[c == cx[i] for c in cd] for i in range(N)]
            tab = make_table(lambda i, m: ref.sdp_clf(i, m, cx[i], ups[i], True, False))
            tabp = make_table(lambda i, m: ref.sdp_clf(i, m, cx[i], ups[i], False, False))
            det = dict(forest=specs, leaf_values=vals, background=data, rows=X)
            runs = [("importance_sdp_clf", lambda C, pi, mi, st: a.importance_sdp_clf(A, D, C, pi, mi, st), tab, True),
                    ("importance_sdp_clf_greedy", lambda C, pi, mi, st: a.importance_sdp_clf_greedy(A, D, C, pi, mi, st), tab, True),
                    ("importance_sdp_clf_nopa", lambda C, pi, mi, st: a.importance_sdp_clf_nopa(A, D, C, pi, mi), tab, False),
                    ("importance_sdp_clf_ptrees", lambda C, pi, mi, st: a.importance_sdp_clf_ptrees(A, D, C, pi, mi, st), tabp, None)]
            if not search(ctx, task, runs, d, N, det, list(range(d))):
                return
            # an explicit search space
            for space in ([0, 2], [2, 1]) if d > 2 else ([0],):
                for C in ([[]], [[1, 2]], [[0, 1]]) if d > 2 else ([[]], [[0]]):
                    units = units_of(C, space)
                    for st in (False, True):
                        res = a.importance_sdp_clf_search(A, D, C, 0.75, 1, list(space), st)
                        ctx.count(states=N, traces=1, transitions=N * 2 ** len(units))
                        if not check_search(ctx, "importance_sdp_clf_search", task, tab, N, d, units, 1, st, 0.75, res,
                                            dict(det, groups=C, space=space, stop=st), floor=True):
                            return
        if len(specs) > 2:
            continue
        for vals in reg_vals(specs, False)[:1 if len(specs) > 1 and not th else 2]:
            a = dict_acv(specs, vals, data, stub=False)
            fx = [sum(v[route(s, x)][0] for s, v in zip(specs, vals)) for x in X]
            fd = [sum(v[route(s, x)][0] for s, v in zip(specs, vals)) for x in data]
            ref = Ref(specs, vals, data, X, d)
            for tX in (0.0, 4.0):
                ups = [[(fx[i] - y) ** 2 > tX for y in fd] for i in range(N)]
                tab = make_table(lambda i, m: ref.sdp_reg(i, m, fx[i], ups[i]))
                tabc = make_table(lambda i, m: ref.sdp_reg_cat(i, m, fx[i], ups[i]))
                det = dict(forest=specs, leaf_values=vals, background=data, rows=X, tolerance=tX)
                runs = [("importance_sdp_reg", lambda C, pi, mi, st: a.importance_sdp_reg(A, tX, D, C, pi, mi, st), tab, True),
                        ("importance_sdp_reg_nopa", lambda C, pi, mi, st: a.importance_sdp_reg_nopa(A, tX, D, C, pi, mi), tab, False),
                        ("importance_sdp_reg_cat", lambda C, pi, mi, st: a.importance_sdp_reg_cat(A, tX, D, C, pi, mi, st), tabc, True),
                        ("importance_sdp_reg_cat_nopa", lambda C, pi, mi, st: a.importance_sdp_reg_cat_nopa(A, tX, D, C, pi, mi), tabc, False)]
                if not search(ctx, task, runs, d, N, det, list(range(d))):
                    return


def make_table(f):
    memo = {}

    def table(i, S):
        k = (i, S)
        if k not in memo:
            v = f(i, mask(S))
            memo[k] = v if v is None else P(v)
        if memo[k] is None:
            raise Ambiguous()
        return memo[k]
    return table


def search(ctx, task, runs, d, N, det, space):
    for ci, C in enumerate(group_choices(d, ctx.thorough)):
        units = units_of(C, space)
        for pi in (0.5, 0.8, 0.999) if ci < 2 or ctx.thorough else (0.8,):
            for minimal, stop in ((1, False), (1, True), (0, True), (2, False)) if pi == 0.8 or ctx.thorough else ((1, True),):
                if minimal > len(units):
                    continue
                for name, call, tab, has in runs:
                    if has is False and not stop:
                        continue
                    st = False if has is None else stop
                    res = call(C, pi, minimal, stop)
                    ctx.count(states=N, traces=1, transitions=N * 2 ** len(units))
                    dd = dict(det, groups=C, pi_level=pi, minimal=minimal, stop=stop)
                    if not check_search(ctx, name, task, tab, N, d, units, minimal, st, pi, res, dd, floor=True):
                        return False
    ctx.sample(dict(forest=task["f"], groups=C, explanation=tolist(res[1])[:2], probability=tolist(res[3])[:2]))
    return True


def run_wide(task, ctx):
    specs, d = task["f"], task["d"]
    data = bgs(d, ctx.tier)[0]
    X = [r for r in data[::2]] + [[1 - v for v in data[1]]]
    A, D = arr(X), arr(data)
    N = len(X)
    cnt = frequent(specs, d)
    # force a strict ranking at the cut: the trees test at most ten features, all others have count 0
    used = [f for f in range(d) if cnt[f]]
    if len(used) > 10:
        used = sorted(used, key=lambda f: -cnt[f])
        if cnt[used[9]] == cnt[used[10]]:
            raise RuntimeError("ambiguous ranking in the harness")
        used = used[:10]
    for a, vals in clf_models(specs, data, d, clf_vals(specs, False, 2)[:3]):
        cx, cd = decisions(a, X), decisions(a, data)
        ref = Ref(specs, vals, data, X, d)
        ups = [[c == cx[i] for c in cd] for i in range(N)]
        tab = make_table(lambda i, m: ref.sdp_clf(i, m, cx[i], ups[i], True, False))
        for C in group_choices(d, False):
            units = units_of(C, used)
            for pi in (0.75, 0.95):
                for stop in (True, False):
                    res = a.importance_sdp_clf(A, D, C, pi, 1, stop)
                    ctx.count(states=N, traces=1, transitions=N * 2 ** len(units))
                    det = dict(forest=specs, leaf_values=vals, background=data, rows=X, groups=C, pi_level=pi, stop=stop)
                    if not check_search(ctx, "importance_sdp_clf", task, tab, N, d, units, 1, stop, pi, res, det, floor=True):
                        return


def run_cut(task, ctx):
    """17 players: only the sizes whose candidates fit in 2^15 are searched; the search must end and report what it found"""
    specs, d = task["f"], task["d"]
    data = [[1.0 if j & 1 else 0.0] + [float((j >> (i % 3)) & 1) for i in range(1, d)] for j in range(3)]
    X = [data[0]]
    A, D = arr(X), arr(data)
    vals = [[[1.0], [3.0]]]
    a = dict_acv(specs, vals, data, stub=False)
    ctx.count(states=1, traces=4)
    for name, call in (("importance_sdp_reg", lambda: a.importance_sdp_reg(A, 0.0, D, [[]], 1.5, 7, False)),
                       ("importance_sdp_reg_nopa", lambda: a.importance_sdp_reg_nopa(A, 0.0, D, [[]], 1.5, 7)),
                       ("importance_sdp_reg_cat", lambda: a.importance_sdp_reg_cat(A, 0.0, D, [[]], 1.5, 7, False)),
                       ("importance_sdp_reg_cat_nopa", lambda: a.importance_sdp_reg_cat_nopa(A, 0.0, D, [[]], 1.5, 7))):
        imp, idx, size, sdp = [tolist(r) for r in call()]
        ctx.count(transitions=2 ** 15)
        if any(v != 0 for v in imp) or not 0 <= size[0] < d or sorted(set(idx[0][:size[0]])) != sorted(idx[0][:size[0]]) or any(not 0 <= v < d for v in idx[0][:size[0]]):
            ctx.violate("%s: a search cut short reports importances %s, explanation %s of size %d" % (name, imp, idx[0], size[0]))
            return

"""Tree Shapley values: the exact Shapley values of the leaf-estimator game, over every small forest."""
import itertools, math, random
import numpy as np
import core
from core import *
import large


def shapley_coefs(m):
    return [1.0 / (m * math.comb(m - 1, k)) for k in range(m)] if m else []


def leaf_game(spec, data, x, d):
    """v[leaf][mask] of the leaf estimator: P(row in leaf | row agrees with the leaf on S) if x agrees with the leaf on S"""
    n = len(data)
    out = []
    for box in leaf_boxes(spec):
        inb = []
        for r in data:
            m = 0
            for f in range(d):
                b = box.get(f)
                if b is None or b[0] < r[f] <= b[1]:
                    m |= 1 << f
            inb.append(m)
        xm = 0
        for f in range(d):
            b = box.get(f)
            if b is None or b[0] < x[f] <= b[1]:
                xm |= 1 << f
        full = (1 << d) - 1
        lm = sum(1 for m in inb if m == full)
        v = []
        for S in range(1 << d):
            if S == 0:
                v.append(lm / float(n))
            elif (xm & S) == S:
                q = sum(1 for m in inb if (m & S) == S)
                v.append(lm / float(q) if q else 0.0)
            else:
                v.append(0.0)
        out.append(v)
    return out


def shapley(v, groups, d):
    """exact Shapley value of each group of features in the game v (indexed by feature masks)"""
    g = len(groups)
    gm = [sum(1 << f for f in G) for G in groups]
    co = shapley_coefs(g)
    phi = [0.0] * d
    for i in range(g):
        s = 0.0
        others = [j for j in range(g) if j != i]
        for k in range(g):
            for c in itertools.combinations(others, k):
                m = 0
                for j in c:
                    m |= gm[j]
                s += co[k] * (v[m | gm[i]] - v[m])
        for f in groups[i]:
            phi[f] = s
    return phi


def complete_groups(C, d):
    if C == [[]]:
        return [[f] for f in range(d)]
    seen = {f for g in C for f in g}
    return [list(g) for g in C] + [[f] for f in range(d) if f not in seen]


def active_game(v, N):
    nm = sum(1 << f for f in N)
    return [v[0] if m == 0 else v[m | nm] for m in range(len(v))]


def sparse_values(box, data, x, groups, null=()):
    """{feature: Shapley value} of one leaf of a large tree: features the leaf does not test change no coalition's worth, so
    the players are the groups with a tested feature.  With null features, known in every coalition but the empty one, the
    empty coalition's worth is corrected afterwards, which each player pays for equally"""
    fs = sorted(box)
    ok = lambda r: sum(1 << f for f in fs if box[f][0] < r[f] <= box[f][1])
    rows, xm, full = [ok(r) for r in data], ok(x), sum(1 << f for f in fs)
    keep = sum(1 << f for f in null) & full
    lm = sum(1 for m in rows if m == full)
    memo = {}

    def v(S):
        S = (S | keep) & full
        if S not in memo:
            q = sum(1 for m in rows if m & S == S)
            memo[S] = lm / float(q) if q and xm & S == S else 0.0
        return memo[S]
    gm = [(g, sum(1 << f for f in g)) for g in groups if any(f in box for f in g)]
    n, co, phi = len(gm), shapley_coefs(len(gm)), {}
    for i, (g, m) in enumerate(gm):
        s = 0.0
        others = [o for j, (h, o) in enumerate(gm) if j != i]
        for k in range(n):
            for c in itertools.combinations(others, k):
                S = sum(c)
                s += co[k] * (v(S | m) - v(S))
        for f in g:
            phi[f] = s
    if keep:
        p = (v(0) - lm / float(len(data))) / len(groups)
        for g in groups:
            for f in g:
                phi[f] = phi.get(f, 0.0) + p
    return phi


# ---------------------------------------------------------------- enumeration
SP1 = [(0, .5), (1, .5), (2, .5)]
SP2 = [(0, .5), (0, 1.5), (1, .5), (1, 1.5)]


def caterpillars(d, rng=None):
    """every root-to-leaf chain testing d features in some order, turning left or right at each"""
    out = []
    for perm in itertools.permutations(range(d)):
        for turns in itertools.product((0, 1), repeat=d - 1):
            s = [perm[-1], .5, None, None]
            for f, t in zip(reversed(perm[:-1]), turns):
                s = [f, .5, s, None] if t else [f, .5, None, s]
            out.append(s)
    return out


FOREST_PARTS = [None, [0, .5, None, None], [2, .5, None, None], [0, .5, None, [1, .5, None, None]],
                [1, .5, [0, .5, None, None], [2, .5, None, None]], [2, .5, [2, .5, None, None], [0, .5, None, None]],
                [0, .5, [1, .5, None, [2, .5, None, None]], None], [1, .5, [0, .5, [2, .5, None, None], None], [2, .5, None, None]]]


def all_groups(d):
    """[[]] (no group) and every other way to group features (singletons left implicit or spelled out)"""
    out = [[[]]]
    for p in set_partitions(range(d)):
        big = [g for g in p if len(g) > 1]
        if not big:
            continue
        out.append(big)
        if any(len(g) == 1 for g in p):
            out.append([g for g in p if len(g) == 1][:1] + big)
    return out


def backgrounds(d, tier):
    bin_ = grid([0, 1], d)
    tie = grid([0, .5, 1], d)
    out = [[r] for r in bin_]
    out += multisets(bin_, 2)[::1 if tier == "thorough" else 3]
    out += [[tie[i], tie[(i * 7 + 5) % len(tie)]] for i in range(0, len(tie), 1 if tier == "thorough" else 2)]
    out += [bin_]
    ms3 = multisets(bin_, 3)
    out += ms3 if tier == "thorough" else ms3[::9]
    out += [[tie[i], tie[(i * 4 + 1) % len(tie)], tie[(i * 11 + 3) % len(tie)], tie[(i * 2 + 9) % len(tie)]] for i in range(0, len(tie), 1 if tier == "thorough" else 3)]
    return out


def tasks(prop, tier):
    out = []
    th = tier == "thorough"
    specs = tree_specs(SP1, 2)
    for s in specs:
        out.append({"f": [s], "d": 3, "lv": [0, .5, 1], "bg": "std3", "C": all_groups(3) if (th or specs.index(s) % 3 == 1) else [[[]], [[0, 1]], [[2, 0]], [[1], [0, 2]]]})
    for f in one_feature(th):
        out.append({"f": f, "d": 1, "lv": [0, .5, 1, 1.5, 2], "bg": "one", "C": [[[]], [[0]]]})
    specs2 = tree_specs(SP2, 2)
    for i, s in enumerate(specs2):
        if th or i % 2 == 0:
            out.append({"f": [s], "d": 2, "lv": [0, .5, 1, 1.5, 2], "bg": "two", "C": [[[]], [[0, 1]]]})
    for i, a in enumerate(FOREST_PARTS):
        for j, b in enumerate(FOREST_PARTS):
            if th or prop == "T01" or (i + j) % 2:
                out.append({"f": [a, b], "d": 3, "lv": [0, .5, 1], "bg": "few3", "C": [[[]], [[0, 1]], [[1, 2], [0]]]})
    out.append({"f": [FOREST_PARTS[4], FOREST_PARTS[7], FOREST_PARTS[1]], "d": 3, "lv": [0, .5, 1], "bg": "few3", "C": all_groups(3)})
    cats = caterpillars(4)
    for i, s in enumerate(cats):
        if th or i % 8 == 3:
            out.append({"f": [s], "d": 4, "lv": [0, 1], "bg": "few4", "C": [[[]], [[0, 3]], [[1, 2], [3, 0]], [[3, 1, 0]]]})
    out += [{"large": n} for n in (("wide", "deep", "many", "mid8", "mid") if prop == "T01" else ("wide", "many", "mid8", "mid"))]
    if th:
        d3 = tree_specs(SP1, 3, distinct=True)
        for s in d3:
            if depth_of(s) == 3:
                out.append({"f": [s], "d": 3, "lv": [0, 1], "bg": "few3", "C": [[[]], [[0, 2]]]})
        big = [[0, .5, [1, .5, [2, .5, None, None], [3, .5, None, None]], [4, .5, None, [1, .5, None, None]]],
               [4, .5, [3, .5, [2, .5, None, [1, .5, None, [0, .5, None, None]]], None], None]]
        for s in big:
            for C in all_groups(5):
                out.append({"f": [s], "d": 5, "lv": [0, 1], "bg": "few5", "C": [C]})
    return out


def bgs(name, tier):
    if name == "std3":
        return backgrounds(3, tier)
    if name == "one":
        return BG1
    if name == "two":
        g = grid([0, .5, 1, 2], 2)
        return [[r] for r in g[::3]] + [[g[i], g[(3 * i + 2) % 16], g[(5 * i + 1) % 16]] for i in range(16)] + [g]
    if name.startswith("few"):
        d = int(name[3:])
        b = grid([0, 1], d)
        n = len(b)
        return [[b[0]], [b[n - 1], b[1]], [b[1], b[2], b[n - 2]], [b[i] for i in range(0, n, 3)], b + b[: n // 2]]
    raise KeyError(name)


def forest_games(specs, data, X, d):
    """games[x] = list over all leaves of the forest of v[mask]"""
    return [[v for s in specs for v in leaf_game(s, data, x, d)] for x in X]


def large_vals(F, K=3):
    return [[[((t * 7 + l * 5 + k * 3) % 11 - 4) / 4. for k in range(K)] for l in range(n_leaves(s))] for t, s in enumerate(F)]


def large_shap(task, ctx):
    F, d, data, X = large.instance(task["large"])
    vals = large_vals(F)
    K = 3
    for C in ([[]], [[0, d - 1]], [[1, 2], [d - 1, 0]]):
        groups = complete_groups(C, d)
        want = [[[0.0] * K for _ in range(d)] for _ in X]
        memo = {}
        for i, x in enumerate(X):
            for t, s in enumerate(F):
                for l, box in enumerate(leaf_boxes(s)):
                    for f, p in sparse_values(box, data, x, groups).items():
                        for k in range(K):
                            want[i][f][k] += p * vals[t][l][k]
        A = arr(X)
        a = dict_acv(F, vals, data, stub=False)
        ctx.count(states=len(X), traces=1)
        calls = [("shap_values", lambda: a.shap_values(A, C)), ("shap_values_nopa", lambda: a.shap_values_nopa(A, C))]
        if task["large"] != "deep":
            c = dict_acv(F, vals, data, stub=False, cache=True, C=C)
            calls += [("shap_values_cache", lambda: c.shap_values_cache(A, C)), ("shap_values_cache_nopa", lambda: c.shap_values_cache_nopa(A, C))]
        for name, call in calls:
            got = call().tolist()
            ctx.count(transitions=len(X))
            q = diff(got, want)
            if q:
                ctx.violate("%s: large instance %s, groups %s: at %s it is %r instead of %r" % (name, task["large"], C, q[0], q[1], q[2]))
                return


def large_active(task, ctx):
    F, d, data, X = large.instance(task["large"])
    vals, K, A, W = large_vals(F), 3, arr(X), np.long
    a = dict_acv(F, vals, data, stub=False)
    splits = [sorted([(i * 3) % d for i in range(3)]), [f for f in range(d) if f % 7 != 3], list(range(d)), [f for f in range(d) if f % 2 == 0], [d - 1]]
    splits = [sorted(set(S)) for S in splits]
    boxes = [leaf_boxes(s) for s in F]
    for C in ([[]], [[0, 2]]):
        want = []
        use = [S for S in splits if C == [[]] or len(set(S) & {0, 2}) != 1]
        for S in use:
            N = [f for f in range(d) if f not in S]
            groups = complete_groups([g for g in C if g and g[0] in S] or [[]], d)
            groups = [g for g in groups if g[0] in S]
            w = [[[0.0] * K for _ in range(d)] for _ in X]
            for i, x in enumerate(X):
                for t in range(len(F)):
                    for l, box in enumerate(boxes[t]):
                        for f, p in sparse_values(box, data, x, groups, N).items():
                            for k in range(K):
                                w[i][f][k] += p * vals[t][l][k]
            want.append(w)
            ctx.count(states=len(X), traces=1)
            for name in ("shap_values_acv", "shap_values_acv_nopa"):
                got = getattr(a, name)(A, np.array(S, dtype=W), np.array(N, dtype=W), C).tolist()
                ctx.count(transitions=len(X))
                q = diff(got, w)
                if q:
                    ctx.violate("%s: large instance %s, active %s, groups %s: at %s it is %r instead of %r" % (name, task["large"], S, C, q[0], q[1], q[2]))
                    return
        s2, size = np.full((len(X), d), -1, dtype=W), np.zeros(len(X), dtype=W)
        n2 = np.full((len(X), d), -1, dtype=W)
        for i in range(len(X)):
            S = use[(i * 2) % len(use)]
            s2[i, :len(S)], size[i] = S, len(S)
            n2[i, len(S):] = [f for f in range(d) if f not in S]
        for name in ("shap_values_acv_adap", "shap_values_acv_adap_nopa"):
            got = getattr(a, name)(A, s2, n2, size, C).tolist()
            ctx.count(transitions=len(X))
            q = diff(got, [want[(i * 2) % len(use)][i] for i in range(len(X))])
            if q:
                ctx.violate("%s: large instance %s, groups %s: at %s it is %r instead of %r" % (name, task["large"], C, q[0], q[1], q[2]))
                return


def run(prop, task, ctx):
    if task.get("large"):
        return (large_shap if prop == "T01" else large_active)(task, ctx)
    specs, d = task["f"], task["d"]
    X = grid(task["lv"], d)
    A = arr(X)
    vals = one_hot_vals(specs)
    K = len(vals[0][0])
    many = bgs(task["bg"], ctx.tier)
    for data in many[::2] if prop == "T02" and len(many) > 8 and not ctx.thorough else many:
        games = forest_games(specs, data, X, d)
        for C in task["C"]:
            if prop == "T01":
                shap_case(ctx, task, specs, vals, K, d, X, A, data, games, C)
            elif prop == "T02":
                active_case(ctx, task, specs, vals, K, d, X, A, data, games, C)


def transpose(phis, d):
    return [[p[f] for p in phis] for f in range(d)]


def shap_case(ctx, task, specs, vals, K, d, X, A, data, games, C):
    groups = complete_groups(C, d)
    want = [transpose([shapley(v, groups, d) for v in g], d) for g in games]
    a = dict_acv(specs, vals, data, stub=False)
    c = dict_acv(specs, vals, data, stub=False, cache=True, C=C)
    ctx.count(states=len(X), traces=1)
    for name, call in (("shap_values", lambda: a.shap_values(A, C)), ("shap_values_nopa", lambda: a.shap_values_nopa(A, C)),
                       ("shap_values_cache", lambda: c.shap_values_cache(A, C)), ("shap_values_cache_nopa", lambda: c.shap_values_cache_nopa(A, C)),
                       ("shap_values[cache=True]", lambda: c.shap_values(A, C))):
        got = call().tolist()
        ctx.count(transitions=len(X))
        q = diff(got, want)
        if q:
            i, f, k = q[0] if len(q[0]) == 3 else (0, 0, 0)
            ctx.violate("%s: feature %d of row %s for leaf-output %d is %r, its exact Shapley value is %r" % (name, f, X[i], k, q[1], q[2]),
                        forest=specs, background=data, groups=C, row=X[i])
            return
    # independent consequences of the property, checked on the reported numbers themselves
    full = (1 << d) - 1
    for i, x in enumerate(X):
        for k in range(K):
            tot = sum(got[i][g[0]][k] for g in groups)
            if not close(tot, games[i][k][full] - games[i][k][0]):
                ctx.violate("values do not add up for row %s" % x, forest=specs, background=data, groups=C)
                return
    ctx.sample({"forest": specs, "background": data, "groups": C, "row": X[1], "shap": got[1]})


def active_case(ctx, task, specs, vals, K, d, X, A, data, games, C):
    splits = []
    for S in subsets(range(d), 1):
        if C != [[]] and any(0 < len(set(g) & set(S)) < len(g) for g in C):
            continue
        splits.append((S, [f for f in range(d) if f not in S]))
    a = dict_acv(specs, vals, data, stub=False)
    L = np.long
    want = {}
    for n, (S, N) in enumerate(splits):
        groups = [g for g in C if g and set(g) <= set(S)]
        seen = {f for g in groups for f in g}
        groups = groups + [[f] for f in S if f not in seen]
        want[n] = [transpose([shapley(active_game(v, N), groups, d) for v in g], d) for g in games]
        ctx.count(states=len(X), traces=1)
        for name, call in (("shap_values_acv", lambda: a.shap_values_acv(A, np.array(S, dtype=L), np.array(N, dtype=L), C)),
                           ("shap_values_acv_nopa", lambda: a.shap_values_acv_nopa(A, np.array(S, dtype=L), np.array(N, dtype=L), C))):
            got = call().tolist()
            ctx.count(transitions=len(X))
            q = diff(got, want[n])
            if q:
                i, f, k = q[0] if len(q[0]) == 3 else (0, 0, 0)
                ctx.violate("%s: active %s, null %s: feature %d of row %s for leaf-output %d is %r instead of %r" % (name, S, N, f, X[i], k, q[1], q[2]),
                            forest=specs, background=data, groups=C)
                return
    # one batch mixing every split, in the padded form the library's own bookkeeping produces
    from acv_explainers.utils import get_null_coalition, get_active_null_coalition_list
    rows = [(i, n) for i in range(len(X)) for n in range(len(splits)) if (i + n) % 3 == 0]
    s_star = -np.ones((len(rows), d), dtype=L)
    for r, (i, n) in enumerate(rows):
        s_star[r, :len(splits[n][0])] = splits[n][0]
    size = np.array([len(splits[n][0]) for i, n in rows], dtype=L)
    s2, n2 = get_null_coalition(np.array(s_star), np.array(size))
    sl, nl = get_active_null_coalition_list(np.array(s_star), np.array(size))
    for r, (i, n) in enumerate(rows):
        S, N = splits[n]
        if list(s2[r, :len(S)]) != S or sorted(n2[r, len(S):]) != N or list(sl[r]) != S or sorted(nl[r]) != N:
            ctx.violate("get_null_coalition: explanation %s gets active %s and null %s" % (S, s2[r].tolist(), n2[r].tolist()))
            return
    B = arr([X[i] for i, n in rows])
    for name, call in (("shap_values_acv_adap", lambda: a.shap_values_acv_adap(B, s2, n2, size, C)),
                       ("shap_values_acv_adap_nopa", lambda: a.shap_values_acv_adap_nopa(B, s2, n2, size, C))):
        got = call().tolist()
        ctx.count(transitions=len(rows))
        for r, (i, n) in enumerate(rows):
            q = diff(got[r], want[n][i])
            if q:
                ctx.violate("%s: row %s with active %s in a mixed batch gets %r instead of %r" % (name, X[i], splits[n], q[1], q[2]),
                            forest=specs, background=data, groups=C)
                return
    ctx.sample({"forest": specs, "background": data, "groups": C, "split": splits[0]})

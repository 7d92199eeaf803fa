"""Normalised leaf estimators (T08): the weights of a tree's leaves are rescaled to add up to one for every row and
coalition; conditional expectations for every tree, Shapley values of that game where every leaf of a tree tests the same players."""
import itertools
import numpy as np
import core
from core import *
from t_shap import leaf_game, shapley, complete_groups, all_groups, bgs, transpose, SP1, SP2, FOREST_PARTS


def normal_games(specs, data, X, d):
    """games[x] = for all leaves of the forest the weight v[mask] of the leaf among those of its tree (all 0 if no leaf of the
    tree that x can reach has a background row)"""
    out = []
    for x in X:
        vs = []
        for s in specs:
            g = leaf_game(s, data, x, d)
            tot = [sum(v[m] for v in g) for m in range(1 << d)]
            vs += [[v[m] / tot[m] if tot[m] else 0.0 for m in range(1 << d)] for v in g]
        out.append(vs)
    return out


def players_of(box, groups):
    return frozenset(i for i, g in enumerate(groups) if any(f in box for f in g))


def uniform(specs, groups):
    return all(len({players_of(b, groups) for b in leaf_boxes(s)}) == 1 for s in specs)


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    for i, s in enumerate(tree_specs(SP1, 2)):
        out.append({"f": [s], "d": 3, "lv": [0, .5, 1], "bg": "std3" if th or i % 6 == 1 else "few3", "C": all_groups(3)})
    for f in one_feature(th):
        out.append({"f": f, "d": 1, "lv": [0, .5, 1, 1.5, 2], "bg": "one", "C": [[[]], [[0]]]})
    for i, s in enumerate(tree_specs(SP2, 2)):
        if th or i % 2 == 0:
            out.append({"f": [s], "d": 2, "lv": [0, .5, 1, 1.5, 2], "bg": "two", "C": [[[]], [[0, 1]]]})
    obl = [[a, .5, [b, .5, None, None], [b, t, None, None]] for a, b in itertools.permutations(range(3), 2) for t in (.5, 1.5)]
    three = [[a, .5, [b, .5, [c, .5, None, None], [c, .5, None, None]], [c, .5, [b, .5, None, None], [b, .5, None, None]]] for a, b, c in itertools.permutations(range(3))]
    for i, a in enumerate(FOREST_PARTS + three):
        for j, b in enumerate(obl + FOREST_PARTS[:3]):
            if th or (i + j) % 4 == 0:
                out.append({"f": [a, b], "d": 3, "lv": [0, .5, 1], "bg": "few3", "C": [[[]], [[0, 1]], [[1, 2], [0]], [[0, 2, 1]]]})
    for i, a in enumerate(three):
        out.append({"f": [a], "d": 3, "lv": [0, .5, 1], "bg": "std3" if th or i == 2 else "few3", "C": all_groups(3)})
    for i, (a, b) in enumerate(itertools.permutations(range(4), 2)):
        c = [f for f in range(4) if f not in (a, b)]
        s = [a, .5, [b, .5, [c[0], .5, None, None], None], [c[1], .5, None, [b, .5, None, None]]]
        if th or i % 2 == 0:
            out.append({"f": [s], "d": 4, "lv": [0, 1], "bg": "few4", "C": [[[]], [[0, 1, 2, 3]], [c + [b]], [[b] + c, [a]]]})
    return out


def run(prop, task, ctx):
    specs, d = task["f"], task["d"]
    X = grid(task["lv"], d)
    A = arr(X)
    vals = one_hot_vals(specs)
    full = (1 << d) - 1
    for bi, data in enumerate(bgs(task["bg"], ctx.tier)):
        D = arr(data)
        games = normal_games(specs, data, X, d)
        a = dict_acv(specs, vals, data, stub=False)
        det = dict(forest=specs, background=data)
        for S in subsets(range(d), 0):
            m = sum(1 << f for f in S)
            want = [[v[m] for v in g] for g in games]
            ctx.count(states=len(X), traces=1)
            for name in ("compute_exp_normalized", "compute_exp_normalized_nopa"):
                got = getattr(a, name)(A, np.array(S[::-1], dtype=int), D).tolist()
                ctx.count(transitions=len(X))
                q = diff(got, want)
                if q:
                    i, k = q[0] if len(q[0]) == 2 else (0, 0)
                    ctx.violate("%s: row %s with known features %s gives leaf %d the weight %r instead of %r" % (name, X[i], S, k, q[1], q[2]), **det)
                    return
        for C in task["C"]:
            groups = complete_groups(C, d)
            want = [transpose([shapley(v, groups, d) for v in g], d) for g in games]
            calls = []
            if d < 4 and (bi + len(groups)) % 4 == 0:
                calls += [("py_shap_values_notoptimized", lambda: a.py_shap_values_notoptimized(A, D, C))]
            if uniform(specs, groups):
                ctx.count(uniform=1)
                c = dict_acv(specs, vals, data, stub=False, cache_normalized=True, C=C)
                calls += [("shap_values_normalized", lambda: a.shap_values_normalized(A, C)),
                          ("shap_values_normalized[cache_normalized=True]", lambda: c.shap_values_normalized(A, C)),
                          ("shap_values_normalized_cache", lambda: c.shap_values_normalized_cache(A, C)),
                          ("shap_values_normalized_cache_nopa", lambda: c.shap_values_normalized_cache_nopa(A, C))]
            for name, call in calls:
                got = call().tolist()
                ctx.count(transitions=len(X), traces=1)
                q = diff(got, want)
                if q:
                    i, f, k = q[0] if len(q[0]) == 3 else (0, 0, 0)
                    ctx.violate("%s: feature %d of row %s for leaf-output %d is %r, its Shapley value in the normalised game is %r" % (name, f, X[i], k, q[1], q[2]), groups=C, **det)
                    return
    ctx.sample(det)

"""Swing values (T06): Shapley values of the game 'this coalition is sufficient', for every small ensemble, row and threshold."""
import itertools
import numpy as np
import core
from core import *
import large
from forest import Ambiguous, reaches
from t_shap import FOREST_PARTS, caterpillars, complete_groups
from t_sdp import Ref, mask, clf_vals, clf_models, decisions
from t_tsearch import P, make_table, group_choices


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    specs = tree_specs([(0, .5), (1, .5), (2, .5)], 2)
    for i, s in enumerate(specs):
        out.append({"f": [s], "d": 3, "lv": [0, .5, 1]})
    for i, a in enumerate(FOREST_PARTS):
        for j, b in enumerate(FOREST_PARTS):
            out.append({"f": [a, b], "d": 3, "lv": [0, .5, 1] if th else [0, .5]})
    out.append({"f": [FOREST_PARTS[4], FOREST_PARTS[7], FOREST_PARTS[3]], "d": 3, "lv": [0, 1]})
    for f in one_feature(th):
        out.append({"f": f, "d": 1, "lv": [0, .5, 1, 1.5, 2]})
    cats = caterpillars(4)
    for i, s in enumerate(cats):
        if th or i % 16 == 7:
            out.append({"f": [s], "d": 4, "lv": [0, 1]})
    out.append({"f": [cats[3], cats[50 % len(cats)]], "d": 4, "lv": [0, 1]})
    for i, s in enumerate(tree_specs([(0, .5), (0, 1.5), (1, .5), (1, 1.5)], 2)):
        if th or i % 6 == 1:
            out.append({"f": [s], "d": 2, "lv": [0, .5, 1, 1.5, 2]})
    out.append({"f": large.instance("mid8")[0], "d": 7, "large": "mid8"})
    if th:
        for s in tree_specs([(0, .5), (1, .5), (2, .5)], 3, distinct=True):
            if depth_of(s) == 3:
                out.append({"f": [s], "d": 3, "lv": [0, .5, 1]})
    return out


def bgs(d, tier):
    if d == 7:
        return [large.instance("mid8")[2]]
    if d == 1:
        return BG1
    if d == 2:
        g = grid([0, .5, 1, 2], 2)
        return [[g[5], g[8], g[2]], g, [g[0], g[0], g[15], g[6]]]
    b = grid([0, 1], d)
    n = len(b)
    t = grid([0, .5, 1], d)
    out = [b, [b[1], b[n - 1]], [t[1], t[-1], t[len(t) // 2], b[2]], [b[0], b[0], b[n - 2], b[n // 2], b[1]], [b[n - 1]]]
    return out


def swing_ref(players, d, worth):
    """(value, gain, loss, counts) per feature"""
    n = len(players)
    out = [None] * d
    for p, g in enumerate(players):
        rest = [q for k, q in enumerate(players) if k != p]
        up = dn = 0.0
        cu = cd = cz = 0
        for k in range(n):
            w = 1.0 / (n * len(list(itertools.combinations(range(n - 1), k))))
            for co in itertools.combinations(rest, k):
                S = [f for q in co for f in q]
                dv = worth(S + list(g)) - worth(S)
                if dv > 0:
                    up += w
                    cu += 1
                elif dv < 0:
                    dn -= w
                    cd += 1
                else:
                    cz += 1
        for f in g:
            out[f] = (up + dn, up, dn, (cu, cd, cz))
    return out


def run(prop, task, ctx):
    specs, d = task["f"], task["d"]
    X = large.instance("mid8")[3][:2] if task.get("large") else grid(task["lv"], d)
    A = arr(X)
    N = len(X)
    th = ctx.thorough
    data_sets = bgs(d, ctx.tier)
    if len(specs) > 1 and not th:
        data_sets = data_sets[:3]
    for data in data_sets:
        D = arr(data)
        for a, vals in clf_models(specs, data, d, clf_vals(specs, False, 3) if th or len(specs) == 1 else clf_vals(specs, False, 1)[:2]):
            cx, cd = decisions(a, X), decisions(a, data)
            ref = Ref(specs, vals, data, X, d)
            ups = [[c == cx[i] for c in cd] for i in range(N)]
            tab = make_table(lambda i, m: ref.sdp_clf(i, m, cx[i], ups[i]))
            for C in ([[]], [[0, 1]]) if d == 2 else ([[]], [[0]]) if d == 1 else group_choices(d, th):
                players = complete_groups(C, d)
                for thr in (0.5, 0.9) if C == [[]] or th else (0.75,):
                    want = []
                    for i in range(N):
                        try:
                            want.append(swing_ref(players, d, lambda S: 1 if reaches(tab(i, tuple(sorted(S))), thr) else 0))
                        except Ambiguous:
                            want.append(None)
                            ctx.count(skipped=1)
                    ctx.count(states=N * 2 ** len(players), traces=1)
                    for name, call in (("swing_sv_clf", a.swing_sv_clf), ("swing_sv_clf_nopa", a.swing_sv_clf_nopa), ("swing_sv_clf_slow", a.swing_sv_clf_slow)):
                        phi, sw, prop_ = [r.tolist() for r in call(A, D, C, thr)]
                        ctx.count(transitions=N)
                        for i in range(N):
                            for f in range(d):
                                got = (phi[i][f], sw[i][f][0], sw[i][f][1])
                                if any(g != g for g in got):
                                    bad = True
                                elif want[i] is None:
                                    bad = False
                                else:
                                    w = want[i][f]
                                    bad = any(not close(g, q) for g, q in zip(got, w[:3])) or tuple(prop_[i][f]) != w[3]
                                if bad:
                                    ctx.violate("%s: feature %d of row %s gets (value, gain, loss) %s with counts %s, by definition %s" %
                                                (name, f, X[i], got, prop_[i][f], want[i] and want[i][f]),
                                                forest=specs, leaf_values=vals, background=data, groups=C, threshold=thr)
                                    return
    ctx.sample(dict(forest=specs, background=data, groups=C, row=X[0], swing=phi[0]))

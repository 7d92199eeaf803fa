"""Sufficient rules (A04): boxes, probabilities and weights against the definition; the enlargement under every outcome of its random choices."""
import itertools
import numpy as np
import core
from core import *
from forest import *
from chooser import explore
from t_forest import INTERVALS
import large


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    f3, f2 = forests3(th), forests2(th)
    for i, F in enumerate(f3 if th else f3[::2]):
        out.append(dict(F=F, d=3, clf=i % 3 != 2, order=("pre", "level")[i % 2], off=i))
    for i, F in enumerate(f2):
        out.append(dict(F=F, d=2, clf=i % 3 != 1, order=("pre", "level")[i % 2], off=i))
    mixed = [[[0, .5, [1, .5, None, None], [0, 1.5, None, None]], [1, 1.5, None, [0, .5, None, None]]],
             [[0, .5, None, [0, 1.5, [1, .5, None, None], None]], [1, .5, [1, .25, None, None], [0, 1.5, None, None]], [0, 1., None, None]],
             [[1, 1.5, [0, .5, [1, .5, None, None], None], [0, 1.5, None, None]], [0, .5, None, None]]]
    for i, F in enumerate(mixed):
        for clf in (1, 0):
            out.append(dict(F=F, d=2, clf=clf, order="pre", off=i + clf, deep=1))
    for clf in (1, 0):
        out.append(dict(F=large.instance("mid8")[0], d=7, clf=clf, order="pre", off=clf, large="mid8"))
        out.append(dict(F=large.instance("wide")[0], d=70, clf=1 - clf, order="level", off=clf, large="wide"))
    return out


def backgrounds(d, tier):
    g = grid([0, 1], 3) if d == 3 else grid([0, .5, 1, 2], 2)
    if d == 3:
        out = [g, [g[1], g[1], g[6], [.5, .5, .5]], [g[7], g[0], g[5], g[2], [.5, 1, 0], [1, .5, .5]]]
    else:
        out = [g, [g[5], g[8], g[2], g[15]], [g[0], g[5], g[10], g[15], g[3], g[12], g[9]]]
    return out if tier == "thorough" else out[1:] if d == 3 else out


def holds(x, box):
    return all(lo < v <= hi for v, (lo, hi) in zip(x, box))


def run(prop, task, ctx):
    F, d, clf, th = task["F"], task["d"], task["clf"], ctx.thorough
    nodes = [nodes_of(s, task["order"]) for s in F]
    a = acx(F, bool(clf), d, task["order"])
    X = grid([0, .5, 1], d) if d == 3 else grid([0, .5, 1, 1.5, 2], 2) if d == 2 else None
    Ss = [S for S in subsets(range(d)) if S] if not task.get("large") else [S for S in large.chosen_sets(d) if S][::5 if d < 10 else 30]
    if task.get("large"):
        X = large.instance(task["large"])[3][:11 if d < 10 else 3]
    for bi, data in enumerate(backgrounds(d, ctx.tier) if not task.get("large") else [large.instance(task["large"])[2]]):
        n, K = len(data), 2 if clf else 4
        D = arr(data)
        yd = [float((i * 5 // 3 + i // 4 + bi) % K) for i in range(n)]
        Y = np.array(yd)
        keys = [(x, S) for x in X for S in Ss]
        if not th:
            keys = keys[task["off"] % 2::2]
        y = [float((i + i // 7) % K) for i in range(len(keys))]
        iv = [INTERVALS[(i + i // 3) % 5] for i in range(len(keys))]
        good = (lambda i, r: 1.0 if yd[r] == y[i] else 0.0) if clf else (lambda i, r: 1.0 if iv[i][0] <= yd[r] <= iv[i][1] else 0.0)
        want = []
        memo = {}

        def cell(x, S):
            k = (tuple(x), tuple(S))
            if k not in memo:
                memo[k] = cells(nodes, x, S, data)
            return memo[k]
        for i, (x, S) in enumerate(keys):
            cs, box = cell(x, S)
            w = weights(cs, n)
            other = [(average(cell(data[j], S)[0], lambda r: good(i, r)), cell(data[j], S)[1]) if w[j] else (0.0, None) for j in range(n)]
            want.append((average(cs, lambda r: good(i, r)), box, w, other))
        ctx.count(states=len(keys) * (n + 1), traces=1)
        det = dict(forest=F, background=data, targets=yd)
        A, yy = arr([k[0] for k in keys]), np.array(y)
        SL = [list(k[1]) for k in keys]
        t = None if clf else np.array(iv, dtype=np.float64)

        def bad(i, what, **kw):
            ctx.violate("row %s with known features %s: %s" % (keys[i][0], keys[i][1], what), target=y[i] if clf else iv[i], **dict(det, **kw))

        sdp, rules = a.compute_sdp_rule(A, yy, D, Y, SL, min_node_size=0, t=t)
        for i in range(len(keys)):
            if not close(float(sdp[i]), want[i][0]):
                return bad(i, "probability %r reported with the rule, by definition %r" % (float(sdp[i]), want[i][0]))
            if tolist(rules[i]) != want[i][1]:
                return bad(i, "rule %s, the intersection of the row's cells is %s" % (tolist(rules[i]), want[i][1]))
        ctx.count(transitions=len(keys))
        for verbose in (False, True)[task.get("large") == "wide":]:
            for algo2 in (False, True):
                for pi in (.5, .75, 1.0)[::2 if task.get("large") else 1] if algo2 else (.75,):
                    import random
                    np.random.seed(3); random.seed(3)
                    res = a.compute_sdp_maxrules(A, yy, D, Y, SL, min_node_size=0, t=t, pi_level=pi, verbose=verbose, algo2=algo2, max_iter=2, n_try=1, batch=2)
                    ctx.count(transitions=len(keys))
                    for i in range(len(keys)):
                        if not answer(ctx, bad, i, keys[i], want[i], [r[i] for r in res], data, pi, algo2):
                            return
        # every outcome of the random choices
        cand = [i for i in range(len(keys)) if interesting(want[i], .75)]
        cap, one = (40, 1200) if th else (6, 120)
        if task.get("deep"):
            cap, one = (60, 6000) if th else (10, 700)
        if task.get("large"):
            cap, one = (4, 100) if th else (1, 6)
        step = max(1, len(cand) // cap)
        for q, i in enumerate(cand[task["off"] % step::step][:cap]):
            for pi, kw, dev in ((.75, dict(max_iter=1, n_try=0, batch=1, p_best=.5), None), (.75, dict(max_iter=3, n_try=1, batch=2, p_best=.5), 2 if th else 1)):
                for pol in ("first", "last", "mixed") if dev else ("first",):
                    call = lambda: a.compute_sdp_maxrules(A[i:i + 1], yy[i:i + 1], D, Y, SL[i:i + 1], min_node_size=0, t=None if t is None else t[i:i + 1], pi_level=pi, **kw)
                    runs = 0
                    for res, choices in explore(call, pol, dev, one if not dev else one // 2):
                        runs += 1
                        if not answer(ctx, bad, i, keys[i], want[i], [r[0] for r in res], data, pi, False, choices=choices, policy=pol, parameters=kw):
                            return
                    ctx.count(schedules=runs, transitions=runs, complete=int(explore.complete), cut=int(not explore.complete))
    ctx.sample(dict(det, row=keys[-1][0], known=keys[-1][1], rule=want[-1][1], probability=want[-1][0]))


def interesting(w, pi):
    """the row reaches the level and some related background row outside its box does as well"""
    return w[0] >= pi and any(b is not None and p >= pi and b != w[1] for p, b in w[3])


def answer(ctx, bad, i, key, w, res, data, pi, algo2, **kw):
    x, S = key
    sdp, rule, sdp_all, boxes, ww = res
    d = len(x)
    if not close(float(sdp), w[0]):
        bad(i, "probability %r, by definition %r" % (float(sdp), w[0]), **kw)
        return False
    if any(not close(float(p), q) for p, q in zip(ww, w[2])) or len(ww) != len(data):
        bad(i, "weights of the background rows %s, by definition %s" % (tolist(ww), w[2]), **kw)
        return False
    for j in range(len(data)):
        if not close(float(sdp_all[j]), w[3][j][0]):
            bad(i, "background row %s has probability %r, by definition %r" % (data[j], float(sdp_all[j]), w[3][j][0]), **kw)
            return False
        if w[3][j][1] is not None and tolist(boxes[j]) != w[3][j][1]:
            bad(i, "background row %s has the box %s, by definition %s" % (data[j], tolist(boxes[j]), w[3][j][1]), **kw)
            return False
    rule, own = tolist(rule), w[1]
    if np.shape(rule) != (d, 2):
        bad(i, "the rule is %s" % (rule,), **kw)
        return False
    level = [b for p, b in w[3] if b is not None and p >= pi - 1e-9]
    for f in range(d):
        if rule[f][0] > own[f][0] or rule[f][1] < own[f][1]:
            bad(i, "the enlarged rule %s does not contain the row's own rule %s" % (rule, own), **kw)
            return False
        if f not in S and rule[f] != [-BIG, BIG]:
            bad(i, "the rule %s constrains feature %d" % (rule, f), **kw)
            return False
        for side in (0, 1):
            if rule[f][side] != own[f][side] and rule[f][side] not in [b[f][side] for b in level] and not algo2:
                bad(i, "the bound %s of the rule %s comes from no background row reaching the level" % (rule[f][side], rule), **kw)
                return False
    if w[0] >= pi + 1e-9 or (w[0] >= pi and getattr(w[0], "exact", True)):
        for j in range(len(data)):
            p, b = w[3][j]
            # a background row the forest relates to the row and that falls in the rule keeps the decision
            if b is not None and holds(data[j], rule) and p < pi - 1e-9:
                bad(i, "the rule %s contains the background row %s whose probability is %r, below the level %s" % (rule, data[j], p, pi), algo2=algo2, **kw)
                return False
    return True

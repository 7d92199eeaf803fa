"""The estimators written in Python (P01), which the project's own tests use as oracles: against the same definitions as the native ones."""
import itertools, math
import numpy as np
import core
from core import *
from t_shap import FOREST_PARTS, caterpillars
from t_sdp import Ref, mask, pow2, ratio, clf_vals, reg_vals, check_rows, SP1, SP2

GROUPS = {1: [[[]], [[0]]], 2: [[[]], [[1, 0]], [[1]]], 3: [[[]], [[0, 1]], [[1], [0, 2]], [[2, 0]], [[1, 2]], [[2, 1, 0]]], 4: [[[]], [[0, 3]], [[1, 2], [3, 0]], [[2, 0, 1]]]}


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    for i, s in enumerate(tree_specs(SP1, 2)):
        if th or i % 3 == 1:
            out.append(dict(f=[s], d=3, lv=[0, .5, 1], i=i))
    for i, s in enumerate(tree_specs(SP2, 2)):
        if th or i % 12 == 1:
            out.append(dict(f=[s], d=2, lv=[0, .5, 1, 1.5, 2], i=i))
    for i, a in enumerate(FOREST_PARTS):
        for j, b in enumerate(FOREST_PARTS):
            if th or (i + 2 * j) % 7 == 1:
                out.append(dict(f=[a, b], d=3, lv=[0, .5, 1], i=i + j))
    out.append(dict(f=[FOREST_PARTS[4], FOREST_PARTS[7], FOREST_PARTS[3]], d=3, lv=[0, .5, 1], i=1))
    for i, s in enumerate(caterpillars(4)):
        if i % (16 if th else 48) == 5:
            out.append(dict(f=[s], d=4, lv=[0, 1], i=i))
    for i, f in enumerate(one_feature(th)):
        out.append(dict(f=f, d=1, lv=[0, .5, 1, 1.5, 2], i=i))
    return out


def bgs(task, tier):
    d = task["d"]
    if d == 1:
        return BG1
    b, t = grid([0, 1], d), grid(task["lv"], d)
    n = len(b)
    out = [[b[1], b[n - 1], b[n - 1]], b, [t[1], t[-1], t[len(t) // 2], b[2]]]
    return out + [t[::5], [b[0], b[0], b[n - 2]]] if tier == "thorough" else out


def game(players, value, K):
    """Shapley values of the players, one list of K numbers per player"""
    n = len(players)
    out = []
    idx = range(n)
    for p in idx:
        rest = [q for q in idx if q != p]
        tot = [0.0] * K
        for k in range(n):
            w = math.factorial(k) * math.factorial(n - 1 - k) / float(math.factorial(n))
            for c in itertools.combinations(rest, k):
                a, b = value(c + (p,)), value(c)
                for j in range(K):
                    tot[j] += w * (a[j] - b[j])
        out.append(tot)
    return out


class Worth(object):
    """worth of a set of known features: shared leaf game, without rows nothing is known"""
    def __init__(self, ref, K):
        self.ref, self.K, self.memo = ref, K, {}

    def __call__(self, i, S):
        k = (i, S)
        if k not in self.memo:
            self.memo[k] = self.base() if S == 0 else self.ref.exp(i, S)
        return self.memo[k]

    def base(self):
        out = [0.0] * self.K
        for t in range(len(self.ref.specs)):
            for l in range(len(self.ref.dm[t])):
                p = sum(1 for m in self.ref.dm[t][l] if m == self.ref.full) / float(self.ref.n)
                for k in range(self.K):
                    out[k] += p * self.ref.vals[t][l][k]
        return out


def players_of(C, feats):
    if C[0] == []:
        return [[f] for f in feats]
    inside = [f for g in C for f in g]
    return [[f] for f in feats if f not in inside] + [g for g in C if set(g) <= set(feats)]


def shapley(value, d, N, feats, C, extra, K):
    """[row][feature][output]"""
    P = players_of(C, feats)
    out = []
    for i in range(N):
        def v(c):
            S = [f for p in c for f in P[p]]
            return value(i, mask(S + extra) if c else 0)
        phi = game(P, v, K)
        row = [[0.0] * K for _ in range(d)]
        for p, m in zip(P, phi):
            for f in p:
                row[f] = m
        out.append(row)
    return out


def moments(ref, i, S, rows, fx, cat):
    """expected squared distance (up to a constant) over pairs of leaves"""
    T, tot, exact = len(ref.specs), 0.0, True
    comp = [[l for l in range(len(ref.xm[t])) if ref.xm[t][l][i] & S == S] for t in range(T)]
    for t in range(T):
        for l in comp[t]:
            a, v = ref.dm[t][l], ref.vals[t][l][0]
            q = len(rows) if cat else sum(1 for j in rows if a[j] & S == S)
            if q:
                exact = exact and pow2(float(q))
                tot += sum(1 for j in rows if a[j] == ref.full) * (v * v - 2 * fx * v) / float(q)
            for t2 in range(T):
                if t2 != t:
                    for l2 in comp[t2]:
                        b = ref.dm[t2][l2]
                        q = len(rows) if cat else sum(1 for j in rows if a[j] & b[j] & S == S)
                        if q:
                            exact = exact and pow2(float(q))
                            tot += sum(1 for j in rows if a[j] & b[j] == ref.full) * v * ref.vals[t2][l2][0] / float(q)
    return tot, exact


def clip(v):
    return v if v is None else min(1.0, max(0.0, v))


def run(prop, task, ctx):
    specs, d = task["f"], task["d"]
    X = grid(task["lv"], d)
    X = X[task["i"] % 2::2] if len(X) > 12 and not ctx.thorough else X
    A, N = arr(X), len(X)
    Ss = subsets(range(d))
    for bi, data in enumerate(bgs(task, ctx.tier)):
        D = arr(data)
        vs = clf_vals(specs, False, 1)
        vals = vs[(task["i"] + bi) % len(vs)]
        K = len(vals[0][0])
        a = dict_acv(specs, vals, data, stub=False)
        ref = Ref(specs, vals, data, X, d)
        det = dict(forest=specs, leaf_values=vals, background=data)
        W = Worth(ref, K)

        def ok(name, got, want, **more):
            ctx.count(states=N, transitions=N, traces=1)
            q = diff(tolist(got), want)
            if q is not None:
                ctx.violate("%s: row %s: %r instead of %r" % (name, X[q[0][0]] if q[0] else X, q[1], q[2]), **dict(det, **more))
            return q is None
        for C in GROUPS[d]:
            want = shapley(W, d, N, list(range(d)), C, [], K)
            for name in ("py_shap_values", "py_shap_valuesv2"):
                if not ok(name, getattr(a, name)(A, [list(g) for g in C]), want, groups=C):
                    return
        wd = shapley(lambda i, S: ref.exp(i, S, True), d, N, list(range(d)), [[]], [], K)
        if not ok("py_shap_values_discrete_notoptimized", a.py_shap_values_discrete_notoptimized(A, D), wd):
            return
        for S in Ss:
            if S:
                Nu = [f for f in range(d) if f not in S]
                for C in [[[]]] + [[g] for c in GROUPS[d] for g in c if len(g) > 1 and set(g) <= set(S)][:2]:
                    want = shapley(W, d, N, S, C, Nu, K)
                    if not ok("py_shap_values_acv", a.py_shap_values_acv(A, list(S), list(Nu), [list(g) for g in C]), want, active=S, groups=C):
                        return
            m = mask(S)
            for name, w in (("py_compute_exp", [ref.exp(i, m) for i in range(N)]), ("py_compute_exp_cat", [ref.exp(i, m, True) for i in range(N)])):
                ctx.count(states=N, transitions=N, traces=1)
                if S and not check_rows(ctx, name, getattr(a, name)(A, S, D), w, X, S, **det):
                    return
        # Same Decision Probability
        cx, cd = [int(np.argmax(p)) for p in Stub(specs, vals).predict_proba(A)], [int(np.argmax(p)) for p in Stub(specs, vals).predict_proba(D)]
        ups = [[c == cx[i] for c in cd] for i in range(N)]
        for S in Ss:
            m = mask(S)
            for name, w in (("py_compute_sdp_clf", [clip(ref.sdp_clf(i, m, cx[i], ups[i], norm=False)) for i in range(N)]),
                            ("py_compute_sdp_clf_cat", [ref.sdp_clf_cat(i, m, cx[i], ups[i]) for i in range(N)])):
                ctx.count(states=N, transitions=N, traces=1)
                if not check_rows(ctx, name, getattr(a, name)(A, S, D), w, X, S, **det):
                    return
        vals = reg_vals(specs, False)[(task["i"] + bi) % 2]
        a = dict_acv(specs, vals, data, stub=False)
        fx = [sum(v[route(s, x)][0] for s, v in zip(specs, vals)) for x in X]
        fd = [sum(v[route(s, x)][0] for s, v in zip(specs, vals)) for x in data]
        ref = Ref(specs, vals, data, X, d)
        det = dict(forest=specs, leaf_values=vals, background=data)
        tX = (0.0, 4.0, 7.5)[(bi + task["i"]) % 3]
        for S in Ss:
            m = mask(S)
            for cat, name in ((False, "py_compute_sdp_reg"), (True, "py_compute_sdp_reg_cat")):
                w = []
                for i in range(N):
                    if m in (0, ref.full):
                        w.append(1.0 if m else 0.0)
                        continue
                    rows = ref.same(i, m) if cat else list(range(ref.n))
                    up = [(fx[i] - y) ** 2 > tX for y in fd]
                    mo = [moments(ref, i, m, r, fx[i], cat) for r in (rows, [j for j in rows if up[j]], [j for j in rows if not up[j]])]
                    w.append(clip(ratio(mo[0][0], mo[1][0], mo[2][0], all(e for _, e in mo), True)))
                ctx.count(states=N, transitions=N, traces=1)
                if not check_rows(ctx, name, getattr(a, name)(A, tX, S, D), w, X, S, tolerance=tX, **det):
                    return
    ctx.sample({"forest": specs, "background": data, "known": S, "sdp": w[:3]})

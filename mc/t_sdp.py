"""Leaf-estimator Same Decision Probabilities (T03) and conditional expectations (T04), over every small ensemble and every subset."""
import itertools
import numpy as np
import core
from core import *
import large
from t_shap import FOREST_PARTS, caterpillars

SP1 = [(0, .5), (1, .5), (2, .5)]
SP2 = [(0, .5), (0, 1.5), (1, .5), (1, 1.5)]


# ---------------------------------------------------------------- reference
def row_masks(specs, rows, d):
    """masks[t][leaf][row]: features on which the row agrees with the leaf"""
    out = []
    for s in specs:
        per = []
        for box in leaf_boxes(s):
            ms = []
            for r in rows:
                m = 0
                for f in range(d):
                    b = box.get(f)
                    if b is None or b[0] < r[f] <= b[1]:
                        m |= 1 << f
                ms.append(m)
            per.append(ms)
        out.append(per)
    return out


def mask(S):
    m = 0
    for f in S:
        m |= 1 << f
    return m


def pow2(q):
    """is the positive number q a power of two"""
    return q > 0 and np.frexp(q)[0] == 0.5


def ratio(a, u, d, exact, reg):
    """(a-d)/(u-d) [reg: (u-a)/(u-d)], 0 when u = d; None when rounding decides whether u = d"""
    if abs(u - d) < 1e-9 * (1 + abs(u) + abs(d)):
        return 0.0 if exact and u == d else None
    return (u - a) / (u - d) if reg else (a - d) / (u - d)


class Ref(object):
    """reference values for one ensemble, background and batch of rows"""
    def __init__(self, specs, vals, data, X, d):
        self.specs, self.vals, self.d = specs, vals, d
        self.n = len(data)
        self.data, self.X = data, X
        self.dm = row_masks(specs, data, d)
        self.xm = row_masks(specs, X, d)
        self.full = (1 << d) - 1
        self.shares = {}
        self.rows_eq = {}

    def counts(self, t, l, S, key, rows):
        """(rows in the leaf, rows agreeing with the leaf on S) among rows"""
        k = (t, l, S, key)
        if k not in self.shares:
            ms = self.dm[t][l]
            self.shares[k] = (sum(1 for j in rows if ms[j] == self.full), sum(1 for j in rows if ms[j] & S == S))
        return self.shares[k]

    def same(self, i, S):
        k = (tuple(self.X[i][f] for f in range(self.d) if S >> f & 1), S)
        if k not in self.rows_eq:
            x = self.X[i]
            self.rows_eq[k] = [j for j in range(self.n) if all(self.data[j][f] == x[f] for f in range(self.d) if S >> f & 1)]
        return self.rows_eq[k]

    def exp(self, i, S, cat=False):
        K = len(self.vals[0][0])
        out = [0.0] * K
        rows = self.same(i, S) if cat else range(self.n)
        for t in range(len(self.specs)):
            for l in range(len(self.xm[t])):
                if self.xm[t][l][i] & S != S:
                    continue
                if cat:
                    p, q = sum(1 for j in rows if self.dm[t][l][j] == self.full), len(rows)
                else:
                    p, q = self.counts(t, l, S, "all", rows)
                if q:
                    v = self.vals[t][l]
                    for k in range(K):
                        out[k] += p * v[k] / float(q)
        return out

    def split(self, i, up):
        """background rows: all, same decision, other decision"""
        k = tuple(up)
        return (range(self.n), [j for j in range(self.n) if up[j]], [j for j in range(self.n) if not up[j]], k)

    def sdp_clf(self, i, S, c, up, norm=True, ends=True):
        if ends and S == self.full:
            return 1.0
        if ends and S == 0:
            return 0.0
        allr, ur, dr, key = self.split(i, up)
        tot, exact = [0.0, 0.0, 0.0], True
        for w, rows, kk in ((0, allr, "all"), (1, ur, (key, 1)), (2, dr, (key, 0))):
            for t in range(len(self.specs)):
                ws = []
                for l in range(len(self.xm[t])):
                    if self.xm[t][l][i] & S == S:
                        p, q = self.counts(t, l, S, kk, rows)
                        if p:
                            ws.append((p / float(q), self.vals[t][l][c], q))
                n = sum(a for a, b, q in ws) if norm else 1.0
                if n:
                    if len(ws) == 1 and norm:
                        # its weight cancels exactly unless the product rounds
                        tot[w] += ws[0][1]
                        exact = exact and (not ws[0][1] or pow2(ws[0][1]) or pow2(n) and pow2(float(ws[0][2])))
                    else:
                        exact = exact and pow2(n) and all(pow2(float(q)) for a, b, q in ws)
                        tot[w] += sum(a * b / n for a, b, q in ws)
        return ratio(tot[0], tot[1], tot[2], exact, False)

    def sdp_clf_cat(self, i, S, c, up):
        if S == self.full:
            return 1.0
        if S == 0:
            return 0.0
        rows = self.same(i, S)
        tot, exact = [0.0] * 3, True
        for w, rr in ((0, rows), (1, [j for j in rows if up[j]]), (2, [j for j in rows if not up[j]])):
            q = float(len(rr))
            if not rr:
                continue
            exact = exact and pow2(q)
            for t in range(len(self.specs)):
                for l in range(len(self.xm[t])):
                    if self.xm[t][l][i] & S == S:
                        tot[w] += sum(1 for j in rr if self.dm[t][l][j] == self.full) * self.vals[t][l][c] / q
        r = ratio(tot[0], tot[1], tot[2], exact, False)
        return r if r is None else min(1.0, max(0.0, r))

    def pair_weights(self, i, S, rows, kk):
        """[(weight, value, value or None)] for the second moment: tree pairs, normalised per tree and per partner tree"""
        T = len(self.specs)
        out, exact = [], True
        comp = [[l for l in range(len(self.xm[t])) if self.xm[t][l][i] & S == S] for t in range(T)]
        W = []
        for t in range(T):
            w = {}
            for l in comp[t]:
                p, q = self.counts(t, l, S, kk, rows)
                if q:
                    w[l] = p / float(q)
                    exact = exact and pow2(float(q))
            W.append(w)
        for t in range(T):
            n = sum(W[t].values())
            if not n:
                continue
            exact = exact and pow2(n)
            for l, w in W[t].items():
                v = self.vals[t][l][0]
                out.append((w / n, v, None))
            for t2 in range(T):
                if t2 == t:
                    continue
                for l in comp[t]:
                    if not W[t].get(l):
                        continue
                    ps = []
                    for l2 in comp[t2]:
                        k = (t, l, t2, l2, S, kk)
                        if k not in self.shares:
                            a, b = self.dm[t][l], self.dm[t2][l2]
                            self.shares[k] = (sum(1 for j in rows if a[j] & b[j] == self.full), sum(1 for j in rows if a[j] & b[j] & S == S))
                        p, q = self.shares[k]
                        if q:
                            ps.append((p / float(q), l2))
                            exact = exact and pow2(float(q))
                    n2 = sum(p for p, l2 in ps)
                    if n2:
                        exact = exact and pow2(n2)
                        for p, l2 in ps:
                            out.append((W[t][l] / n * p / n2, self.vals[t][l][0], self.vals[t2][l2][0]))
        return out, exact

    def sdp_reg(self, i, S, fx, up):
        allr, ur, dr, key = self.split(i, up)
        tot, exact = [0.0] * 3, True
        for w, rows, kk in ((0, allr, "all"), (1, ur, (key, 1)), (2, dr, (key, 0))):
            ws, e = self.pair_weights(i, S, rows, kk)
            exact = exact and e
            for a, v, v2 in ws:
                tot[w] += a * v * v2 if v2 is not None else a * (v * v - 2 * fx * v)
        return ratio(tot[0], tot[1], tot[2], exact, True)

    def sdp_reg_cat(self, i, S, fx, up):
        rows = self.same(i, S)
        tot, exact = [0.0] * 3, True
        T = len(self.specs)
        for w, rr in ((0, rows), (1, [j for j in rows if up[j]]), (2, [j for j in rows if not up[j]])):
            q = float(len(rr))
            if not rr:
                continue
            exact = exact and pow2(q)
            for t in range(T):
                for l in range(len(self.xm[t])):
                    if self.xm[t][l][i] & S != S:
                        continue
                    v = self.vals[t][l][0]
                    a = self.dm[t][l]
                    tot[w] += sum(1 for j in rr if a[j] == self.full) * (v * v - 2 * fx * v) / q
                    for t2 in range(T):
                        if t2 == t:
                            continue
                        for l2 in range(len(self.xm[t2])):
                            if self.xm[t2][l2][i] & S != S:
                                continue
                            b = self.dm[t2][l2]
                            tot[w] += sum(1 for j in rr if a[j] & b[j] == self.full) * v * self.vals[t2][l2][0] / q
        return ratio(tot[0], tot[1], tot[2], exact, True)


# ---------------------------------------------------------------- enumeration
HARD = [[1.0, 0.0], [0.0, 1.0]]
SOFT = [[0.75, 0.25], [0.25, 0.75], [0.5, 0.5], [1.0, 0.0]]
TRI = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.25, 0.25, 0.5], [0.0, 0.5, 0.5]]
REG = [0.0, 1.0, 3.0, -1.0]


def clf_vals(specs, thorough, cap=4):
    """leaf values for classification: every hard labelling of the leaves (up to a cap), soft and three-class ones"""
    nl = [n_leaves(s) for s in specs]
    L = sum(nl)
    out = []
    if L > 20:
        return [[[SOFT[(l * 3 + t + k) % 4] for l in range(n)] for t, n in enumerate(nl)] for k in range(2)]
    hard = list(itertools.product((0, 1), repeat=L))
    step = 1 if thorough and len(hard) <= 32 else max(1, len(hard) // cap)
    for h in hard[step // 2::step]:
        out.append([HARD[b] for b in h])
    out.append([SOFT[(i * 3 + 1) % 4] for i in range(L)])
    out.append([SOFT[(i * i + 2 * i) % 4] for i in range(L)])
    out.append([TRI[(i * 3 + L) % 4] for i in range(L)])
    res = []
    for o in out:
        k, v = 0, []
        for n in nl:
            v.append(o[k:k + n])
            k += n
        res.append(v)
    return res


MARGINS = [-1.0, 2.0, 0.5, -2.0, 1.0, -0.5]


def clf_models(specs, data, d, many):
    """(explainer, per-class leaf values): probability trees given as arrays, and a boosted binary classifier with one margin per leaf"""
    for vals in many:
        yield dict_acv(specs, vals, data), vals
    k, margins = len(specs), []
    for s in specs:
        margins.append([[MARGINS[(k + i) % 6]] for i in range(n_leaves(s))])
        k += n_leaves(s) + 1
    yield gb_acv(specs, margins, data, d), gb_class_values(margins)


def decisions(a, rows):
    return [int(np.argmax(p)) for p in a.model.predict_proba(arr(rows))]


def reg_vals(specs, thorough):
    nl = [n_leaves(s) for s in specs]
    res = []
    for a in range(6 if thorough else 2):
        v, k = [], 0
        for n in nl:
            v.append([[REG[(k + i) * (a + 1) % 4] if a % 2 else REG[(k + i + a) % 4] * (1 + a)] for i in range(n)])
            k += n
        res.append(v)
    return res


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    for i, s in enumerate(tree_specs(SP1, 2)):
        if s is not None or True:
            out.append({"f": [s], "d": 3, "lv": [0, .5, 1], "bg": "std"})
    for i, s in enumerate(tree_specs(SP2, 2)):
        if th or i % 4 == 1:
            out.append({"f": [s], "d": 2, "lv": [0, .5, 1, 1.5, 2], "bg": "two"})
    for i, a in enumerate(FOREST_PARTS):
        for j, b in enumerate(FOREST_PARTS):
            if th or (i + j) % 2 == 1:
                out.append({"f": [a, b], "d": 3, "lv": [0, .5, 1] if th else [0, .5], "bg": "few"})
    out.append({"f": [FOREST_PARTS[4], FOREST_PARTS[7], FOREST_PARTS[3]], "d": 3, "lv": [0, .5, 1], "bg": "few"})
    out.append({"f": [FOREST_PARTS[1], FOREST_PARTS[6], FOREST_PARTS[2], FOREST_PARTS[3]], "d": 3, "lv": [0, 1], "bg": "few"})
    for f in one_feature(th):
        out.append({"f": f, "d": 1, "lv": [0, .5, 1, 1.5, 2], "bg": "one"})
    cats = caterpillars(4)
    for i, s in enumerate(cats):
        if th or i % 24 == 5:
            out.append({"f": [s], "d": 4, "lv": [0, 1], "bg": "few"})
    if th:
        for s in tree_specs(SP1, 3, distinct=True):
            if depth_of(s) == 3:
                out.append({"f": [s], "d": 3, "lv": [0, .5, 1], "bg": "few"})
    for name in ("wide", "deep", "many", "mid8", "mid"):
        out.append({"f": large.instance(name)[0], "d": large.instance(name)[1], "bg": "large", "large": name})
    return out


def rows_of(task):
    return large.instance(task["large"])[3] if task.get("large") else grid(task["lv"], task["d"])


def sets_of(task, most=60):
    return large.chosen_sets(task["d"], most) if task.get("large") else subsets(range(task["d"]))


def bgs(task, tier):
    d = task["d"]
    if task["bg"] == "large":
        return [large.instance(task["large"])[2]]
    b = grid([0, 1], d)
    if task["bg"] == "one":
        return BG1
    if task["bg"] == "two":
        g = grid([0, .5, 1, 2], 2)
        return [[g[3]], [g[5], g[8], g[2]], g, [g[0], g[0], g[15], g[6]]]
    t = grid([0, .5, 1], d)
    n = len(b)
    out = [[b[1], b[n - 1]], b, [t[1], t[-1], t[len(t) // 2], b[2]], [b[0], b[0], b[n - 2], b[n // 2], b[1]]]
    if task["bg"] == "std" or tier == "thorough":
        out += [[b[n - 1]], [b[2], b[n - 3]], t[::5], [t[7], t[4], t[7], t[2]]]
    return out


def run(prop, task, ctx):
    if prop == "T03":
        run_clf(task, ctx)
        run_reg(task, ctx)
    else:
        run_exp(task, ctx)


def L(S):
    return np.array(S, dtype=np.long)


def check_rows(ctx, name, got, want, X, S, **det):
    got = tolist(got)
    if len(got) != len(want):
        ctx.violate("%s: %d values for %d rows" % (name, len(got), len(want)), **det)
        return False
    for i in range(len(want)):
        if want[i] is None:
            ctx.count(undecided=1)
            if got[i] != got[i] or abs(got[i]) == float("inf"):
                ctx.violate("%s: row %s, known %s: %r" % (name, X[i], S, got[i]), **det)
                return False
            continue
        if diff(got[i], want[i]) is not None:
            ctx.violate("%s: row %s with known features %s gets %r instead of %r" % (name, X[i], S, got[i], want[i]), **det)
            return False
    return True


def run_clf(task, ctx):
    specs, d = task["f"], task["d"]
    X = rows_of(task)
    A = arr(X)
    for data in bgs(task, ctx.tier):
        D = arr(data)
        many = clf_vals(specs, ctx.thorough)[:1 if task.get("large") else None]
        for a, vals in clf_models(specs, data, d, many):
            cx, cd = decisions(a, X), decisions(a, data)
            ref = Ref(specs, vals, data, X, d)
            ups = [[c == cx[i] for c in cd] for i in range(len(X))]
            for S in sets_of(task, 12):
                m = mask(S)
                SS = S[::-1] if sum(S) % 2 else S
                want = [ref.sdp_clf(i, m, cx[i], ups[i]) for i in range(len(X))]
                wcat = [ref.sdp_clf_cat(i, m, cx[i], ups[i]) for i in range(len(X))]
                ctx.count(states=2 * len(X), traces=1, transitions=4 * len(X))
                det = dict(forest=specs, leaf_values=vals, background=data)
                for name, got, w in (("compute_sdp_clf", a.compute_sdp_clf(A, L(SS), D), want),
                                     ("compute_sdp_clf_nopa", a.compute_sdp_clf_nopa(A, L(SS), D), want),
                                     ("compute_sdp_clf_cat", a.compute_sdp_clf_cat(A, L(SS), D), wcat),
                                     ("compute_sdp_clf_cat_nopa", a.compute_sdp_clf_cat_nopa(A, L(SS), D), wcat)):
                    if not check_rows(ctx, name, got, w, X, S, **det):
                        return
    ctx.sample({"forest": specs, "leaf_values": vals, "background": data, "known": S, "sdp": want[:3]})


def run_reg(task, ctx):
    specs, d = task["f"], task["d"]
    X = rows_of(task)
    if task.get("large"):
        if task["large"] != "mid8":
            return
        X = X[:3]
    A = arr(X)
    big = len(specs) > 1 and not ctx.thorough
    for data in bgs(task, ctx.tier)[:3 if big else None]:
        D = arr(data)
        for vals in reg_vals(specs, ctx.thorough)[task.get("large") == "mid8":]:
            a = dict_acv(specs, vals, data, stub=False)
            fx = [sum(v[route(s, x)][0] for s, v in zip(specs, vals)) for x in X]
            fd = [sum(v[route(s, x)][0] for s, v in zip(specs, vals)) for x in data]
            ref = Ref(specs, vals, data, X, d)
            for tX in (0.0, 4.0, 7.5)[:3 if ctx.thorough else 2][task.get("large") == "mid8":]:
                ups = [[(fx[i] - y) ** 2 > tX for y in fd] for i in range(len(X))]
                for S in sets_of(task, 5):
                    m = mask(S)
                    want = [ref.sdp_reg(i, m, fx[i], ups[i]) for i in range(len(X))]
                    wcat = [ref.sdp_reg_cat(i, m, fx[i], ups[i]) for i in range(len(X))]
                    ctx.count(states=2 * len(X), traces=1, transitions=4 * len(X))
                    det = dict(forest=specs, leaf_values=vals, background=data, tolerance=tX)
                    for name, got, w in (("compute_sdp_reg", a.compute_sdp_reg(A, tX, L(S), D), want),
                                         ("compute_sdp_reg_nopa", a.compute_sdp_reg_nopa(A, tX, L(S), D), want),
                                         ("compute_sdp_reg_cat", a.compute_sdp_reg_cat(A, tX, L(S), D), wcat),
                                         ("compute_sdp_reg_cat_nopa", a.compute_sdp_reg_cat_nopa(A, tX, L(S), D), wcat)):
                        if not check_rows(ctx, name, got, w, X, S, **det):
                            return
    ctx.sample({"forest": specs, "leaf_values": vals, "background": data, "known": S, "sdp_reg": want[:3]})


def run_exp(task, ctx):
    specs, d = task["f"], task["d"]
    X = rows_of(task)
    A = arr(X)
    vals = one_hot_vals(specs) if not task.get("large") else [[[((t * 7 + l * 5 + k * 3) % 11 - 4) / 4. for k in range(3)] for l in range(n_leaves(s))] for t, s in enumerate(specs)]
    for data in bgs(task, "thorough"):
        D = arr(data)
        # the background given to the call decides, not the one given when loading
        a = dict_acv(specs, vals, data[:1], stub=False)
        ref = Ref(specs, vals, data, X, d)
        for S in sets_of(task, 30):
            m = mask(S)
            SS = S[::-1] if sum(S) % 2 else S
            want = [ref.exp(i, m) for i in range(len(X))]
            wcat = [ref.exp(i, m, True) for i in range(len(X))]
            ctx.count(states=2 * len(X), traces=1, transitions=4 * len(X))
            det = dict(forest=specs, background=data)
            for name, got, w in (("compute_exp", a.compute_exp(A, L(SS), D), want), ("compute_exp_nopa", a.compute_exp_nopa(A, L(SS), D), want),
                                 ("compute_exp_cat", a.compute_exp_cat(A, L(SS), D), wcat), ("compute_exp_cat_nopa", a.compute_exp_cat_nopa(A, L(SS), D), wcat)):
                if not check_rows(ctx, name, got, w, X, S, **det):
                    return
    ctx.sample({"forest": specs, "background": data, "known": S, "expectation": want[0]})

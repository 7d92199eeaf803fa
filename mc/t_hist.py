"""Histories (H01): every sequence of fits, rule fits, queries and refused operations on one explainer object."""
import itertools, copy, inspect, pickle
import numpy as np
import core
from core import *
from forest import BIG, acx
from ops import *
from t_sdp import clf_vals, reg_vals
from t_batch import TREES3, ROWS, DATA


# ---------------------------------------------------------------- default arguments are part of the state of the library
def defaults():
    import acv_explainers, acv_explainers.utils as u, acv_explainers.utils_sdp as us, acv_explainers.py_acv as py
    from acv_explainers import ACVTree, ACXplainer
    out = []
    for o in (ACVTree, ACXplainer, u, us, py) + ACVTree.__mro__[1:2]:
        for n, f in vars(o).items():
            f = getattr(f, "__func__", f)
            if inspect.isfunction(f) and f.__defaults__:
                out.append((f, copy.deepcopy(f.__defaults__)))
    return out


def pristine(saved):
    for f, d in saved:
        try:
            unchanged = bool(f.__defaults__ == d)
        except ValueError:
            unchanged = False
        if not unchanged:
            f.__defaults__ = copy.deepcopy(d)


def digest(x):
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return [digest(v) for v in x]
    return plain(x) if not isinstance(x, dict) else {k: digest(v) for k, v in x.items()}


# ---------------------------------------------------------------- ACXplainer
def sets():
    g = [[a, b, c] for a in (0., 1., 2.) for b in (0., 1.) for c in (0., .5)]
    A = np.array(g)
    B = np.array([[a, b] for a in (0., 1., 2., 3.) for b in (0., .5, 1.)])
    yA = [int(a + 1.5 * b + c > 1.7) for a, b, c in g]
    yB = [0, 0, 1, 1, 1, 2, 2, 2, 0, 1, 0, 2]
    yC = [int(a + 2 * c > 1.2) + int(b + c > 1.2) for a, b, c in g]
    return [(A, yA), (B, yB), (A, yC)]


def rules():
    F = [-BIG, BIG]
    return [([[[-BIG, .5], F, F], [F, [.5, BIG], F]], [[0], [1]]),
            ([[[-BIG, 1.], [-BIG, .5], F], [[.5, BIG], F, F], [[.5, BIG], F, [0., .5]]], [[0, 1], [0], [2, 0]])]


class World(object):
    """the arguments of every operation, kept and compared after every call"""
    def __init__(self, clf):
        self.clf = clf
        self.fits = [(X, np.array(y, dtype=np.float64) * (1 if clf else 1.5)) for X, y in sets()]
        D, Y = self.fits[0]
        self.gfits = [(D, Y, np.array(r), s) for r, s in rules()]
        self.q = {}
        for d in (2, 3):
            X, y = self.fits[1 if d == 2 else 0]
            F = [-BIG, BIG]
            self.q[d] = dict(X=X[[0, 3, 7, 10]], y=y[[0, 3, 7, 10]], data=X[[0, 1, 2, 4, 5, 7, 8, 9, 11]], yd=y[[0, 1, 2, 4, 5, 7, 8, 9, 11]],
                             S=[[0], [1], [1, 0], [0]], cond=np.array([[[-BIG, .5], F, F][:d], [F, [.5, BIG], F][:d], [F] * d, [F] * d]))
        self.rows = self.fits[0][0][[0, 3, 5, 8, 11]]

    def all(self):
        return digest([self.fits, self.gfits, self.q, self.rows])


def new(w):
    from acv_explainers import ACXplainer
    return ACXplainer(classifier=bool(w.clf), n_estimators=3, max_depth=3, min_node_size=1, seed=11)


def fit_(a, s):
    # the forest draws the node values of its quantiles from numpy's global generator
    random.seed(5); np.random.seed(5)
    a.fit(*s)


def acx_query_ops(w):
    """name -> (needs: 'fit'|'rules', f(a, fitted set number))"""
    ops = {}

    def args(a, k):
        q = w.q[w.fits[k][0].shape[1]]
        return q["X"], q["y"], q["data"], q["yd"], q["S"]
    dn, up = (lambda y: y - 1.25), (lambda y: y + .25)
    for n in ("compute_sdp_rf", "compute_sdp_rule", "compute_ddp_rf", "compute_ddp_weights", "compute_exp_rf"):
        ops[n] = ("fit", lambda a, k, n=n: getattr(a, n)(*args(a, k), min_node_size=0))
    ops["compute_cdf_rf"] = ("fit", lambda a, k: a.compute_cdf_rf(*args(a, k), min_node_size=0))
    ops["compute_cdp_rf"] = ("fit", lambda a, k: (lambda X, y, D, Y, S: a.compute_cdp_rf(X, y, dn(y), up(y), D, Y, S, min_node_size=0))(*args(a, k)))
    ops["compute_ddp_intv_weights"] = ("fit", lambda a, k: (lambda X, y, D, Y, S: a.compute_ddp_intv_weights(X, y, D, Y, S, w.q[X.shape[1]]["cond"], min_node_size=0))(*args(a, k)))
    ops["compute_cdp_cond_weights"] = ("fit", lambda a, k: (lambda X, y, D, Y, S: a.compute_cdp_cond_weights(X, y, dn(y), up(y), D, Y, S, w.q[X.shape[1]]["cond"], min_node_size=0))(*args(a, k)))

    def maxr(a, k):
        random.seed(3); np.random.seed(3)
        sdp, r, sa, rd, ww = a.compute_sdp_maxrules(*args(a, k), pi_level=.7, max_iter=2, n_try=2, batch=2, min_node_size=0)
        return sdp, r, sa, ww
    ops["compute_sdp_maxrules"] = ("fit", maxr)
    for n in ("importance_sdp_rf", "sufficient_expl_rf", "sufficient_cxpl_rf", "importance_ddp_rf"):
        ops[n] = ("fit", lambda a, k, n=n: getattr(a, n)(*args(a, k)[:4], min_node_size=0, pi_level=.7))
        if n != "importance_ddp_rf":
            ops[n + "[groups]"] = ("fit", lambda a, k, n=n: getattr(a, n)(*args(a, k)[:4], min_node_size=0, pi_level=.7, C=[[0, 1]]))
    ops["importance_cdp_rf"] = ("fit", lambda a, k: (lambda X, y, D, Y, S: a.importance_cdp_rf(X, y, dn(y), up(y), D, Y, min_node_size=0, pi_level=.7))(*args(a, k)))
    ops["importance_ddp_intv"] = ("fit", lambda a, k: (lambda X, y, D, Y, S: a.importance_ddp_intv(X, y, D, Y, w.q[X.shape[1]]["cond"], min_node_size=0, pi_level=.7))(*args(a, k)))
    ops["predict"] = ("fit", lambda a, k: a.predict(args(a, k)[0]))
    if w.clf:
        ops["predict_proba"] = ("fit", lambda a, k: a.predict_proba(args(a, k)[0]))
        ops["predict_proba_global_rules"] = ("rules", lambda a, k: a.predict_proba_global_rules(w.rows, 0.0, 0.5))
    ops["predict_global_rules"] = ("rules", lambda a, k: a.predict_global_rules(w.rows, 0.0, 0.5, 5))
    ops["rules metrics"] = ("rules", lambda a, k: [a.rules, a.rules_s_star, a.rules_coverage, a.rules_acc, a.rules_var, a.rules_output] if a.rules is not None else 1 / 0)
    return ops


def refused_ops(w):
    def badfit(a):
        X, y = w.fits[1]
        X = X.copy(); X[0, 0] = float("nan")
        a.fit(X, y)

    def badquery(a):
        q = w.q[3]
        a.compute_sdp_rf(q["X"], q["y"], q["data"], q["yd"], q["S"][:2])

    def badrows(a):
        q = w.q[3]
        a.importance_sdp_rf(q["X"], q["y"][:1], q["data"], q["yd"])
    return {"fit with NaN": badfit, "compute_sdp_rf with too few sets": badquery, "importance_sdp_rf with too few targets": badrows}


COPIES = dict(pickle=lambda o: pickle.loads(pickle.dumps(o)), deepcopy=copy.deepcopy)


def acx_pairs(ctx, task):
    """two explainers alive at once, independent or one a copy of the other: each answers by its own history"""
    w = World(task["clf"])
    saved = defaults()
    qs = acx_query_ops(w)
    ref = {}

    def reference(st, n):
        if (st, n) not in ref:
            pristine(saved)
            a = new(w)
            if st[0] is not None:
                fit_(a, w.fits[st[0]])
            if st[1] is not None:
                a.fit_global_rules(*w.gfits[st[1]])
            ref[st, n] = plain(qs[n][1](a, st[0]))
        return ref[st, n]
    before = w.all()
    names = sorted(qs)
    done = 0
    for g0 in (None, 0, 1):
        for how in sorted(COPIES) + [0, 1, 2]:
            for mid in [None] + [(o, kind, k) for o in (0, 1) for kind, m in (("fit", 3), ("rules", 2)) for k in range(m)]:
                done += 1
                if not ctx.thorough and (done + task["k0"]) % 3:
                    continue
                pristine(saved)
                a, state = [new(w), None], [[task["k0"], g0], None]
                fit_(a[0], w.fits[task["k0"]])
                if g0 is not None:
                    a[0].fit_global_rules(*w.gfits[g0])
                if how in COPIES:
                    a[1], state[1] = COPIES[how](a[0]), list(state[0])
                else:
                    a[1], state[1] = new(w), [how, None]
                    fit_(a[1], w.fits[how])
                if mid is not None:
                    o, kind, k = mid
                    if kind == "fit":
                        fit_(a[o], w.fits[k]); state[o][0] = k
                    else:
                        a[o].fit_global_rules(*w.gfits[k]); state[o][1] = k
                live = []
                for q, n in enumerate(names):
                    if not ctx.thorough and qs[n][0] == "fit" and (q + done // 3) % 4:
                        continue
                    for o in (0, 1) if (q + done) % 2 else (1, 0):
                        if qs[n][0] == "rules" and state[o][1] is None:
                            continue
                        want = reference(tuple(state[o]), n)
                        got = qs[n][1](a[o], state[o][0])
                        ctx.count(transitions=1)
                        if plain(got) != want:
                            return ctx.violate("two explainers: the first fitted on set %s with rules %s, the second %s, then %s: %s of explainer %d answers differently than a new explainer" % (task["k0"], g0, how, mid, n, o), classifier=w.clf, got=plain(got), want=want)
                        live.append((n, o, got, want))
                for n, o, got, want in live:
                    if plain(got) != want:
                        return ctx.violate("two explainers: the result of %s of explainer %d was modified by a later operation" % (n, o), classifier=w.clf, history=[task["k0"], g0, how, mid])
                ctx.count(traces=1, states=2)
    if w.all() != before:
        return ctx.violate("two explainers: an argument was modified", classifier=w.clf)
    ctx.sample(dict(classifier=w.clf, fitted=task["k0"]))


def acx_refusals(ctx, task):
    """arguments that do not fit together, and missing values, are refused by every estimator of an ACXplainer"""
    clf, specs, data, rows, d = task["clf"], task["forest"], task["data"], task["rows"], 3
    nan = float("nan")
    yd = [float((i * 5 // 3) % (2 if clf else 5)) for i in range(len(data))]
    good = dict(a=acx(specs, clf, d), X=rows, y=[1.0, 0.0, 1.0] if clf else [1.0, 2.5, 4.0], data=data, yd=yd, t=None if clf else [[0.5, 2.5], [1.0, 3.0], [2.0, 5.0]])
    F = [-BIG, BIG]
    Ss, boxes = [[0], [1, 2], [2, 0]], [[[0., .5], F, F], [F, [.5, BIG], [0., 1.]], [F, F, F]]
    before = plain([f(good, [0, 1, 2]) for _, f in acx_ops(d, clf, Ss, boxes)])
    wrong = [("fewer sets than rows", good, Ss[:2]),
             ("fewer targets than rows", dict(good, y=good["y"][:2]), Ss),
             ("a background with more rows than targets", dict(good, yd=yd[:-1]), Ss),
             ("a background with fewer rows than targets", dict(good, data=data[:-1]), Ss),
             ("a missing value in a row", dict(good, X=[rows[0], [0., nan, 1.], rows[2]]), Ss),
             ("a missing value in the background", dict(good, data=data[:-1] + [[nan, 0., 1.]]), Ss),
             ("an infinite value in the background", dict(good, data=data[:-1] + [[float("inf"), 0., 1.]]), Ss),
             ("a missing target", dict(good, yd=yd[:-1] + [nan]), Ss)]
    for what, e, S in wrong:
        for n, f in acx_ops(d, clf, S, boxes):
            if S is not Ss and not n.startswith("compute"):
                continue
            ctx.count(transitions=1)
            try:
                got = f(e, [0, 1, 2])
            except Exception:
                continue
            return ctx.violate("%s is not refused by %s: it answers %s" % (what, n, got), forest=specs, background=e["data"], targets=e["yd"], rows=e["X"])
    if plain([f(good, [0, 1, 2]) for _, f in acx_ops(d, clf, Ss, boxes)]) != before:
        return ctx.violate("a refused operation changed the answers", forest=specs)
    ctx.count(traces=1, states=len(wrong) + 1)


def tree_copies(ctx, task):
    make, Q = tree_env(task), tree_queries()
    saved = defaults()
    ref = {}
    for n, f in Q:
        pristine(saved)
        ref[n] = plain(f(make()))
    for how in sorted(COPIES):
        e = make()
        both = [e, dict(e)]
        for k in ("a", "c", "n", "co", "m"):
            try:
                both[1][k] = COPIES[how](e[k])
            except TypeError:       # an explainer holding caches refuses to be copied
                ctx.count(refused=1)
        for o in (1, 0, 1):
            for n, f in Q:
                got = plain(f(both[o]))
                ctx.count(transitions=1)
                if got != ref[n]:
                    return ctx.violate("%s of %s answers differently than a new explainer" % (n, ("the original after a copy (%s)" if o == 0 else "a copy (%s)") % how), forest=task["forest"], got=got, want=ref[n])
        ctx.count(traces=1, states=2)
    ctx.sample(dict(forest=task["forest"]))


def acx_histories(ctx, task):
    w = World(task["clf"])
    saved = defaults()
    qs = acx_query_ops(w)
    fits, gfits = list(range(3)), list(range(2))
    ops = [("fit", k) for k in fits] + [("rules", k) for k in gfits] + [("query", n) for n in qs] + [("refused", n) for n in refused_ops(w)]
    ref = {}

    def reference(fit, gfit, n):
        need = qs[n][0]
        key = (fit if need == "fit" else None, gfit if need == "rules" else None, n)
        if key not in ref:
            pristine(saved)
            a = new(w)
            if need == "fit" and fit is not None:
                fit_(a, w.fits[fit])
            if need == "rules" and gfit is not None:
                a.fit_global_rules(*w.gfits[gfit])
            if (fit if need == "fit" else gfit) is None:
                ref[key] = "refused"
            else:
                ref[key] = plain(qs[n][1](a, fit))
        return ref[key]
    before = w.all()
    refused = refused_ops(w)
    states = set()
    for hist in histories(ops, task):
        pristine(saved)
        a, fit, gfit, live = new(w), None, None, []
        for kind, x in hist:
            try:
                if kind == "fit":
                    fit_(a, w.fits[x]); fit = x
                elif kind == "rules":
                    a.fit_global_rules(*w.gfits[x]); gfit = x
                elif kind == "refused":
                    try:
                        refused[x](a)
                    except Exception:
                        pass
                    else:
                        ctx.violate("history %s: %s is not refused" % (hist, x), classifier=w.clf)
                        return
                else:
                    want = reference(fit, gfit, x)
                    try:
                        got = qs[x][1](a, fit if fit is not None else 0)
                    except Exception as ex:
                        if want != "refused":
                            ctx.violate("history %s: %s fails with %r; an explainer fitted on the latest data answers" % (hist, x, ex), classifier=w.clf)
                            return
                    else:
                        if want == "refused":
                            ctx.violate("history %s: %s is answered before fitting" % (hist, x), classifier=w.clf)
                            return
                        p = plain(got)
                        if p != want:
                            ctx.violate("history %s: the answer of %s differs from that of a new explainer fitted on the latest data" % (hist, x), classifier=w.clf, got=p, want=want)
                            return
                        live.append((x, got, want))
            finally:
                ctx.count(transitions=1)
            states.add((fit, gfit, kind, x))
        if w.all() != before:
            ctx.violate("history %s: an argument was modified" % (hist,), classifier=w.clf)
            return
        for n, got, want in live:
            if plain(got) != want:
                ctx.violate("history %s: the result of %s was modified by a later operation" % (hist, n), classifier=w.clf)
                return
        ctx.count(traces=1, states=len(hist))
    ctx.sample(dict(classifier=w.clf, history=hist))


def histories(ops, task):
    """every sequence of the given length with the given prefix whose last operation is a query"""
    pre = [ops[i] for i in task["prefix"]]
    last = [o for o in ops if o[0] == "query"]
    if task.get("alternate"):
        # fit, query, fit, query: the second query is the first one again, or one of a varying selection
        i, j = pre
        for a, m in enumerate(last):
            for b, l in enumerate(last):
                if a == b or (a + b + 2 * task["prefix"][0] + task["prefix"][1]) % 8 == 0:
                    yield [i, m, j, l]
        return
    w = task.get("narrow")
    mid = ops if w is None else [o for k, o in enumerate(ops) if o[0] != "query" or w >= 0 and k % 8 == w]
    for m in itertools.product(mid, repeat=task["length"] - len(pre) - 1):
        for k, l in enumerate(last):
            if task.get("thin") and l != pre[0] and (k + sum(task["prefix"]) + ops.index(m[0])) % task["thin"]:
                continue
            yield pre + list(m) + [l]


# ---------------------------------------------------------------- ACVTree
def tree_env(task):
    specs, data = task["forest"], [list(map(float, r)) for r in task["data"]]
    vals, rv = clf_vals(specs, False, 3)[-1], reg_vals(specs, False)[0]
    C = task["C"]
    return lambda: dict(a=dict_acv(specs, vals, data), c=dict_acv(specs, vals, data, stub=False, cache=True, C=copy.deepcopy(C)),
                        n=dict_acv(specs, vals, data, stub=False, cache=True, cache_normalized=True, C=copy.deepcopy(C)),
                        co=dict_acv(specs, vals, data, stub=False, cache=True, cache_normalized=True, C=[[0, 1]] if C == [[]] else [[]]),
                        m=dict_acv(specs, rv, data), X=task["rows"], data=np.array(data))


def tree_queries():
    """(name, f(env)) with the arguments left to their defaults where there are defaults, and with groups"""
    Q = []
    X = lambda e: np.array(e["X"], dtype=np.float64)
    D = lambda e: e["data"]
    G = [[0, 1]]
    for o, ns in (("a", ("shap_values", "shap_values_nopa", "shap_values_normalized")), ("c", ("shap_values", "shap_values_cache", "shap_values_cache_nopa")),
                  ("n", ("shap_values_normalized", "shap_values_normalized_cache_nopa")), ("co", ("shap_values",))):
        for n in ns:
            Q.append(("%s.%s" % (o, n), lambda e, o=o, n=n: getattr(e[o], n)(X(e))))
            Q.append(("%s.%s(groups)" % (o, n), lambda e, o=o, n=n: getattr(e[o], n)(X(e), G)))
    for n in ("", "_nopa"):
        Q.append(("shap_values_acv" + n, lambda e, n=n: getattr(e["a"], "shap_values_acv" + n)(X(e), L([0]), L([1, 2]))))
        Q.append(("compute_exp" + n, lambda e, n=n: getattr(e["a"], "compute_exp" + n)(X(e), L([0, 2]), D(e))))
        Q.append(("compute_sdp_clf" + n, lambda e, n=n: getattr(e["a"], "compute_sdp_clf" + n)(X(e), L([0]), D(e))))
        Q.append(("compute_sdp_reg" + n, lambda e, n=n: getattr(e["m"], "compute_sdp_reg" + n)(X(e), .5, L([0]), D(e))))
        Q.append(("swing_sv_clf" + n, lambda e, n=n: getattr(e["a"], "swing_sv_clf" + n)(X(e), D(e))))
        Q.append(("importance_sdp_clf" + n, lambda e, n=n: getattr(e["a"], "importance_sdp_clf" + n)(X(e), D(e))))
        Q.append(("importance_sdp_clf%s(groups)" % n, lambda e, n=n: getattr(e["a"], "importance_sdp_clf" + n)(X(e), D(e), G, .7)))
        Q.append(("importance_sdp_reg" + n, lambda e, n=n: getattr(e["m"], "importance_sdp_reg" + n)(X(e), .5, D(e))))
    Q.append(("importance_sdp_clf_greedy", lambda e: e["a"].importance_sdp_clf_greedy(X(e), D(e))))
    Q.append(("importance_sdp_clf_search", lambda e: e["a"].importance_sdp_clf_search(X(e), D(e), G, .7, 1, [0, 1, 2])))
    Q.append(("importance_sdp_clf_ptrees", lambda e: e["a"].importance_sdp_clf_ptrees(X(e), D(e))))
    Q.append(("predict", lambda e: e["a"].predict(X(e))))
    return Q


def tree_histories(ctx, task):
    saved = defaults()
    make, Q = tree_env(task), tree_queries()
    ref = {}
    for n, f in Q:
        pristine(saved)
        ref[n] = plain(f(make()))
    env0 = make()
    keep = lambda e: digest([e["data"], e["X"]] + [[getattr(e[o], k) for k in ("values", "partition_leaves_trees", "thresholds", "features", "data", "C")] for o in ("a", "c", "n", "co", "m")])
    want_state = keep(env0)
    for hist in itertools.product(range(len(Q)), repeat=task["length"]):
        if hist[0] % task["mod"] != task["rem"]:
            continue
        pristine(saved)
        live = []
        # the same objects serve every history: a history is then also run after all earlier ones, with fresh default arguments
        for k in hist:
            n, f = Q[k]
            got = f(env0)
            ctx.count(transitions=1)
            if plain(got) != ref[n]:
                ctx.violate("after %s, %s answers differently than a new explainer" % ([Q[i][0] for i in hist], n), forest=task["forest"], got=plain(got), want=ref[n])
                return
            live.append((n, got))
        for n, got in live:
            if plain(got) != ref[n]:
                ctx.violate("in %s the result of %s was modified by a later operation" % ([Q[i][0] for i in hist], n), forest=task["forest"])
                return
        ctx.count(traces=1, states=len(hist))
    if keep(env0) != want_state:
        ctx.violate("the explainer's model arrays or the background were modified by queries", forest=task["forest"])
    ctx.sample(dict(forest=task["forest"], history=[Q[i][0] for i in hist]))


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    n = {1: 27, 0: 25}
    for clf in (1, 0):
        nop = len(acx_query_ops(World(clf))) + 5 + 3
        for i in range(nop):
            # a query on an unfitted object is refused whatever it is: in the quick run it is followed by a fit or a refused operation
            out.append(dict(kind="acx", clf=clf, prefix=[i], length=3, narrow=-1 if i >= 5 and not th else None, thin=4 if i >= 5 and not th else 0))
        # refit and rule-refit prefixes, one operation longer
        for i, j in itertools.product(range(5), repeat=2):
            if th:
                out += [dict(kind="acx", clf=clf, prefix=[i, j, k], length=5, narrow=k % 8) for k in range(nop)]
            out.append(dict(kind="acx", clf=clf, prefix=[i, j], length=4, alternate=True))
            if not th and i != j:
                out.append(dict(kind="acx", clf=clf, prefix=[i, j], length=4, narrow=-1, thin=3))
        if th:
            out += [dict(kind="acx", clf=clf, prefix=[i, j], length=4) for i in range(nop) for j in range(nop)]
        out += [dict(kind="pairs", clf=clf, k0=k) for k in range(3)]
        out += [dict(kind="refusals", clf=clf, forest=f, data=DATA[(k + clf) % 2], rows=ROWS[k % 3]) for k, f in enumerate(TREES3)]
    for k, f in enumerate(TREES3):
        out.append(dict(kind="copies", forest=f, data=DATA[k % 2], C=[[]] if k % 2 else [[0, 2]], rows=ROWS[k % 3]))
        for rem in range(4):
            out.append(dict(kind="tree", forest=f, data=DATA[k % 2], C=[[]] if k % 2 else [[0, 2]], rows=ROWS[k % 3], length=3 if th else 2, mod=4, rem=rem))
    return out


def run(prop, task, ctx):
    dict(acx=acx_histories, tree=tree_histories, pairs=acx_pairs, refusals=acx_refusals, copies=tree_copies)[task["kind"]](ctx, task)

"""The loaded ensemble is the trained model (M01): every small tree structure, in every model family installed here."""
import ctypes, itertools, json, os, tempfile, warnings
import numpy as np
import core
from core import *
import large
from t_shap import FOREST_PARTS, caterpillars

warnings.filterwarnings("ignore")
NAN = float("nan")
F32 = np.float32


def upd(box, f, b):
    box = dict(box)
    box[f] = b
    return box


def clean(spec, box=None):
    """the tree without splits that cannot separate anything"""
    box = box or {}
    if spec is None:
        return None
    f, t, l, r = spec
    lo, hi = box.get(f, (-1e9, 1e9))
    if not lo < t < hi:
        return clean(l if t >= hi else r, box)
    return [f, t, clean(l, upd(box, f, (lo, t))), clean(r, upd(box, f, (t, hi)))]


def rows_of(task, nan):
    if not task.get("large"):
        return grid(list(task["lv"]) + [NAN] * nan, task["d"])
    F, d, data, X = large.instance(task["large"])
    rows = X + data[::20]
    if nan:
        rows = rows + [[NAN if (i + j * j) % (2 + i % 3) == 0 else v for j, v in enumerate(x)] for i, x in enumerate(rows)]
    return rows


def around(ts):
    """values below, just below, on, just above and above every threshold (in single precision)"""
    out = set()
    for t in ts:
        f = F32(t)
        out |= {float(f), float(np.nextafter(f, F32(-np.inf))), float(np.nextafter(f, F32(np.inf)))}
    ts = sorted(ts)
    return sorted(out | {ts[0] - 1.0, ts[-1] + 1.0} | {(a + b) / 2 for a, b in zip(ts, ts[1:])})


def path_feats(spec, used=()):
    if spec is None:
        return [set(used)]
    return path_feats(spec[2], used + (spec[0],)) + path_feats(spec[3], used + (spec[0],))


def preorder_leaves(spec):
    return [i for i, l in enumerate(flat(spec)[4]) if l >= 0]


def is_nan(x):
    return any(v != v for v in x)


def check(ctx, what, model, raw, rows, data, tol=1e-9, leaf_ids=None, feats=None, n_leaves_=None, cast=None, predicts=True, **detail):
    """compare everything the explainer derived with the trained model.
    raw: the model's outputs per row; leaf_ids[row][tree]: the library's leaf; feats[tree]{leaf id: path features}"""
    from acv_explainers import ACVTree
    R = np.array(rows, dtype=np.float64)
    D = arr(data)
    a = ACVTree(model, D)
    ctx.count(states=len(rows), traces=1, transitions=len(rows))
    bad = lambda m, **k: ctx.violate("%s: %s" % (what, m), rows=rows[:3], **dict(detail, **k))
    if a.trees is None:
        return bad("the model's trees are not loaded")
    raw = [list(np.atleast_1d(r)) for r in tolist(raw)]
    K = len(raw[0])
    got = tolist(a.predict(R)) if predicts else raw
    got = [[g] if not isinstance(g, list) else g for g in got]
    for i, x in enumerate(rows):
        if len(got[i]) != K or any(not close(g, w, tol) for g, w in zip(got[i], raw[i])):
            return bad("row %s is predicted %s, the model outputs %s" % (x, got[i], raw[i]))
    one = a.predict(R[len(R) // 2]) if predicts else np.array(raw[len(R) // 2])
    one = np.atleast_1d(np.squeeze(one)).tolist()
    if any(not close(g, w, tol) for g, w in zip(one, raw[len(R) // 2])):
        return bad("the single row %s is predicted %s, the model outputs %s" % (rows[len(R) // 2], one, raw[len(R) // 2]))
    T = len(a.leaves_nb)
    P, L = a.partition_leaves_trees, a.leaf_idx_trees.tolist()
    B = [[P[b, l].tolist() for l in range(a.leaves_nb[b])] for b in range(T)]
    if n_leaves_ is not None and a.leaves_nb.tolist() != list(n_leaves_):
        return bad("numbers of leaves %s, the model has %s" % (a.leaves_nb.tolist(), list(n_leaves_)))
    off = np.atleast_1d(a.base_offset).tolist()
    vals = a.values.tolist()
    for i, x in enumerate(rows):
        if is_nan(x):
            continue
        z = list(off)
        for b in range(T):
            inn = [l for l in range(len(B[b])) if all(lo < v <= hi for v, (lo, hi) in zip(x, B[b][l]))]
            if len(inn) != 1:
                return bad("row %s lies in %d leaf regions of tree %d" % (x, len(inn), b))
            leaf = L[b][inn[0]]
            if leaf_ids is not None and leaf_ids[i][b] != leaf:
                return bad("row %s lies in the region of leaf %d of tree %d, the model routes it to leaf %d" % (x, leaf, b, leaf_ids[i][b]))
            for k in range(K):
                z[k] += vals[b][leaf][k]
        if any(not close(g, w, max(tol, 1e-7)) for g, w in zip(z, raw[i])):
            return bad("the leaf values of the regions of row %s add up to %s, the model outputs %s" % (x, z, raw[i]))
    if feats is not None:
        for b in range(T):
            for l in range(len(B[b])):
                rec = [int(v) for v in a.node_idx_trees[b][l]]
                if len(set(rec)) != len(rec) or set(rec) != feats[b][L[b][l]]:
                    return bad("leaf %d of tree %d records features %s, its path tests %s" % (L[b][l], b, rec, sorted(feats[b][L[b][l]])))
                con = {f for f, (lo, hi) in enumerate(B[b][l]) if lo > -np.inf or hi < np.inf}
                if con != feats[b][L[b][l]]:
                    return bad("the region of leaf %d of tree %d constrains features %s, its path tests %s" % (L[b][l], b, sorted(con), sorted(feats[b][L[b][l]])))
    # every tree on its own
    if predicts and all(np.shape(t.values)[1] == K for t in a.trees):
        Q = R.astype(a.input_dtype).astype(np.float64)
        each = [np.reshape(t.predict(Q), (len(rows), K)) * t.scaling for t in a.trees]
        for i, x in enumerate(rows):
            z = [off[k % len(off)] + sum(float(e[i, k]) for e in each) for k in range(K)]
            if any(not close(g, w, max(tol, 1e-7)) for g, w in zip(z, raw[i])):
                return bad("the single trees' predictions of row %s add up to %s, the model outputs %s" % (x, z, raw[i]))
    # observable end to end: with every feature known and every region populated, the expectation is the prediction
    if not any(is_nan(x) for x in data):
        full = arr([x for x in rows if not is_nan(x)])
        full = full[:64]
        S = np.arange(full.shape[1], dtype=np.int64)
        e = tolist(a.compute_exp(full, S, full))
        keep = [r for r, x in zip(raw, rows) if not is_nan(x)][:64]
        for i in range(len(keep)):
            w = [v - o for v, o in zip(keep[i], off)]
            if any(not close(g, q, max(tol, 1e-7)) for g, q in zip(np.atleast_1d(e[i]).tolist(), w)):
                return bad("given all features the expectation at %s is %s, the prediction without offset is %s" % (full[i].tolist(), e[i], w))
    return a


# ------------------------------------------------------------------------------------------------ scikit-learn
def sk_leafvals(spec, K, off):
    base = [1.0, 0.0, 0.25, 3.0, 0.5, 2.0, 0.125]
    return [[base[(off + 3 * l + 2 * k + l * k) % 7] for k in range(K)] for l in range(n_leaves(spec))]


def sk_clf_leafvals(spec, K, off):
    base = [3.0, 0.0, 1.0, 2.5, 0.0, 6.0, 1.0]
    out = []
    for l in range(n_leaves(spec)):
        r = [base[(off + 3 * l + 2 * k + l * k) % 7] for k in range(K)]
        if sum(r) == 0:
            r[0] = 1.0
        out.append(r)
    return out


def sk_tree_reg_multi(spec, d, vals):
    """regression tree with several outputs"""
    from sklearn.tree._tree import Tree
    t1 = sk_tree(spec, d, vals, regression=True) if len(vals[0]) == 1 else None
    if t1 is not None:
        return t1
    K = len(vals[0])
    t = Tree(d, np.ones(K, dtype=np.intp), K)
    st = sk_tree(spec, d, [[0.0]] * n_leaves(spec), regression=True).__getstate__()
    lf = flat(spec)[4]
    v = np.array([vals[l] if l >= 0 else [0.0] * K for l in lf], dtype=np.float64).reshape(len(lf), K, 1)
    t.__setstate__({"max_depth": depth_of(spec), "node_count": len(lf), "nodes": st["nodes"], "values": v})
    return t


def sk_models(specs, d, K, kind):
    """(name, model) for every bagged / single scikit-learn family holding exactly these trees"""
    from sklearn.tree import DecisionTreeRegressor, DecisionTreeClassifier
    from sklearn.ensemble import RandomForestRegressor, RandomForestClassifier, ExtraTreesRegressor, ExtraTreesClassifier
    reg = kind == "reg"
    allv = [(sk_leafvals if reg else sk_clf_leafvals)(s, K, 2 * i + 1) for i, s in enumerate(specs)]

    def base(cls, s, v):
        m = cls()
        m.n_features_in_ = d
        m.max_features_ = d
        if reg:
            m.n_outputs_ = K
            m.tree_ = sk_tree_reg_multi(s, d, v)
        else:
            m.n_outputs_, m.n_classes_, m.classes_ = 1, K, np.arange(K)
            m.tree_ = sk_tree(s, d, v)
        return m
    DT = DecisionTreeRegressor if reg else DecisionTreeClassifier
    if len(specs) == 1:
        yield base(DT, specs[0], allv[0])
    for cls in (RandomForestRegressor, ExtraTreesRegressor) if reg else (RandomForestClassifier, ExtraTreesClassifier):
        m = cls(n_estimators=len(specs))
        m.n_features_in_ = d
        m.estimators_ = [base(DT, s, v) for s, v in zip(specs, allv)]
        m.n_outputs_ = K if reg else 1
        if not reg:
            m.n_classes_, m.classes_ = K, np.arange(K)
        yield m


def run_sk(task, ctx):
    specs, d = task["f"], task["d"]
    rows = rows_of(task, False)
    X = arr(rows)
    feats = [dict(zip(preorder_leaves(s), path_feats(s))) for s in specs]
    for kind, Ks in (("reg", (1, 2)), ("clf", (1, 2, 3))):
        for K in Ks:
            for m in sk_models(specs, d, K, kind):
                raw = m.predict(X) if kind == "reg" else m.predict_proba(X)
                es = getattr(m, "estimators_", [m])
                ids = np.array([e.tree_.apply(X.astype(F32)) for e in es]).T.tolist()
                check(ctx, "%s with %d outputs" % (type(m).__name__, K), m, raw, rows, rows, leaf_ids=ids, feats=feats,
                      n_leaves_=[n_leaves(s) for s in specs], trees=specs)


def run_gb(task, ctx):
    """boosted trees: fit for the initial estimator, then substitute every tree structure"""
    from sklearn.ensemble import GradientBoostingRegressor, GradientBoostingClassifier
    specs, d = task["f"], task["d"]
    rows = rows_of(task, False)
    X = arr(rows)
    feats = [dict(zip(preorder_leaves(s), path_feats(s))) for s in specs]
    n = len(rows)
    yr = np.array([float((i * 7) % 5) for i in range(n)])
    for cls, y, kws in ((GradientBoostingRegressor, yr, [dict(), dict(loss="huber", learning_rate=1.0), dict(loss="quantile", learning_rate=.5), dict(loss="absolute_error")]),
                        (GradientBoostingClassifier, (yr > 2).astype(int), [dict(), dict(loss="exponential", learning_rate=.5)])):
        for kw in kws:
            m = cls(n_estimators=len(specs), max_depth=1, **kw).fit(X, y)
            for i, s in enumerate(specs):
                m.estimators_[i, 0].tree_ = sk_tree(s, d, sk_leafvals(s, 1, i), regression=True)
            raw = m.predict(X) if cls is GradientBoostingRegressor else m.decision_function(X)
            ids = np.array([e.tree_.apply(X.astype(F32)) for e in m.estimators_[:, 0]]).T.tolist()
            check(ctx, "%s %s" % (cls.__name__, kw), m, raw, rows, rows, leaf_ids=ids, feats=feats,
                  n_leaves_=[n_leaves(s) for s in specs], trees=specs)


def run_hist(task, ctx):
    from sklearn.experimental import enable_hist_gradient_boosting  # noqa
    from sklearn.ensemble import HistGradientBoostingRegressor
    from sklearn.ensemble._hist_gradient_boosting.predictor import TreePredictor
    specs, d = task["f"], task["d"]
    rows = rows_of(task, True)
    X = np.array(rows)
    y = np.array([float((i * 7) % 5) for i in range(len(rows))])
    m = HistGradientBoostingRegressor(max_iter=1, min_samples_leaf=1, max_leaf_nodes=2, early_stopping=False).fit(X, y)
    old = m._predictors[0][0]
    dt = old.nodes.dtype
    nsplit = sum(n_leaves(s) - 1 for s in specs)
    for bits in default_choices(nsplit):
        it = iter(bits)
        preds, feats = [], []
        for t, s in enumerate(specs):
            cl, cr, f, thr, lf = flat(s)
            nodes = np.zeros(len(cl), dtype=dt)
            v = sk_leafvals(s, 1, t)
            for i in range(len(cl)):
                if lf[i] >= 0:
                    nodes[i]["is_leaf"] = 1
                    nodes[i]["value"] = v[lf[i]][0]
                    nodes[i]["count"] = 1
                else:
                    nodes[i]["left"], nodes[i]["right"], nodes[i]["feature_idx"] = cl[i], cr[i], f[i]
                    nodes[i]["num_threshold"] = thr[i]
                    nodes[i]["missing_go_to_left"] = next(it)
                    nodes[i]["count"] = 2
                    nodes[i]["value"] = 7.75
            preds.append([TreePredictor(nodes, old.binned_left_cat_bitsets, old.raw_left_cat_bitsets)])
            feats.append(dict(zip(preorder_leaves(s), path_feats(s))))
        m._predictors = preds
        raw = m._raw_predict(X)
        ids = [[preorder_leaves(s)[route(s, x)] for s in specs] for x in rows]
        full = [x for x in rows if not is_nan(x)]
        check(ctx, "HistGradientBoostingRegressor", m, raw, rows, full, leaf_ids=ids, feats=feats,
              n_leaves_=[n_leaves(s) for s in specs], trees=specs, missing_left=list(bits))


def default_choices(n):
    if n <= 3:
        return list(itertools.product((0, 1), repeat=n))
    return [tuple((i // p + q) % 2 for i in range(n)) for p, q in ((1, 0), (1, 1), (2, 0), (2, 1))] + [(0,) * n, (1,) * n]


# ------------------------------------------------------------------------------------------------ dictionaries
def dict_predict(t, K, x):
    i = 0
    while t["children_left"][i] >= 0:
        v = x[t["features"][i]]
        i = t["children_default"][i] if v != v else t["children_left"][i] if v <= t["thresholds"][i] else t["children_right"][i]
    return i


def run_dict(task, ctx):
    specs, d = task["f"], task["d"]
    rows = rows_of(task, True)
    full = [x for x in rows if not is_nan(x)]
    nsplit = sum(n_leaves(s) - 1 for s in specs)
    feats = [dict(zip(preorder_leaves(s), path_feats(s))) for s in specs]
    for K in (1, 2):
        vals = [sk_leafvals(s, K, t) for t, s in enumerate(specs)]
        for bits in default_choices(nsplit):
            it = iter(bits)
            trees = []
            for s, v in zip(specs, vals):
                t = dict_tree(s, v)
                for i in range(len(t["features"])):
                    if t["children_left"][i] >= 0 and next(it):
                        t["children_default"][i] = t["children_right"][i]
                trees.append(t)
            nodes = [[dict_predict({k: q.tolist() for k, q in t.items()}, K, x) for t in trees] for x in rows]
            off = 0.375
            raw = [[off + sum(trees[b]["values"][nd[b]][k] for b in range(len(trees))) for k in range(K)] for nd in nodes]
            check(ctx, "dictionary of trees", {"trees": trees, "base_offset": off}, raw, rows, full, leaf_ids=nodes, feats=feats,
                  n_leaves_=[n_leaves(s) for s in specs], trees=specs, defaults=list(bits))
        old = [dict(t, feature=t["features"], threshold=t["thresholds"], value=t["values"]) for t in trees]
        for t in old:
            del t["features"]
        check(ctx, "dictionary of trees (singular keys)", {"trees": old, "base_offset": off}, raw, rows, full, leaf_ids=nodes, feats=feats,
              n_leaves_=[n_leaves(s) for s in specs], trees=specs)


# ------------------------------------------------------------------------------------------------ isolation forests
def run_iso(task, ctx):
    from sklearn.ensemble import IsolationForest
    from sklearn.ensemble._iforest import _average_path_length
    X = arr(task["data"])
    d = X.shape[1]
    for seed in range(task["seeds"]):
        for mf in range(1, d + 1):
            for ms in sorted({2, len(X)}):
                m = IsolationForest(n_estimators=3, max_features=mf, max_samples=ms, random_state=seed).fit(X)
                ts = sorted({float(t) for e in m.estimators_ for t, f in zip(e.tree_.threshold, e.tree_.feature) if f >= 0} | {0.5})
                lv = sorted({float(F32(v)) for v in X.ravel()} | {-1.0, 3.0} | {float(F32(t)) for t in ts[:2]})
                rows = grid(lv, d)
                R = arr(rows)
                depth = -np.log2(-m.score_samples(R)) * _average_path_length(np.array([m.max_samples_]))[0]
                ids, nl = [], []
                for e, f in zip(m.estimators_, m.estimators_features_):
                    ids.append(e.tree_.apply(R[:, f].astype(F32)))
                    nl.append(int((e.tree_.children_left < 0).sum()))
                check(ctx, "IsolationForest", m, depth, rows, rows, tol=1e-7, leaf_ids=np.array(ids).T.tolist(), n_leaves_=nl,
                      training_data=task["data"], seed=seed, max_features=mf, max_samples=ms)


# ------------------------------------------------------------------------------------------------ XGBoost
def xgb_tree(spec, leafvals, dl, d, tid, order):
    """JSON of one tree; siblings are adjacent: order 'pairs' numbers them depth first, 'bfs' by levels"""
    cl, cr, f, thr, lf = flat(spec)
    n = len(cl)
    if order == "bfs":
        seq, q = [], [0]
        while q:
            i = q.pop(0)
            seq.append(i)
            if cl[i] >= 0:
                q += [cl[i], cr[i]]
    else:
        seq, q = [0], [0]
        while q:
            i = q.pop()
            if cl[i] >= 0:
                seq += [cl[i], cr[i]]
                q += [cl[i], cr[i]]
    pos = {i: k for k, i in enumerate(seq)}
    it = iter(dl)
    left = {i: next(it) for i in range(n) if cl[i] >= 0}
    parent = [2147483647] * n
    for i in range(n):
        if cl[i] >= 0:
            parent[pos[cl[i]]] = parent[pos[cr[i]]] = pos[i]
    J = dict(base_weights=[0.0] * n, categories=[], categories_nodes=[], categories_segments=[], categories_sizes=[],
             default_left=[bool(left.get(i, 0)) for i in seq], id=tid,
             left_children=[pos[cl[i]] if cl[i] >= 0 else -1 for i in seq], right_children=[pos[cr[i]] if cl[i] >= 0 else -1 for i in seq],
             loss_changes=[0.0] * n, parents=parent, split_conditions=[float(thr[i]) if cl[i] >= 0 else float(leafvals[lf[i]][0]) for i in seq],
             split_indices=[f[i] if cl[i] >= 0 else 0 for i in seq], split_type=[0] * n, sum_hessian=[1.0] * n,
             tree_param=dict(num_deleted="0", num_feature=str(d), num_nodes=str(n), size_leaf_vector="0"))
    ids = [pos[i] for i in range(n) if lf[i] >= 0]
    return J, dict(zip(ids, path_feats(spec)))


def xgb_booster(trees, info, d, base, obj, num_class=0, attrs=None):
    import xgboost as xgb
    J = dict(learner=dict(attributes=attrs or {}, feature_names=[], feature_types=[],
                          gradient_booster=dict(model=dict(gbtree_model_param=dict(num_trees=str(len(trees)), size_leaf_vector="0"),
                                                           tree_info=info, trees=trees), name="gbtree"),
                          learner_model_param=dict(base_score=repr(base), num_class=str(num_class), num_feature=str(d)),
                          objective=objective(obj, num_class)), version=[1, 5, 2])
    fd, p = tempfile.mkstemp(suffix=".json")
    try:
        os.write(fd, json.dumps(J).encode())
        os.close(fd)
        b = xgb.Booster()
        b.load_model(p)
        return b
    finally:
        os.unlink(p)


OBJ = {}


def objective(obj, num_class):
    """the objective's own parameters, as this version of XGBoost writes them"""
    key = (obj, num_class)
    if key not in OBJ:
        import xgboost as xgb
        D = xgb.DMatrix(np.array([[0.0], [1.0]]), label=np.array([0.0, 1.0]))
        par = dict(objective=obj, verbosity=0)
        if num_class:
            par["num_class"] = num_class
        b = xgb.Booster(par, [D])
        fd, p = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        try:
            b.save_model(p)
            OBJ[key] = json.load(open(p))["learner"]["objective"]
        finally:
            os.unlink(p)
    return OBJ[key]


def xgb_wrap(booster, cls, **attrs):
    m = cls()
    m._Booster = booster
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


def route_lt(spec, x, dl):
    """leaf index under XGBoost's rule: left when x < threshold, missing to the default side"""
    it = {}
    def number(s):
        if s is None:
            return
        it[id(s)] = len(it)
        number(s[2]); number(s[3])
    number(spec)
    k = 0
    while spec is not None:
        v = x[spec[0]]
        left = dl[it[id(spec)]] if v != v else F32(v) < F32(spec[1])
        if left:
            spec = spec[2]
        else:
            k += n_leaves(spec[2])
            spec = spec[3]
    return k


def run_xgb(task, ctx):
    import xgboost as xgb
    specs, d = task["f"], task["d"]
    rows = rows_of(task, True)
    X = np.array(rows)
    full = [x for x in rows if not is_nan(x)]
    DM = xgb.DMatrix(X)
    nsplit = [n_leaves(s) - 1 for s in specs]
    confs = []
    for bits in default_choices(sum(nsplit)):
        confs.append((bits, "bfs", "reg:squarederror", 0.5, 0, None))
    bits = confs[len(confs) // 3][0]
    for order, obj, base, kind in (("pairs", "reg:squarederror", 0.0, "regressor"), ("bfs", "binary:logistic", 0.9, "classifier"), ("pairs", "binary:logistic", 0.5, "booster"),
                                   ("bfs", "reg:squarederror", -1.25, "booster"), ("bfs", "reg:logistic", 0.25, "regressor"), ("bfs", "count:poisson", 0.5, "regressor"),
                                   ("bfs", "reg:gamma", 0.5, "booster"), ("bfs", "reg:tweedie", 1.5, "regressor"), ("bfs", "binary:logitraw", 0.75, "classifier"),
                                   ("bfs", "binary:hinge", 0.5, "classifier"), ("bfs", "reg:squaredlogerror", 0.5, "regressor"), ("bfs", "rank:pairwise", 0.5, "ranker"),
                                   ("bfs", "survival:cox", 0.5, "booster"), ("bfs", "survival:aft", 0.5, "booster"), ("bfs", "reg:pseudohubererror", 0.5, "regressor")):
        confs.append((bits, order, obj, base, kind, None))
    if len(specs) > 1:
        confs.append((bits, "bfs", "reg:squarederror", 0.5, "regressor", 1))
        confs.append((bits, "bfs", "binary:logistic", 0.5, "classifier", len(specs) - 1))
    for bits, order, obj, base, kind, limit in confs:
        trees, feats, dls, k = [], [], [], 0
        for t, s in enumerate(specs):
            dl = bits[k:k + nsplit[t]]
            k += nsplit[t]
            J, f = xgb_tree(s, sk_leafvals(s, 1, t), dl, d, t, order)
            trees.append(J); feats.append(f); dls.append(dl)
        attrs = {}
        if limit:
            attrs = dict(best_iteration=str(limit - 1), best_ntree_limit=str(limit))
        b = xgb_booster(trees, [0] * len(trees), d, base, obj, 0, attrs)
        if kind == "regressor":
            m = xgb_wrap(b, xgb.XGBRegressor, objective=obj)
        elif kind == "ranker":
            m = xgb_wrap(b, xgb.XGBRanker, objective=obj)
        elif kind == "classifier":
            m = xgb_wrap(b, xgb.XGBClassifier, objective=obj, n_classes_=2)
        else:
            m = b
        n = limit or len(specs)
        raw = b.predict(DM, output_margin=True, iteration_range=(0, n))
        leaf = b.predict(DM, pred_leaf=True, iteration_range=(0, n))
        leaf = np.array(leaf).reshape(len(rows), -1).astype(int).tolist()
        a = check(ctx, "XGBoost %s as %s, base score %s" % (obj, kind, base), m, raw, rows, full, tol=1e-5, leaf_ids=leaf, feats=feats[:n],
                  n_leaves_=[n_leaves(s) for s in specs[:n]], trees=specs, default_left=[list(q) for q in dls], node_order=order, limit=limit)
        if a is not None and kind == "classifier":
            check_binary(ctx, "XGBClassifier", a, specs)
    if len(specs) >= 3:
        for C, info, lim in ((3, [0, 1, 2], None), (3, [0, 0, 1, 1, 2, 2], None), (3, [0, 1, 2, 0, 1, 2], None), (3, [0, 1, 2, 0, 1, 2], 1), (4, [0, 1, 2, 3], None)):
            trees, feats, sp, k = [], [], [], 0
            for t in range(len(info)):
                s = specs[t % len(specs)]
                J, f = xgb_tree(s, sk_leafvals(s, 1, t), ([0, 1] * nsplit[t % len(specs)])[:nsplit[t % len(specs)]], d, t, "bfs")
                trees.append(J); feats.append(f); sp.append(s)
            par = 2 if info == [0, 0, 1, 1, 2, 2] else 1
            attrs = dict(best_iteration=str(lim - 1), best_ntree_limit=str(lim * par)) if lim else {}
            b = xgb_booster(trees, info, d, 0.5, "multi:softprob", C, attrs)
            n = lim * C * par if lim else len(info)
            for m in (b, xgb_wrap(b, xgb.XGBClassifier, objective="multi:softprob", n_classes_=C)) if not lim else (xgb_wrap(b, xgb.XGBClassifier, objective="multi:softprob", n_classes_=C),):
                if lim or par == 1:
                    raw = b.predict(DM, output_margin=True, iteration_range=(0, lim or len(info) // C))
                else:
                    raw = b.predict(DM, output_margin=True)
                want = [[0.5 + sum(sk_leafvals(sp[t], 1, t)[route_lt(sp[t], x, ([0, 1] * 9))][0] for t in range(n) if info[t] == c) for c in range(C)] for x in rows]
                raw = tolist(raw)
                if any(not close(g, w, 1e-5) for p, q in zip(raw, want) for g, w in zip(p, q)):
                    raise ValueError("reference and XGBoost disagree on a hand-made multi-class model")
                ids = [[xgb_leaf_positions(sp[t])[route_lt(sp[t], x, [0, 1] * 9)] for t in range(n)] for x in rows]
                check(ctx, "XGBoost multi-class %s" % type(m).__name__, m, raw, rows, full, tol=1e-5, leaf_ids=ids, feats=feats[:n],
                      n_leaves_=[n_leaves(s) for s in sp[:n]], trees=sp, tree_info=info, limit=lim)


def xgb_leaf_positions(spec):
    """level-order numbers of the leaves, left to right"""
    cl, cr, f, thr, lf = flat(spec)
    seq, q = [], [0]
    while q:
        i = q.pop(0)
        seq.append(i)
        if cl[i] >= 0:
            q += [cl[i], cr[i]]
    pos = {i: k for k, i in enumerate(seq)}
    return [pos[i] for i in range(len(cl)) if lf[i] >= 0]


def check_binary(ctx, what, a, specs):
    """per-class leaf values of boosted binary classifiers: each tree's own probabilities, averaged over trees"""
    vb = getattr(a, "values_binary", None)
    if vb is None:
        return
    T = float(len(a.leaves_nb))
    for b in range(len(a.leaves_nb)):
        for l in range(a.leaves_nb[b]):
            n = a.leaf_idx_trees[b, l]
            p = 1 / (1 + np.exp(-a.values[b, n, 0]))
            if not close(float(vb[b, n, 1]), float(p / T), 1e-6) or not close(float(vb[b, n, 0]), float((1 - p) / T), 1e-6):
                return ctx.violate("%s: leaf %d of tree %d has per-class values %s, its probabilities over the trees are %s" %
                                   (what, n, b, vb[b, n].tolist(), [(1 - p) / T, p / T]), trees=specs)


def run_xgbfit(task, ctx):
    """models trained on every labelling of a tiny data set, with pruning, so that node arrays contain deleted nodes"""
    import xgboost as xgb
    pts = task["data"]
    X = np.array(pts, dtype=float)
    full = [x for x in pts if not is_nan(x)]
    lv = sorted({v for x in full for v in x})
    rows = grid(sorted(set(lv) | {a + .5 for a in lv}) + [NAN], len(pts[0]))
    R = np.array(rows)
    for y in task["ys"]:
        for kw in task["kw"]:
            m = xgb.XGBRegressor(n_estimators=2, min_child_weight=0, reg_lambda=0.5, **kw).fit(X, np.array(y, dtype=float))
            b = m.get_booster()
            raw = m.predict(R, output_margin=True)
            leaf = np.array(b.predict(xgb.DMatrix(R), pred_leaf=True)).reshape(len(rows), -1).astype(int).tolist()
            nl = [t.count("leaf=") for t in b.get_dump()]
            check(ctx, "trained XGBRegressor", m, raw, rows, full, tol=1e-5, leaf_ids=leaf, n_leaves_=nl, training_data=pts, labels=y, params=kw)


# ------------------------------------------------------------------------------------------------ LightGBM
def patch_ctypes():
    """LightGBM passes addresses as plain integers, which PyPy's ctypes refuses"""
    if getattr(ctypes.addressof, "_acv", None):
        return
    orig = ctypes.addressof

    class Addr(int):
        @property
        def _as_parameter_(self):
            return ctypes.c_char_p(int(self))

    def addressof(o):
        return Addr(orig(o))
    addressof._acv = True
    ctypes.addressof = addressof


def lgb_tree(spec, vals, dts, i):
    n = n_leaves(spec)
    if n == 1:
        return "Tree=%d\nnum_leaves=1\nnum_cat=0\nsplit_feature=\nsplit_gain=\nthreshold=\ndecision_type=\nleft_child=\nright_child=\nleaf_value=%r\nleaf_weight=\nleaf_count=\ninternal_value=\ninternal_weight=\ninternal_count=\nis_linear=0\nshrinkage=1\n\n\n" % (i, vals[0][0])
    cl, cr, f, thr, lf = flat(spec)
    inner = [k for k in range(len(cl)) if cl[k] >= 0]
    pos = {k: j for j, k in enumerate(inner)}
    ref = lambda k: pos[k] if cl[k] >= 0 else -(lf[k] + 1)
    j = lambda xs: " ".join(repr(x) for x in xs)
    return ("Tree=%d\nnum_leaves=%d\nnum_cat=0\nsplit_feature=%s\nsplit_gain=%s\nthreshold=%s\ndecision_type=%s\nleft_child=%s\nright_child=%s\n"
            "leaf_value=%s\nleaf_weight=%s\nleaf_count=%s\ninternal_value=%s\ninternal_weight=%s\ninternal_count=%s\nis_linear=0\nshrinkage=1\n\n\n") % (
        i, n, j([f[k] for k in inner]), j([1] * len(inner)), j([float(thr[k]) for k in inner]), j(dts), j([ref(cl[k]) for k in inner]), j([ref(cr[k]) for k in inner]),
        j([v[0] for v in vals]), j([1] * n), j([1] * n), j([0] * len(inner)), j([2] * len(inner)), j([2] * len(inner)))


def lgb_booster(trees, d, per_iter=1, obj="regression", average=False):
    patch_ctypes()
    import lightgbm as lgb
    sizes = [len(t) for t in trees]
    s = "tree\nversion=v3\nnum_class=%d\nnum_tree_per_iteration=%d\nlabel_index=0\nmax_feature_idx=%d\nobjective=%s\n%sfeature_names=%s\nfeature_infos=%s\ntree_sizes=%s\n\n" % (
        per_iter, per_iter, d - 1, obj, "average_output\n" if average else "", " ".join("c%d" % i for i in range(d)), " ".join("[-10:10]" for _ in range(d)), " ".join(map(str, sizes)))
    s += "".join(trees) + "end of trees\n\nfeature_importances:\n\nparameters:\n\nend of parameters\n\npandas_categorical:null\n"
    return lgb.Booster(model_str=s)


def run_lgb(task, ctx):
    patch_ctypes()
    import lightgbm as lgb
    specs, d = task["f"], task["d"]
    rows = rows_of(task, True)
    X = np.array(rows)
    full = [x for x in rows if not is_nan(x)]
    nsplit = [n_leaves(s) - 1 for s in specs]
    feats = [{l + nsplit[t]: f for l, f in enumerate(path_feats(s))} for t, s in enumerate(specs)]
    TYPES = (0, 2, 8, 10)     # no missing handling (default right / left recorded), missing values right / left
    n = sum(nsplit)
    if n <= 2:
        confs = list(itertools.product(TYPES, repeat=n))
    else:
        confs = [tuple(TYPES[(i * p + q) % 4] for i in range(n)) for p, q in ((1, 0), (1, 1), (1, 2), (1, 3), (3, 1), (3, 2))] + [(t,) * n for t in TYPES]
    for c, dts in enumerate(confs):
        trees, k = [], 0
        for t, s in enumerate(specs):
            trees.append(lgb_tree(s, sk_leafvals(s, 1, t), dts[k:k + nsplit[t]], t))
            k += nsplit[t]
        b = lgb_booster(trees, d)
        raw = b.predict(X, raw_score=True)
        leaf = np.array(b.predict(X, pred_leaf=True)).reshape(len(rows), -1).astype(int)
        ids = [[int(leaf[i][t]) + nsplit[t] for t in range(len(specs))] for i in range(len(rows))]
        common = dict(leaf_ids=ids, feats=feats, n_leaves_=[n_leaves(s) for s in specs], trees=specs, decision_types=list(dts))
        ms = [("Booster", b)]
        if c == 0:
            for cls, kw in ((lgb.LGBMRegressor, {}), (lgb.LGBMClassifier, dict(_n_classes=2)), (lgb.LGBMRanker, {}), (lgb.LGBMRegressor, dict(objective="poisson"))):
                m = cls()
                m._Booster, m._n_features, m.fitted_ = b, d, True
                for q, v in kw.items():
                    setattr(m, q, v)
                ms.append((cls.__name__, m))
        for name, m in ms:
            a = check(ctx, "LightGBM " + name, m, raw, rows, full, **common)
            if a is not None and name == "LGBMClassifier":
                check_binary(ctx, name, a, specs)
    if len(specs) >= 3:
        seq = [specs[t % len(specs)] for t in range(6)]
        ns = [n_leaves(s) - 1 for s in seq]
        trees = [lgb_tree(s, sk_leafvals(s, 1, t), (TYPES * 9)[t:t + ns[t]], t) for t, s in enumerate(seq)]
        b = lgb_booster(trees, d, 3, "multiclass num_class:3")
        m = lgb.LGBMClassifier()
        m._Booster, m._n_features, m.fitted_, m._n_classes = b, d, True, 3
        raw = b.predict(X, raw_score=True)
        leaf = np.array(b.predict(X, pred_leaf=True)).astype(int)
        ids = [[int(leaf[i][t]) + ns[t] for t in range(6)] for i in range(len(rows))]
        for mm in (b, m):
            check(ctx, "LightGBM multi-class %s" % type(mm).__name__, mm, raw, rows, full, leaf_ids=ids,
                  feats=[{l + ns[t]: f for l, f in enumerate(path_feats(s))} for t, s in enumerate(seq)], n_leaves_=[n_leaves(s) for s in seq], trees=seq)
    if len(specs) > 1:
        # bagged boosting ("rf"): the output is the average of the trees
        trees = [lgb_tree(s, sk_leafvals(s, 1, t), (TYPES * 9)[t:t + nsplit[t]], t) for t, s in enumerate(specs)]
        b = lgb_booster(trees, d, average=True)
        raw = b.predict(X, raw_score=True)
        check(ctx, "LightGBM random forest", b, raw, rows, full, feats=feats, n_leaves_=[n_leaves(s) for s in specs], trees=specs)


# ------------------------------------------------------------------------------------------------ libraries not installed here
def foreign(path):
    """the class a library would define under this name (the library is not installed: its models are stand-ins that
    give the loader what their documented interface gives and answer by their own definition)"""
    import sys, types
    mod, _, name = path.rpartition(".")
    parts = mod.split(".")
    for i in range(len(parts)):
        q = ".".join(parts[:i + 1])
        if q not in sys.modules:
            sys.modules[q] = types.ModuleType(q)
    m = sys.modules[mod]
    if not hasattr(m, name):
        setattr(m, name, type(name, (object,), {"__module__": mod}))
    return getattr(m, name)


class Calls(object):
    """an object whose methods return fixed values"""
    def __init__(self, **k):
        for n, v in k.items():
            setattr(self, n, (lambda w: lambda: w)(v))


class FloatSplit(object):
    def __init__(self, f, t):
        self.f, self.t = f, t

    def featureIndex(self):
        return self.f

    def threshold(self):
        return self.t

    def getClass(self):
        return "class org.apache.spark.ml.tree.ContinuousSplit"


def spark_node(spec, stats):
    """stats: per leaf in order; inner nodes hold the sums, as Spark's impurity calculators do"""
    if spec is None:
        s = next(stats)
        return Calls(subtreeDepth=0, prediction=s[0], impurityStats=Calls(stats=s, count=float(sum(abs(v) for v in s)) + 1)), s
    l, a = spark_node(spec[2], stats)
    r, b = spark_node(spec[3], stats)
    s = [x + y for x, y in zip(a, b)]
    return Calls(subtreeDepth=depth_of(spec), prediction=s[0], leftChild=l, rightChild=r, split=FloatSplit(spec[0], spec[1]),
                 impurityStats=Calls(stats=s, count=float(sum(abs(v) for v in s)) + 2)), s


def run_spark(task, ctx):
    specs, d = task["f"], task["d"]
    rows = rows_of(task, False)
    feats = [dict(zip(preorder_leaves(s), path_feats(s))) for s in specs]
    ids = [[preorder_leaves(s)[route(s, x)] for s in specs] for x in rows]
    T = len(specs)
    wt = [(0.5, 1.0, 2.0, 0.25)[(i + T) % 4] for i in range(T)]
    for kind in ("regression", "classification"):
        for K in (1,) if kind == "regression" else (2, 3):
            vals = [(sk_leafvals if K == 1 else sk_clf_leafvals)(s, K, 2 * i + 1) for i, s in enumerate(specs)]

            def trees(kind, vals):
                out = []
                for s, v in zip(specs, vals):
                    t = foreign("pyspark.ml.%s.DecisionTree%sModel" % (kind, kind.capitalize()))()
                    t._java_obj = Calls(rootNode=spark_node(s, iter(v))[0], getImpurity="variance" if kind == "regression" else "gini")
                    out.append(t)
                return out
            part = [[[v / sum(q) if K > 1 else v for v in q] for q in t] for t in vals]
            leaf = [[route(s, x) for s in specs] for x in rows]
            cap = kind.capitalize()
            m = foreign("pyspark.ml.%s.RandomForest%sModel" % (kind, cap))()
            m.trees, m.treeWeights, m._java_obj = trees(kind, vals), wt, Calls(getImpurity="variance" if kind == "regression" else "gini")
            raw = [[sum(wt[b] * part[b][l[b]][k] for b in range(T)) / sum(wt) for k in range(K)] for l in leaf]
            kw = dict(leaf_ids=ids, feats=feats, n_leaves_=[n_leaves(s) for s in specs], predicts=False, trees=specs)
            check(ctx, "spark random forest (%s)" % kind, m, raw, rows, rows, **kw)
            if T == 1:
                check(ctx, "spark tree (%s)" % kind, trees(kind, vals)[0], [part[0][l[0]] for l in leaf], rows, rows, **kw)
            if K == 1:
                for gk in ("Regression", "Classification"):
                    g = foreign("pyspark.ml.%s.GBT%sModel" % (gk.lower(), gk))()
                    g.trees, g.treeWeights, g._java_obj = trees(kind, vals), wt, Calls(getImpurity="variance")
                    check(ctx, "spark boosted trees (%s)" % gk, g, [[sum(wt[b] * vals[b][l[b]][0] for b in range(T))] for l in leaf], rows, rows, **kw)


def run_catboost(task, ctx):
    """every tree is a list of (feature, border), the last one at the root; bit k of the leaf's number is the answer to split k"""
    cls = foreign("catboost.core.CatBoostClassifier")
    rows, d = grid(task["lv"], task["d"]), task["d"]
    specs = task["splits"]
    base = [1.0, -2.0, 0.25, 3.0, -0.5, 2.0, 0.125]
    trees, vals = [], []
    for i, sp in enumerate(specs):
        n = 2 ** len(sp)
        vals.append([base[(3 * l + i + l // 7) % 7] + l // 7 for l in range(n)])
        trees.append(dict(splits=[dict(split_type="FloatFeature", float_feature_index=f, border=b, split_index=q) for q, (f, b) in enumerate(sp)],
                          leaf_values=vals[-1], leaf_weights=[float(1 + (l + i) % 3) for l in range(n)]))
    js = dict(oblivious_trees=trees, model_info=dict(params=dict(tree_learner_options=dict(depth=max(len(s) for s in specs)))), scale_and_bias=[1, [0]])
    m = cls()

    def save_model(self, path, format="cbm"):
        with open(path, "w") as f:
            json.dump(js, f)
    cls.save_model = save_model
    cls.get_cat_feature_indices = lambda self: []
    leaf = [[sum((x[f] > b) << q for q, (f, b) in enumerate(sp)) for sp in specs] for x in rows]
    raw = [[sum(v[l] for v, l in zip(vals, ls))] for ls in leaf]
    ids = [[2 ** len(sp) - 1 + l for sp, l in zip(specs, ls)] for ls in leaf]
    feats = [{2 ** len(sp) - 1 + l: {f for f, b in sp} for l in range(2 ** len(sp))} for sp in specs]
    check(ctx, "CatBoostClassifier", m, raw, rows, rows, leaf_ids=ids, feats=feats, n_leaves_=[2 ** len(s) for s in specs], splits=specs)


def run_trees(task, ctx):
    """a list of loaded trees is a model too; its own trees answer as the whole"""
    from acv_explainers.base_tree import SingleTree
    specs, d = task["f"], task["d"]
    rows = rows_of(task, False)
    feats = [dict(zip(preorder_leaves(s), path_feats(s))) for s in specs]
    ids = [[preorder_leaves(s)[route(s, x)] for s in specs] for x in rows]
    vals = [sk_leafvals(s, 1, t) for t, s in enumerate(specs)]
    raw = [[sum(v[route(s, x)][0] * .5 for s, v in zip(specs, vals))] for x in rows]
    check(ctx, "list of trees", [SingleTree(dict_tree(s, v), scaling=.5) for s, v in zip(specs, vals)], raw, rows, rows, leaf_ids=ids, feats=feats,
          n_leaves_=[n_leaves(s) for s in specs], trees=specs)


KINDS = dict(sk=run_sk, gb=run_gb, hist=run_hist, dict=run_dict, iso=run_iso, xgb=run_xgb, xgbfit=run_xgbfit, lgb=run_lgb, spark=run_spark, catboost=run_catboost, trees=run_trees)
NOSPEC = ("iso", "xgbfit", "catboost")


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    A, B = -0.5, 0.1
    s1 = tree_specs([(0, A), (0, B)], 3)
    s1 = [s for s in s1 if sane(s)]
    s2 = [s for s in tree_specs([(0, A), (0, B), (1, 0.5)], 2) if sane(s)]
    s3 = [s for s in tree_specs([(0, A), (1, 0.5), (2, B)], 2)]
    lv1, lv2, lv3 = around([A, B]), None, [-1.5, A, 0.0, float(F32(B)), 0.5, 1.0]
    lv2 = [-1.5, A, float(np.nextafter(F32(A), F32(1))), float(F32(B)), float(np.nextafter(F32(B), F32(1))), 0.5, 1.5]
    lv3 = [A, float(F32(B)), 0.5, 1.0]
    ens = [[s] for s in s1]
    for k in KINDS:
        if k in NOSPEC:
            continue
        for s in s1:
            out.append(dict(kind=k, f=[s], d=1, lv=lv1))
        for i, s in enumerate(s2):
            if th or k != "gb" or i % 2:
                out.append(dict(kind=k, f=[s], d=2, lv=lv2))
        for i, s in enumerate(s3):
            if th or i % 4 == 1:
                out.append(dict(kind=k, f=[s], d=3, lv=lv3))
        parts = [None, s2[5], s2[-1], s1[-1], s2[len(s2) // 2], s2[3]]
        for i, a in enumerate(parts):
            for j, b in enumerate(parts):
                if th or (i + j) % 2:
                    out.append(dict(kind=k, f=[a, b], d=2, lv=lv2))
        out.append(dict(kind=k, f=[parts[1], None, parts[2]], d=2, lv=lv2))
        out.append(dict(kind=k, f=[parts[3], parts[4], parts[2]], d=2, lv=lv2))
        out.append(dict(kind=k, f=[None, None, None], d=2, lv=lv2))
        out.append(dict(kind=k, f=[parts[2], parts[3], parts[1], parts[5]], d=2, lv=lv2))
        for i, s in enumerate(caterpillars(4)):
            if i % (16 if th else 64) == 5:
                out.append(dict(kind=k, f=[s], d=4, lv=[0, .5, 1]))
    for k in KINDS:
        if k not in NOSPEC:
            for n in ("wide", "deep", "many"):
                F, d = large.instance(n)[:2]
                out.append(dict(kind=k, f=[clean(s) for s in F], d=d, large=n))
    sp = [(0, A), (0, 0.5), (1, 0.5), (1, A)]
    obl = [list(q) for n in range(4 if th else 3) for q in itertools.product(sp, repeat=n)] + [[sp[0], sp[2], sp[1]], [sp[3], sp[3], sp[0]], [sp[2], sp[0], sp[3], sp[1]], [sp[i % 4] for i in range(5)]]
    for i, q in enumerate(obl):
        out.append(dict(kind="catboost", splits=[q], d=2, lv=lv2))
        out.append(dict(kind="catboost", splits=[obl[(i * 5 + 3) % len(obl)], q, obl[(i * 3) % len(obl)]], d=3, lv=[A, 0.5, 1.0]))
    pts = grid([0, 1], 2)
    for data in ([[0., 0.], [1., 1.]], [[0., 0.], [0., 0.]], pts, [[0., 1.], [2., 1.], [2., 0.]], [[0., 0., 0.], [1., 0., 1.], [0., 2., 1.]]):
        out.append(dict(kind="iso", data=[[float(v) for v in x] for x in data], seeds=8 if th else 3))
    g = [[0., 0.], [0., 1.], [1., 0.], [1., 1.], [2., 1.]]
    ys = [list(y) for y in itertools.product((0, 1, 3), repeat=5)]
    kws = [dict(max_depth=2, gamma=0.0), dict(max_depth=2, gamma=1.0), dict(max_depth=3, gamma=0.3)]
    step = 1 if th else 9
    ys = ys[::step]
    for k in range(0, len(ys), 9):
        out.append(dict(kind="xgbfit", data=g, ys=ys[k:k + 9], kw=kws))
    gn = [[0., 0.], [NAN, 1.], [1., NAN], [1., 1.], [2., 1.]]
    for k in range(0, len(ys), 27):
        out.append(dict(kind="xgbfit", data=[[v if v == v else "nan" for v in x] for x in gn], ys=ys[k:k + 9], kw=kws[:2]))
    return out


def sane(spec, box=None):
    """no split that can never be reached"""
    box = box or {}
    if spec is None:
        return True
    f, t, l, r = spec
    lo, hi = box.get(f, (-1e9, 1e9))
    if not (lo < t < hi):
        return False
    bl, br = dict(box), dict(box)
    bl[f], br[f] = (lo, t), (t, hi)
    return sane(l, bl) and sane(r, br)


def run(prop, task, ctx):
    if "data" in task:
        task = dict(task, data=[[float(v) for v in x] for x in task["data"]])
    KINDS[task["kind"]](task, ctx)
    ctx.sample({k: v for k, v in task.items() if k != "lv"})

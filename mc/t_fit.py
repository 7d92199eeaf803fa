"""The explained forest is the fitted forest (F01): real random forests grown on every small training set, explained and compared with
an independently grown forest of the same parameters - its own node arrays, its own leaf for every row, its own predictions."""
import itertools, random
import numpy as np
import core
from core import *
from forest import cells, average, Prob, BIG
from ops import acx_ops, same

# constructor arguments: (n_estimators, others)
PARAMS = [dict(n_estimators=2, min_node_size=1, max_depth=2, replace=True, seed=1),
          dict(n_estimators=3, min_node_size=1, max_depth=0, replace=False, sample_fraction=1.0, mtry=2, seed=2),
          dict(n_estimators=1, min_node_size=1, max_depth=1, replace=False, sample_fraction=1.0, mtry=1, seed=3),
          dict(n_estimators=3, min_node_size=2, max_depth=3, replace=True, sample_fraction=0.8, mtry=1, seed=5, importance="permutation"),
          dict(n_estimators=2, min_node_size=1, max_depth=3, split_rule="extratrees", num_random_splits=2, seed=7, importance="none"),
          dict(n_estimators=4, min_node_size=1, max_depth=3, replace=True, keep_inbag=True, seed=11, importance="impurity_corrected"),
          dict(n_estimators=3, min_node_size=1, max_depth=4, mtry=lambda d: d, seed=13),
          dict(n_estimators=2),
          dict()]
GRIDS = {1: ([0, .5, 1, 1.5], 1), 2: ([0, 1], 2), 3: ([0, 1], 3), 23: ([0, 1, 2], 2), 4: ([0, 1], 4)}
# how the grid's numbers are written into the data: beyond the precision of 32 bits, or with thresholds that two decimals do not hold
SCALES = [lambda v: v, lambda v: 16777216.0 + v, lambda v: v / 700.0 - 0.5]
NAMES = [[0, 1, 2], [-1, 1, 4], [3, 5, 2]]


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    k = 0

    def add(g, labels, clf):
        nonlocal k
        k += 1
        for p in range(len(PARAMS)):
            if th or (k + p) % (4 if p < 7 else 12) == 0:
                out.append(dict(g=g, y=list(labels), clf=clf, p=p, scale=(k // 3) % 3, names=(k // 2) % 3, w=k % 3, twice=k % 2))
    for lab in itertools.product((0, 1), repeat=4):
        add(1, lab, 1)
        add(2, lab, 1)
    for lab in itertools.product((0, 1, 2), repeat=4):
        if th or sum(lab) % 3 == 1:
            add(2, lab, 1)
            add(1, lab, 1)
        add(2, [v * 1.5 for v in lab], 0)
        if th or sum(lab) % 3 == 2:
            add(1, [v * 1.5 for v in lab], 0)
    for i, lab in enumerate(itertools.product((0, 1), repeat=8)):
        if th or i % 6 == 1:
            add(3, lab, 1)
            add(3, [v + (j % 3) * .25 for j, v in enumerate(lab)], 0)
    for i, lab in enumerate(itertools.product((0, 1), repeat=9)):
        if th or i % 24 == 5:
            add(23, lab, i % 2)
    for i in range(0, 65536, 331 if th else 2473):
        add(4, [(i >> b) & 1 for b in range(16)], (i // 7) % 2)
    return out


def raw_nodes(f, k):
    """a tree of the grown forest, from ranger's own arrays: a node without children is a leaf"""
    L, R = f["child_node_ids"][k]
    cl = [-1 if n == 0 else n for n in L]
    cr = [-1 if n == 0 else n for n in R]
    return cl, cr, list(f["split_var_ids"][k]), list(f["split_values"][k])


def leaf_of(nodes, x):
    cl, cr, f, th = nodes
    n = 0
    while cl[n] >= 0:
        n = cl[n] if x[f[n]] <= th[n] else cr[n]
    return n


def defaults(ctx, a, m, clf, d, rows, X, y, names, det, task):
    """the tolerance a regression explainer takes when none is given: the forest's quantiles; and the set of refused arguments"""
    k = task["p"] + task["scale"]
    pick = [rows[(k * 7) % len(rows)], rows[len(rows) // 2], rows[-1 - k % len(rows)]]
    F = [-BIG, BIG]
    boxes = [[F] * d, [[pick[1][j] - 1., pick[1][j] + .5] for j in range(d)], [[-BIG, pick[2][0]]] + [F] * (d - 1)]
    Ss = [[0], list(range(d))[1:], list(range(d))[::-1]]
    e = dict(a=a, X=pick, y=[names[(k + i) % len(names)] for i in range(3)], data=X, yd=y, t=None)
    ops = acx_ops(d, clf, Ss, boxes)
    E = dict(e, t=None if clf else m.predict_quantiles(arr(pick), quantiles=[0.05, 0.95]).tolist())
    for n, f in ops if not clf else []:
        np.random.seed(9); random.seed(9)
        got = f(e, [0, 1, 2])
        np.random.seed(9); random.seed(9)
        want = f(E, [0, 1, 2])
        ctx.count(transitions=3, states=3)
        if not same(got, want):
            ctx.violate("%s without a tolerance gives %s, with the forest's quantiles %s: %s" % (n, got, E["t"], want), rows=pick, **det)
            return False
    return True


def run(prop, task, ctx):
    from acv_explainers import ACXplainer
    from skranger.ensemble import RangerForestClassifier, RangerForestRegressor
    lv, d = GRIDS[task["g"]]
    sc = SCALES[task["scale"]]
    clf = task["clf"]
    X = [[sc(v) for v in r] for r in grid(lv, d)]
    if task["twice"]:
        X = X + X
    lab = task["y"] + task["y"] if task["twice"] else task["y"]
    y = [float(NAMES[task["names"]][v]) for v in lab] if clf else [float(v) for v in lab]
    if len(set(y)) < 2 and clf:
        return
    p = dict(PARAMS[task["p"]])
    w = [None, [1 + i % 3 for i in range(len(X))], [.5 + i % 2 for i in range(len(X))]][task["w"]]
    D, Y = arr(X), np.array(y, dtype=np.float64)
    det = dict(training_rows=X, targets=y, classifier=bool(clf), parameters={a: repr(b) for a, b in p.items()}, sample_weight=w)
    random.seed(3); np.random.seed(3)
    a = ACXplainer(classifier=bool(clf), **p)
    full = dict(n_estimators=50, mtry=0, importance="impurity", min_node_size=0, max_depth=5, replace=True, sample_fraction=None, keep_inbag=False, inbag=None,
                split_rule="gini" if clf else "variance", num_random_splits=1, seed=2021)
    full.update(p)
    m = RangerForestClassifier(enable_tree_details=True, **full) if clf else RangerForestRegressor(enable_tree_details=True, quantiles=True, **full)
    # (a regression forest draws the training target that stands for a leaf in its quantiles: both draw the same ones)
    try:
        np.random.seed(3); random.seed(3)
        m.fit(D, Y, sample_weight=None if w is None else np.array(w))
    except Exception as ex:
        ctx.count(refused_by_the_forest=1)
        return
    np.random.seed(3); random.seed(3)
    a.fit(D.copy(), Y.copy(), sample_weight=None if w is None else np.array(w))
    f = m.ranger_forest_["forest"]
    nodes = [raw_nodes(f, k) for k in range(f["num_trees"])]
    # rows: the training rows, rows on and beside every threshold
    vals = [set(r[j] for r in X) for j in range(d)]
    for n in nodes:
        for v, q, l in zip(n[2], n[3], n[0]):
            if l >= 0:
                vals[v] |= {q, float(np.nextafter(q, -1e30)), float(np.nextafter(q, 1e30))}
    rows = [list(r) for r in itertools.product(*[sorted(v) for v in vals])]
    step = max(1, len(rows) // (400 if ctx.thorough else 100))
    rows = rows[::step] + X
    A = arr(rows)
    own = np.array(m._get_terminal_node_forest(A)["predictions"], dtype=int).reshape(len(rows), -1).tolist()
    # the reading of ranger's arrays is ranger's own
    for i, x in enumerate(rows):
        if [leaf_of(n, x) for n in nodes] != own[i]:
            raise RuntimeError("the reference misreads ranger's arrays: %s" % det)
    got, want = a.predict(A).tolist(), m.predict(A).tolist()
    ctx.count(states=len(rows), traces=1, transitions=len(rows))
    if got != want:
        ctx.violate("predict gives %s, the forest of these parameters %s" % (got[:8], want[:8]), **det)
        return
    if clf:
        if diff(a.predict_proba(A).tolist(), m.predict_proba(A).tolist()) is not None:
            ctx.violate("predict_proba differs from the forest of these parameters", **det)
            return
    # explanations with every set of known features
    Ss = subsets(range(d))
    n = 80 if not ctx.thorough else 300
    keys = [(x, S) for x in rows for S in Ss]
    step = max(1, len(keys) // n)
    keys = keys[::step] if step % len(Ss) or step == 1 else keys[::step + 1]
    B = arr([k[0] for k in keys])
    SL = [list(k[1]) for k in keys]
    names = sorted(set(y))
    yk = [names[i % len(names)] for i in range(len(keys))]
    yk_ = np.array(yk, dtype=np.float64)
    data = X
    cs = [cells(nodes, x, S, data)[0] for x, S in keys]
    np.random.seed(5); random.seed(5)
    if clf:
        t = None
        want = [average(c, lambda r: 1.0 if y[r] == yk[i] else 0.0) for i, c in enumerate(cs)]
    else:
        t = m.predict_quantiles(B, quantiles=[0.05, 0.95])
        tt = t.tolist()
        want = [average(c, lambda r: 1.0 if tt[i][0] <= y[r] <= tt[i][1] else 0.0) for i, c in enumerate(cs)]
    calls = [("compute_sdp_rf", lambda: a.compute_sdp_rf(B, yk_, D, Y, SL, min_node_size=0), want),
             ("compute_sdp_rule", lambda: a.compute_sdp_rule(B, yk_, D, Y, SL, min_node_size=0)[0], want),
             ("compute_ddp_rf", lambda: a.compute_ddp_rf(B, yk_, D, Y, SL, min_node_size=0), None),
             ("compute_exp_rf", lambda: a.compute_exp_rf(B, yk_, D, Y, SL, min_node_size=0), [average(c, lambda r: y[r]) for c in cs])]
    for name, call, ref in calls:
        if ref is None:
            continue
        np.random.seed(5); random.seed(5)
        g = tolist(call())
        ctx.count(transitions=len(keys), states=len(keys))
        q = diff(g, ref)
        if q is not None:
            i = q[0][0] if q[0] else 0
            ctx.violate("%s: row %s with known features %s has %r, in the fitted forest %r" % (name, keys[i][0], keys[i][1], q[1], q[2]), **det)
            return
    # the box of the sufficient rule for all features is the intersection of the row's leaves
    sdp, rules = a.compute_sdp_rule(A, np.array([y[0]] * len(rows)), D, Y, [list(range(d))] * len(rows), min_node_size=0, **({} if clf else dict(t=np.zeros((len(rows), 2)))))
    rules = tolist(rules)
    for i, x in enumerate(rows):
        box = cells(nodes, x, range(d), [])[1]
        if diff(rules[i], box) is not None:
            ctx.violate("compute_sdp_rule: row %s has the rule %s, its leaves in the fitted forest give %s" % (x, rules[i], box), **det)
            return
    if not defaults(ctx, a, m, clf, d, rows, X, y, names, det, task):
        return
    ctx.count(transitions=len(rows), forests_grown=1, trees_grown=len(nodes), trees_with_splits=sum(1 for n in nodes if len(n[0]) > 1))
    ctx.sample(dict(det, trees=[n for n in nodes[:2]]))

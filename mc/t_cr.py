"""Counterfactual rules (A08): candidate regions, rules, probabilities and sampled rows against the definition, under every explored outcome of the random choices."""
import contextlib, io, itertools, random, re, warnings
import numpy as np
import core
from core import *
from forest import *
from chooser import explore

TH = {.5: .503, 1.5: 1.498, .25: .251, 1.: 1.004}
INTERVALS = [(0., 1.), (1., 2.5), (2., 2.), (.5, 3.)]


def shift(s):
    """thresholds that two decimals do not hold, none of them a value of the data"""
    return None if s is None else [s[0], TH.get(s[1], s[1]), shift(s[2]), shift(s[3])]


F1 = [[[0, .5, None, None]], [[0, .5, None, [0, 1.5, None, None]], [0, 1.5, [0, .5, None, None], None]]]
F2 = [[[0, .5, [1, .5, None, None], [0, 1.5, None, None]], [1, 1.5, None, [0, .5, None, None]]],
      [[0, .5, None, [0, 1.5, [1, .5, None, None], None]], [1, .5, [1, .25, None, None], [0, 1.5, None, None]], [0, 1., None, None]],
      [[1, 1.5, [0, .5, [1, .5, None, None], None], [0, 1.5, None, None]], [0, .5, None, None]],
      [[0, .5, [1, .5, None, None], [1, .5, None, None]]],
      [[0, 1.5, [1, .5, None, [0, .5, None, None]], [1, 1.5, None, None]], [1, .5, [0, .5, None, None], [0, 1.5, None, None]]],
      [[1, .5, None, None], [0, .5, None, None], [1, 1.5, None, None], [0, 1.5, None, None]]]
F3 = [[PARTS[4], PARTS[7]], [PARTS[7], PARTS[6], PARTS[3]], [PARTS[4], PARTS[5], PARTS[1], PARTS[3]], [PARTS[6]]]


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    pool = [(F, 1) for F in F1] + [(F, 2) for F in F2] + [(F, 3) for F in F3]
    if th:
        pool += [(F, 2) for F in forests2(True)[::3]] + [(F, 3) for F in forests3(False)[::3]]
    for i, (F, d) in enumerate(pool):
        for clf in (1, 0):
            for lab in range(3 if th else 2 if clf else 1):
                out.append(dict(kind="rules", F=[shift(s) for s in F], d=d, clf=clf, order=("pre", "level")[i % 2], lab=lab, off=i + clf))
    for k in range(8 if th else 4):
        out.append(dict(kind="lists", part=k, parts=8 if th else 4))
        out.append(dict(kind="sample", part=k, parts=8 if th else 4))
    return out


def background(d, off):
    if d == 1:
        return [[0.], [.501], [1.], [1.499], [2.]] * 3 + [[0.], [1.]]
    if d == 2:
        g = grid([0, .501, 1, 2], 2)
        return g + [g[i] for i in ((0, 5, 10, 15, 3, 12), (1, 2, 7, 9, 14), range(16))[off % 3]]
    g = grid([0, 1], 3)
    return g + g + [[.501, 0, 1], [1, .501, 0], [0, 1, .501], [.501, .501, .501]][:off % 5]


def labels(n, clf, lab, data):
    K = 2 if clf else 4
    if lab == 0:
        return [float(int(sum(r) * 1.5 + .5) % K) for r in data]
    return [float((i * (2 * lab + 1) // 3 + i // 4 + lab) % K) for i in range(n)]


def inside(v, box, strict=False):
    """in the box; the lower bound is left out when strict (the forests' cells), otherwise included"""
    return all((lo < x if strict else lo <= x) and x <= hi for x, (lo, hi) in zip(v, box))


def contains(a, b):
    return all(x[0] <= y[0] and x[1] >= y[1] for x, y in zip(a, b))


class Regions(list):
    """the boxes of every background row that reaches the level (a plain list: some of the best, none reaches it)"""


class Case(object):
    pass


def prepare(task):
    F, d, clf = task["F"], task["d"], task["clf"]
    c = Case()
    c.a = acx(F, bool(clf), d, task["order"])
    c.a.model.__dict__["predict_quantiles"] = lambda X, quantiles=None: np.zeros((len(X), 2))
    c.data = background(d, task["off"])
    c.D = arr(c.data)
    c.y = labels(len(c.data), clf, task["lab"], c.data)
    c.Y = np.array(c.y)
    c.clf, c.d = clf, d
    c.a.model.__dict__["predict"] = lambda X: np.array([float(int(sum(r) * 2.) % 3) for r in X])
    c.task = task
    return c


def hits(c, target, v):
    return v == target if c.clf else target[0] <= v <= target[1]


def base(c, w, target, pi):
    """the regions a counterfactual rule may be built from: the boxes of the related background rows with the wanted target"""
    rows = [j for j in range(len(c.data)) if w[j] != 0 and hits(c, target, c.y[j])]
    if not rows:
        rows = [j for j in range(len(c.data)) if hits(c, target, c.y[j])][:10]
    if not rows:
        return None
    R, y, S = arr([c.data[j] for j in rows]), np.array([c.y[j] for j in rows]), len(rows) * [list(range(c.d))]
    if c.clf:
        p, b = c.a.compute_sdp_rule(R, y, c.D, c.Y, S)
    else:
        p, b = c.a.compute_cdp_rule(R, y, np.full(len(rows), target[0]), np.full(len(rows), target[1]), c.D, c.Y, S)
    p, b = tolist(p), tolist(b)
    if any(abs(q - pi) < 1e-9 for q in p):
        return None
    if max(p) >= pi:
        return Regions([b[i] for i in range(len(rows)) if p[i] >= pi])
    low = sorted(p, reverse=True)[:5][-1]
    return [b[i] for i in range(len(rows)) if p[i] >= low]


def comes_from(c, box, feats, B):
    """the bounds of the box on these features are those of an enlargement of one of the regions B that takes in no background row outside them"""
    out = [v for v in c.data if not any(inside(v, b) for b in B)]
    for b in B:
        if all(box[s][0] <= b[s][0] and box[s][1] >= b[s][1] and box[s][0] in [e[s][0] for e in B] and box[s][1] in [e[s][1] for e in B] for s in feats):
            q = [list(box[s]) if s in feats else list(b[s]) for s in range(c.d)]
            if not any(inside(v, q, True) for v in out):
                return True
    return False


def shares(c, box, target):
    """the possible accuracies of a box on the background (rows on a lower bound may count or not)"""
    inn = [hits(c, target, c.y[j]) for j in range(len(c.data)) if inside(c.data[j], box)]
    return sum(inn) / float(len(inn)) if inn else None


def reference_prob(c, x, target, S, cond):
    y = np.array([target]) if c.clf else np.array([0.])
    dn, up = (np.zeros(1), np.zeros(1)) if c.clf else (np.array([target[0]]), np.array([target[1]]))
    p, w = c.a.compute_cdp_cond_weights(arr([x]), y, dn, up, c.D, c.Y, [list(S)], arr([cond]))
    return float(p[0]), tolist(w[0])


def check_rules(c, bad, x, target, known, fixed, change, B, pi, rules, sdp, w):
    """rules reported for one row (or region): fixed gives the bounds that must not move"""
    rules, sdp, w = tolist(rules), tolist(sdp), tolist(w)
    if not rules or len(sdp) != len(rules) or len(w) != len(rules):
        return bad("%d rules, %d probabilities and %d rows of weights are reported" % (len(rules), len(sdp), len(w)))
    for r, p, ww in zip(rules, sdp, w):
        if np.shape(r) != (c.d, 2):
            return bad("the rule is %s" % (r,))
        for s in range(c.d):
            if s not in change and r[s] != list(fixed[s]):
                return bad("the rule %s moves feature %d, which is not changeable and was %s" % (r, s, fixed[s]))
        if not comes_from(c, r, change, B):
            return bad("the rule %s on the features %s is no admissible enlargement of one of the regions %s" % (r, change, B))
        q, v = reference_prob(c, x, target, known, r)
        if not close(p, q) or any(not close(a, b) for a, b in zip(v, ww)):
            return bad("the rule %s is reported with probability %r, by definition %r (or its weights differ: %s, %s)" % (r, p, q, ww, v))
        if p < pi - 1e-9 and len(rules) > 1:
            return bad("the rule %s with probability %r below the level is reported beside others: %s %s" % (r, p, rules, sdp))
    for i, j in itertools.permutations(range(len(rules)), 2):
        if contains(rules[j], rules[i]):
            return bad("the rule %s is reported although %s contains it" % (rules[i], rules[j]))
    return True


FAST = dict(max_iter=1, n_try=0, batch=1, p_best=.5)


def run_rules(task, ctx):
    import acv_explainers.counterfactual_rules as crm
    import acv_explainers.utils_cr as u
    c = prepare(task)
    d, th = c.d, ctx.thorough
    vals = [0, .501, 1.499, 2] if d < 3 else [0, .501, 1]
    X = grid(vals, d)
    if not th and d > 1:
        X = X[task["off"] % 3::3]
    N = len(X)
    det0 = dict(forest=task["F"], background=c.data, targets=c.y)
    targets = [1., 0.] if c.clf else INTERVALS
    tg = [targets[(i + i // 3) % len(targets)] for i in range(N)]
    yt = np.array(tg) if c.clf else np.zeros(N)
    down, up = (np.zeros(N), np.zeros(N)) if c.clf else (np.array([t[0] for t in tg]), np.array([t[1] for t in tg]))
    crm.IsolationForest = FakeIsolation
    u.IsolationForest = FakeIsolation
    for pi, acc in ((.75, .8), (.45, .55), (.97, .97)):
        cr = crm.CR(c.a, c.D, arr(X), c.Y, np.zeros(N), ["f%d" % s for s in range(d)])
        cr.run_local_divergent_set(arr(X), yt, down, up, stop=True, pi_level=pi)
        kw = {} if c.clf else dict(down=down, up=up)
        w = tolist(cr.w_local)
        sets = list(zip(cr.S_star_local, cr.S_bar_set_local))
        det = dict(det0, pi_level=pi, acc_level=acc)
        imp, idx, size, p0 = c.a.importance_cdp_rf(arr(X), yt, down, up, c.D, c.Y, stop=True, pi_level=pi)
        p1, w1 = c.a.compute_cdp_weights(arr(X), yt, down, up, c.D, c.Y, S=[list(s[1]) for s in sets])
        for i in range(N):
            ss, sb = sets[i]
            if list(ss) != list(idx[i][:size[i]]) or sorted(list(ss) + list(sb)) != list(range(d)):
                return ctx.violate("row %s: changeable features %s and fixed features %s, the search gives %s" % (X[i], tolist(ss), tolist(sb), tolist(idx[i][:size[i]])), **det)
            if w[i] != tolist(w1[i]) or not close(float(cr.ddp_local[i]), float(p1[i])):
                return ctx.violate("row %s: the weights given its fixed features are not those of compute_cdp_weights" % (X[i],), **det)
        ctx.count(states=N, traces=1)
        Bs = [base(c, w[i], tg[i], pi) for i in range(N)]
        use = [i for i in range(N) if Bs[i] is not None]
        if not use:
            continue
        # one row at a time under every explored outcome of the random choices
        cap = len(use) if th else 4
        step = max(1, len(use) // cap)
        for q, i in enumerate(use[task["off"] % step::step][:cap]):
            ss, sb = sets[i]
            fixed = [[X[i][s], X[i][s]] for s in range(d)]
            n_rules = len(set(map(repr, Bs[i])))
            for params, dev, limit in ((FAST, None if n_rules == 1 else 1, 400 if th else 60), (dict(max_iter=3, n_try=1, batch=2, p_best=.5), 1, 200 if th else 20)):
                pol = ("first", "last", "mixed")[(q + task["off"]) % 3]

                def leaves():
                    if c.clf:
                        return u.get_compatible_leaf(c.a, arr(X[i]), tg[i], ss, sb, np.array(w[i]), c.D, c.Y, pi=pi, acc_level=acc, **params)
                    return u.get_compatible_leaf_reg(c.a, arr(X[i]), 0., tg[i][0], tg[i][1], ss, sb, np.array(w[i]), c.D, c.Y, pi=pi, acc_level=acc, **params)
                runs = 0
                for res, choices in explore(leaves, pol, dev, limit):
                    runs += 1

                    def bad(what):
                        ctx.violate("row %s, target %s, changeable features %s: %s" % (X[i], tg[i], tolist(ss), what), regions=Bs[i], choices=choices, policy=pol, parameters=params, **det)
                        return False
                    if not check_leaves(c, bad, res, Bs[i], tg[i], acc):
                        return
                    # the rules made of them
                    if runs % 5 == 1 and not check_made(c, u, bad, X[i], tg[i], ss, sb, res[0], pi, fixed):
                        return
                ctx.count(schedules=runs, transitions=runs, complete=int(explore.complete), cut=int(not explore.complete))
        # whole runs
        sub = use if th else use[:6]
        cr.S_star_local, cr.S_bar_set_local = [sets[i][0] for i in sub], [sets[i][1] for i in sub]
        cr.w_local = cr.w_local[sub]
        args = dict(acc_level=acc, pi_level=pi, **FAST)
        XX = arr([X[i] for i in sub])

        def local():
            cr.run_local_counterfactual_rules(XX, yt[sub], down[sub], up[sub], **args)
            r = [list(cr.counterfactuals_samples_local), list(cr.counterfactuals_samples_sdp_local), list(cr.counterfactuals_samples_w_local)]
            cr.run_sampling_local_counterfactuals(XX, yt[sub], down[sub], up[sub], batch=1, max_iter=1)
            return r + [[np.ravel(v).tolist() for v in cr.dist_local], cr.errs_local, cr.accuracy_local, cr.coverage_local, [float(s) for s in cr.score_local]]
        runs = 0
        for res, choices in explore(local, "mixed", 0 if not th else 1, 12 if th else 1):
            runs += 1
            for k, i in enumerate(sub):
                fixed = [[X[i][s], X[i][s]] for s in range(d)]

                def bad(what):
                    ctx.violate("local rules of row %s, target %s: %s" % (X[i], tg[i], what), regions=Bs[i], choices=choices, **det)
                    return False
                if not check_rules(c, bad, X[i], tg[i], list(sets[i][1]), fixed, list(sets[i][0]), Bs[i], pi, res[0][k], res[1][k], res[2][k]):
                    return
                if not check_sampled(c, bad, X[i], list(sets[i][0]), tolist(res[0][k][int(np.argmax(res[1][k]))]), res[3][k], res[7][k]):
                    return
            wrong = [bool(c.a.predict(arr([v]))[0] != c.a.predict(arr([X[i]]))[0]) if c.clf else bool(tg[i][0] <= c.a.predict(arr([v]))[0] <= tg[i][1]) for v, i in zip(res[3], sub)]
            if [bool(np.ravel(e)[0]) for e in res[4]] != wrong or not close(float(res[5]), sum(wrong) / float(len(wrong))) or not close(float(res[6]), 1.0):
                return ctx.violate("sampled rows %s: successes %s accuracy %s coverage %s, by the model %s" % (res[3], tolist(res[4]), res[5], res[6], wrong), **det)
        def bad(what):
            ctx.violate("show_local_counterfactuals: %s" % what, **det)
            return False
        if not check_shown(c, bad, shown(lambda: cr.show_local_counterfactuals(XX, yt[sub])), len(sub), cr.counterfactuals_samples_local, cr.counterfactuals_samples_sdp_local, cr.counterfactuals_samples_w_local, yt[sub]):
            return
        ctx.count(schedules=runs, transitions=runs * len(sub))
        if not regional(c, crm, ctx, X, tg, sub, pi, acc, det, th):
            return
    ctx.sample(dict(det0, row=X[use[-1]] if use else None))


def check_leaves(c, bad, res, B, target, acc):
    suf, part, accs, best, bacc = res
    suf, part, accs = [tolist(s) for s in suf], tolist(part), [float(v) for v in accs]
    if not part or len(accs) != len(part) or not suf:
        return bad("%d regions, %d accuracies, %d kept" % (len(part), len(accs), len(suf)))
    for r, v in zip(part, accs):
        if not comes_from(c, r, list(range(c.d)), B):
            return bad("the region %s is no admissible enlargement of one of the regions %s" % (r, B))
        s = shares(c, r, target)
        if s is None or not close(v, s):
            return bad("the region %s is given the accuracy %r, it has %r" % (r, v, s))
    for i, j in itertools.permutations(range(len(part)), 2):
        if contains(part[j], part[i]):
            return bad("the region %s is kept although %s contains it" % (part[i], part[j]))
    for b in B:
        if isinstance(B, Regions) and not any(contains(r, b) for r in part):
            return bad("the region %s is lost: %s" % (b, part))
    want = [r for r, v in zip(part, accs) if v >= acc]
    if want:
        if sorted(want) != sorted(suf):
            return bad("the regions %s are kept, those accurate enough are %s (accuracies %s)" % (suf, want, accs))
    elif len(suf) != 1 or suf[0] not in part or not close(accs[part.index(suf[0])], max(accs)):
        return bad("no region is accurate enough, %s is kept, accuracies %s of %s" % (suf, accs, part))
    if tolist(best) not in part or not close(float(bacc), max(accs)):
        return bad("the best region is %s with %r, accuracies %s of %s" % (tolist(best), float(bacc), accs, part))
    return True


def check_made(c, u, bad, x, target, ss, sb, suf, pi, fixed):
    """the rules built of given regions, before contained ones are removed: exactly the qualifying ones, or the best one; fixed: the row's point, or a region"""
    one = arr([x])
    point = all(lo == hi for lo, hi in fixed)
    y, z = np.array([[target]]) if c.clf else np.array([[0.]]), None
    if point:
        known = list(sb)
        got = u.return_counterfactuals(c.a, suf, ss, sb, one, y, c.D, c.Y, pi) if c.clf else u.return_counterfactuals_reg(c.a, suf, ss, sb, one, y, target[0], target[1], c.D, c.Y, pi)
    else:
        known = []
        cond = arr([fixed])
        if c.clf:
            got = u.return_ge_counterfactuals(c.a, suf, ss, sb, one, y, c.D, c.Y, cond, pi)
        else:
            got = u.return_ge_counterfactuals_reg(c.a, suf, ss, sb, one, y, np.array([target[0]]), np.array([target[1]]), c.D, c.Y, cond, pi)
    rules, sdp, w = [tolist(g) for g in got]
    cand = [[tolist(s)[f] if f in ss else list(fixed[f]) for f in range(c.d)] for s in suf]
    ref = [reference_prob(c, x, target, known, r) for r in cand]
    if any(abs(p - pi) < 1e-9 for p, _ in ref):
        return True
    want = [k for k in range(len(cand)) if ref[k][0] >= pi]
    if not want:
        ok = len(rules) == 1 and rules[0] in cand and close(sdp[0], max(p for p, _ in ref))
        if not ok:
            return bad("no rule reaches the level; %s with %s is reported, the candidates are %s with %s" % (rules, sdp, cand, [p for p, _ in ref]))
        want = [cand.index(rules[0])]
    if rules != [cand[k] for k in want] or any(not close(s, ref[k][0]) for s, k in zip(sdp, want)) or any(not close(a, b) for v, k in zip(w, want) for a, b in zip(v, ref[k][1])):
        return bad("the rules %s with %s are reported, the candidates are %s with %s" % (rules, sdp, cand, [p for p, _ in ref]))
    return True


class FakeIsolation(object):
    """a deterministic outlier score in place of the trained isolation forest"""
    def __init__(self, *a, **k):
        pass

    def fit(self, X, *a, **k):
        self.m = X.mean(axis=0)
        return self

    def decision_function(self, X):
        return np.array([.6 - abs(sum((s + 1) * (v - m) for s, (v, m) in enumerate(zip(r, self.m)))) for r in X])


def check_sampled(c, bad, x, change, rule, got, score=None):
    got = np.ravel(got).tolist()
    if len(got) != c.d:
        return bad("the sampled row is %s" % (got,))
    for s in range(c.d):
        if s not in change:
            if got[s] != x[s]:
                return bad("the sampled row %s moves feature %d, which is not changeable" % (got, s))
        elif not rule[s][0] <= got[s] <= rule[s][1]:
            return bad("the sampled row %s is not in the rule %s" % (got, rule))
        elif got[s] not in [v[s] for v in c.data] and any(rule[s][0] <= v[s] <= rule[s][1] for v in c.data):
            return bad("the sampled row %s has a value of feature %d no background row has" % (got, s))
    if score is not None and not close(score, float(FakeIsolation().fit(c.D).decision_function([got])[0])):
        return bad("the sampled row %s is reported with the score %r" % (got, score))
    return True


def shown(f):
    """the printed rules: for every heading its conditions, outputs and probabilities"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    blocks = []
    for line in out.getvalue().splitlines():
        if re.match(r"\s*Example", line):
            blocks.append([[int(v) for v in re.findall(r"\d+", line.split("=")[0])], {}, [], []])
        m = re.search(r"If\s+(\S+)\s+in\s+\[(.*),(.*)\]", line)
        if m:
            if m.group(1) in blocks[-1][1]:
                return None
            blocks[-1][1][m.group(1)] = [float(m.group(2)), float(m.group(3))]
        for k, word in ((2, "output"), (3, "Probability")):
            if word in line:
                blocks[-1][k].append(float(line.split()[-1].strip("[]=:")))
    return blocks


def listed(c, head, rule, prob, output, got):
    """the block shows exactly the bounds of the rule that say something, with its probability and output"""
    cond = {"f%d" % s: [rule[s][0], rule[s][1]] for s in range(c.d) if not (rule[s][0] <= -1e10 and rule[s][1] >= 1e10)}
    same = lambda a, b: len(a) == 1 and (close(a[0], b) or (a[0] != a[0] and b != b))
    return got[0] == head and got[1] == cond and same(got[3], prob) and same(got[2], output)


def wanted_output(c, target, w):
    if c.clf:
        return float(target)
    v = [c.y[j] for j in range(len(c.y)) if w[j] != 0]
    return sum(v) / len(v) if v else float("nan")


def check_shown(c, bad, blocks, rows, rules, probs, w, targets, regions=None):
    """rows: number of rows; regions: (rules, probabilities, outputs) shown at the head of each row"""
    k = 0
    if blocks is None:
        return bad("a feature has two conditions")
    for i in range(rows):
        if k >= len(blocks) or blocks[k][0] != [i] or (regions and not listed(c, [i], regions[0][i], regions[1][i], regions[2][i], blocks[k])):
            return bad("row %d is shown as %s" % (i, blocks[k:k + 1]))
        k += 1
        for l in range(len(rules[i])):
            if k >= len(blocks) or not listed(c, [i, l], tolist(rules[i][l]), float(probs[i][l]), wanted_output(c, targets[i], tolist(w[i][l])), blocks[k]):
                return bad("the rule %s with probability %r is shown as %s" % (tolist(rules[i][l]), float(probs[i][l]), blocks[k:k + 1]))
            k += 1
    return k == len(blocks) or bad("%s is shown beside the rules" % (blocks[k:],))


def regional(c, crm, ctx, X, tg, sub, pi, acc, det, th):
    d = c.d
    pick = sub if th else sub[::2]
    P = [X[i] for i in pick]
    t = [tg[i] for i in pick]
    n = len(P)
    y = np.array([c.y[k % len(c.y)] for k in range(n)])
    yt = np.array(t) if c.clf else np.zeros(n)
    du = np.zeros((n, 2)) if c.clf else arr([list(v) for v in t])
    test = [X[i] for i in range(0, len(X), 2)] if not th else X
    cr = crm.CR(c.a, c.D, arr(test), c.Y, np.zeros(len(test)), ["f%d" % s for s in range(d)])
    tt = None if c.clf else np.array([[v - .5, v + 1.] for v in y])

    def rules():
        cr.run_sufficient_rules(arr(P), y, t=tt, pi_level=.8, max_iter=1, n_try=0, batch=1)
        cr.run_regional_divergent_set(yt, du, stop=True, pi_level=pi)
        cr.run_regional_counterfactual_rules(acc_level=acc, pi_level=pi, **FAST)
        r = [list(cr.counterfactuals_samples_regional), list(cr.counterfactuals_samples_sdp_regional), list(cr.counterfactuals_samples_w_regional), tolist(cr.rules)]
        r += [[list(map(int, v)) for v in cr.S_star_regional], tolist(cr.w_regional)]
        cr.run_sampling_regional_counterfactuals(max_obs=2, batch=1, max_iter=1)
        r.append([[np.ravel(v).tolist() for v in cr.dist_regional], [float(s) for s in cr.score_regional], [bool(np.ravel(e)[0]) for e in cr.errs_regional], float(cr.accuracy_regional), float(cr.coverage_regional)])
        cr.run_sampling_regional_counterfactuals_alltests(max_obs=2, batch=1, max_iter=1)
        r.append([[np.ravel(v).tolist() for v in cr.dist_regional], [float(s) for s in cr.score_regional], [bool(np.ravel(e)[0]) for e in cr.errs_regional], float(cr.accuracy_regional), float(cr.coverage_regional)])
        return r
    nb = lambda R, P: sum(min(2, sum(inside(v, r) for v in P)) for r in R)
    runs = 0
    for res, choices in explore(rules, ("first", "mixed", "last")[len(det["forest"]) % 3], 0 if not th else 1, 8 if th else 1):
        runs += 1
        regions = res[3]
        imp, idx, size, _ = c.a.importance_cdp_intv(arr(P), yt, c.D, c.Y, arr(regions), t=du, stop=True, pi_level=pi)
        sb = [[s for s in range(d) if s not in list(idx[k][:size[k]])] for k in range(n)]
        _, w = c.a.compute_cdp_intv_weights(arr(P), yt, c.D, c.Y, cond=arr(regions), t=du, S=sb)
        for k in range(n):
            def bad(what):
                ctx.violate("regional rules of the region %s, target %s: %s" % (regions[k], t[k], what), choices=choices, row=P[k], changeable=res[4][k], **det)
                return False
            if res[4][k] != list(idx[k][:size[k]]):
                return bad("the search gives %s" % (tolist(idx[k][:size[k]]),))
            if res[5][k] != tolist(w[k]):
                return bad("the weights are not those of compute_cdp_intv_weights")
            B = base(c, res[5][k], t[k], pi)
            if B is None:
                continue
            if not check_rules(c, bad, P[k], t[k], [], regions[k], res[4][k], B, pi, res[0][k], res[1][k], res[2][k]):
                return False
            if not check_made(c, crm, bad, P[k], t[k], res[4][k], None, [arr(b) for b in B], pi, regions[k]):
                return False
        # sampled rows: first the test rows of each region, at most two of each
        src = [(v, k) for k in range(n) for v in [v for v in test if inside(v, regions[k])][:2]]
        full = []
        for v in test:
            cov = [(float(np.max(res[1][k])), -k) for k in range(n) if inside(v, regions[k])]
            if cov:
                full.append((v, [k for p, k in ((float(np.max(res[1][k])), k) for k in range(n) if inside(v, regions[k])) if close(p, max(cov)[0])]))
        for what, want, got, total in (("sampling", [(v, [k]) for v, k in src], res[6], len(src)), ("sampling of all test rows", full, res[7], len(test))):
            def bad(s):
                ctx.violate("%s: %s" % (what, s), choices=choices, regions=regions, rules=[tolist(r) for r in res[0]], test=test, **det)
                return False
            if len(got[0]) != len(want):
                return bad("%d rows are sampled, %d test rows lie in a region with rules" % (len(got[0]), len(want)))
            succ = []
            for (v, ks), g, s, e in zip(want, got[0], got[1], got[2]):
                ok = False
                for k in ks:
                    m = float(np.max(res[1][k]))
                    for r, p in zip(tolist(res[0][k]), tolist(res[1][k])):
                        ok = ok or (p == m and check_sampled(c, lambda s: False, v, res[4][k], r, g, s))
                if not ok:
                    return bad("row %s becomes %s, which no best rule of its regions allows" % (v, g))
                q = c.a.predict(arr([np.ravel(g)]))[0]
                S = [q != c.a.predict(arr([v]))[0]] if c.clf else [t[k][0] <= q <= t[k][1] for k in ks]
                if e not in S:
                    return bad("the sampled row %s of %s is counted as %s" % (g, v, e))
            if want and (not close(got[3], sum(got[2]) / float(len(want))) or not close(got[4], len(want) / float(total))):
                return bad("accuracy %r and coverage %r for the successes %s" % (got[3], got[4], got[2]))
    def bad(what):
        ctx.violate("show_global_counterfactuals: %s" % what, **det)
        return False
    if not check_shown(c, bad, shown(cr.show_global_counterfactuals), n, cr.counterfactuals_samples_regional, cr.counterfactuals_samples_sdp_regional, cr.counterfactuals_samples_w_regional, yt, (tolist(cr.rules), tolist(cr.sdp_rules), y)):
        return False
    ctx.count(schedules=runs, transitions=runs * n, states=n)
    return True


def run_lists(task, ctx):
    """removal of contained rules: all lists of up to 3 (4) boxes of a small grid"""
    import acv_explainers.utils_cr as u
    iv = [[a, b] for a, b in itertools.combinations([0., 1., 2.], 2)] + [[1., 1.], [-BIG, BIG]]
    boxes = [[p, q] for p in iv for q in iv]
    k = 0
    for n, pool in ((1, boxes), (2, boxes), (3, boxes if ctx.thorough else boxes[::2])) + (((4, boxes[::4]),) if ctx.thorough else ()):
        for L in itertools.product(pool, repeat=n):
            k += 1
            if k % task["parts"] != task["part"] or (n == 3 and ctx.thorough and k // task["parts"] % 3) or (n == 4 and k // task["parts"] % 2):
                continue
            ra, sa, wa = arr(L), np.arange(n) * .125 + .25, np.arange(n * 3).reshape(n, 3) * 1.
            got = [tolist(g) for g in u.remove_in_wsdp(ra.copy(), sa.copy(), wa.copy())]
            ctx.count(states=1, transitions=2)
            out = [L[i] for i in range(n) if not any(contains(L[j], L[i]) and not contains(L[i], L[j]) for j in range(n))]
            uniq = sorted(set(map(repr, out)))
            if sorted(map(repr, got[0])) != uniq:
                return ctx.violate("of the rules %s the ones kept are %s" % (list(L), got[0]))
            if len(got[1]) != len(got[0]) or len(got[2]) != len(got[0]) or any(not any(list(L[i]) == r and sa[i] == s and tolist(wa[i]) == w for i in range(n)) for r, s, w in zip(*got)):
                return ctx.violate("of the rules %s with %s those kept are %s with %s and %s" % (list(L), tolist(sa), got[0], got[1], got[2]))
            r = tolist(u.remove_in(ra.copy()))
            if sorted(map(repr, r)) != uniq:
                return ctx.violate("of the regions %s the ones kept are %s" % (list(L), r))
    ctx.count(traces=1)


def run_sample(task, ctx):
    """every outcome of the sampling of a row within a rule"""
    import acv_explainers.utils_cr as u
    c = Case()
    c.d = 2
    ivs = [[-BIG, BIG], [-BIG, .5], [.5, BIG], [.2, .8], [1., 1.], [1.5, 2.], [-3., -2.]]
    k = 0
    for data in ([[0., 0.], [1., 2.], [2., 1.]], [[0., 1.], [.5, .5]]):
        c.data, c.D = data, arr(data)
        iso = FakeIsolation().fit(c.D)
        for S in ([0], [1], [0, 1], [1, 0], []):
            for rule in itertools.product(ivs, repeat=2):
                for x in ([.5, .5], [-1., 4.], [1, 0]):
                    k += 1
                    if k % task["parts"] != task["part"] or (not ctx.thorough and k // task["parts"] % 2):
                        continue
                    X = np.array(x)
                    for it, b, dev in ((1, 1, None), (2, 2, 2 if ctx.thorough else 1)):
                        runs = 0
                        for (best, score), choices in explore(lambda: u.simulated_annealing(iso.decision_function, X, list(S), c.D, arr(rule), b, it, .5), "first" if k % 2 else "last", dev, 400 if ctx.thorough else 60):
                            runs += 1

                            def bad(what):
                                ctx.violate("sampling from row %s, changeable %s: %s" % (x, S, what), rule=rule, background=data, choices=choices)
                                return False
                            if not check_sampled(c, bad, x, S, rule, best, float(score)):
                                return
                        ctx.count(schedules=runs, transitions=runs, states=1, complete=int(explore.complete), cut=int(not explore.complete))
    ctx.count(traces=1)


def run(prop, task, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        {"rules": run_rules, "lists": run_lists, "sample": run_sample}[task["kind"]](task, ctx)

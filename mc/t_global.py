"""Global rules (A05): every small rule list over every small labelled data set."""
import itertools
import numpy as np
import core
from core import *
import large
from forest import acx, forests2, forests3, cells, BIG


def boxes1(vals):
    ends = [-BIG] + vals + [BIG]
    return [[a, b] for i, a in enumerate(ends) for b in ends[i:] if (a, b) != (BIG, BIG) and (a, b) != (-BIG, -BIG)]


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    g1 = [[0.], [.5], [1.], [2.]]
    sets1 = [g1, [[0.], [0.], [1.]], [[.5], [1.], [1.], [2.], [2.]]]
    for data in sets1:
        for lab in ((0, 1), (0, 1, 2), (-1, 1), (0.5, 3.0, 4.5)):
            ys = list(itertools.product(lab, repeat=len(data)))
            if len(ys) > 40 and not th:
                ys = ys[::len(ys) // 30]
            for k in range(0, len(ys), 8):
                out.append(dict(d=1, data=data, ys=ys[k:k + 8], reg=int(lab[0] == 0.5)))
    g2 = grid([0., 1.], 2)
    for data in (g2, [g2[0], g2[3], g2[3]], [[0., .5], [1., .5], [.5, 1.], [0., 0.], [1., 1.]]):
        for lab, reg in (((0, 1), 0), ((0, 1), 1), ((0, 1, 3), 0)):
            ys = list(itertools.product(lab, repeat=len(data)))
            if len(ys) > 20 and not th:
                ys = ys[::max(1, len(ys) // 16)]
            for k in range(0, len(ys), 4):
                out.append(dict(d=2, data=data, ys=ys[k:k + 4], reg=reg, off=k))
    for i, f in enumerate(forests2(th)[::3] + forests3(th)[::4]):
        out.append(dict(forest=f, d=max([0] + [max(feats_of(s) | {1}) for s in f]) + 1))
    out += [dict(large=1, reg=r) for r in (0, 1)]
    return out


def run_large(task, ctx):
    """60 rules over 270 rows: more rows, rules, features and labels than the other tasks"""
    F, d, data, X = large.instance("mid8")
    g, rl = large.Lcg(5), []
    for i in range(60):
        S = sorted({g(d) for _ in range(1 + i % 4)}, key=lambda f: (f * 3) % d)
        box = [[-BIG, BIG] for _ in range(d)]
        for f in S:
            a, b = sorted((large.LEVELS[g(10)], large.LEVELS[g(10)]))
            box[f] = [[-BIG, b], [a, BIG], [a, b]][g(3)]
        rl.append((box, tuple(S)))
    rl += rl[7:9]
    y = [float((3 * (x[0] > 0) + 2 * (x[1] > .25) + (x[2] > 1) * (x[3] < .5) + i // 90) % (12 if task["reg"] else 5)) - 1 for i, x in enumerate(data)]
    check(ctx, new(task["reg"]), rl, data, y, task["reg"], X + data[::30] + [[9.0] * d], {})


def rule_lists(d, thorough):
    """lists of (box, features)"""
    if d == 1:
        bs = [[b] for b in boxes1([0., .5, 1., 2.])]
        one = [[(b, (0,))] for b in bs]
        two = [[(a, (0,)), (b, (0,))] for i, a in enumerate(bs) for b in bs[:i + 1]]
        tri = [[(bs[i], (0,)), (bs[(i * 5 + 3) % len(bs)], (0,)), (bs[(i * 7 + 4) % len(bs)], (0,))] for i in range(len(bs))]
        return one + (two if thorough else two[::3]) + tri
    F = [-BIG, BIG]
    e = [[-BIG, .5], [.5, BIG], [0., .5], [1., 1.], F]
    bs = [[a, b] for a in e for b in e]
    feat = lambda b: tuple(k for k in range(2) if b[k] != F) or (0,)
    one = [[(b, feat(b))] for b in bs] + [[(b, (0, 1))] for b in bs[::4]] + [[(b, (1, 0))] for b in bs[::5]]
    two = [[(a, feat(a)), (b, feat(b))] for i, a in enumerate(bs) for b in bs[:i]]
    tri = [[(bs[i], feat(bs[i])), (bs[(i * 7 + 3) % 25], (0, 1)), (bs[(i * 11 + 5) % 25], feat(bs[(i * 11 + 5) % 25])), (bs[i], feat(bs[i]))] for i in range(25)]
    # two rules whose bounds differ by less than the usual comparison tolerance, over different features
    near = []
    for q in (1e-6, 1e-9):
        near.append([([[-BIG, 1.], F], (0,)), ([[-BIG, 1. + q], [.5, BIG]], (0, 1))])
        near.append([([[-BIG, 1. + q], [-BIG, .5]], (1, 0)), ([[-BIG, 1.], [-BIG, .5 + q]], (1,))])
        near.append([([[1., BIG], [.5, 1e10]], (0,)), ([[1., BIG], [.5 + q, 1e10]], (1,)), ([[1. - q, BIG], [.5, 1e10]], (0, 1))])
    return one + (two if thorough else two[::7]) + tri + near


def inside(x, box, S):
    return all(box[s][0] <= x[s] <= box[s][1] for s in S)


def metrics(box, S, data, y, reg):
    cov = [v for x, v in zip(data, y) if inside(x, box, S)]
    c = len(cov) / float(len(data))
    if not cov:
        return c, None, None, None, None
    mean = sum(cov) / float(len(cov))
    var = sum((v - mean) ** 2 for v in cov) / len(cov)
    if reg:
        return c, var, var, [mean], mean
    n = max(cov.count(v) for v in cov)
    return c, n / float(len(cov)), var, sorted({v for v in cov if cov.count(v) == n}), mean


def new(reg):
    from acv_explainers import ACXplainer
    return ACXplainer(classifier=not reg, n_estimators=1)


def check(ctx, a, rl, data, y, reg, rows, det):
    """fit the rules, compare what is reported, then the predictions of every row under every requirement"""
    d = len(data[0])
    R = np.array([b for b, S in rl], dtype=np.float64)
    Ss = [list(S) for b, S in rl]
    D, Y = arr(data), np.array(y)
    bef = [R.tobytes(), D.tobytes(), Y.tobytes(), [list(s) for s in Ss]]
    a.fit_global_rules(D, Y, R, Ss)
    det = dict(det, rules=rl, background=data, labels=y)
    bad = lambda m: ctx.violate(m, **det)
    if [R.tobytes(), D.tobytes(), Y.tobytes(), Ss] != bef:
        return bad("fit_global_rules modifies its arguments")
    kept = [(b, tuple(int(v) for v in S)) for b, S in zip(np.asarray(a.rules).tolist(), a.rules_s_star)]
    given = [([list(v) for v in b], tuple(S)) for b, S in rl]
    if len({str(k) for k in kept}) != len(kept) or any(k not in given for k in kept) or any(not any(k[0] == g[0] for k in kept) for g in given):
        return bad("the rules kept are %s" % (kept,))
    n = len(kept)
    for name in ("rules_coverage", "rules_acc", "rules_var", "rules_output") + (() if reg else ("rules_output_proba",)):
        if len(getattr(a, name)) != n:
            return bad("%s has %d entries for %d rules" % (name, len(getattr(a, name)), n))
    mets = []
    for i, (b, S) in enumerate(kept):
        c, acc, var, out, mean = metrics(b, S, data, y, reg)
        mets.append((c, acc, out, mean))
        if not close(float(a.rules_coverage[i]), c):
            return bad("rule %s over %s reports coverage %s, its share of rows is %s" % (b, S, a.rules_coverage[i], c))
        if acc is None:
            continue
        if not close(float(a.rules_acc[i]), acc):
            return bad("rule %s over %s reports accuracy/error %s, it is %s" % (b, S, a.rules_acc[i], acc))
        if not close(float(a.rules_var[i]), var):
            return bad("rule %s over %s reports variance %s, it is %s" % (b, S, a.rules_var[i], var))
        if not any(close(float(a.rules_output[i]), o) for o in out):
            return bad("rule %s over %s reports output %s, the majority label or mean is %s" % (b, S, a.rules_output[i], out))
        if not reg and not close(float(a.rules_output_proba[i]), mean):
            return bad("rule %s over %s reports mean label %s, it is %s" % (b, S, a.rules_output_proba[i], mean))
    ctx.count(states=n, transitions=1, traces=1)
    covs = sorted({0.0, 2.0} | {float(v) for v in a.rules_coverage})
    accs = sorted({0.0, 0.8, 5.0} | {float(v) for v in a.rules_acc if v == v})
    X = arr(rows)
    if n > 20:
        covs, accs = covs[::7] + covs[-1:], accs[::9] + accs[-1:]
    for mc in covs:
        for ma in accs if mc == covs[0] else accs[1:3]:
            calls = [("predict_global_rules", a.predict_global_rules(X, mc, ma, ma), 0)]
            if not reg:
                calls.append(("predict_proba_global_rules", a.predict_proba_global_rules(X, mc, ma), 1))
            ctx.count(transitions=len(rows), states=len(rows) * n)
            for name, (ys, rs, ss), proba in calls:
                if not len(ys) == len(rs) == len(ss) == len(rows):
                    return bad("%s answers %d rows of %d" % (name, len(ys), len(rows)))
                for j, x in enumerate(rows):
                    ok = [i for i in range(n) if inside(x, *kept[i]) and mets[i][0] >= mc - 1e-12 and mets[i][1] is not None]
                    okk = [i for i in ok if float(a.rules_coverage[i]) >= mc]
                    best = None
                    if okk:
                        v = (min if reg else max)(float(a.rules_acc[i]) for i in okk)
                        if (v <= ma) if reg else (v >= ma):
                            best = [i for i in okk if close(float(a.rules_acc[i]), v)]
                    w = dict(min_coverage=mc, requirement=ma, row=x)
                    if best is None:
                        if ys[j] is not None or rs[j] is not None or ss[j] is not None:
                            return bad("%s: row %s is answered %s although no rule covering it meets the requirements %s" % (name, x, ys[j], w))
                        continue
                    if ys[j] is None:
                        return bad("%s: row %s is not answered although rule %s covers it and meets the requirements %s" % (name, x, kept[best[0]], w))
                    hit = [i for i in best if np.asarray(rs[j]).tolist() == kept[i][0] and tuple(ss[j]) == kept[i][1]]
                    if not hit:
                        return bad("%s: row %s is answered by rule %s over %s, the best ones are %s (%s)" % (name, x, np.asarray(rs[j]).tolist(), ss[j], [kept[i] for i in best], w))
                    want = [mets[hit[0]][3]] if proba else mets[hit[0]][2]
                    if not any(close(float(ys[j]), o) for o in want):
                        return bad("%s: row %s is answered %s, its rule's output is %s (%s)" % (name, x, ys[j], want, w))
    return True


def run(prop, task, ctx):
    if "large" in task:
        return run_large(task, ctx)
    if "forest" in task:
        return run_forest(task, ctx)
    d, data, reg = task["d"], task["data"], task["reg"]
    rows = grid([-1., 0., .25, .5, 1., 1. + 1e-7, 2., 3.], 1) if d == 1 else grid([-1., 0., .5, 1., 2.], 2) + [[1. + 1e-7, .5], [1. + 1e-7, .25]]
    a = new(reg)        # one explainer for the whole task: every fit must replace the previous rules
    for k, y in enumerate(task["ys"]):
        rls = rule_lists(d, ctx.thorough)
        near = rls[-6:] if d == 2 else []
        for rl in rls if ctx.thorough else rls[(k + task.get("off", 0)) % 8::8] + near:
            if check(ctx, a, rl, data, list(y), reg, rows, {}) is not True:
                return
    ctx.sample(dict(rules=rl, background=data, labels=y, coverage=[float(v) for v in a.rules_coverage]))


def run_forest(task, ctx):
    """rules computed from a forest, turned into global rules"""
    specs, d = task["forest"], task["d"]
    data = grid([0, 1], d) if d == 3 else grid([0, .5, 1, 2], 2)
    y = [float((i * 5 // 3) % 2) for i in range(len(data))]
    a = acx(specs, True, d)
    D, Y = arr(data), np.array(y)
    for S in ([0], [1], [0, 1]):
        X = D[:6]
        sdp, rules = a.compute_sdp_rule(X, Y[:6], D, Y, [list(S)] * 6, 0)[:2]
        rl = [([[float(v) for v in b] for b in r], tuple(S)) for r in np.asarray(rules).tolist()]
        if check(ctx, a, rl, data, y, 0, data + [[9.0] * d], dict(forest=specs)) is not True:
            return

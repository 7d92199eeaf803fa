"""Projected-forest estimates (A01, A06) and the sets of features they make sufficient (A02, A03, A07), over every small forest."""
import itertools
import numpy as np
import core
from core import *
from forest import *
import large

INF = 1e10


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    f3, f2 = forests3(th), forests2(th)
    for i, F in enumerate(f3):
        for cl in (1, 0):
            if prop in ("A01",) or th or (i + cl) % 2 == 0 or len(F) > 2:
                out.append({"F": F, "d": 3, "clf": cl, "order": "bfs" if i % 2 else "pre", "lv": [0, .5, 1]})
    for i, F in enumerate(one_feature(th)):
        out.append({"F": F, "d": 1, "clf": i % 2, "order": "pre" if i % 3 else "bfs", "lv": [0, .5, 1, 1.5, 2]})
    for i, F in enumerate(f2):
        out.append({"F": F, "d": 2, "clf": i % 2, "order": "pre" if i % 2 else "bfs", "lv": [0, .5, 1, 1.5, 2]})
    cats = [[0, .5, [1, .5, None, [2, .5, [3, .5, None, None], None]], None], [3, .5, None, [2, .5, None, [0, .5, [1, .5, None, None], None]]],
            [1, .5, [3, .5, [0, .5, None, None], [2, .5, None, None]], [0, .5, None, [2, .5, None, None]]]]
    for i, s in enumerate(cats):
        for cl in (1, 0):
            out.append({"F": [s], "d": 4, "clf": cl, "order": "pre", "lv": [0, 1]})
            out.append({"F": [s, cats[(i + 1) % 3]], "d": 4, "clf": cl, "order": "bfs", "lv": [0, 1]})
    if prop in ("A02", "A03", "A07"):
        wide = [0, .5, [7, .5, None, [4, .5, None, None]], [10, .5, None, [3, .5, None, None]]]
        for cl in (1, 0):
            out.append(big("mid8", cl))
        if th or prop != "A07":
            out.append(big("mid", int(prop != "A03")))
        out.append({"F": [wide, [2, .5, [9, .5, None, None], None]], "d": 11, "clf": 1, "order": "pre", "lv": "wide"})
    else:
        for i, name in enumerate(("wide", "deep", "many", "mid8")):
            for cl in (1, 0):
                if prop == "A01" or th or (i + cl) % 2:
                    out.append(big(name, cl))
    return out


def big(name, cl):
    F, d, data, X = large.instance(name)
    return {"F": F, "d": d, "clf": cl, "order": "pre" if cl else "bfs", "lv": "large", "large": name}


def sets_of(task):
    return large.chosen_sets(task["d"]) if task.get("large") else subsets(range(task["d"]))


def rows_of(task):
    if task.get("large"):
        return large.instance(task["large"])[3]
    if task["lv"] == "wide":
        d = task["d"]
        return [[0] * d, [1] * d, [i % 2 for i in range(d)], [1 if i in (0, 3, 10) else 0 for i in range(d)]]
    return grid(task["lv"], task["d"])


def bgs(task, tier):
    d = task["d"]
    if task.get("large"):
        return [large.instance(task["large"])[2]]
    if d == 1:
        return BG1
    if d == 3:
        return bg3(tier)
    if d == 2:
        return bg2(tier)
    if d == 4:
        b = grid([0, 1], 4)
        return [b, [b[0], b[6], b[11]], b[::3]]
    r = rows_of(task)
    return [r + [[(i * j) % 2 for i in range(d)] for j in (3,)] + [[1 if i < 5 else 0 for i in range(d)]]]


INTERVALS = [(0.0, 1.0), (1.0, 1.0), (1.0, 2.0), (0.5, 0.5), (2.0, 0.0)]


def run(prop, task, ctx):
    {"A01": run_a01, "A06": run_a06, "A02": run_search, "A03": run_all, "A07": run_cf}[prop](task, ctx)


def compare(ctx, name, got, want, keys, task, **detail):
    got = tolist(got)
    q = diff(got, want)
    if q is not None:
        i = q[0][0] if q[0] else 0
        ctx.violate("%s: for %s it is %r instead of %r" % (name, keys[i], q[1], q[2]), forest=task["F"], **detail)
        return False
    return True


def batch(task, X, Ss):
    """every row with every set of known features"""
    return [(x, S) for x in X for S in Ss]


def run_a01(task, ctx):
    F, d, clf = task["F"], task["d"], task["clf"]
    nodes = [nodes_of(s, task["order"]) for s in F]
    a = acx(F, bool(clf), d, task["order"])
    X = rows_of(task)
    Ss = sets_of(task)
    allkeys = keys = batch(task, X, Ss)
    allA = arr([k[0] for k in keys])
    for data in bgs(task, ctx.tier):
        n = len(data)
        D = arr(data)
        keys = allkeys
        full = [cells(nodes, x, S, data)[0] for x, S in keys]
        for ms in ((0, 3) if n > 2 else (0, 2)):
            keep = [i for i, c in enumerate(full) if all(len(r) >= ms for r in c)]
            if not keep:
                continue
            keys, A, SL = [allkeys[i] for i in keep], allA[keep], [allkeys[i][1] for i in keep]
            cs = [full[i] for i in keep]
            ctx.count(states=len(keys) * len(F))
            K = 3 if clf and n < 3 else 2 if clf else 3
            labs = labels(n, K, ctx.tier, task)
            if ms:
                labs = labs[len(labs) // 2:][:1]
            for yd in labs:
                Y = np.array(yd, dtype=np.float64)
                ctx.count(traces=1, transitions=5 * len(keys))
                if clf:
                    ys = [(i + i // len(Ss)) % K for i in range(len(keys))]
                    t = None
                    want = [average(c, lambda r: 1.0 if yd[r] == ys[i] else 0.0) for i, c in enumerate(cs)]
                else:
                    ys = [(i + i // len(Ss)) % K for i in range(len(keys))]
                    iv = [INTERVALS[(i + i // len(Ss)) % 5] for i in range(len(keys))]
                    t = np.array(iv)
                    want = [average(c, lambda r: 1.0 if iv[i][0] <= yd[r] <= iv[i][1] else 0.0) for i, c in enumerate(cs)]
                y = np.array(ys, dtype=np.float64)
                det = dict(background=data, labels=yd, min_node_size=ms)
                if not compare(ctx, "compute_sdp_rf", a.compute_sdp_rf(A, y, D, Y, SL, min_node_size=ms, t=t), want, keys, task, **det):
                    return
                if not compare(ctx, "probability returned by compute_sdp_rule", a.compute_sdp_rule(A, y, D, Y, SL, min_node_size=ms, t=t)[0], want, keys, task, **det):
                    return
                we = [average(c, lambda r: yd[r]) for c in cs]
                if not compare(ctx, "compute_exp_rf", a.compute_exp_rf(A, y, D, Y, SL, min_node_size=ms, t=t if not clf else None), we, keys, task, **det):
                    return
                wc = [average(c, lambda r: 1.0 if yd[r] <= ys[i] else 0.0) for i, c in enumerate(cs)]
                if not compare(ctx, "compute_cdf_rf", a.compute_cdf_rf(A, y, D, Y, SL, min_node_size=ms, t=None), wc, keys, task, **det):
                    return
                tt = [.5 * (i % 4) for i in range(len(keys))]
                wc = [average(c, lambda r: 1.0 if yd[r] <= tt[i] else 0.0) for i, c in enumerate(cs)]
                if not compare(ctx, "compute_cdf_rf(t)", a.compute_cdf_rf(A, y, D, Y, SL, min_node_size=ms, t=np.array(tt)), wc, keys, task, **det):
                    return
    ctx.sample({"forest": F, "row": keys[-2][0], "known": keys[-2][1], "background": data, "selected": cs[-2]})


def cond_boxes(d):
    per = [[-INF, INF], [-INF, .5], [.5, INF], [0., .2], [.7, 1.], [.2, .8], [-INF, .4], [.6, INF]]
    out = []
    for i in range(len(per)):
        out.append([per[(i * (j + 1) + 2 * j) % len(per)] for j in range(d)])
    return out


def run_a06(task, ctx):
    F, d, clf = task["F"], task["d"], task["clf"]
    nodes = [nodes_of(s, task["order"]) for s in F]
    a = acx(F, bool(clf), d, task["order"])
    X = rows_of(task)
    Ss = sets_of(task)
    keys = batch(task, X, Ss)[::3 if task.get("large") else 1]
    A = arr([k[0] for k in keys])
    SL = [k[1] for k in keys]
    boxes = cond_boxes(d)
    cb = [boxes[(i * 5 + i // len(Ss) * 3) % len(boxes)] for i in range(len(keys))]
    CB = np.array(cb, dtype=np.float64)
    for data in bgs(task, ctx.tier):
        n = len(data)
        D = arr(data)
        for ms in (0,):
            plain = [cells(nodes, x, S, data, ms) for x, S in keys]
            pl, pb = [c[0] for c in plain], [c[1] for c in plain]
            co = [cells(nodes, x, S, data, ms, cond=cb[i])[0] for i, (x, S) in enumerate(keys)]
            it = [cells(nodes, x, S, data, ms, cond=cb[i], intv=True)[0] for i, (x, S) in enumerate(keys)]
            ctx.count(states=3 * len(keys) * len(F))
            K = 3 if clf and n < 3 else 2 if clf else 3
            labs = labels(n, K, ctx.tier, task)
            if ms or not ctx.thorough:
                labs = labs[len(labs) // 2:][:1] + (labs[1:2] if not ms else [])
            for yd in labs:
                Y = np.array(yd, dtype=np.float64)
                ctx.count(traces=1, transitions=12 * len(keys))
                ys = [(i + i // len(Ss)) % K for i in range(len(keys))]
                y = np.array(ys, dtype=np.float64)
                iv = [INTERVALS[(i + i // len(Ss)) % 5] for i in range(len(keys))]
                t = None if clf else np.array(iv)
                iw = [INTERVALS[(2 * i + i // len(Ss) + 1) % 5] for i in range(len(keys))]
                down, up = np.array([v[0] for v in iw]), np.array([v[1] for v in iw])
                if clf:
                    bad = lambda i, r: 1.0 if yd[r] != ys[i] else 0.0
                    good = lambda i, r: 1.0 if yd[r] == ys[i] else 0.0
                    hit = good
                else:
                    bad = lambda i, r: 0.0 if iv[i][0] <= yd[r] <= iv[i][1] else 1.0
                    good = lambda i, r: 1.0 if iv[i][0] <= yd[r] <= iv[i][1] else 0.0
                    hit = lambda i, r: 1.0 if iw[i][0] <= yd[r] <= iw[i][1] else 0.0
                ev = lambda cs, g: [average(c, lambda r: g(i, r)) for i, c in enumerate(cs)]
                wt = lambda cs: [weights(c, n) for c in cs]
                det = dict(background=data, labels=yd, min_node_size=ms)
                kw = dict(min_node_size=ms, t=t)
                ok = lambda name, got, want: compare(ctx, name, got, want, keys, task, **det)
                if not ok("compute_ddp_rf", a.compute_ddp_rf(A, y, D, Y, SL, **kw), ev(pl, bad)):
                    return
                p, rules = a.compute_ddp_rule(A, y, D, Y, SL, **kw)
                if not (ok("compute_ddp_rule", p, ev(pl, bad)) and ok("box of compute_ddp_rule", rules, pb)):
                    return
                p, w = a.compute_ddp_weights(A, y, D, Y, SL, **kw)
                if not (ok("compute_ddp_weights", p, ev(pl, bad)) and ok("weights of compute_ddp_weights", w, wt(pl))):
                    return
                if not ok("compute_cdp_rf", a.compute_cdp_rf(A, y, down, up, D, Y, SL, **kw), ev(pl, hit)):
                    return
                p, rules = a.compute_cdp_rule(A, y, down, up, D, Y, SL, **kw)
                if not (ok("compute_cdp_rule", p, ev(pl, hit)) and ok("box of compute_cdp_rule", rules, pb)):
                    return
                p, w = a.compute_cdp_weights(A, y, down, up, D, Y, SL, **kw)
                if not (ok("compute_cdp_weights", p, ev(pl, hit)) and ok("weights of compute_cdp_weights", w, wt(pl))):
                    return
                p, w = a.compute_cdp_cond_weights(A, y, down, up, D, Y, SL, CB, **kw)
                if not (ok("compute_cdp_cond_weights", p, ev(co, hit)) and ok("weights of compute_cdp_cond_weights", w, wt(co))):
                    return
                p, w = a.compute_ddp_cond_weights(A, y, D, Y, SL, CB, **kw)
                if not (ok("compute_ddp_cond_weights", p, ev(co, bad)) and ok("weights of compute_ddp_cond_weights", w, wt(co))):
                    return
                p, w = a.compute_ddp_intv_weights(A, y, D, Y, SL, CB, **kw)
                if not (ok("compute_ddp_intv_weights", p, ev(it, bad)) and ok("weights of compute_ddp_intv_weights", w, wt(it))):
                    return
                p, w = a.compute_cdp_intv_weights(A, y, D, Y, SL, CB, **kw)
                if not (ok("compute_cdp_intv_weights", p, ev(it, good)) and ok("weights of compute_cdp_intv_weights", w, wt(it))):
                    return
                if ms == 0 and yd == labs[0]:
                    p, w = a.compute_ddp_weights(A[:40], y[:40], D, Y, SL[:40], verbose=True, min_node_size=ms, t=None if clf else t[:40])
                    q, v = a.compute_cdp_weights(A[:40], y[:40], down[:40], up[:40], D, Y, SL[:40], verbose=True, min_node_size=ms, t=None if clf else t[:40])
                    if not (ok("compute_ddp_weights(verbose)", p, ev(pl[:40], bad)) and ok("weights(verbose)", w, wt(pl[:40]))
                            and ok("compute_cdp_weights(verbose)", q, ev(pl[:40], hit)) and ok("weights(verbose)", v, wt(pl[:40]))):
                        return
                    for S in Ss:
                        ii = [i for i, k in enumerate(keys) if k[1] == S]
                        if not ii:
                            continue
                        c2 = [cells(nodes, keys[i][0], S, data, ms, cond=cb[i], intv=True)[0] for i in ii]
                        sub = lambda v: None if v is None else v[ii]
                        p = a.compute_ddp_intv_same(A[ii], y[ii], D, Y, S, CB[ii], min_node_size=ms, t=sub(t))
                        q = a.compute_cdp_intv_same(A[ii], y[ii], D, Y, S, CB[ii], min_node_size=ms, t=sub(t))
                        kk = [keys[i] for i in ii]
                        wb = [average(c, lambda r: bad(ii[j], r)) for j, c in enumerate(c2)]
                        wg = [average(c, lambda r: good(ii[j], r)) for j, c in enumerate(c2)]
                        if not (compare(ctx, "compute_ddp_intv_same", p, wb, kk, task, **det) and compare(ctx, "compute_cdp_intv_same", q, wg, kk, task, **det)):
                            return
    ctx.sample({"forest": F, "row": keys[-2][0], "known": keys[-2][1], "box": cb[-2], "background": data, "selected": co[-2], "intv": it[-2]})


# ---------------------------------------------------------------- searches
def units_of(C, space):
    if C[0] == []:
        return [[i] for i in space]
    inside = [f for g in C for f in g]
    u = [[i] for i in space if i not in inside]
    return u + [list(g) for g in C if any(f in space for f in g)]


def levels(units, minimal):
    for k in range(minimal, len(units) + 1):
        yield k, [sorted(sum(c, [])) for c in itertools.combinations(units, k)]


def check_search(ctx, name, task, table, N, d, units, minimal, stop, pi, res, det, forced=True, floor=False, half=None):
    """table(i, S tuple) -> probability.  Property of a reported best-first minimal search, row by row."""
    imp, idx, size, sdp = [tolist(r) for r in res]
    space = max([len(u) for u in units] + [0])
    count = [0.0] * d
    skipped = False
    last_level = None
    for k, sets in levels(units, minimal):
        last_level = k
        lastS = sum(list(itertools.combinations(units, k))[-1], [])
        if stop and len(lastS) >= (d // 2 if half is None else half):
            break
    for i in range(N):
        S = sorted(idx[i][:size[i]])
        if [v for v in idx[i][size[i]:] if v != -1]:
            ctx.violate("%s: row %d lists features beyond its explanation: %s size %d" % (name, i, idx[i], size[i]), **det)
            return False
        best, first, unsure = None, None, False
        pr = {}
        for k, sets in levels(units, minimal):
            if k > last_level:
                break
            try:
                for T in sets:
                    p = 1.0 if forced and len(T) == d else table(i, tuple(T))
                    pr[tuple(T)] = (k, p)
                if any([reaches(p, pi) for (kk, p) in pr.values() if kk == k]):
                    first = k
                    break
            except Ambiguous:
                unsure = skipped = True
                break
        if unsure:
            ctx.count(skipped=1)
            continue
        if floor and not S and first is None and (not pr or max(p for k, p in pr.values()) < 1e-9) and sdp[i] == 0:
            continue            # nothing above 0 was there to report
        if tuple(S) not in pr:
            ctx.violate("%s: row %d gets the set %s, which is %s" % (name, i, S, "not admissible or larger than necessary"), sizes=first, **det)
            return False
        k, p = pr[tuple(S)]
        best = max(p for kk, p in pr.values())
        if not close(p, sdp[i]):
            ctx.violate("%s: row %d reports probability %r for %s, which has %r" % (name, i, sdp[i], S, p), **det)
            return False
        if not close(p, best):
            ctx.violate("%s: row %d gets %s with probability %r although %r was available" % (name, i, S, p, best), **det)
            return False
        if first is not None:
            if k != first:
                ctx.violate("%s: row %d gets a set of %d players, smallest is %d" % (name, i, k, first), **det)
                return False
            for f in S:
                count[f] += 1.0 / N
    if not skipped and diff(imp, count) is not None:
        ctx.violate("%s: importances %s, shares of sufficient explanations %s" % (name, imp, count), **det)
        return False
    return True


def group_choices(d, tier):
    if d == 11:
        return [[[]], [[0, 10], [3, 4, 7]]]
    if d == 12:
        return [[[]], [[0, 2, 11], [5, 4]]]
    if d == 7:
        return [[[]], [[0, 3], [5, 1, 6]]]
    if d == 1:
        return [[[]], [[0]]]
    if d == 2:
        return [[[]], [[1, 0]]]
    if d == 4:
        return [[[]], [[0, 3]], [[1, 2], [3, 0]], [[2, 0, 1]]]
    return [[[]], [[0, 1]], [[2, 0]], [[1, 2], [0]], [[2, 1, 0]]]


def search_space(d, importances):
    if d <= 10:
        return list(range(d))
    o = sorted(range(d), key=lambda f: -importances[f])
    return o[:10]


def setup(task):
    d = task["d"]
    imp = None
    if d > 10:
        imp = np.array([1.0 / (1 + ((f * 7) % d)) for f in range(d)])
    a = acx(task["F"], bool(task["clf"]), d, task["order"], importances=imp)
    nodes = [nodes_of(s, task["order"]) for s in task["F"]]
    return a, nodes, search_space(d, imp)


def labels(n, K, tier, task):
    """in regression also negative and fractional targets"""
    out = labelings(n, K, tier)
    if task["clf"]:
        return out
    return [y if i % 2 else [v * .5 - (v > 1) for v in y] for i, y in enumerate(out)]


def label_sets(task, data, tier):
    n = len(data)
    K = 3 if n < 4 else 2
    labs = labels(n, K, tier, task)
    if task["d"] > 3:
        return labs[len(labs) // 2 - (not task["clf"]):][:1]
    return labs if tier == "thorough" else labs[len(labs) // 3:][:2]


def run_search(task, ctx):
    a, nodes, space = setup(task)
    d, clf, F = task["d"], task["clf"], task["F"]
    X = rows_of(task)
    A = arr(X)
    N = len(X)
    for data in bgs(task, ctx.tier):
        D = arr(data)
        for yd in label_sets(task, data, ctx.tier):
            Y = np.array(yd, dtype=np.float64)
            ys = [(i * 2 + i // 3) % 2 for i in range(N)]
            y = np.array(ys, dtype=np.float64)
            iv = [INTERVALS[i % 4] for i in range(N)]
            t = None if clf else np.array(iv)
            memo = {}

            def table(i, S):
                k = (i, S)
                if k not in memo:
                    c = cells(nodes, X[i], S, data)[0]
                    memo[k] = average(c, (lambda r: 1.0 if yd[r] == ys[i] else 0.0) if clf else (lambda r: 1.0 if iv[i][0] <= yd[r] <= iv[i][1] else 0.0))
                return memo[k]
            for C in group_choices(d, ctx.tier):
                units = units_of(C, space)
                for pi in (0.5, 0.8, 0.999) if d < 11 else (0.9,):
                    for minimal, stop in ((1, False), (1, True), (2, False), (0, False)) if pi == 0.8 or ctx.thorough else ((1, False), (1, True)):
                        if minimal > len(units):
                            continue
                        res = a.importance_sdp_rf(A, y, D, Y, min_node_size=0, t=t, C=C, pi_level=pi, minimal=minimal, stop=stop)
                        ctx.count(states=N, traces=1, transitions=N * 2 ** len(units))
                        det = dict(forest=F, background=data, labels=yd, rows=X, targets=ys, groups=C, pi_level=pi, minimal=minimal, stop=stop)
                        if not check_search(ctx, "importance_sdp_rf", task, table, N, d, units, minimal, stop, pi, res, det):
                            return
    ctx.sample({"forest": F, "background": data, "labels": yd, "groups": C, "explanation": tolist(res[1])[:2]})


def minimal_sets(table, i, units, minimal, pi):
    out = []
    for k, sets in levels(units, minimal):
        for T in sets:
            p = table(i, tuple(T))
            if reaches(p, pi) and not any(set(o) <= set(T) for o, _ in out):
                out.append((T, p))
    return out


def check_family(ctx, name, table, N, d, units, minimal, pi, expl, pr, glob, det):
    tot, cnt, skipped = 0, [0.0] * d, False
    if len(expl) != N or len(pr) != N:
        ctx.violate("%s: %d and %d entries for %d rows" % (name, len(expl), len(pr), N), **det)
        return False
    for i in range(N):
        try:
            want = minimal_sets(table, i, units, minimal, pi)
        except Ambiguous:
            skipped = True
            ctx.count(skipped=1)
            continue
        got = [(sorted(int(f) for f in S), float(p)) for S, p in zip(expl[i], pr[i])]
        if len(expl[i]) != len(pr[i]) or sorted(S for S, p in got) != sorted(S for S, p in want):
            ctx.violate("%s: row %d lists %s, the minimal sets are %s" % (name, i, expl[i], want), probabilities=pr[i], **det)
            return False
        for S, p in got:
            if not close(p, table(i, tuple(S))):
                ctx.violate("%s: row %d, set %s has probability %r, reported %r" % (name, i, S, table(i, tuple(S)), p), **det)
                return False
            tot += 1
            for f in S:
                cnt[f] += 1
    if tot and not skipped and diff(tolist(glob), [c / tot for c in cnt]) is not None:
        ctx.violate("%s: frequencies %s instead of %s" % (name, tolist(glob), [c / tot for c in cnt]), **det)
        return False
    return True


def run_all(task, ctx):
    a, nodes, space = setup(task)
    d, clf, F = task["d"], task["clf"], task["F"]
    X = rows_of(task)
    A = arr(X)
    N = len(X)
    for data in bgs(task, ctx.tier):
        D = arr(data)
        for yd in label_sets(task, data, ctx.tier):
            Y = np.array(yd, dtype=np.float64)
            ys = [(i * 2 + i // 3) % 2 for i in range(N)]
            y = np.array(ys, dtype=np.float64)
            iv = [INTERVALS[i % 4] for i in range(N)]
            t = None if clf else np.array(iv)
            memo = {}

            def table(i, S):
                k = (i, S)
                if k not in memo:
                    c = cells(nodes, X[i], S, data)[0]
                    memo[k] = average(c, (lambda r: 1.0 if yd[r] == ys[i] else 0.0) if clf else (lambda r: 1.0 if iv[i][0] <= yd[r] <= iv[i][1] else 0.0))
                return memo[k]
            for C in group_choices(d, ctx.tier):
                units = units_of(C, space)
                for pi in (0.5, 0.8, 0.999) if d < 11 else (0.9,):
                    e, p, g = a.sufficient_expl_rf(A, y, D, Y, min_node_size=0, t=t, C=C, pi_level=pi, minimal=1, stop=False)
                    ctx.count(states=N * 2 ** len(units), traces=1, transitions=N)
                    det = dict(forest=F, background=data, labels=yd, rows=X, targets=ys, groups=C, pi_level=pi)
                    if not check_family(ctx, "sufficient_expl_rf", table, N, d, units, 1, pi, e, p, g, det):
                        return
                    want, nb = [0.0] * d, 0
                    for fam in e:
                        if len(fam):
                            nb += 1
                            for S in fam:
                                for f in S:
                                    want[f] += 1.0 / len(fam)
                    if nb:
                        got = tolist(a.compute_local_sdp(d, e))
                        if diff(got, [w / nb for w in want]) is not None:
                            ctx.violate("compute_local_sdp: %s instead of %s" % (got, [w / nb for w in want]), families=e, **det)
                            return
    ctx.sample({"forest": F, "background": data, "labels": yd, "groups": C, "families": e[:2]})


def run_cf(task, ctx):
    a, nodes, space = setup(task)
    d, clf, F = task["d"], task["clf"], task["F"]
    X = rows_of(task)
    A = arr(X)
    N = len(X)
    boxes = cond_boxes(d)
    cb = [boxes[(i * 3 + i // 5) % len(boxes)] for i in range(N)]
    CB = np.array(cb, dtype=np.float64)
    full = tuple(range(d))
    for data in bgs(task, ctx.tier):
        D = arr(data)
        for yd in label_sets(task, data, ctx.tier)[:1 if not ctx.thorough else None]:
            Y = np.array(yd, dtype=np.float64)
            ys = [(i * 2 + i // 3) % 2 for i in range(N)]
            y = np.array(ys, dtype=np.float64)
            iv = [INTERVALS[i % 5] for i in range(N)]
            iw = [INTERVALS[(i * 2 + 1) % 5] for i in range(N)]
            down, up = np.array([v[0] for v in iw]), np.array([v[1] for v in iw])
            t = None if clf else np.array(iv)
            if clf:
                bad = lambda i: (lambda r: 1.0 if yd[r] != ys[i] else 0.0)
                good = lambda i: (lambda r: 1.0 if yd[r] == ys[i] else 0.0)
                hit = good
            else:
                bad = lambda i: (lambda r: 0.0 if iv[i][0] <= yd[r] <= iv[i][1] else 1.0)
                good = lambda i: (lambda r: 1.0 if iv[i][0] <= yd[r] <= iv[i][1] else 0.0)
                hit = lambda i: (lambda r: 1.0 if iw[i][0] <= yd[r] <= iw[i][1] else 0.0)
            memo = {}

            def cell(i, S, intv):
                k = (i, S, intv)
                if k not in memo:
                    memo[k] = cells(nodes, X[i], S, data, 0, cond=cb[i] if intv else None, intv=intv)[0]
                return memo[k]
            bar = lambda S: tuple(f for f in full if f not in S)
            tabs = {"importance_ddp_rf": lambda i, S: average(cell(i, bar(S), False), bad(i)),
                    "importance_cdp_rf": lambda i, S: average(cell(i, bar(S), False), hit(i)),
                    "importance_ddp_intv": lambda i, S: average(cell(i, S, True), bad(i)),
                    "importance_cdp_intv": lambda i, S: average(cell(i, S, True), good(i))}
            fam = lambda i, S: average(cell(i, S, False), bad(i))
            for C in group_choices(d, ctx.tier)[:None if ctx.thorough or d != 3 else 3]:
                units = units_of(C, space)
                for pi in (0.5, 0.8, 0.999) if d < 11 else (0.4,):
                    for minimal, stop in ((1, False), (1, True), (2, False)) if pi == 0.5 or ctx.thorough else ((1, pi == 0.999),):
                        if minimal > len(units):
                            continue
                        kw = dict(min_node_size=0, t=t, C=C, pi_level=pi, minimal=minimal, stop=stop)
                        for name, call in (("importance_ddp_rf", lambda: a.importance_ddp_rf(A, y, D, Y, **kw)),
                                           ("importance_cdp_rf", lambda: a.importance_cdp_rf(A, y, down, up, D, Y, **kw)),
                                           ("importance_ddp_intv", lambda: a.importance_ddp_intv(A, y, D, Y, CB, **kw)),
                                           ("importance_cdp_intv", lambda: a.importance_cdp_intv(A, y, D, Y, CB, **kw))):
                            res = call()
                            ctx.count(states=N, traces=1, transitions=N * 2 ** len(units))
                            det = dict(forest=F, background=data, labels=yd, rows=X, targets=ys, groups=C, pi_level=pi, minimal=minimal, stop=stop, boxes=cb)
                            if not check_search(ctx, name, task, tabs[name], N, d, units, minimal, stop, pi, res, det):
                                return
                    e, p, g = a.sufficient_cxpl_rf(A, y, D, Y, min_node_size=0, t=t, C=C, pi_level=pi, minimal=1, stop=False)
                    ctx.count(states=N * 2 ** len(units), traces=1, transitions=N)
                    det = dict(forest=F, background=data, labels=yd, rows=X, targets=ys, groups=C, pi_level=pi)
                    if not check_family(ctx, "sufficient_cxpl_rf", fam, N, d, units, 1, pi, e, p, g, det):
                        return
    ctx.sample({"forest": F, "background": data, "labels": yd, "groups": C, "families": e[:2]})

"""Batching, flavours, thread counts and caches (T07): every batch over a few rows gives each row its own answer, in every flavour."""
import itertools
import numpy as np
import core
from core import *
from forest import acx, forests2, forests3, BIG
from ops import *
from t_sdp import clf_vals, reg_vals
from t_shap import FOREST_PARTS, caterpillars

STUMP, EQ = [0, .5, None, None], [1, .5, [0, .5, None, None], None]
TREES3 = [
    [EQ],
    [STUMP, [2, .5, [1, .5, None, None], [0, .5, None, None]]],
    [[0, .5, [1, .5, None, [2, .5, None, None]], None], STUMP, [1, .5, None, None]],
    [None, [1, .5, None, [2, .5, None, [0, .5, None, None]]]],
    [[2, .5, [0, .5, None, None], [1, .5, [0, .5, None, None], None]], [0, .5, [0, 1., None, None], [1, .5, None, None]]],
    [[0, .5, [1, .5, [2, .5, None, None], None], [2, .5, None, None]], [1, 0., None, None], STUMP, [2, .5, None, EQ]],
]
ROWS = [[[0, 0, 0], [1, .5, 1], [.5, 1, 0]], [[1, 1, 1], [0, 1, .5], [1, 0, 0]], [[.5, .5, .5], [0, 0, 1], [2, -1, 0]]]
DATA = [grid([0, 1], 3), [[0, 0, 0], [1, 1, 1], [1, 1, 1], [0, 1, .5], [.5, 1, 0]]]


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    k = 0
    for f in TREES3:
        for di in range(2):
            for C in ([[]], [[0, 2]], [[1, 2], [0]], [[0, 1, 2]]):
                for Ss in ([0], [1, 2]):
                    k += 1
                    if th or k % 3 == 1 or (C != [[]] and Ss == [0] and di == 0):
                        for ri in range(3) if th else (k % 3,):
                            out.append(dict(kind="tree", forest=f, data=DATA[di], C=C, Ss=Ss, rows=ROWS[ri]))
    F = forests3(th) + TREES3[1:]
    for j, f in enumerate(F if th else F[::4] + TREES3[1:]):
        for clf in (1, 0):
            for C in ([[]], [[0, 1]], [[0, 2], [1]]):
                k += 1
                if th or k % 3 == 0:
                    out.append(dict(kind="forest", forest=f, clf=clf, C=C, rows=ROWS[k % 3], data=DATA[k % 2], d=3))
    return out


def batches(n, longest):
    for k in range(1, longest + 1):
        for I in itertools.product(range(n), repeat=k):
            yield list(I)


def check(ctx, ops, call, rows, threads, longest, det, all_threads=False):
    """ops: (name, family, f); every batch of every op against the first op of the family on single rows"""
    ref, first = {}, {}
    n = len(rows)
    for name, fam, f in ops:
        own = [call(f, [i], threads[0])[0] for i in range(n)]
        if fam not in ref:
            ref[fam], first[fam] = own, name
        else:
            for i in range(n):
                if not same(own[i], ref[fam][i]):
                    ctx.violate("%s gives row %s %s, %s gives it %s" % (name, rows[i], own[i], first[fam], ref[fam][i]), **det)
                    return False
        for q, I in enumerate(batches(n, longest)):
            for nt in threads if all_threads else [threads[q % len(threads)]]:
                got = call(f, I, nt)
                ctx.count(transitions=1, states=len(I))
                for r, i in enumerate(I):
                    if not same(got[r], ref[fam][i]):
                        ctx.violate("%s: row %s has %s in the batch of rows %s with %s threads, alone it has %s" % (name, rows[i], got[r], [rows[j] for j in I], nt, ref[fam][i]), **det)
                        return False
    ctx.count(traces=1)
    return True


def layouts(ctx, ops, call, rows, threads, det):
    """the same values in other memory layouts: the same answers; in other types: the same answers or an error"""
    n = len(rows)
    try:
        for name, fam, f in ops:
            FORM[0] = PLAIN
            want = call(f, list(range(n)), threads[0])
            for what, form in sorted(FORMS.items()) + sorted(OTHER.items()):
                FORM[0] = form
                try:
                    got = call(f, list(range(n)), threads[0])
                except Exception:
                    if what in FORMS:
                        raise
                    ctx.count(refused=1)
                    continue
                finally:
                    FORM[0] = PLAIN
                ctx.count(transitions=1, states=n)
                if not same(got, want):
                    return ctx.violate("%s: with arrays given as %s the rows %s have %s, otherwise %s" % (name, what, rows, got, want), **det)
    finally:
        FORM[0] = PLAIN


def run(prop, task, ctx):
    specs, rows, data = task["forest"], task["rows"], task["data"]
    d = 3
    det = dict(forest=specs, background=data, groups=task["C"])
    if task["kind"] == "tree":
        C, Ss = task["C"], task["Ss"]
        vals = clf_vals(specs, False, 3)[-1]
        rv = reg_vals(specs, False)[0]
        env = dict(a=dict_acv(specs, vals, data), c=dict_acv(specs, vals, data, stub=False, cache=True, C=C), n=dict_acv(specs, vals, data, stub=False, cache_normalized=True, C=C),
                   m=dict_acv(specs, rv, data), X=rows, data=data)
        env["co"] = dict_acv(specs, vals, data, stub=False, cache=True, cache_normalized=True, multi_threads=False, C=[[0, 1]] if C == [[]] else [[]])
        splits = [([0, 1], [2]), ([2], [0, 1]), ([1], [0, 2])]
        ops = tree_ops(d, C, splits, Ss) + more_tree_ops(d, C, Ss)
        check(ctx, ops, lambda f, I, nt: f(env, I, nt), rows, [10, 1, 2, 5] if not ctx.thorough else [10, 1, 2, 3, 4, 7, 16], 4 if ctx.thorough else 3, det, ctx.thorough)
        layouts(ctx, ops, lambda f, I, nt: f(env, I, nt), rows, [10], det)
    else:
        clf = task["clf"]
        yd = [float((i * 5 // 3) % (2 if clf else 5)) for i in range(len(data))]
        y = [1.0, 0.0, 1.0] if clf else [1.0, 2.5, 4.0]
        env = dict(a=acx(specs, clf, d), X=rows, y=y, data=data, yd=yd, t=None if clf else [[0.5, 2.5], [1.0, 3.0], [2.0, 5.0]])
        F = [-BIG, BIG]
        ops = [(n, n, f) for n, f in acx_ops(d, clf, [[0], [1, 2], [2, 0]], [[[0., .5], F, F], [F, [.5, BIG], [0., 1.]], [F, F, F]], C=task["C"])]
        check(ctx, ops, lambda f, I, nt: f(env, I), rows, [0], 4 if ctx.thorough else 3, det)
        layouts(ctx, ops, lambda f, I, nt: f(env, I), rows, [0], det)
    ctx.sample(dict(det, rows=rows))

"""The operations of the explainers as functions of a list of row numbers, for checks about whole calls (histories, batches, threads)."""
import itertools, random
import numpy as np
import core
from core import *
from t_sdp import L


def plain(x):
    """nested lists of python numbers, bit-exact (floats as hex, so that NaN equals NaN)"""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    return x if x is None or isinstance(x, str) else repr(x)


def same(a, b, tol=1e-9):
    """equality of plain() values, numbers within rounding"""
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(p, q, tol) for p, q in zip(a, b))
    if a == b:
        return True
    try:
        p, q = [v if isinstance(v, int) else float.fromhex(v) for v in (a, b)]
    except (TypeError, ValueError, AttributeError):
        return False
    return abs(p - q) <= tol * max(1.0, abs(p), abs(q)) or (p != p and q != q)


def rows_of(res, n):
    """results per row: res is an array / list over rows, or a tuple of such"""
    if isinstance(res, tuple):
        parts = [plain(r) for r in res]
        if any(len(p) != n for p in parts):
            raise ApiError("results for %s rows when asked for %d" % ([len(p) for p in parts], n))
        return [[p[i] for p in parts] for i in range(n)]
    p = plain(res)
    if len(p) != n:
        raise ApiError("results for %d rows when asked for %d" % (len(p), n))
    return p


def expl(res, n):
    """importance search results -> per row: the explanation as a set, its size, its probability"""
    imp, sets, size, p = [plain(r) for r in res]
    if not len(sets) == len(size) == len(p) == n:
        raise ApiError("search results for %s rows when asked for %d" % ([len(sets), len(size), len(p)], n))
    return [[sorted(sets[i][:size[i]]), size[i], p[i]] for i in range(n)]


def mk(values, dtype=np.float64):
    """the array as the explainers get it, in the form under test"""
    return FORM[0](np.array(values, dtype=dtype))


def strided(a):
    """the same values as a view of a larger array, not contiguous in any direction"""
    b = np.full([2 * n + 1 for n in a.shape], 77.25)
    v = b[tuple(slice(2 * n - 1, None, -2) for n in a.shape)]
    v[...] = a
    return v


def read_only(a):
    a.setflags(write=False)
    return a


def frame(a):
    import pandas as pd
    return pd.DataFrame(a) if a.ndim == 2 else pd.Series(a) if a.ndim == 1 else a


PLAIN = lambda a: a
FORM = [PLAIN]
OTHER = dict(float32=lambda a: a.astype(np.float32), big_endian=lambda a: a.astype(">f8"), lists=lambda a: a.tolist(), frames=frame, read_only=read_only, integers=lambda a: a.astype(np.int64) if (a == np.trunc(a)).all() else a)
FORMS = dict(fortran=np.asfortranarray, strided=strided, rows_reversed=lambda a: np.ascontiguousarray(a[::-1])[::-1], transposed=lambda a: np.ascontiguousarray(a.T).T)

# ---------------------------------------------------------------- ACVTree
def tree_ops(d, C, splits, Ss):
    """[(name, family, fn(env, rows, threads) -> per-row results)].  env: dict(a=explainer, c=cached explainer, m=margins/regression explainer, X=, data=)
    splits: one (active, null) per row;  Ss: a subset"""
    ops = []

    def add(name, fam, f):
        ops.append((name, fam, f))
    A = lambda e, I: mk([e["X"][i] for i in I])
    one = lambda f: lambda e, I, nt: rows_of(f(e, A(e, I), nt), len(I))
    add("shap_values", "sv", one(lambda e, x, nt: e["a"].shap_values(x, C, nt)))
    add("shap_values_nopa", "sv", one(lambda e, x, nt: e["a"].shap_values_nopa(x, C, nt)))
    add("shap_values_cache", "sv", one(lambda e, x, nt: e["c"].shap_values_cache(x, C, nt)))
    add("shap_values_cache_nopa", "sv", one(lambda e, x, nt: e["c"].shap_values_cache_nopa(x, C, nt)))
    add("shap_values[cache=True]", "sv", one(lambda e, x, nt: e["c"].shap_values(x, C, nt)))
    add("shap_values_normalized", "svn", one(lambda e, x, nt: e["a"].shap_values_normalized(x, C, nt)))
    add("shap_values_normalized_cache", "svn", one(lambda e, x, nt: e["n"].shap_values_normalized_cache(x, C, nt)))
    add("shap_values_normalized_cache_nopa", "svn", one(lambda e, x, nt: e["n"].shap_values_normalized_cache_nopa(x, C, nt)))
    add("shap_values_normalized[cache_normalized=True]", "svn", one(lambda e, x, nt: e["n"].shap_values_normalized(x, C, nt)))
    # explainers whose caches were computed for other groups
    for n in ("shap_values", "shap_values_cache", "shap_values_cache_nopa"):
        add(n + "[cache of other groups]", "sv", one(lambda e, x, nt, n=n: getattr(e["co"], n)(x, C, nt)))
    for n in ("shap_values_normalized", "shap_values_normalized_cache", "shap_values_normalized_cache_nopa"):
        add(n + "[cache of other groups]", "svn", one(lambda e, x, nt, n=n: getattr(e["co"], n)(x, C, nt)))
    for j, (S, N) in enumerate([] if C != [[]] else sorted(set(map(lambda s: (tuple(s[0]), tuple(s[1])), splits)))):
        for suf in ("", "_nopa"):
            add("shap_values_acv%s" % suf, "acv%d" % j, one(lambda e, x, nt, S=S, N=N, suf=suf: getattr(e["a"], "shap_values_acv" + suf)(x, L(S), L(N), C, nt)))

    def adap(suf):
        def f(e, I, nt):
            size = [len(splits[i][0]) for i in I]
            s = [list(splits[i][0]) + [-1] * (d - size[r]) for r, i in enumerate(I)]
            n = [[-1] * size[r] + list(splits[i][1]) for r, i in enumerate(I)]
            return rows_of(getattr(e["a"], "shap_values_acv_adap" + suf)(A(e, I), L(s), L(n), L(size), C, nt), len(I))
        return f
    if C == [[]]:
        for suf in ("", "_nopa"):
            add("shap_values_acv_adap" + suf, "adap", adap(suf))
    D = lambda e: mk(e["data"])
    SS = lambda x: L(Ss)
    for cat in ("", "_cat"):
        for suf in ("", "_nopa"):
            add("compute_sdp_clf" + cat + suf, "sdp" + cat, one(lambda e, x, nt, k=cat + suf: getattr(e["a"], "compute_sdp_clf" + k)(x, SS(x), D(e), nt)))
            add("compute_sdp_reg" + cat + suf, "reg" + cat, one(lambda e, x, nt, k=cat + suf: getattr(e["m"], "compute_sdp_reg" + k)(x, 0.5, L(Ss), D(e), nt)))
            add("compute_exp" + cat + suf, "exp" + cat, one(lambda e, x, nt, k=cat + suf: getattr(e["a"], "compute_exp" + k)(x, SS(x), D(e), nt)))
    for suf in ("", "_nopa", "_slow"):
        add("swing_sv_clf" + suf, "swing", one(lambda e, x, nt, k=suf: tuple(getattr(e["a"], "swing_sv_clf" + k)(x, D(e), C, 0.75, nt))))
    add("importance_sdp_clf", "imp", lambda e, I, nt: expl(e["a"].importance_sdp_clf(A(e, I), D(e), C, 0.8, 1, False), len(I)))
    add("importance_sdp_clf_greedy", "imp", lambda e, I, nt: expl(e["a"].importance_sdp_clf_greedy(A(e, I), D(e), C, 0.8, 1, False), len(I)))
    add("importance_sdp_clf_nopa", "impn", lambda e, I, nt: expl(e["a"].importance_sdp_clf_nopa(A(e, I), D(e), C, 0.8, 1), len(I)))
    add("importance_sdp_clf_ptrees", "impp", lambda e, I, nt: expl(e["a"].importance_sdp_clf_ptrees(A(e, I), D(e), C, 0.8, 1), len(I)))
    for cat in ("", "_cat"):
        add("importance_sdp_reg" + cat, "ireg" + cat, lambda e, I, nt, k=cat: expl(getattr(e["m"], "importance_sdp_reg" + k)(A(e, I), 0.5, D(e), C, 0.8, 1, True), len(I)))
        add("importance_sdp_reg" + cat + "_nopa", "iregn" + cat, lambda e, I, nt, k=cat: expl(getattr(e["m"], "importance_sdp_reg" + k + "_nopa")(A(e, I), 0.5, D(e), C, 0.8, 1), len(I)))
    add("predict", "pred", one(lambda e, x, nt: e["a"].predict(x)))
    return ops


def more_tree_ops(d, C, Ss):
    """operations with parallel loops or flavours of their own that are not part of tree_ops"""
    A = lambda e, I: mk([e["X"][i] for i in I])
    D = lambda e: mk(e["data"])
    ops = []
    for suf in ("", "_nopa"):
        ops.append(("compute_exp_normalized" + suf, "expn", lambda e, I, nt, k=suf: rows_of(getattr(e["a"], "compute_exp_normalized" + k)(A(e, I), L(Ss), D(e), nt), len(I))))
    ops.append(("importance_sdp_clf_search", "imps", lambda e, I, nt: expl(e["a"].importance_sdp_clf_search(A(e, I), D(e), C, 0.8, 1, list(range(d)), False), len(I))))
    return ops


# ---------------------------------------------------------------- ACXplainer
def acx_ops(d, clf, Ss, boxes, C=[[]], level=0.7, verbose=False):
    """[(name, fn(env, rows) -> per-row results)]; env: dict(a=, X=, y=, data=, yd=)"""
    ops = []

    def arrs(e, I):
        return mk([e["X"][i] for i in I]), mk([e["y"][i] for i in I if i < len(e["y"])]), mk(e["data"]), mk(e["yd"])
    T = lambda e, I: None if clf or not e.get("t") else mk([e["t"][i] for i in I])
    dn = lambda y: y - 1.25
    up = lambda y: y + 0.25
    S = lambda I: [list(Ss[i]) for i in I if i < len(Ss)]
    CB = lambda I: mk([boxes[i] for i in I])

    def add(name, f, tup=True):
        ops.append((name, lambda e, I: rows_of(tuple(f(e, I, *arrs(e, I))) if tup else f(e, I, *arrs(e, I)), len(I))))
    kw = lambda e, I, m=0: dict(min_node_size=m, t=T(e, I))
    add("compute_sdp_rf", lambda e, I, x, y, D, Y: e["a"].compute_sdp_rf(x, y, D, Y, S(I), **kw(e, I)), False)
    add("compute_sdp_rf[min_node_size]", lambda e, I, x, y, D, Y: e["a"].compute_sdp_rf(x, y, D, Y, S(I), **kw(e, I, 2)), False)
    add("compute_exp_rf", lambda e, I, x, y, D, Y: e["a"].compute_exp_rf(x, y, D, Y, S(I), **kw(e, I)), False)
    add("compute_cdf_rf", lambda e, I, x, y, D, Y: e["a"].compute_cdf_rf(x, y, D, Y, S(I), min_node_size=0), False)
    add("compute_sdp_rule", lambda e, I, x, y, D, Y: e["a"].compute_sdp_rule(x, y, D, Y, S(I), **kw(e, I)))

    def maxr(e, I, x, y, D, Y, verbose=False):
        random.seed(7); np.random.seed(7)
        sdp, rules, sdp_all, rules_data, w = e["a"].compute_sdp_maxrules(x, y, D, Y, S(I), pi_level=level, max_iter=5, n_try=3, batch=3, verbose=verbose, **kw(e, I))
        # the boxes of background rows the forest does not relate to the row are not part of the answer
        w = np.asarray(w)
        return sdp, sdp_all, [[r if q else None for r, q in zip(plain(rd), ww)] for rd, ww in zip(rules_data, w.tolist())], w
    add("compute_sdp_maxrules", maxr)
    if verbose:
        add("compute_sdp_maxrules[verbose]", lambda *a: maxr(*a, verbose=True))
    add("compute_ddp_rf", lambda e, I, x, y, D, Y: e["a"].compute_ddp_rf(x, y, D, Y, S(I), **kw(e, I)), False)
    add("compute_ddp_rule", lambda e, I, x, y, D, Y: e["a"].compute_ddp_rule(x, y, D, Y, S(I), **kw(e, I)))
    add("compute_ddp_weights", lambda e, I, x, y, D, Y: e["a"].compute_ddp_weights(x, y, D, Y, S(I), **kw(e, I)))
    add("compute_cdp_rf", lambda e, I, x, y, D, Y: e["a"].compute_cdp_rf(x, y, dn(y), up(y), D, Y, S(I), **kw(e, I)), False)
    add("compute_cdp_rule", lambda e, I, x, y, D, Y: e["a"].compute_cdp_rule(x, y, dn(y), up(y), D, Y, S(I), **kw(e, I)))
    add("compute_cdp_weights", lambda e, I, x, y, D, Y: e["a"].compute_cdp_weights(x, y, dn(y), up(y), D, Y, S(I), **kw(e, I)))
    add("compute_cdp_cond_weights", lambda e, I, x, y, D, Y: e["a"].compute_cdp_cond_weights(x, y, dn(y), up(y), D, Y, S(I), CB(I), **kw(e, I)))
    add("compute_ddp_cond_weights", lambda e, I, x, y, D, Y: e["a"].compute_ddp_cond_weights(x, y, D, Y, S(I), CB(I), **kw(e, I)))
    add("compute_ddp_intv_weights", lambda e, I, x, y, D, Y: e["a"].compute_ddp_intv_weights(x, y, D, Y, S(I), CB(I), **kw(e, I)))
    add("compute_cdp_intv_weights", lambda e, I, x, y, D, Y: e["a"].compute_cdp_intv_weights(x, y, D, Y, S(I), CB(I), **kw(e, I)))
    add("same set: compute_ddp_intv_same", lambda e, I, x, y, D, Y: e["a"].compute_ddp_intv_same(x, y, D, Y, list(Ss[0]), CB(I), **kw(e, I)), False)
    add("same set: compute_cdp_intv_same", lambda e, I, x, y, D, Y: e["a"].compute_cdp_intv_same(x, y, D, Y, list(Ss[0]), CB(I), **kw(e, I)), False)

    def search(name, f):
        ops.append((name, lambda e, I: expl(f(e, I, *arrs(e, I)), len(I))))
    sk = lambda e, I: dict(kw(e, I), C=C, pi_level=level, minimal=1)
    search("importance_sdp_rf", lambda e, I, x, y, D, Y: e["a"].importance_sdp_rf(x, y, D, Y, **sk(e, I)))
    search("importance_ddp_rf", lambda e, I, x, y, D, Y: e["a"].importance_ddp_rf(x, y, D, Y, **sk(e, I)))
    search("importance_cdp_rf", lambda e, I, x, y, D, Y: e["a"].importance_cdp_rf(x, y, dn(y), up(y), D, Y, **sk(e, I)))
    search("importance_ddp_intv", lambda e, I, x, y, D, Y: e["a"].importance_ddp_intv(x, y, D, Y, CB(I), **sk(e, I)))
    search("importance_cdp_intv", lambda e, I, x, y, D, Y: e["a"].importance_cdp_intv(x, y, D, Y, CB(I), **sk(e, I)))
    add("sufficient_expl_rf", lambda e, I, x, y, D, Y: e["a"].sufficient_expl_rf(x, y, D, Y, **sk(e, I))[:2])
    add("sufficient_cxpl_rf", lambda e, I, x, y, D, Y: e["a"].sufficient_cxpl_rf(x, y, D, Y, **sk(e, I))[:2])
    return ops

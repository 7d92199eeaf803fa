"""Thread schedules (S01): every operation with parallel loops, under a controlled OpenMP runtime.

The runtime (mc/sched/sched.cc) runs one thread at a time and decides which iteration each thread gets when; the driver
enumerates the orders of the iterations and their assignments to threads.  Every memory access of a region is recorded.
An order without conflicting accesses stands for all interleavings of the accesses of its iterations."""
import ctypes, itertools, os, sys
import numpy as np
import core
from core import *
from forest import acx, BIG
from ops import *
from t_sdp import clf_vals, reg_vals
from t_batch import TREES3, ROWS, DATA
from forest import forests3

_lib = None


def lib():
    global _lib
    if _lib is None:
        import cyext_acv
        where = os.path.join(os.path.dirname(os.path.abspath(cyext_acv.__file__)), "libsched.path")
        _lib = ctypes.CDLL(open(where).read().strip())
        _lib.sched_stat.restype = ctypes.c_ulong
    return _lib


def text(f, *a):
    b = ctypes.create_string_buffer(1200)
    return b.value.decode() if f(*(a + (b, 1200))) else None


def partitions(n, T):
    """assignments of n positions to at most T threads, up to the threads' names"""
    def rec(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for t in range(min(m + 1, T)):
            yield from rec(p + [t], max(m, t + 1))
    return list(rec([], 0))


_pat = {}


def patterns(n, T):
    if (n, T) not in _pat:
        _pat[n, T] = [(o, a) for a in partitions(n, T) for o in itertools.permutations(range(n))]
    return _pat[n, T]


def sequential():
    lib().sched_config(0, 1, 0)


def schedule(k, T, rule, sizes):
    """the k-th pattern for loops of the given numbers of iterations, rule for the others"""
    L = lib()
    L.sched_clear()
    L.sched_config(1, T, rule)
    for n in sizes:
        p = patterns(n, T)
        o, a = p[k % len(p)]
        I = ctypes.c_int * n
        L.sched_order(n, I(*o), I(*a))


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    k = 0
    for fi, f in enumerate(TREES3 + [[[0, .5, [1, .5, None, None], None]], [EQ2, [1, .5, None, None]]]):
        for C in ([[]], [[0, 2]], [[1, 2], [0]]):
            for n in ((2, 3, 4) if th else (3,)):
                k += 1
                if th or k % 2 == 0 or C == [[]]:
                    out.append(dict(kind="tree", forest=f, data=DATA[k % 2][:4 if k % 3 else 5], C=C, Ss=[[0], [1, 2]][k % 2], rows=ROWS[k % 3] if n < 4 else ROWS[k % 3] + [[0, 1, 0]], n=n))
    F = TREES3 + forests3(False)[:: 3 if th else 11]
    for j, f in enumerate(F):
        for clf in (1, 0):
            for C in ([[]], [[0, 2]]):
                k += 1
                if th or (j + clf + len(C[0])) % 3 == 0 or j < 2 and C == [[]]:
                    out.append(dict(kind="forest", forest=f, clf=clf, C=C, rows=ROWS[k % 3], data=DATA[k % 2][:4 if k % 3 else 5], n=3, d=3))
    return out


EQ2 = [2, .5, None, None]


def check(ctx, ops, env, n, det, tree):
    I = list(range(n))
    L = lib()
    for op in ops:
        name, f = op[0], op[-1]
        sequential()
        L.sched_clear()
        call = lambda: f(env, I, 10) if tree else f(env, I)
        want = call()
        if want != call():
            ctx.count(not_repeatable_alone=1)
            continue
        if L.sched_stat(0) == 0:
            ctx.count(operations_without_parallel_loops=1)
            continue
        for T in (2, 3) if not ctx.thorough else (2, 3, 4):
            m = 4 if ctx.thorough else n
            P = len(patterns(m, T))
            for k in range(P):
                schedule(k, T, k % 5, (2, 3, 4))
                got = call()
                sequential()
                conflicts = L.sched_stat(4)
                ctx.count(transitions=1, states=L.sched_stat(2), traces=1,
                          memory_accesses=L.sched_stat(3), regions_run=L.sched_stat(0), loops_scheduled=L.sched_stat(1))
                o, a = patterns(m, T)[k]
                how = "with %d threads, iterations given in the order %s to threads %s" % (T, list(o), list(a))
                if conflicts:
                    ctx.violate("%s %s: two threads use the same memory, unordered: %s" % (name, how, text(L.sched_report, 0)), **det)
                    return
                if not (got == want or same(got, want)):
                    ctx.violate("%s %s gives %s, alone it gives %s" % (name, how, got, want), **det)
                    return
    for multi, kind in ((0, "parallel_regions_entered"), (1, "parallel_regions_scheduled")):
        k = 0
        while True:
            t = text(L.sched_region, multi, k)
            if t is None:
                break
            ctx.distinct(kind, t)
            k += 1


def run(prop, task, ctx):
    specs, rows, data = task["forest"], task["rows"], task["data"]
    d = 3
    det = dict(forest=specs, background=data, groups=task["C"], rows=rows)
    sequential()
    if task["kind"] == "tree":
        C, Ss = task["C"], task["Ss"]
        vals = clf_vals(specs, False, 3)[-1]
        rv = reg_vals(specs, False)[0]
        env = dict(a=dict_acv(specs, vals, data), c=dict_acv(specs, vals, data, stub=False, cache=True, C=C), n=dict_acv(specs, vals, data, stub=False, cache_normalized=True, C=C),
                   m=dict_acv(specs, rv, data), X=rows, data=data)
        env["co"] = dict_acv(specs, vals, data, stub=False, cache=True, cache_normalized=True, multi_threads=False, C=[[0, 1]] if C == [[]] else [[]])
        splits = [([0, 1], [2]), ([2], [0, 1]), ([1], [0, 2]), ([0], [1, 2])][:len(rows)]
        check(ctx, tree_ops(d, C, splits, Ss) + more_tree_ops(d, C, Ss), env, len(rows), det, True)
    else:
        clf = task["clf"]
        yd = [float((i * 5 // 3) % (2 if clf else 5)) for i in range(len(data))]
        y = [1.0, 0.0, 1.0] if clf else [1.0, 2.5, 4.0]
        env = dict(a=acx(specs, clf, d), X=rows, y=y, data=data, yd=yd, t=None if clf else [[0.5, 2.5], [1.0, 3.0], [2.0, 5.0]])
        F = [-BIG, BIG]
        check(ctx, acx_ops(d, clf, [[0], [1, 2], [2, 0]], [[[0., .5], F, F], [F, [.5, BIG], [0., 1.]], [F, F, F]], C=task["C"], verbose=True), env, len(rows), det, False)
    ctx.sample(det)

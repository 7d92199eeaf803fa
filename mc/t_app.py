"""The web application (W01): every sequence of interactions with the two pages, on a stand-in for streamlit that records what is shown."""
import sys, types, itertools, random, pickle, re, os, shutil, tempfile, warnings
import numpy as np
import core
from core import *
from t_fit import raw_nodes
from t_shap import leaf_game, shapley


class Place(object):
    """the sidebar, a column, a container: shows on the page"""
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(sys.modules["streamlit"], n)


class Streamlit(types.ModuleType):
    """records what is shown; widgets give the chosen value, or their default if it is not among the options"""
    def __init__(self):
        types.ModuleType.__init__(self, "streamlit")
        self.ui, self.shown, self.memo, self.sidebar = {}, [], None, Place()

    def widget(self, kind, label, default, options=None):
        self.shown.append((kind, label, default, options))
        for k, v in self.ui.items():
            if k in label and (options is None or v in options):
                return v
        return default

    def checkbox(self, label, value=False, **k):
        return self.widget("checkbox", label, value, [True, False])

    def number_input(self, label, min_value=None, max_value=None, value=None, **k):
        v = self.widget("number", label, value)
        if (min_value is not None and v < min_value) or (max_value is not None and v > max_value):
            raise ApiError("number_input %r: %r is not allowed" % (label, v))
        return v

    def selectbox(self, label, options, index=0, **k):
        options = list(options)
        return self.widget("select", label, options[index] if options else None, options)

    def radio(self, label, options, index=0, **k):
        options = list(options)
        return self.widget("radio", "page" + label, options[index], options)

    def columns(self, n, **k):
        return [Place() for _ in range(n if isinstance(n, int) else len(n))]

    def cache(self, func=None, **k):
        if func is None:
            return self.cache
        st = self

        def key(a, kw):
            # as streamlit: the code, the arguments and the values it closes over
            out = [func.__qualname__, func.__code__.co_code]
            for v in list(a) + sorted(kw.items(), key=str) + [c.cell_contents for c in func.__closure__ or () if not isinstance(c.cell_contents, types.FunctionType)]:
                try:
                    out.append(pickle.dumps(v))
                except Exception:
                    out.append(repr(id(v)).encode())
            return repr(out)

        def call(*a, **kw):
            if st.memo is None:
                return func(*a, **kw)
            q = key(a, kw)
            if q not in st.memo:
                st.memo[q] = func(*a, **kw)
            return st.memo[q]
        return call

    cache_data = cache_resource = experimental_memo = cache

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self.shown.append((n,) + a)


class Styled(object):
    """stand-in for pandas' Styler (its template library is not installed): the styles given to each cell"""
    def __init__(self, df):
        self.df, self.css = df, [["" for _ in df.columns] for _ in range(len(df))]

    def apply(self, f, axis=0, subset=None, **kw):
        for i in range(len(self.df)):
            for j, s in enumerate(list(f(self.df.iloc[i], **kw)) if axis in (1, "columns") else []):
                self.css[i][j] = s
        return self


def load():
    st = sys.modules.get("streamlit")
    if not isinstance(st, Streamlit):
        st = sys.modules["streamlit"] = Streamlit()
        import pandas as pd
        pd.DataFrame.style = property(Styled)
    import acv_app
    import acv_app.app
    return st, acv_app


# ---------------------------------------------------------------- data
SETS = [
    dict(rows=[[a, b] for a in (0., 1., 2.) for b in (0., 1., 2.)] * 2, y=lambda r: int(r[0] + r[1] > 2), params=dict(n_estimators=3, min_node_size=1, max_depth=2, seed=1), clf=True),
    dict(rows=[[a / 7. - .3, b / 3., c * 1e-5] for a in (0, 1, 2) for b in (0, 1) for c in (1, 2)] * 2, y=lambda r: int(r[0] * 7 + r[1] * 3 > 1) + int(r[2] > 1.5e-5), params=dict(n_estimators=2, min_node_size=1, max_depth=3, seed=4, replace=False, sample_fraction=1.0), clf=True),
    dict(rows=[[a / 7. - .3, b * .1 + .2, c] for a in (0, 1, 2) for b in (0, 1, 2) for c in (1., 2.)], y=lambda r: int(r[0] > 0) * 3 + r[1] * 10. + r[2] / 3., params=dict(n_estimators=3, min_node_size=1, max_depth=2, seed=3), clf=False),
    dict(rows=[[a + 16777216., -b / 9., c / 11.] for a in (0, 1) for b in (0, 1, 2) for c in (0, 1, 2)], y=lambda r: r[1] * r[2] + r[0] - 16777216., params=dict(n_estimators=2, min_node_size=1, max_depth=3, seed=8, replace=False, sample_fraction=1.0), clf=False),
    dict(rows=[list(map(float, r)) for r in itertools.product((0, 1), repeat=4)] * 2, y=lambda r: int(r[0] and r[1] or r[2] and r[3]), params=dict(n_estimators=4, min_node_size=1, max_depth=4, seed=5), clf=True),
    dict(rows=[[float(a), b * 2.5] for a in (1, 2, 3) for b in (-1, 0, 1)] * 3, y=lambda r: int(r[0] > 1.5 and r[1] > -1), params=dict(n_estimators=3, min_node_size=1, max_depth=2, seed=2, mtry=1), clf=True),
    dict(rows=[[float(i % 2), float(i // 2 % 2)] + [float((i * 7 + j * 3) % 5) for j in range(7)] for i in range(24)], y=lambda r: int(r[0] + r[2] > 2), params=dict(n_estimators=3, min_node_size=1, max_depth=3, seed=6), clf=True),
]
LEVELS = (.7, .9, 1.0)
FORMS = ("array", "frame", "series")


def tasks(prop, tier):
    th = tier == "thorough"
    out = []
    for s in range(len(SETS)):
        n = len({tuple(r) for r in SETS[s]["rows"]})
        out += [dict(kind="data", s=s, form=f) for f in FORMS]
        for nt in (1, 3, 7, n):
            out.append(dict(kind="walk", s=s, tests=nt, form=FORMS[(s + nt) % 3]))
        for k in range(12 if th else 4):
            out.append(dict(kind="history", s=s, tests=6, form=FORMS[(s + k) % 3], k=k, of=12 if th else 4))
        out.append(dict(kind="shapley", s=s, tests=n, form=FORMS[s % 3]))
    out.append(dict(kind="shapley", s=0, tests=103, form="array"))
    vals = (-2., -.5, 0., .75)
    for d in (1, 2, 3):
        for v in itertools.product(vals, repeat=d):
            if any(v) and (th or d < 3 or int(sum(v) * 4) % 3 == 0):
                out.append(dict(kind="waterfall", v=list(v), base=[.25, -1.5, 3.][len(out) % 3], most=10))
    for n, most in ((11, 10), (12, 10), (5, 3), (5, 5), (4, 2), (14, 10), (6, 4)):
        for k in range(4):
            v = [((i * 5 + k * 3) % 13 - 6) / 4. + (i % 3) * .01 for i in range(n)]
            out.append(dict(kind="waterfall", v=[-x for x in v] if k == 2 else v, base=.5 * k, most=most))
    for e in itertools.product((0, .25, 1.0), repeat=3):
        if th or sum(e) % .5 == 0:
            out.append(dict(kind="bars", v=list(e)))
    for k in range(4):
        out.append(dict(kind="bars", v=[((i * 5 + k) % 9 - 4) / 4. for i in range(9)]))
    return out


class Env(object):
    def __init__(self, task, names=True):
        import pandas as pd
        from acv_explainers import ACXplainer
        s = SETS[task["s"]]
        self.rows, self.clf = s["rows"], s["clf"]
        self.d = len(self.rows[0])
        self.y = [s["y"](r) for r in self.rows]
        k = task["tests"]
        # test rows: training rows and rows moved a little, all different orders of magnitude kept
        t = []
        for i in range(k):
            r = list(self.rows[(i * 5) % len(self.rows)])
            if i % 3 == 1:
                r[i % self.d] += .1
            t.append(r)
        self.tests = t
        self.ty = [s["y"](r) for r in t]
        if self.clf:
            self.ty = [self.y[(i * 3) % len(self.y)] if i % 4 == 3 else v for i, v in enumerate(self.ty)]
        np.random.seed(3); random.seed(3)
        self.a = ACXplainer(classifier=self.clf, **s["params"])
        self.D, self.Y = arr(self.rows), np.array(self.y, dtype=np.float64)
        self.T, self.TY = arr(t), np.array(self.ty, dtype=np.float64)
        self.a.fit(self.D, self.Y)
        self.names = ["X%d" % i for i in range(self.d)]
        xs, ys = (self.D.copy(), self.T.copy()), (np.array(self.y), np.array(self.ty))
        if task["form"] != "array":
            self.names = ["f_%s" % "abcdefghijk"[i] for i in range(self.d)]
            xs = [pd.DataFrame(v, columns=self.names, index=range(5, 5 + len(v))) for v in xs]
            if task["form"] == "series":
                ys = [pd.Series(v, index=range(3, 3 + len(v))) for v in ys]
            else:
                ys = [pd.DataFrame({"target": v}) for v in ys]
        self.given = xs[0], ys[0], xs[1], ys[1]
        self.st, self.app = load()
        self.dir = tempfile.mkdtemp(prefix="acv-app-")
        self.ref = {}

    def compile(self):
        self.app.compile_ACXplainers(self.a, self.given[0], self.given[1], self.given[2], self.given[3], self.dir)

    def show(self, ui):
        self.st.ui, self.st.shown = ui, []
        np.random.seed(11); random.seed(11)
        try:
            self.app.app.main(self.dir)
        except Exception as ex:
            if isinstance(ex, (ApiError, KeyboardInterrupt)):
                raise
            tb = []
            t = ex.__traceback__
            while t is not None:
                tb.append(t.tb_frame.f_code.co_filename)
                t = t.tb_next
            if any("/acv_app/" in f or "/acv_explainers/" in f or "ext_acv" in f for f in tb):
                raise ApiError("the page failed with %r after the choices %s" % (ex, ui))
            raise
        return self.st.shown

    def family(self, i, level):
        """the sufficient explanations of test row i, from the explainer that was saved"""
        if (i, level) not in self.ref:
            f, p, g = self.a.sufficient_expl_rf(self.T[i:i + 1], self.TY[i:i + 1], self.D, self.Y, stop=False, pi_level=level)
            self.ref[i, level] = [list(map(int, S)) for S in f[0]], [float(v) for v in p[0]]
        return self.ref[i, level]

    def rule(self, i, S):
        k = (i, tuple(S))
        if k not in self.ref:
            self.ref[k] = tolist(self.a.compute_sdp_rule(self.T[i:i + 1], self.TY[i:i + 1], self.D, self.Y, S=[list(S)])[1][0])
        return self.ref[k]

    def related(self, i, S, level):
        k = (i, tuple(S), level)
        if k not in self.ref:
            np.random.seed(2); random.seed(2)
            r = self.a.compute_sdp_maxrules(self.T[i:i + 1], self.TY[i:i + 1], self.D, self.Y, S=[list(S)], pi_level=level, max_iter=1)
            self.ref[k] = float(r[0][0]), [float(v) for v in r[2][0]], [float(v) for v in r[4][0]]
        return self.ref[k]

    def shapley(self):
        if "sv" not in self.ref:
            f = self.a.model.ranger_forest_["forest"]
            out = None
            K = len(set(self.y)) if self.clf else 1
            cl = sorted(set(self.y))
            res = [[[0.0] * K for _ in range(self.d)] for _ in self.tests]
            nt = f["num_trees"]
            for k in range(nt):
                L, R, F, TH = raw_nodes(f, k)

                def spec(n):
                    return None if L[n] < 0 else [F[n], TH[n], spec(L[n]), spec(R[n])]
                s = spec(0)
                where = [route(s, r) for r in self.rows]
                val = []
                for l in range(n_leaves(s)):
                    ys = [self.y[i] for i in range(len(self.rows)) if where[i] == l]
                    if not ys:
                        val.append([0.0] * K)
                    else:
                        val.append([ys.count(c) / float(len(ys)) for c in cl] if self.clf else [sum(ys) / float(len(ys))])
                for i, x in enumerate(self.tests):
                    for l, v in enumerate(leaf_game(s, self.rows, x, self.d)):
                        phi = shapley(v, [[j] for j in range(self.d)], self.d)
                        for j in range(self.d):
                            for q in range(K):
                                res[i][j][q] += phi[j] * val[l][q] / nt
            p = self.a.predict_proba(self.T).tolist() if self.clf else [[v] for v in self.a.predict(self.T).tolist()]
            q = 1 if K > 1 else 0
            self.ref["sv"] = [[r[q] for r in x] for x in res], sum(v[q] for v in p) / float(len(p))
        return self.ref["sv"]

    def close(self):
        import matplotlib.pyplot as plt
        plt.close("all")
        shutil.rmtree(self.dir, ignore_errors=True)


RULE = re.compile(r"(-?inf|-?[0-9.]+(?:e[-+]?[0-9]+)?)\s*<=?\s*(\w+)\s*<=?\s*\+?(-?inf|-?[0-9.]+(?:e[-+]?[0-9]+)?)")


def read_rule(s, names):
    out = {}
    for lo, n, hi in RULE.findall(s):
        if n not in names or n in out:
            return None
        out[n] = (float(lo), float(hi))
    return out


def flat_text(shown, kind):
    return [s for s in shown if s[0] == kind]


def check_bars(fig_ax, importance, names, values, most):
    """horizontal bars: features in decreasing order of magnitude, each with its name, value and number"""
    from matplotlib.patches import Rectangle
    bars = [p for p in fig_ax.patches if isinstance(p, Rectangle)]
    bars = sorted([(p.get_y() + p.get_height() / 2., p.get_width(), p.get_facecolor()) for p in bars], reverse=True)
    d = len(importance)
    n = min(most, d)
    if len(bars) != n:
        return "%d bars for %d features" % (len(bars), d)
    labels = dict(zip([float(v) for v in fig_ax.get_yticks()], [t.get_text() for t in fig_ax.get_yticklabels()]))
    seen = []
    for pos, w, col in bars:
        lab = [t for p, t in labels.items() if abs(p - pos) < 1e-6]
        if len(lab) != 1:
            return "the bar at %s has the labels %s" % (pos, lab)
        name, eq, val = lab[0].partition(" = ")
        if name not in names or name in seen:
            return "the bar at %s is labelled %r" % (pos, lab[0])
        j = names.index(name)
        if not close(w, importance[j]):
            return "%s has a bar of length %r instead of %r" % (name, w, importance[j])
        if values is not None and (not eq or float(val) != values[j]):
            return "%s is shown with the value %r instead of %r" % (name, val, values[j])
        if seen and abs(importance[j]) > abs(importance[names.index(seen[-1])]) + 1e-12:
            return "%s is shown below %s" % (name, seen[-1])
        t = [t.get_text() for t in fig_ax.texts if abs(t.get_position()[1] - pos) < .3]
        if len(t) != 1 or abs(float(t[0]) - importance[j]) > 5.1e-4:
            return "%s has the number %s instead of %r" % (name, t, importance[j])
        seen.append(name)
    rest = [abs(v) for j, v in enumerate(importance) if names[j] not in seen]
    if rest and max(rest) > min(abs(importance[names.index(s)]) for s in seen) + 1e-12:
        return "a feature of importance %s is not shown" % max(rest)
    return None


def num(s):
    return float(s.replace(u"\u2212", "-").replace("$", "").replace("=", "").strip())


def check_waterfall(fig, base, sv, values, names, most):
    from matplotlib.patches import FancyArrow
    ax = fig.axes[0]
    d = len(sv)
    n = min(most, d)
    fx = base + sum(sv)
    arrows = {}
    for p in ax.patches:
        if isinstance(p, FancyArrow):
            xy = np.asarray(p.get_xy())
            y = (xy[:, 1].min() + xy[:, 1].max()) / 2
            tip = [x for x, yy in xy.tolist() if abs(yy - y) < 1e-9]
            arrows.setdefault(int(round(y)), []).append((float(xy[:, 0].min()), float(xy[:, 0].max()), tip, p.get_facecolor()))
    labels = {}
    for p, t in zip(ax.get_yticks(), ax.get_yticklabels()):
        labels.setdefault(int(round(float(p))), []).append(t.get_text())
    if sorted(arrows) != list(range(n)) or any(len(v) != 1 for v in arrows.values()):
        return "arrows at %s for %d features" % (sorted(arrows), d)
    tol = 1e-5 + 1e-6 * (abs(base) + sum(map(abs, sv)))
    red = {}
    loc = fx
    seen = []
    for pos in range(n - 1, -1, -1):
        lo, hi, tip, col = arrows[pos][0]
        ls = labels.get(pos, [])
        if n < d and pos == 0:
            v = sum(sv[j] for j in range(d) if j not in seen)
            k = [re.match(r"(\d+) other", t) for t in ls]
            if not any(m and int(m.group(1)) == d - len(seen) for m in k):
                return "the last arrow stands for %d features and is labelled %s" % (d - len(seen), ls)
        else:
            got = None
            for t in ls:
                a, eq, b = t.partition(" = ")
                if eq and b in names:
                    got = (a, names.index(b))
            if got is None or got[1] in seen:
                return "the arrow at %d is labelled %s" % (pos, ls)
            j = got[1]
            if values is not None and abs(num(got[0]) - values[j]) > 5.1e-4 * (1 + 1e-9 * abs(values[j])):
                return "%s is shown with the value %s instead of %r" % (names[j], got[0], values[j])
            if seen and abs(sv[j]) > abs(sv[seen[-1]]) + 1e-9:
                return "%s is shown below %s" % (names[j], names[seen[-1]])
            seen.append(j)
            v = sv[j]
            if not all(names[j] in t for t in ls):
                return "the arrow at %d has the labels %s" % (pos, ls)
        a, b = min(loc, loc - v), max(loc, loc - v)
        if abs(lo - a) > tol or abs(hi - b) > tol:
            return "the arrow of %s runs from %r to %r instead of %r to %r" % (ls, lo, hi, a, b)
        if abs(v) > 1e-3:
            if not any(abs(t - loc) < tol for t in tip):
                return "the arrow of %s does not point to %r" % (ls, loc)
            red.setdefault(v > 0, set()).add(tuple(col))
        t = [t.get_text() for t in ax.texts if abs(t.get_position()[1] - pos) < .3]
        if len(t) != 1 or abs(num(t[0]) - v) > 5.1e-3:
            return "the arrow of %s has the number %s instead of %r" % (ls, t, v)
        loc -= v
    left = [j for j in range(d) if j not in seen]
    if left and max(abs(sv[j]) for j in left) > min([abs(sv[j]) for j in seen] or [9e9]) + 1e-9:
        return "features %s are grouped though more important than shown ones" % left
    if len(red) == 2 and red[True] & red[False] or any(len(c) > 1 for c in red.values()):
        return "the colours of the arrows do not tell positive from negative"
    shown = [[t.get_text() for t in a.get_xticklabels()] for a in fig.axes[1:]]
    for what, v in (("E[f(X)]", base), ("f(x)", fx)):
        ok = [ts for ts in shown if any(what in t and ("E[" in what or "E[" not in t) for t in ts)]
        if len(ok) != 1 or not any(abs(num(t) - v) < 5.1e-4 for t in ok[0] if "=" in t):
            return "%s is shown as %s instead of %r" % (what, ok, v)
    return None


def show_error(ctx, env, ui, what, **kw):
    ctx.violate("the page with the choices %s: %s" % (ui, what), training_rows=env.rows, targets=env.y, test_rows=env.tests, test_targets=env.ty, **kw)
    return False


def check_sdp(ctx, env, ui, shown, seen=None):
    """what the page about sufficient explanations shows"""
    i = ui.get("observation", 0)
    level = ui.get("SDP MIN", .9)
    nb = ui.get("SAMPLE SIZE", 10)
    bad = lambda what: show_error(ctx, env, ui, what)
    opts = [s[3] for s in shown if s[0] == "select" and "observation" in s[1]]
    n = min(nb, len(env.tests))
    if len(opts) != 1 or opts[0] != list(range(n)):
        return bad("the observations offered are %s; there are %d in the sample" % (opts, n))
    fam, p = env.family(i, level)
    ctx.count(states=1, transitions=1)
    if not fam:
        ctx.count(without_explanation=1)
        if not any(s[0] == "text" and "No explanation" in s[1] for s in shown) or flat_text(shown, "dataframe"):
            return bad("the observation has no explanation, shown: %s" % [s[0] for s in shown])
        return True
    if any(s[0] == "text" and "No explanation" in str(s[1]) for s in shown):
        return bad("no explanation is shown, the observation has %s" % fam)
    ctx.count(with_explanation=1)
    frames = [s[1] for s in shown if s[0] == "dataframe"]
    tables = [f for f in frames if not isinstance(f, Styled)]
    lists = [f for f in tables if "SDP" in f.columns and "Sufficient explanations" in f.columns]
    if len(lists) != 1:
        return bad("%d tables of explanations" % len(lists))
    got = [(sorted(a.split(" - ")), float(b)) for a, b in zip(lists[0]["Sufficient explanations"], lists[0]["SDP"])]
    want = [(sorted(env.names[j] for j in S), q) for S, q in zip(fam, p)]
    if sorted(got) != sorted(want) or len(got) != len(want):
        return bad("the explanations %s are shown, the observation has %s" % (got, want))
    imp = [sum(1 for S in fam if j in S) / float(len(fam)) for j in range(env.d)]
    figs = [s[1] for s in shown if s[0] == "pyplot"]
    if len(figs) != 1:
        return bad("%d figures" % len(figs))
    e = check_bars(figs[0].axes[0], imp, env.names, env.tests[i], 7)
    if e:
        return bad("local importance: " + e)
    import matplotlib.pyplot as plt
    plt.close("all")
    opts = [s[3] for s in shown if s[0] == "select" and "explanations" in s[1]]
    if len(opts) != 1 or opts[0] != list(range(len(fam))):
        return bad("the explanations offered are %s, there are %d" % (opts, len(fam)))
    k = ui.get("explanations", 0)
    k = k if k in opts[0] else 0
    # the explanation meant by number k is the k-th of the list shown
    S = sorted(env.names.index(v) for v in got[k][0])
    styled = [f for f in frames if isinstance(f, Styled)]
    if len(styled) != 1 or len(styled[0].df) != 1:
        return bad("%d highlighted observations" % len(styled))
    row, css = styled[0].df.iloc[0], styled[0].css[0]
    if [float(row[v]) for v in env.names] != env.tests[i] or float(row["Output"]) != env.ty[i] or float(row["SDP"]) != got[k][1]:
        return bad("the observation is shown as %s, it is %s with output %s and probability %s" % (dict(row), env.tests[i], env.ty[i], got[k][1]))
    high = [j for j, v in enumerate(env.names) if css[list(styled[0].df.columns).index(v)]]
    if high != S:
        return bad("features %s are highlighted, the explanation is %s" % (high, S))
    texts = [s[1] for s in shown if s[0] == "markdown"]
    rules = [r for r in (read_rule(t, env.names) for t in texts) if r is not None]
    on = bool(ui.get("Compute", False))
    if len(rules) != 1 + on:
        return bad("%d rules are shown" % len(rules))

    def box(own):
        return {env.names[j]: (float(own[j][0]) if own[j][0] > -1e10 else -np.inf, float(own[j][1]) if own[j][1] < 1e10 else np.inf) for j in S}
    own = env.rule(i, S)
    if rules[0] != box(own):
        return bad("the rule %s is shown for explanation %s, it is %s" % (texts[0], S, box(own)))
    if on:
        r = rules[1]
        if sorted(r) != sorted(env.names[j] for j in S):
            return bad("the maximal rule is about %s, the explanation is %s" % (sorted(r), S))
        if any(r[v][0] > box(own)[v][0] or r[v][1] < box(own)[v][1] for v in r):
            return bad("the maximal rule %s does not contain the rule %s" % (r, box(own)))
        inside = [q for q, x in enumerate(env.rows) if all(r[env.names[j]][0] <= x[j] <= r[env.names[j]][1] for j in S)]
        own_p, others, w = env.related(i, S, level)
        if own_p >= level + 1e-9:
            low = [q for q in inside if w[q] and others[q] < level - 1e-9]
            if low:
                return bad("the maximal rule %s contains row %s, whose probability %r is below the level" % (r, env.rows[low[0]], others[low[0]]))
            ctx.count(maximal_rules=1, enlarged=int(r != box(own)))
        info = [f for f in tables if any("overage" in str(c) for c in f.columns)]
        if len(info) != 1 or len(info[0]) != 1:
            return bad("%d tables about the maximal rule" % len(info))
        cov = float(info[0][[c for c in info[0].columns if "overage" in str(c)][0]][0])
        acc = float(info[0][[c for c in info[0].columns if "ccuracy" in str(c)][0]][0])
        if not close(cov, len(inside) / float(len(env.rows))):
            return bad("the maximal rule has coverage %r, it covers %d of %d rows" % (cov, len(inside), len(env.rows)))
        ys = [env.y[q] for q in inside]
        if env.clf:
            wa = max(ys.count(c) for c in set(ys)) / float(len(ys)) if ys else None
        else:
            m = sum(ys) / float(len(ys)) if ys else 0
            wa = sum((v - m) ** 2 for v in ys) / len(ys) if ys else None
        if wa is not None and not close(acc, wa, 1e-6):
            return bad("the maximal rule has accuracy %r, it is %r" % (acc, wa))
    return True


def check_sv(ctx, env, ui, shown):
    i = ui.get("observation", 0)
    bad = lambda what: show_error(ctx, env, ui, what)
    opts = [s[3] for s in shown if s[0] == "select" and "observation" in s[1]]
    if len(opts) != 1 or opts[0][:100] != list(range(min(100, len(env.tests)))):
        return bad("the observations offered are %s" % opts)
    if i not in opts[0]:
        return True
    sv, base = env.shapley()
    figs = [s[1] for s in shown if s[0] == "pyplot"]
    ctx.count(states=1, transitions=1, waterfalls=1)
    if len(figs) != 1:
        return bad("%d figures" % len(figs))
    e = check_waterfall(figs[0], base, sv[i], env.tests[i], env.names, 10)
    import matplotlib.pyplot as plt
    plt.close("all")
    return True if e is None else bad("Shapley values: " + e)


SV = "Shapley based Explanations"


def run(prop, task, ctx):
    warnings.simplefilter("ignore")
    st, app = load()
    kind = task["kind"]
    if kind in ("waterfall", "bars"):
        import matplotlib.pyplot as plt
        from acv_app import plots
        n = len(task["v"])
        names = ["f%d" % j for j in range(n)]
        values = [(-1.25, 3., .5, 1200., 0., -.001)[j % 6] for j in range(n)]
        ctx.count(states=1, transitions=1, traces=1)
        if kind == "waterfall":
            fig = plots.waterfall(task["base"], np.array(task["v"]), np.array(values), names, max_display=task["most"])
            e = check_waterfall(fig, task["base"], task["v"], values, names, task["most"])
        else:
            plt.figure()
            plots.bar_legacy(np.array(task["v"]), np.array(values), names)
            e = check_bars(plt.gca(), task["v"], names, values, 7)
        plt.close("all")
        if e:
            ctx.violate("%s: %s" % (kind, e), shapley_values=task["v"], base=task.get("base"), values=values)
        return
    if kind == "data":
        return saved(ctx, task)
    env = Env(task)
    try:
        env.compile()
        st.memo = None
        ctx.count(traces=1)
        if kind == "shapley":
            for i in range(len(env.tests)):
                if len(env.tests) > 40 and i % 17 != 0:
                    continue
                ui = {"page": SV, "observation": i}
                if not check_sv(ctx, env, ui, env.show(ui)):
                    return
        elif kind == "walk":
            for i in range(min(10, len(env.tests))):
                for level in LEVELS:
                    fam, _ = env.family(i, level)
                    for k in range(len(fam) or 1):
                        for on in (False, True) if (i + k) % 2 == 0 and fam else (False,):
                            ui = {"observation": i, "SDP MIN": level, "explanations": k, "Compute": on}
                            if not check_sdp(ctx, env, ui, env.show(ui)):
                                return
            for nb in (5, 6, 500):
                for i in {0, min(nb, len(env.tests)) - 1}:
                    ui = {"observation": i, "SAMPLE SIZE": nb}
                    if not check_sdp(ctx, env, ui, env.show(ui)):
                        return
        else:
            events = [("observation", 0), ("observation", 3), ("observation", 5), ("SDP MIN", .7), ("SDP MIN", 1.0), ("explanations", 1), ("explanations", 0), ("Compute", True), ("Compute", False), ("page", SV), ("page", "SDP based explanations")]
            hs = [h for h in itertools.product(events, repeat=3) if h[0][0] != "page" and all(a != b for a, b in zip(h, h[1:]))]
            for h in hs[task["k"]::task["of"] * (1 if ctx.thorough else 16)]:
                st.memo = {}
                ui = {"Compute": True}
                ctx.count(traces=1)
                for k, v in h:
                    ui = dict(ui, **{k: v})
                    shown = env.show(ui)
                    if not (check_sv if ui.get("page") == SV else check_sdp)(ctx, env, ui, shown):
                        return
            st.memo = None
        ctx.sample(dict(rows=env.rows[:4], tests=env.tests[:3], choices=ui))
    finally:
        st.memo = None
        env.close()


def saved(ctx, task):
    """explainers saved for the application answer as the ones given"""
    from joblib import load as jload
    from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor
    env = Env(dict(task, tests=5))
    try:
        before = [g.copy() if not hasattr(g, "values") else g.values.copy() for g in env.given]
        env.compile()
        for g, b in zip(env.given, before):
            if not np.array_equal(g.values if hasattr(g, "values") else g, b):
                return show_error(ctx, env, {}, "saving changes the data given")
        ctx.count(states=1, traces=1)
        for name in ("acvtree.joblib", "acvtree_agnostic.joblib"):
            b = jload(os.path.join(env.dir, name))
            for S in subsets(range(env.d), 1)[:20]:
                SL = [list(S)] * len(env.tests)
                for q in ("compute_sdp_rf", "compute_sdp_rule", "compute_exp_rf"):
                    x, y = [tolist(getattr(e, q)(env.T, env.TY, env.D, env.Y, SL)) for e in (env.a, b)]
                    ctx.count(transitions=1)
                    if x != y:
                        return show_error(ctx, env, {}, "%s of the saved explainer gives %s instead of %s" % (q, y, x))
            if tolist(env.a.predict(env.T)) != tolist(b.predict(env.T)):
                return show_error(ctx, env, {}, "predictions of the saved explainer differ")
        m = (RandomForestClassifier if env.clf else RandomForestRegressor)(n_estimators=3, max_depth=3, random_state=1).fit(env.D, np.array(env.y))
        env.app.compile_acv(m, env.given[0], env.given[1], env.given[2], env.given[3], env.dir)
        from acv_explainers import ACVTree
        a, b = ACVTree(m, env.D), jload(os.path.join(env.dir, "acvtree.joblib"))
        ctx.count(states=1, transitions=1)
        if tolist(a.shap_values(env.T, C=[[]])) != tolist(b.shap_values(env.T, C=[[]])):
            return show_error(ctx, env, {}, "Shapley values of the saved tree explainer differ")
        import pandas as pd
        jload(os.path.join(env.dir, "acvtree_agnostic.joblib"))
        for name, want in (("x_train", env.rows), ("y_train", env.y), ("x_test", env.tests), ("y_test", env.ty)):
            t = pd.read_csv(os.path.join(env.dir, name + ".csv"), float_precision="round_trip")
            if [list(map(float, r)) for r in t.values] != ([list(map(float, r)) for r in want] if name[0] == "x" else [[float(v)] for v in want]):
                return show_error(ctx, env, {}, "%s is saved as %s" % (name, t.values.tolist()))
            if name[0] == "x" and list(t.columns) != env.names:
                return show_error(ctx, env, {}, "the features are saved as %s" % list(t.columns))
        ctx.sample(dict(rows=env.rows[:4]))
    finally:
        env.close()

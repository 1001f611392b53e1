"""C25: every way of passing the data gives the crate's results."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from base import *
from pc import Space, digits, prod
from forust import GradientBooster


def cells(kind):
    return {"bool": ["int64", "int8", "uint8", "bool", "float32", "float16"], "int": ["int64", "int8", "float32", "float16"], "uint8": ["int64", "uint8", "int16", "float32"], "half": ["float32", "float16"], "f64": []}[kind]


def frame(x, names, **k):
    return pd.DataFrame(x, columns=names[: x.shape[1]], **k)


def x_reps():
    """(name, needs dtype, is frame, builder(x, names))"""
    R = []

    def add(n, dt, fr, f):
        R.append((n, dt, fr, f))

    add("array-C", None, False, lambda x, n: np.ascontiguousarray(x))
    add("array-F", None, False, lambda x, n: np.asfortranarray(x))
    add("array-rowstep", None, False, lambda x, n: np.repeat(x, 2, axis=0)[::2])
    add("array-rowstep-F", None, False, lambda x, n: np.asfortranarray(np.repeat(x, 3, axis=0))[1::3])
    add("array-colstep", None, False, lambda x, n: np.repeat(x, 2, axis=1)[:, ::2])
    add("array-reversed", None, False, lambda x, n: np.ascontiguousarray(x[::-1])[::-1])
    add("array-colreversed", None, False, lambda x, n: np.ascontiguousarray(x[:, ::-1])[:, ::-1])
    add("array-transposed", None, False, lambda x, n: np.ascontiguousarray(x.T).T)
    add("array-window", None, False, lambda x, n: np.pad(x, 2, constant_values=77.0)[2:-2, 2:-2])

    def ro(x, n):
        a = x.copy()
        a.setflags(write=False)
        return a

    add("array-readonly", None, False, ro)
    add("array-object", None, False, lambda x, n: x.astype(object))
    for dt in ["float32", "float16", "int64", "int16", "int8", "uint8", "bool"]:
        add("array-" + dt, dt, False, lambda x, n, dt=dt: x.astype(dt))
        add("array-F-" + dt, dt, False, lambda x, n, dt=dt: np.asfortranarray(x.astype(dt)))
    add("frame", None, True, lambda x, n: frame(x.copy(), n))
    add("frame-F", None, True, lambda x, n: frame(np.asfortranarray(x), n))
    add("frame-columns", None, True, lambda x, n: pd.DataFrame({n[j]: x[:, j].copy() for j in range(x.shape[1])}))
    add("frame-rowstep", None, True, lambda x, n: frame(np.repeat(x, 2, axis=0), n).iloc[::2])
    add("frame-shuffled-index", None, True, lambda x, n: frame(x.copy(), n, index=[(i * 7 + 3) % 101 for i in range(x.shape[0])]))
    add("frame-selected", None, True, lambda x, n: pd.DataFrame({**{"zz": np.ones(x.shape[0])}, **{n[j]: x[:, j] for j in reversed(range(x.shape[1]))}})[n[: x.shape[1]]])
    add("frame-object", None, True, lambda x, n: frame(x.copy(), n).astype(object))
    for dt in ["float32", "int64", "uint8", "bool"]:
        add("frame-" + dt, dt, True, lambda x, n, dt=dt: frame(x.astype(dt), n))
        add("frame-mixed-" + dt, dt, True, lambda x, n, dt=dt: frame(x.copy(), n).astype({n[0]: dt}))
    return R


def y_reps():
    R = [
        ("array", lambda y: y.copy()),
        ("strided", lambda y: np.repeat(y, 2)[::2]),
        ("reversed", lambda y: np.ascontiguousarray(y[::-1])[::-1]),
        ("column", lambda y: np.stack([y, y * 0 - 5], axis=1)[:, 0]),
        ("series", lambda y: pd.Series(y.copy(), index=[(i * 5 + 2) % 103 for i in range(len(y))])),
        ("series-step", lambda y: pd.Series(np.repeat(y, 3)).iloc[::3]),
        ("float32", lambda y: y.astype("float32")),
        ("object", lambda y: pd.Series(y).astype(object)),
    ]
    return R


Y_ONLY = [("int64", lambda y: y.astype("int64")), ("bool", lambda y: y.astype(bool)), ("series-int8", lambda y: pd.Series(y.astype("int8")))]


def fits_dtype(d, dt):
    return dt is None or dt in cells(d.kind)


def key_names(kw, names):
    kw = dict(kw)
    if "monotone_constraints" in kw:
        kw["monotone_constraints"] = {names[f]: c for f, c in kw["monotone_constraints"].items()}
    if "terminate_missing_features" in kw:
        kw["terminate_missing_features"] = [names[f] for f in kw["terminate_missing_features"]]
    return kw


def check_pd(m, X, d, ref_pd, pts, names, is_frame, st):
    table = {}
    for (f, v), p in zip(pts, ref_pd):
        table[(f, "nan" if np.isnan(v) else v)] = unnum(p)
    for f in range(d.cols):
        sel = [f] + ([names[f]] if is_frame and isinstance(names[f], str) else [])  # an int is a position
        col = d.x[:, f]
        vals = np.unique(col[~np.isnan(col)])
        if len(vals) > 12:
            continue
        for s in sel:
            for ex in (True, False):
                got = m.partial_dependence(X, feature=s, samples=None, exclude_missing=ex)
                xs = list(vals) if ex else ["nan"] + list(vals)
                need(got.shape == (len(xs), 2), lambda: "partial dependence of %r has shape %s instead of %s" % (s, got.shape, (len(xs), 2)))
                for row, x in zip(got, xs):
                    need((np.isnan(row[0]) if x == "nan" else row[0] == x), lambda: "partial dependence of %r lists value %r instead of %r" % (s, row[0], x))
                    w = table[(f, x)]
                    need(abs(row[1] - w) <= 1e-9 * (1 + abs(w)), lambda: "partial dependence of %r at %r is %r, the crate gives %r" % (s, x, row[1], w))
                    st.checks += 1
            if len(vals):
                got = m.partial_dependence(X, feature=s, samples=4, percentile_bounds=(0.1, 0.8))
                want = np.quantile(col[~np.isnan(col)], np.linspace(0.1, 0.8, num=4))
                need(got.shape == (4, 2) and np.allclose(got[:, 0], want, rtol=1e-12, atol=1e-12), lambda: "partial dependence of %r is evaluated at %s instead of %s" % (s, got[:, 0], want))


def layout_case(d, ci, rep, X, names, is_frame, w, st, pars):
    kw = cfgs(d.cols)[ci]
    nm = names[: d.cols]
    args = key_names(kw, nm) if is_frame else kw
    m = GradientBooster(**args)
    es = kw.get("early_stopping_rounds") is not None
    evals = [(X, d.y, w)] if es else None
    r = m.fit(X, d.y, sample_weight=w, evaluation_data=evals)
    need(r is m, "fit does not return the estimator")
    pts = pd_points(d.x)
    ref = reference(kw, d, w, [(d, w)] if es else None, d.x, pts, key=("layout", d.key, ci))
    same_model(m.json_dump(), ref["model"])
    compare_reads(m, X, ref, d.rows, d.cols, nm if is_frame else None, st, pars)
    check_pd(m, X, d, ref["pd"], pts, nm, is_frame, st)
    fi = m.feature_importances_
    want = [unnum(ref["importance"]["Gain-true"].get(str(j), 0.0)) for j in range(d.cols)]
    need(fi.shape == (d.cols,) and np.allclose(fi, want, atol=1e-6, equal_nan=True), lambda: "feature_importances_ %s instead of %s" % (fi, want))
    need(m.n_features_ == d.cols, "n_features_ is %r" % m.n_features_)
    need(m.number_of_trees == ref["trees"] and m.best_iteration == ref["best_iteration"] and m.get_best_iteration() == ref["best_iteration"] and m.prediction_iteration == ref["prediction_iteration"], "iteration properties differ from the crate's")
    if is_frame:
        need(m.feature_names_in_ == nm, lambda: "feature_names_in_ is %r" % (m.feature_names_in_,))
    else:
        need(not hasattr(m, "feature_names_in_"), "feature_names_in_ set by an array")
    h = m.get_evaluation_history()
    if ref["history"] is None:
        need(h is None, "evaluation history without evaluation data")
    else:
        need(h.shape == tuple(ref["history"][:2]), "evaluation history has shape %s" % (h.shape,))
        same_floats("evaluation history", h, ref["history"][2])
    st.states += 1
    st.transitions += 1
    st.traces += 1
    if any(len(t["nodes"]) > 1 for t in json.loads(ref["model"])["trees"]):
        st.nontrivial += 1
    return m, ref


def spaces(th):
    out = []
    XR, YR = x_reps(), y_reps()
    rad = [len(XR), NDATA, NCFG]

    def layouts(i, st):
        a, b, c = digits(i, rad)
        name, dt, fr, f = XR[a]
        d = data(b)
        if not fits_dtype(d, dt):
            return
        X = f(d.x.copy(), NAMES)
        before = X.copy()
        try:
            m, ref = layout_case(d, c, name, X, NAMES, fr, d.w, st, (None, True, False))
            # selecting fewer trees
            for it in (1, 2):
                if it <= ref["trees"]:
                    m.set_prediction_iteration(it)
                    r2 = reference(cfgs(d.cols)[c], d, d.w, [(d, d.w)] if cfgs(d.cols)[c].get("early_stopping_rounds") is not None else None, d.x, [], prediction_iteration=it, key=("it", d.key, c, it))
                    compare_reads(m, X, r2, d.rows, d.cols, NAMES[: d.cols] if fr else None, st)
            # other layouts of the same rows, one row, no row
            sub = X.iloc[[0]] if fr else X[:1]
            same_floats("predict on one row", m.predict(sub), r2["predict"][:1])
            # every number of rows, where the shape of the results could be mistaken
            for n in range(1, min(d.rows, 9)):
                sub = X.iloc[:n] if fr else X[:n]
                li = m.predict_leaf_indices(sub)
                nt = r2["prediction_iteration"]
                need(li.shape == (n, nt) and (li == np.array(r2["leaves"], dtype="int64").reshape(nt, d.rows).T[:n]).all(), "leaf indices of %d rows" % n)
                for me in r2["contributions"]:
                    same_floats("%s contributions of %d rows" % (me, n), m.predict_contributions(sub, method=me), [v for v in r2["contributions"][me][: n * (d.cols + 1)]])
            none = X.iloc[:0] if fr else X[:0]
            need(m.predict(none).shape == (0,) and m.predict_contributions(none).shape == (0, d.cols + 1), "predictions for no rows")
        except Bad as e:
            raise Bad("%s (data passed as %s)" % (e, name))
        if fr:
            need(before.equals(X) and list(before.dtypes) == list(X.dtypes), "the caller's data were modified")
        else:
            need(((before == X) | ((before != before) & (X != X))).all(), "the caller's data were modified")

    out.append(Space("layouts", "%d representations of the data (arrays in C/F order, stepped, reversed, transposed, windowed, read-only, 8 dtypes; frames of 13 kinds) x %d data sets x %d parameter settings; every predict-type call, 3 parallel settings, 3 prediction iterations, compared with the crate" % (len(XR), NDATA, NCFG), prod(rad), layouts))

    YR2 = YR + Y_ONLY
    WR = [("none", None)] + YR
    xs = [0, 1, 25, 28]
    rad2 = [len(YR2), len(WR), 4, 4, 3, 3]

    def targets(i, st):
        a, b, c, xi, dk, ck = digits(i, rad2)
        d = data([1, 2, 4][dk])
        ci = [0, 5, 6][ck]
        name, dt, fr, f = XR[xs[xi]]
        kw = cfgs(d.cols)[ci]
        if c == 0:
            kw = {k: v for k, v in kw.items() if k != "early_stopping_rounds"}
        X = f(d.x.copy(), NAMES)
        y = YR2[a][1](d.y)
        w = None if b == 0 else WR[b][1](d.w)
        wv = np.ones(d.rows) if b == 0 else d.w
        d2 = Data(d.x[::-1].copy(), d.y[::-1].copy(), d.w[::-1].copy(), d.kind, ("rev", d.key))
        X2 = f(d2.x.copy(), NAMES)
        y2 = YR2[a][1](d2.y)
        w2 = YR2[b % len(YR)][1](d2.w)
        ev, rev = [(None, None), ([(X2, y2)], [(d2, np.ones(d.rows))]), ([(X2, y2, w2)], [(d2, d2.w)]), ([(X, y, YR[b % len(YR)][1](d.w)), (X2, y2)], [(d, d.w), (d2, np.ones(d.rows))])][c]
        m = GradientBooster(**(key_names(kw, NAMES) if fr else kw))
        m.fit(X, y, sample_weight=w, evaluation_data=ev)
        ref = reference(kw, d, wv, rev, d.x, [], key=("targets", d.key, ci, b == 0, c))
        what = "target as %s, weights as %s, data as %s" % (YR2[a][0], WR[b][0], name)
        try:
            same_model(m.json_dump(), ref["model"])
            same_floats("predict", m.predict(X), ref["predict"])
            h = m.get_evaluation_history()
            if c:
                need(h.shape == tuple(ref["history"][:2]), "evaluation history has shape %s" % (h.shape,))
                same_floats("evaluation history", h, ref["history"][2])
        except Bad as e:
            raise Bad("%s (%s)" % (e, what))
        st.states += 1
        st.transitions += 1
        st.traces += 1
        st.checks += 3
        st.nontrivial += 1

    out.append(Space("targets", "%d representations of the target x %d of the weights x 4 kinds of evaluation data x 4 of the data x 3 data sets x 3 settings" % (len(YR2), len(WR)), prod(rad2), targets))

    radw = [len(WIDE), NCFG, 5]

    def wide_case(i, st):
        k, c, how = digits(i, radw)
        d = wide(k)
        nm = wide_names(d.cols, how % 3)
        fr = how < 3
        X = pd.DataFrame(d.x.copy(), columns=nm) if fr else (np.asfortranarray(d.x) if how == 3 else d.x.copy())
        kw = dict(cfgs(d.cols)[c])
        if c == 4:
            kw["monotone_constraints"] = {j: 1 if j % 2 else -1 for j in range(d.cols) if j % 3 != 1}
            kw["terminate_missing_features"] = [j for j in range(d.cols) if j % 4 == 2]
        m = GradientBooster(**(key_names(kw, nm) if fr else kw)).fit(X, d.y, sample_weight=d.w, evaluation_data=[(X, d.y, d.w)])
        pts = [(j, v) for j in sorted({0, 1, d.cols // 2, d.cols - 1}) for v in (0.0, 1.5, NAN)]
        ref = reference(kw, d, d.w, [(d, d.w)], d.x, pts, key=("wide", k, c))
        same_model(m.json_dump(), ref["model"])
        compare_reads(m, X, ref, d.rows, d.cols, nm if fr else None, st)
        fi = m.feature_importances_
        want = [unnum(ref["importance"]["Gain-true"].get(str(j), 0.0)) for j in range(d.cols)]
        need(fi.shape == (d.cols,) and np.allclose(fi, want, atol=1e-6, equal_nan=True), "feature_importances_ not in column order")
        if fr:
            need(m.feature_names_in_ == nm, "feature_names_in_ is %r" % (m.feature_names_in_,))
        for (j, v), p in zip(pts, ref["pd"]):
            one = X.iloc[:1].copy() if fr else X[:1].copy()
            if math.isnan(v):
                continue
            if fr:
                one[nm[j]] = v
            else:
                one[0, j] = v
            got = m.partial_dependence(one, feature=nm[j] if fr and isinstance(nm[j], str) else j, samples=None)
            need(got.shape == (1, 2) and got[0, 0] == v and abs(got[0, 1] - unnum(p)) <= 1e-9 * (1 + abs(got[0, 1])), lambda: "partial dependence of column %d at %r is %r, the crate gives %r" % (j, v, got, p))
        st.states += 1
        st.transitions += 1
        st.traces += 1
        st.nontrivial += any(len(t["nodes"]) > 1 for t in json.loads(ref["model"])["trees"])

    out.append(Space("wide", "%d data sets of up to 130 columns and 2100 rows x %d settings (constraints on most columns) x frames with names in order, out of order and integers, arrays in C and Fortran order, compared with the crate" % (len(WIDE), NCFG), prod(radw), wide_case))

    # values that need the precision of their dtype, columns of different dtypes
    near = {
        "int8": lambda k: 120 + k, "uint8": lambda k: 250 + k, "int16": lambda k: 32760 + k, "uint16": lambda k: 65530 + k,
        "int32": lambda k: 2**31 - 9 + k, "uint32": lambda k: 2**32 - 9 + k, "int64": lambda k: 2**53 - 9 + k, "uint64": lambda k: 2**53 - 19 + k,
        "float16": lambda k: 1 + k * 2.0**-10, "float32": lambda k: 1 + k * 2.0**-23, "float64": lambda k: 1 + k * 2.0**-52, "bool": lambda k: k % 2,
    }
    dts = list(near)
    radp = [len(dts), len(dts), len(dts) if th else 4, 3]

    def precision(i, st):
        a, b, c, how = digits(i, radp)
        kinds = [dts[a], dts[b], dts[c] if th else ["float64", "int32", "bool", "float32"][c]]
        n = 18
        cols = []
        for j, k in enumerate(kinds):
            q = [(r * (5, 7, 11)[j] + j) % 6 for r in range(n)]
            cols.append(np.array([near[k](v) for v in q]).astype(k))
        x = np.stack([v.astype("float64") for v in cols], axis=1)
        y = np.array([float((r * 5 % 6 > 2) ^ (r * 7 % 6 + 1 > 4) ^ (r % 7 == 0)) for r in range(n)])
        w = np.array([1.0 + r % 3 for r in range(n)])
        d = Data(x, y, w, "f64", ("precision", tuple(kinds)))
        nm = NAMES[:3]
        if how == 0:
            X = pd.DataFrame(dict(zip(nm, cols)))
        elif how == 1:
            X = pd.DataFrame(dict(zip(nm, cols)), index=range(100, 100 + n))[nm]
            X = pd.concat([X.iloc[:5], X.iloc[5:]])
        elif kinds[1] == kinds[2] == kinds[0] or c == 0:
            # one dtype throughout, as an array
            col = near[kinds[0]]
            x = np.stack([np.array([col((r * f + j) % 6) for r in range(n)]).astype(kinds[0]) for j, f in enumerate((5, 7, 11))], axis=1)
            X = x if b % 2 else np.asfortranarray(x)
            d = Data(x.astype("float64"), y, w, "f64", ("precision1", kinds[0]))
        else:
            return
        kw = dict(iterations=3, max_depth=3, min_leaf_weight=0.1, learning_rate=0.8, create_missing_branch=bool((a + b) % 2))
        m = GradientBooster(**kw).fit(X, y, sample_weight=w)
        ref = reference(kw, d, w, None, d.x, [], key=(d.key, (a + b) % 2))
        try:
            same_model(m.json_dump(), ref["model"])
            compare_reads(m, X, ref, n, 3, nm if how < 2 else None, st)
        except Bad as e:
            raise Bad("%s (columns of dtypes %s, as %s)" % (e, kinds, ["frame", "concatenated frame", "array"][how]))
        st.states += 1
        st.transitions += 1
        st.traces += 1
        st.nontrivial += any(len(t["nodes"]) > 1 for t in json.loads(ref["model"])["trees"])

    out.append(Space("precision", "3 columns of every combination of 12 x 12 x %d dtypes with values that differ in the last place their dtype (or a double) can hold, as frames and arrays, compared with the crate on doubles" % radp[2], prod(radp), precision))

    # feature names and positions
    perms = list(itertools.permutations(range(4)))
    opts = list(itertools.product([None, 1, -1, 0], repeat=4))
    opts = [o for o in opts if sum(v is not None for v in o) in ((1, 2, 4) if th else (1, 4))]
    rad3 = [24, len(opts), 2, 2]
    INTS = [2, 0, 3, 1]

    def names_case(i, st):
        a, b, k, il = digits(i, rad3)
        NAMES = INTS if il else globals()["NAMES"]
        perm = list(perms[a])
        d0 = data([1, 4][k])
        d = d0.take(perm)
        nm = [NAMES[j] for j in perm]  # name j always labels the same values
        mono = {NAMES[j]: opts[b][j] for j in range(4) if opts[b][j] is not None}
        term = [NAMES[j] for j in range(4) if opts[b][j] in (1, 0)]
        base = dict(iterations=2, max_depth=3, min_leaf_weight=0.2, create_missing_branch=True, learning_rate=0.9)
        X = frame(d.x, nm)
        m = GradientBooster(monotone_constraints=mono, terminate_missing_features=set(term), **base)
        m.fit(X, d.y, sample_weight=d.w)
        kw = dict(base, monotone_constraints={nm.index(n): c for n, c in mono.items()}, terminate_missing_features={nm.index(n) for n in term})
        pts = pd_points(d.x)
        ref = reference(kw, d, d.w, None, d.x, pts, key=("names", k, a, b))
        same_model(m.json_dump(), ref["model"])
        compare_reads(m, X, ref, d.rows, 4, nm, st)
        check_pd(m, X, d, ref["pd"], pts, nm, True, st)
        fi = m.feature_importances_
        want = [unnum(ref["importance"]["Gain-true"].get(str(j), 0.0)) for j in range(4)]
        need(np.allclose(fi, want, atol=1e-6, equal_nan=True), "feature_importances_ not in column order")
        need(m.monotone_constraints == mono and set(m.terminate_missing_features) == set(term), "name-keyed options were changed by fit")
        # every other arrangement of the columns is refused
        for p2 in perms if b == 0 else perms[a:a + 3]:
            n2 = [NAMES[j] for j in p2]
            X2 = frame(d0.x[:, list(p2)], n2)
            refused(m, X2, n2 == nm, st)
        st.states += 1
        st.transitions += 1
        st.traces += 1
        st.nontrivial += 1

    out.append(Space("names", "all 24 orders of 4 columns named by strings and by integers x %d maps of constraints and terminated features by name x 2 data sets, compared with the crate on indices; other column orders refused" % len(opts), prod(rad3), names_case))

    # names that no column has
    rad5 = [4, 4, 5, 2, 16]

    def unknown_case(i, st):
        cols, at, how, with_ev, known = digits(i, rad5)
        cols += 1
        d = data(1)
        nm = NAMES[:cols]
        X = frame(d.x[:, :cols], nm)
        bad = [nm[0] + " ", nm[-1].upper() + "?", 0, "feature_0"][at]
        mono = {n: 1 - (j % 3) for j, n in enumerate(nm) if known >> j & 1}
        term = {n for j, n in enumerate(nm) if known >> (3 - j) & 1}
        ok = how == 4
        if how < 3:
            mono[bad] = [1, -1, 0][how]
        elif how == 3:
            term.add(bad)
        m = GradientBooster(iterations=1, max_depth=2, create_missing_branch=True, monotone_constraints=mono, terminate_missing_features=term)
        try:
            m.fit(X, d.y, evaluation_data=[(X, d.y)] if with_ev else None)
            r = True
        except (KeyError, ValueError):
            r = False
        need(r == ok, lambda: "a fit with constraints %r and terminated features %r on columns %r is %s" % (mono, term, nm, "accepted" if r else "refused"))
        st.states += 1
        st.transitions += 1
        st.traces += 1
        st.checks += 1
        st.nontrivial += 1

    out.append(Space("names-unknown", "1-4 columns x 4 names that no column has, in the constraints (3 kinds) or the terminated features or nowhere x 16 sets of known names: refused unless every name is known", prod(rad5), unknown_case))

    # frames with differing columns
    pool = ["a", "b", "c", "d"]
    lists = [list(p) for n in range(1, 5) for p in itertools.permutations(pool, n)]
    rad4 = [len(lists), len(lists)]

    def refuse_case(i, st):
        a, b = digits(i, rad4)
        fit, ask = lists[a], lists[b]
        d = data(1)
        X = pd.DataFrame({n: d.x[:, j] for j, n in enumerate(fit)})
        X2 = pd.DataFrame({n: d.x[:, j] for j, n in enumerate(ask)})
        m = MODELS.get(a)
        if m is None:
            m = MODELS[a] = GradientBooster(iterations=1, max_depth=2).fit(X, d.y)
        refused(m, X2, fit == ask, st)
        m2 = GradientBooster(iterations=1, max_depth=2)
        ok = True
        try:
            m2.fit(X, d.y, evaluation_data=[(X2, d.y)])
        except ValueError:
            ok = False
        need(ok == (fit == ask), "evaluation frame with columns %s %s at a fit on %s" % (ask, "accepted" if ok else "refused", fit))
        st.states += 1
        st.transitions += 1
        st.traces += 1
        st.nontrivial += fit != ask

    MODELS = {}
    out.append(Space("columns-refused", "all pairs of ordered selections of up to 4 column names (%d x %d): predict-type calls and evaluation data accepted iff the columns are those of the fit" % (len(lists), len(lists)), prod(rad4), refuse_case))
    return out


def refused(m, X2, ok, st):
    for f in (m.predict, m.predict_contributions, m.predict_leaf_indices):
        try:
            f(X2)
            r = True
        except ValueError:
            r = False
        need(r == ok, lambda: "%s %s a frame with columns %s after a fit on %s" % (f.__name__, "accepts" if r else "refuses", list(X2.columns), m.feature_names_in_))
        st.checks += 1

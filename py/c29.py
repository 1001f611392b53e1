"""C29: a model imported from XGBoost is the model XGBoost has."""
import json
import warnings

import numpy as np
import pandas as pd

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import xgboost as xgb

from base import NDATA, Lcg, data
from pc import Space, digits, need, prod
from forust import _from_xgboost_model

NAN = float("nan")
NAMES = ["alpha", "b'ta", "gamma x", "δ", "f0", "0"]
TYPES = ["weight", "gain", "cover", "total_gain", "total_cover"]
FORUST = ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"]


def close(a, b, tol):
    a, b = np.asarray(a, dtype="float64"), np.asarray(b, dtype="float64")
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0))).all())


def params(objective, base, growth, extra):
    p = {"objective": objective, "base_score": base, "nthread": 1, "verbosity": 0, "eta": 0.5, "min_child_weight": 0.2}
    p.update([{"tree_method": "exact"}, {"tree_method": "hist", "grow_policy": "lossguide", "max_leaves": 5, "max_depth": 6}, {"tree_method": "hist", "grow_policy": "depthwise"}][growth])
    p.update(extra)
    return p


def train(x, y, w, names, how, p, rounds, dtype):
    """the trained XGBoost model in the form `how`, and its Booster"""
    X = pd.DataFrame(x, columns=names) if names is not None else x
    if dtype is not None:
        X = X.astype(dtype)
    if how == "booster":
        b = xgb.train(p, xgb.DMatrix(X, label=y, weight=w), num_boost_round=rounds)
        return b, b, X
    q = dict(p)
    q["learning_rate"] = q.pop("eta")
    q["n_jobs"] = q.pop("nthread")
    cls = xgb.XGBClassifier if p["objective"] == "binary:logistic" else xgb.XGBRegressor
    m = cls(n_estimators=rounds, use_label_encoder=False, **q) if cls is xgb.XGBClassifier else cls(n_estimators=rounds, **q)
    m.fit(X, y, sample_weight=w)
    return m, m.get_booster(), X


def around(v):
    """the single-precision values at and next to v, and the doubles where rounding to them changes"""
    lo, hi = np.nextafter(v, np.float32(-np.inf)), np.nextafter(v, np.float32(np.inf))
    out = [lo, v, hi]
    for a, b in ((lo, v), (v, hi)):
        m = (float(a) + float(b)) / 2
        out += [m, np.nextafter(m, -np.inf), np.nextafter(m, np.inf)]
    return out


def queries(trees, cols, x):
    """training rows and rows on, just below and just above every threshold; missing values"""
    rows = [list(r) for r in x]
    base = list(x[0])
    seen = set()
    for t in trees:
        for n in t:
            if n["is_leaf"]:
                continue
            f = n["split_feature"]
            v = np.float32(n["split_value"])
            if (f, float(v)) in seen or len(seen) > 40 or not 0 <= f < cols:
                continue
            seen.add((f, float(v)))
            for u in around(v):
                r = list(base)
                r[f] = float(u)
                rows.append(r)
                base = r if len(seen) % 2 else base
    for f in range(min(cols, 6)):
        r = list(base)
        r[f] = NAN
        rows.append(r)
    rows.append([NAN] * cols)
    return np.array(rows, dtype="float64")


def gaps(tree):
    ids, todo = [], [tree]
    while todo:
        n = todo.pop()
        ids.append(n["nodeid"])
        todo.extend(n.get("children", []))
    return sorted(ids) != list(range(len(ids)))


def same_tree(nodes, dump):
    """the imported nodes against XGBoost's own JSON dump"""
    todo = [(dump, 0)]
    n = 0
    rel = lambda a, b: abs(a - b) <= 1e-5 * abs(b) + 1e-30
    while todo:
        d, depth = todo.pop()
        n += 1
        need(0 <= d["nodeid"] < len(nodes), "node %d is absent" % d["nodeid"])
        g = nodes[d["nodeid"]]
        what = "node %d" % d["nodeid"]
        need(g["num"] == d["nodeid"] and g["is_leaf"] == ("leaf" in d), what + ": number or kind")
        need(rel(g["hessian_sum"], d["cover"]), lambda: "%s: cover %r, XGBoost has %r" % (what, g["hessian_sum"], d["cover"]))
        if "leaf" in d:
            need(rel(g["weight_value"], d["leaf"]), lambda: "%s: leaf %r, XGBoost has %r" % (what, g["weight_value"], d["leaf"]))
            continue
        f = int(d["split"][1:])
        need((g["split_feature"], g["left_child"], g["right_child"]) == (f, d["yes"], d["no"]), what + ": split feature or children")
        need(g["missing_node"] == d["missing"], what + ": missing child")
        need(rel(g["split_gain"], d["gain"]), lambda: "%s: gain %r, XGBoost has %r" % (what, g["split_gain"], d["gain"]))
        need(g["depth"] == depth, lambda: "%s: depth %r instead of %d" % (what, g["depth"], depth))
        todo.extend((c, depth + 1) for c in d["children"])
    need(n == len(nodes), "%d nodes instead of %d" % (len(nodes), n))


def case(x, y, w, names, how, p, rounds, st, dtype=None, shap=True):
    cols = x.shape[1]
    model, b, X = train(x, y, w, names, how, p, rounds, dtype)
    before = b.save_raw("json") if hasattr(b, "save_raw") else None
    st.traces += 1
    try:
        f = _from_xgboost_model(model)
    except ValueError as e:
        # pruned trees, whose node numbers have gaps, may be refused
        need(any(gaps(json.loads(t)) for t in b.get_dump(dump_format="json")), lambda: "the model is refused: %s" % e)
        st.states += 1
        st.transitions += 1
        return
    st.transitions += 1
    need(bytes(before) == bytes(b.save_raw("json")), "importing changed the XGBoost model")
    trees = [t["nodes"] for t in json.loads(f.json_dump())["trees"]]
    need(f.number_of_trees == len(b.get_dump()) == len(trees), lambda: "%d trees instead of %d" % (f.number_of_trees, len(b.get_dump())))
    q = queries(trees, cols, x)
    raw = xgb.Booster(model_file=None)
    raw.load_model(bytearray(before))
    raw.feature_names = None
    raw.feature_types = None
    for nodes, dump in zip(trees, raw.get_dump(dump_format="json", with_stats=True)):
        same_tree(nodes, json.loads(dump))
    dq = xgb.DMatrix(q)
    want = raw.predict(dq, output_margin=True)
    got = f.predict(q)
    if not close(got, want, 1e-5):
        i = int(np.argmax(np.abs(got - want)))
        need(False, "row %s: predicted %r, XGBoost gives %r" % (q[i].tolist(), float(got[i]), float(want[i])))
    if names is not None:
        need(list(f.feature_names_in_) == list(names), "feature names are not those of the XGBoost model")
        need(np.array_equal(f.predict(pd.DataFrame(q, columns=names)), got), "a frame gives other predictions than an array")
    leaf = np.asarray(raw.predict(dq, pred_leaf=True)).reshape(len(q), -1)
    need(np.array_equal(np.asarray(f.predict_leaf_indices(q)).astype(int), leaf.astype(int)), "leaf indices differ from XGBoost's")
    splits = any(not n["is_leaf"] for t in trees for n in t)
    if shap and splits:
        need(close(f.predict_contributions(q, method="Shapley"), raw.predict(dq, pred_contribs=True), 2e-4), "Shapley contributions differ from XGBoost's")
    for a, c in zip(FORUST, TYPES):
        want = {int(k[1:]): v for k, v in raw.get_score(importance_type=c).items()}
        got = f.calculate_feature_importance(a, normalize=False)
        key = (lambda k: list(names).index(k)) if names is not None else int
        got = {key(k): v for k, v in got.items()}
        need(set(got) == set(want) and all(abs(got[k] - want[k]) <= 1e-4 * abs(want[k]) + 1e-9 for k in want), lambda: "%s importance %s, XGBoost gives %s" % (a, got, want))
    need(f.feature_importances_.shape == (cols,), "feature_importances_ does not have one entry per feature")
    st.states += len(q)
    st.checks += 4 + len(FORUST)
    if splits:
        st.nontrivial += 1


def multisets(k, n):
    import itertools

    return list(itertools.combinations_with_replacement(range(k), n))


def spaces(th):
    out = []
    ms = multisets(8, 6 if th else 5)
    rad = [2, 3, 4, len(ms)]

    def tiny(i, st):
        o, g, h, k = digits(i, rad)
        bs = (h + k) % 2
        x = np.array([[[NAN, 0.1, 0.2, 0.3][v // 2]] for v in ms[k]])
        y = np.array([float(v % 2) for v in ms[k]])
        if o == 1 and y.min() == y.max() and h % 2 == 0:
            return
        p = params(["reg:squarederror", "binary:logistic"][o], [0.5, 0.2][bs], g, {})
        case(x, y, np.array([[1.0, 0.5, 2.0][j % 3] if k % 2 else 1.0 for j in range(len(y))]), ["a"] if h < 2 else None, ["estimator", "booster"][h % 2], p, 2, st)

    out.append(Space("tiny", "every multiset of %d records over x in {missing,0.1,0.2,0.3}, y in {0,1} x 2 objectives x 3 growth methods x {frame, array} x {estimator, Booster}" % (6 if th else 5), prod(rad), tiny))
    extras = [
        {"max_depth": 1},
        {"max_depth": 8, "min_child_weight": 0.0, "gamma": 0.0},
        {"max_depth": 4, "gamma": 0.3, "lambda": 0.0, "alpha": 0.1},
        {"max_depth": 3, "num_parallel_tree": 2, "subsample": 0.7, "colsample_bytree": 0.7, "seed": 3},
        {"max_depth": 2, "max_delta_step": 0.4},
        {"max_depth": 3, "min_child_weight": 1e9},
    ]
    seeds = 12 if th else 3
    rad2 = [NDATA, 2, 3, 4, len(extras), seeds]

    def structured(i, st):
        k, o, g, h, e, s = digits(i, rad2)
        d = data(k)
        x = d.x
        if d.kind not in ("bool", "int"):
            x = x * [1.0, 0.1, 1e-7 / 3][(s + e) % 3]
        r = Lcg(i)
        perm = list(range(d.rows))
        for a in range(d.rows - 1, 0, -1):
            c = r.below(a + 1)
            perm[a], perm[c] = perm[c], perm[a]
        keep = np.array(perm[: d.rows - (s % 3)])
        x, y, w = x[keep], d.y[keep], d.w[keep]
        if o == 1 and y.min() == y.max():
            return
        if o == 0:
            y = y * 3.5 + np.nan_to_num(x[:, 0]) * 0.25
        tiny = (s + g) % 3 == 2
        if tiny:
            w = w * 1e-5
        names = None if h >= 2 else [NAMES[(j + s) % 6] for j in range(d.cols)]
        p = params(["reg:squarederror", "binary:logistic"][o], [0.5, 0.1, 0.9][s % 3], g, extras[e])
        if tiny:
            p["min_child_weight"] = min(p["min_child_weight"], 1e-6) if p["min_child_weight"] < 1e6 else p["min_child_weight"]
            p["lambda"] = 1e-5
        dtype = None
        if names is not None and d.kind in ("bool", "int") and s % 2 == 0:
            dtype = {"bool": "bool", "int": "int64"}[d.kind]
        case(x, y, w, names, ["estimator", "booster"][h % 2], p, 3 + s, st, dtype)

    out.append(Space("structured", "%d data sets (boolean, integer, half, float, missing values) x 2 objectives x 3 growth methods x {frame, array} x {estimator, Booster} x %d settings (depth 1-8, gamma, alpha, random forests, subsampling, stumps) x %d row orders, names, base scores, column types" % (NDATA, len(extras), seeds), prod(rad2), structured))
    rad3 = [2, 3, 4]

    def wide(i, st):
        o, g, h = digits(i, rad3)
        r = Lcg(i + 50)
        n, c = (240, 24) if h % 2 else (120, 90)
        x = np.array([[NAN if r.below(9) == 0 else r.below(4000) / 7.0 - 100 for _ in range(c)] for _ in range(n)], dtype="float64")
        z = np.nan_to_num(x[:, c - 1]) + 0.5 * np.nan_to_num(x[:, c // 2]) - np.nan_to_num(x[:, 11])
        y = z if o == 0 else (z > z.mean()).astype("float64")
        p = params(["reg:squarederror", "binary:logistic"][o], 0.5, g, {"max_depth": 14, "max_leaves": 60} if g == 1 else {"max_depth": 9})
        case(x, y, np.ones(n), [("n%d" % ((j * 37) % 997)) for j in range(c)] if h < 2 else None, ["estimator", "booster"][h % 2], p, 40, st, shap=False)

    out.append(Space("wide", "24 and 90 columns, 40 trees of depth 9 and (growing by loss) up to 14, 2 objectives x 3 growth methods x {frame, array} x {estimator, Booster}", prod(rad3), wide))
    return out

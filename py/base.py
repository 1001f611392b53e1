"""Data sets, parameter settings and the crate-side reference shared by the Python checks."""
import json
import math

import numpy as np
import pandas as pd

from pc import ORACLE, Bad, need, num, unnum

NAN = float("nan")
NAMES = ["alpha", "b'ta", "gamma x", "δ", "e\"p\\s", "0"]


class Lcg:
    def __init__(self, s):
        self.s = (s * 2 + 1) & (2**64 - 1)
        for _ in range(4):
            self.below(7)

    def below(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        return (self.s >> 33) % n


class Data:
    """values as a float64 array (rows, cols); kind tells which dtypes can hold them"""

    def __init__(self, x, y, w, kind, key):
        self.x, self.y, self.w, self.kind, self.key = x, y, w, kind, key
        self.rows, self.cols = x.shape

    def take(self, cols, key=""):
        return Data(self.x[:, cols].copy(), self.y, self.w, self.kind, (self.key, tuple(cols), key))


NDATA = 7

WIDE = [(40, 7), (40, 10), (45, 11), (45, 12), (60, 26), (60, 33), (70, 101), (70, 130), (300, 12), (1100, 5), (2100, 11)]


def wide_names(cols, style):
    """names whose sorted order is not the column order"""
    if style == 0:
        return ["f%d" % j for j in range(cols)]
    if style == 1:
        return ["x%03d" % ((j * 37 + 5) % 997) for j in range(cols)]
    return [(j * 7 + 3) % 131 for j in range(cols)]


def wide(k):
    """more columns and rows than the other sets"""
    rows, cols = WIDE[k]
    r = Lcg(500 + k)
    x = np.array([[NAN if r.below(9) == 0 else (r.below(9) * 0.5 - 1 if j % 2 else r.below(1 << 20) / 7e5) for j in range(cols)] for _ in range(rows)])
    use = sorted({0, 1, cols // 2, cols - 1, min(10, cols - 1)})
    y = np.array([float(sum((0.3 if math.isnan(a[j]) else a[j]) * (1 if q % 2 == 0 else -0.7) for q, j in enumerate(use)) + r.below(3) * 0.3 > 0.9) for a in x])
    if y.min() == y.max():
        y[0] = 1 - y[0]
    w = np.array([[1.0, 0.5, 2.0, 1.0, 0.25][r.below(5)] for _ in range(rows)])
    return Data(x, y, w, "f64", ("wide", k))


def data(k):
    if k >= 100:
        return wide(k - 100)
    r = Lcg(100 + k)
    rows, cols, kind = [(14, 3, "bool"), (22, 4, "int"), (26, 3, "half"), (18, 2, "half"), (33, 4, "f64"), (17, 1, "half"), (24, 3, "uint8")][k]
    x = np.zeros((rows, cols))
    for i in range(rows):
        for j in range(cols):
            if kind == "bool":
                v = r.below(2)
            elif kind == "int":
                v = r.below(4 + j * 3) - 2
            elif kind == "uint8":
                v = r.below(4 + j * 60)
            elif kind == "half":
                v = NAN if r.below(6) == 0 else r.below(7 + j) * 0.5 - 1
            else:
                v = NAN if r.below(8) == 0 else r.below(1 << 30) / 7.0e8 - 0.3
            x[i, j] = v
    y = np.zeros(rows)
    for i in range(rows):
        s = sum((1 if math.isnan(x[i, j]) else x[i, j]) * (1 if j % 2 == 0 else -0.5) for j in range(cols))
        y[i] = float((s + r.below(3) - 1) > (0.7 if kind != "uint8" else 20))
    if y.min() == y.max():
        y[0] = 1 - y[0]
    w = np.array([[1.0, 0.5, 2.0, 1.0, 0.25][r.below(5)] for _ in range(rows)])
    return Data(x, y, w, kind, k)


# ---- parameter settings: (constructor arguments, early-stopping evaluation wanted)
def cfgs(cols):
    base = dict(iterations=3, max_depth=3, min_leaf_weight=0.2, nbins=40)
    return [
        dict(base),
        dict(base, objective_type="SquaredLoss", create_missing_branch=True, missing_node_treatment="AverageLeafWeight", learning_rate=0.7, l2=0.5),
        dict(base, subsample=0.7, seed=3, colsample_bytree=0.67, initialize_base_score=False, base_score=0.5),
        dict(base, sample_method="goss", top_rate=0.3, other_rate=0.4, seed=5, grow_policy="LossGuide", max_leaves=4, parallel=False),
        dict(base, create_missing_branch=True, allow_missing_splits=True, monotone_constraints={0: 1, cols - 1: -1} if cols > 1 else {0: -1}, terminate_missing_features=[cols - 1], l1=0.05),
        dict(base, iterations=6, learning_rate=1.3, evaluation_metric="AUC", early_stopping_rounds=1, gamma=0.01, max_delta_step=1.5),
        dict(base, objective_type="SquaredLoss", allow_missing_splits=False, nbins=3, missing_node_treatment="AssignToParent", create_missing_branch=True, force_children_to_bound_parent=True),
    ]


NCFG = 7

DEFAULTS = dict(
    objective_type="LogLoss",
    iterations=100,
    learning_rate=0.3,
    max_depth=5,
    max_leaves=2**63 - 1,
    l1=0.0,
    l2=1.0,
    gamma=0.0,
    max_delta_step=0.0,
    min_leaf_weight=1.0,
    base_score=0.5,
    nbins=256,
    parallel=True,
    allow_missing_splits=True,
    monotone_constraints={},
    subsample=1.0,
    top_rate=0.1,
    other_rate=0.2,
    colsample_bytree=1.0,
    seed=0,
    missing=NAN,
    create_missing_branch=False,
    sample_method=None,
    grow_policy="DepthWise",
    evaluation_metric=None,
    early_stopping_rounds=None,
    initialize_base_score=True,
    terminate_missing_features=set(),
    missing_node_treatment="None",
    log_iterations=0,
    force_children_to_bound_parent=False,
)
FLOATS32 = {"learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample"}


def crate_doc(kw, names=None):
    """The document of an unfitted crate booster with these Python constructor arguments."""
    p = dict(DEFAULTS)
    p.update({k: v for k, v in kw.items() if k != "feature_importance_method"})
    idx = (lambda f: names.index(f)) if names else (lambda f: f)
    if p["monotone_constraints"] is None:
        p["monotone_constraints"] = {}
    if p["terminate_missing_features"] is None:
        p["terminate_missing_features"] = set()
    sm = {None: "None", "goss": "Goss", "Goss": "Goss", "random": "Random", "Random": "Random"}[p["sample_method"]]
    if sm == "None" and p["subsample"] < 1:
        sm = "Random"
    d = dict(p)
    d["sample_method"] = sm
    d["missing"] = num(p["missing"]) if not isinstance(p["missing"], str) else p["missing"]
    if isinstance(d["missing"], str):
        raise AssertionError("infinite missing value")
    d["base_score"] = num(p["base_score"])
    for k in FLOATS32:
        d[k] = float(np.float32(p[k]))
    d["monotone_constraints"] = {str(idx(f)): {1: "Positive", -1: "Negative", 0: "Unconstrained"}[c] for f, c in p["monotone_constraints"].items()}
    d["terminate_missing_features"] = sorted(idx(f) for f in p["terminate_missing_features"])
    d.update(evaluation_history=None, best_iteration=None, prediction_iteration=None, trees=[], metadata={})
    return d


def jset(x, y=None, w=None):
    d = {"rows": int(x.shape[0]), "cols": int(x.shape[1]), "x": [num(v) for v in np.asarray(x, dtype="float64").ravel(order="F")]}
    if y is not None:
        d["y"] = [num(v) for v in y]
        d["w"] = [num(v) for v in w]
    return d


def reference(kw, d, w, evals, query, pd_points, names=None, prediction_iteration=None, key=None):
    job = {
        "model": json.dumps(crate_doc(kw, names)),
        "train": jset(d.x, d.y, w),
        "eval": None if evals is None else [jset(e.x, e.y, ew) for e, ew in evals],
        "query": jset(query),
        "pd": [[f, num(v)] for f, v in pd_points],
        "prediction_iteration": prediction_iteration,
    }
    r = ORACLE.ask(job, key)
    if "error" in r:
        raise Bad("the crate refuses the fit: %s" % r["error"])
    return r


STATE = ["trees", "base_score", "best_iteration", "prediction_iteration", "evaluation_history"]


def canon(v):
    return json.dumps(v, sort_keys=True)


def same_floats(what, got, want, exact=True):
    got = np.asarray(got, dtype="float64").ravel()
    want = np.asarray([unnum(v) for v in want], dtype="float64")
    need(got.shape == want.shape, lambda: "%s: %d values instead of %d" % (what, got.size, want.size))
    ok = (got == want) | (np.isnan(got) & np.isnan(want))
    if not exact:
        ok = ok | (np.abs(got - want) <= 1e-9 * (1 + np.abs(want)))
    if not ok.all():
        i = int(np.argmin(ok))
        raise Bad("%s: value %d is %r, the crate gives %r" % (what, i, got[i], want[i]))


PARAM_FIELDS = sorted(DEFAULTS)


def same_model(doc_text, ref_text, what="model", skip=()):
    a, b = json.loads(doc_text), json.loads(ref_text)
    for k in PARAM_FIELDS + STATE:
        if k in skip:
            continue
        x, y = a[k], b[k]
        if k == "terminate_missing_features":
            x, y = sorted(x), sorted(y)
        if canon(x) != canon(y):
            raise Bad("%s: %s is %s, the crate has %s" % (what, k, canon(x)[:200], canon(y)[:200]))


METHODS = ["Weight", "Average", "BranchDifference", "MidpointDifference", "ModeDifference", "ProbabilityChange", "Shapley"]
ALIASES = {
    "Weight": ["weight"],
    "Average": ["average"],
    "BranchDifference": ["branch-difference", "branchdifference"],
    "MidpointDifference": ["midpoint-difference", "midpointdifference"],
    "ModeDifference": ["mode-difference", "modedifference"],
    "ProbabilityChange": ["probability-change", "probabilitychange"],
    "Shapley": [],
}
IMPS = ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"]


def compare_reads(m, X, ref, rows, cols, names, st, parallels=(None,)):
    """predict-type calls of the estimator against the crate's"""
    for par in parallels:
        same_floats("predict", m.predict(X, parallel=par), ref["predict"])
    li = m.predict_leaf_indices(X)
    nt = ref["prediction_iteration"] if ref["prediction_iteration"] is not None else ref["trees"]
    need(li.shape == (rows, nt), lambda: "leaf indices of shape %s instead of %s" % (li.shape, (rows, nt)))
    want = np.array(ref["leaves"], dtype="int64").reshape(nt, rows).T if nt else np.zeros((rows, 0))
    need((li == want).all(), "leaf indices: not arranged by row and tree")
    for me in METHODS:
        if me not in ref["contributions"]:
            continue
        want = np.array([unnum(v) for v in ref["contributions"][me]]).reshape(rows, cols + 1)
        for par in parallels:
            c = m.predict_contributions(X, method=me, parallel=par)
            need(c.shape == (rows, cols + 1), lambda: "%s contributions of shape %s" % (me, c.shape))
            same_floats(me + " contributions", c, want.ravel())
        for al in ALIASES[me]:
            same_floats(al + " contributions", m.predict_contributions(X, method=al), want.ravel())
    for me in IMPS:
        for norm in (False, True):
            got = m.calculate_feature_importance(me, normalize=norm)
            want = {(names[int(k)] if names else int(k)): unnum(v) for k, v in ref["importance"]["%s-%s" % (me, str(norm).lower())].items()}
            need(set(got) == set(want), lambda: "%s importance covers %s instead of %s" % (me, sorted(map(str, got)), sorted(map(str, want))))
            for k in want:
                need(abs(got[k] - want[k]) <= 1e-6 * (1 + abs(want[k])) or (math.isnan(got[k]) and math.isnan(want[k])), lambda: "%s importance of %r is %r, the crate gives %r" % (me, k, got[k], want[k]))
    st.checks += 3 + 2 * len(ref["contributions"]) + 10


def pd_points(x):
    out = []
    for f in range(x.shape[1]):
        col = x[:, f]
        for v in np.unique(col[~np.isnan(col)])[:12]:
            out.append((f, float(v)))
        out.append((f, NAN))
    return out

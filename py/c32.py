"""C32: partial_dependence tabulates the model's partial dependence at the values it promises."""
import json
import math

import numpy as np
import pandas as pd

from base import *
from c25 import frame
from pc import Space, digits, prod
from forust import GradientBooster

ALPHA = [NAN, 0.0, 1.0, 2.5, -1.0]
BOUNDS = [(0.2, 0.98), (0.0, 1.0), (0.5, 0.5), (0.1, 0.75)]
SAMPLES = [None, 1, 2, 3, 7, 100]
SENT = [NAN, -9.0, 0.5]
COLS = ["a", "b", "c"]
SETTINGS = [
    dict(),
    dict(create_missing_branch=True, allow_missing_splits=False, missing_node_treatment="AverageNodeWeight"),
    dict(objective_type="SquaredLoss", create_missing_branch=True),
]


def expectation(doc, upto, f, v, missing):
    """base score + the cover-weighted expectation of the first `upto` trees"""
    total = unnum(doc["base_score"])
    for t in doc["trees"][:upto]:
        nodes = t["nodes"]

        def go(i):
            n = nodes[str(i)] if isinstance(nodes, dict) else nodes[i]
            if n["is_leaf"]:
                return unnum(n["weight_value"])
            l, r, m = n["left_child"], n["right_child"], n["missing_node"]
            if n["split_feature"] == f:
                if math.isnan(v) or v == missing:
                    return go(m)
                return go(l) if v < unnum(n["split_value"]) else go(r)
            kids = [l, r] + ([m] if m not in (l, r) else [])
            get = lambda q: nodes[str(q)] if isinstance(nodes, dict) else nodes[q]
            cov = [unnum(get(q)["hessian_sum"]) for q in kids]
            return sum(c * go(q) for c, q in zip(cov, kids)) / sum(cov)

        total += go(0)
    return total


_MODELS = {}


def model(si, mi, named):
    """trained once per process: 3 columns, values around the alphabet, missing as the sentinel"""
    key = (si, mi, named)
    if key not in _MODELS:
        r = Lcg(7)
        x = np.array([[ALPHA[r.below(5)] for _ in range(3)] for _ in range(60)])
        y = np.array([float((np.nan_to_num(a[0], nan=1.0) - np.nan_to_num(a[1], nan=-2.0) * 0.5 + 0.3 * np.nan_to_num(a[2]) + r.below(3) * 0.5) > 1.0) for a in x])
        s = SENT[mi]
        x[np.isnan(x)] = s
        m = GradientBooster(iterations=4, max_depth=3, min_leaf_weight=0.2, missing=s, parallel=False, **SETTINGS[si])
        m.fit(pd.DataFrame(x, columns=COLS) if named else x, y)
        _MODELS[key] = (m, json.loads(m.json_dump()))
        assert any(len(t["nodes"]) > 1 for t in _MODELS[key][1]["trees"])
    return _MODELS[key]


def near(a, b):
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * (1 + abs(b))


# how the data and the feature are passed: (named fit, X as, feature by)
WAYS = ["name", "position-frame", "array", "reordered-name", "extra-column-name", "float32", "fortran", "unnamed-fit-name"]


def table_case(si, mi, way, vals, samples, bounds, exclude, upto, st):
    s = SENT[mi]
    named = way in ("name", "position-frame", "reordered-name", "extra-column-name", "float32")
    m, doc = model(si, mi, named)
    n = len(vals)
    f = 1
    col = np.array([s if math.isnan(v) else v for v in vals])
    x = np.column_stack([np.full(n, 1.0), col, np.arange(n) * 0.5])
    if way in ("name", "position-frame"):
        X, feat = pd.DataFrame(x, columns=COLS), ("b" if way == "name" else 1)
    elif way == "float32":
        X, feat = pd.DataFrame(x.astype("float32"), columns=COLS), "b"
    elif way == "reordered-name":
        X, feat = pd.DataFrame(x, columns=COLS)[["c", "a", "b"]], "b"
    elif way == "extra-column-name":
        X, feat = pd.DataFrame(x, columns=COLS).assign(z=3.5), "b"
    elif way == "unnamed-fit-name":
        X, feat = pd.DataFrame(x, columns=COLS), "b"
    elif way == "fortran":
        X, feat = np.asfortranarray(x), 1
    else:
        X, feat = x, 1
    real = np.array(sorted(v for v in vals if not math.isnan(v)))
    if samples is None:
        want = sorted(set(real.tolist()))
    elif len(real) == 0:
        return
    else:
        # evenly spaced quantiles, linear interpolation, from the definition
        want = []
        for k in range(samples):
            q = bounds[0] + (bounds[1] - bounds[0]) * (k / (samples - 1) if samples > 1 else 0.0)
            pos = q * (len(real) - 1)
            lo = min(int(math.floor(pos + 1e-12)), len(real) - 1)
            hi = min(lo + 1, len(real) - 1)
            want.append(real[lo] + (real[hi] - real[lo]) * (pos - lo))
    if not exclude:
        want = [s] + want
    elif not want:
        return
    m.set_prediction_iteration(upto)
    before = m.json_dump()
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = m.partial_dependence(X, feature=feat, samples=samples, exclude_missing=exclude, percentile_bounds=bounds)
    need(m.json_dump() == before, "partial_dependence changed the model")
    need(isinstance(got, np.ndarray) and got.shape == (len(want), 2), lambda: "a table of shape %s instead of %s" % (got.shape, (len(want), 2)))
    for (v, p), w in zip(got.tolist(), want):
        need(near(v, w), lambda: "lists the value %r instead of %r (%r)" % (v, w, want))
        e = expectation(doc, upto, f, v, s)
        need(abs(p - e) <= 1e-6 * (1 + abs(e)), lambda: "at %r the table gives %r, the model's expectation is %r" % (v, p, e))
        st.checks += 1
    st.states += 1
    st.transitions += 1
    st.traces += 1
    st.nontrivial += len(set(np.round(got[:, 1], 9))) > 1


def multisets(k):
    import itertools

    return list(itertools.combinations_with_replacement(range(5), k))


def spaces(thorough):
    out = []
    sets = [q for k in range(1, 6 if thorough else 5) for q in multisets(k)]
    rad = (len(sets), len(SAMPLES), len(BOUNDS), 2, len(SENT), len(SETTINGS))

    def values(i, st):
        g = digits(i, rad)
        if SAMPLES[g[1]] is None and g[2]:
            return
        # the order of the rows, the way of passing and the number of trees rotate
        ms = list(sets[g[0]])
        k = sum(g)
        vals = [ALPHA[q] for q in (ms[::-1] if k % 2 else ms[len(ms) // 2 :] + ms[: len(ms) // 2])]
        table_case(g[5], g[4], WAYS[k % len(WAYS)], vals, SAMPLES[g[1]], BOUNDS[g[2]], g[3] == 0, [4, 2, 1][k % 3], st)

    out.append(Space("values", "every multiset of 1-%d values over {missing, -1, 0, 1, 2.5} x %d sample counts x %d bounds x with/without the missing row x %d missing values x %d models" % (5 if thorough else 4, len(SAMPLES), len(BOUNDS), len(SENT), len(SETTINGS)), prod(rad), values))
    LENS = [30, 100, 101, 257, 1000, 3000]
    SAMP = [None, 5, 50, 100, 101, 1000]
    radl = (len(LENS), len(SAMP), len(BOUNDS), 2, len(SENT), len(WAYS), 3)

    def long_columns(i, st):
        g = digits(i, radl)
        if (SAMP[g[1]] is None and g[2]) or (not thorough and (sum(g) * 7 + i // 11) % 8):
            return
        n = LENS[g[0]]
        kind = g[6]
        vals = [NAN if (q * 7) % 13 == 5 else ((q * 7919) % n) * 0.125 - 3 if kind == 0 else float((q * q) % 17) - 4 if kind == 1 else math.ldexp(1.0 + (q % 64) / 64, q % 40 - 20) for q in range(n)]
        if WAYS[g[5]] == "float32":
            vals = [float(np.float32(v)) for v in vals]
        table_case(g[0] % 3, g[4], WAYS[g[5]], [1.5 if v == SENT[g[4]] else v for v in vals], SAMP[g[1]], BOUNDS[g[2]], g[3] == 0, 3, st)

    out.append(Space("long-columns", "columns of 30-3000 values (evenly spaced, tied, over 40 powers of two) with missing ones x %d sample counts x %d bounds x with/without the missing row x %d missing values x %d ways%s" % (len(SAMP), len(BOUNDS), len(SENT), len(WAYS), "" if thorough else " (every eighth combination)"), prod(radl), long_columns))
    rad2 = (len(WAYS), len(SAMPLES), 2, len(SENT), len(SETTINGS), 5, 6)

    def ways(i, st):
        g = digits(i, rad2)
        vals = [[1.0, NAN, 0.0, 2.5, 1.0], [NAN, NAN], [2.5], [-1.0, 2.5, 0.0, 0.0, NAN, 1.0, -1.0, 7.25], [0.0, 0.0, 0.0], [float(q % 5) - 1 for q in range(40)]][g[6]]
        table_case(g[4], g[3], WAYS[g[0]], vals, SAMPLES[g[1]], BOUNDS[1], g[2] == 0, g[5], st)

    out.append(Space("ways", "%d ways of passing data and feature (by name, by position, arrays, reordered and extra columns, single precision, fit without names) x %d sample counts x with/without the missing row x %d missing values x %d models x every number of trees in use x 6 columns" % (len(WAYS), len(SAMPLES), len(SENT), len(SETTINGS)), prod(rad2), ways))
    return out

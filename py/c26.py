"""C26: Python persistence and parameter handling are lossless."""
import copy
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np
import pandas as pd
from sklearn.base import clone

from base import *
from c25 import frame, key_names
from pc import Space, digits, prod
from forust import GradientBooster

# parameter -> values other than the default
VALUES = dict(
    objective_type=["SquaredLoss"],
    iterations=[1, 5],
    learning_rate=[0.1, 0.7],
    max_depth=[1, 4],
    max_leaves=[2, 5],
    l1=[0.05, 0.2],
    l2=[0.0, 0.3],
    gamma=[0.02, 0.3],
    max_delta_step=[0.2, 0.6],
    min_leaf_weight=[0.3, 2.5],
    base_score=[0.25, -1.5],
    nbins=[2, 5],
    parallel=[False],
    allow_missing_splits=[False],
    monotone_constraints=[{0: 1}, {1: -1, 2: 0}],
    subsample=[0.6, 0.9],
    top_rate=[0.25, 0.4],
    other_rate=[0.3, 0.55],
    colsample_bytree=[0.4, 0.7],
    seed=[1, 12345678901],
    missing=[2.0, -0.5],
    create_missing_branch=[True],
    sample_method=["goss", "random", "Goss", "Random"],
    grow_policy=["LossGuide"],
    evaluation_metric=["AUC", "RootMeanSquaredError", "RootMeanSquaredLogError", "LogLoss"],
    early_stopping_rounds=[1, 3],
    initialize_base_score=[False],
    terminate_missing_features=[[1], {0, 2}],
    missing_node_treatment=["AssignToParent", "AverageLeafWeight", "AverageNodeWeight"],
    log_iterations=[2],
    force_children_to_bound_parent=[True],
    feature_importance_method=["Cover", "TotalGain"],
)
SINGLES = [(k, v) for k in VALUES for v in VALUES[k]]
BASE = dict(iterations=3, max_depth=3, min_leaf_weight=0.2)


def same_param(k, a, b):
    if k in FLOATS32:
        return np.float32(a) == np.float32(b)
    if k == "terminate_missing_features":
        return set(a or ()) == set(b or ())
    if k == "monotone_constraints":
        return (a or {}) == (b or {})
    if k == "missing" and isinstance(a, float) and np.isnan(a):
        return np.isnan(b)
    return a == b


def effective(p):
    p = dict(p)
    sm = {None: None, "goss": "Goss", "random": "Random"}.get(p["sample_method"], p["sample_method"])
    p["sample_method"] = "Random" if sm is None and p["subsample"] < 1 else sm
    return p


def same_params(a, b, what, skip=(), eff=False):
    if eff:
        a, b = effective(a), effective(b)
    need(set(a) == set(b), lambda: "%s: parameters %s" % (what, set(a) ^ set(b)))
    for k in a:
        if k not in skip:
            need(same_param(k, a[k], b[k]), lambda: "%s: %s is %r instead of %r" % (what, k, b[k], a[k]))


def train_set(kw, k=2):
    """data with missing values, under the declared missing value"""
    d = data(k)
    if "missing" in kw:
        x = d.x.copy()
        x[np.isnan(x)] = kw["missing"]
        d = Data(x, d.y, d.w, d.kind, (d.key, kw["missing"]))
    return d


def param_case(kw, is_frame, st):
    d = train_set(kw)
    nm = NAMES[: d.cols]
    X = frame(d.x.copy(), nm) if is_frame else d.x.copy()
    args = key_names(kw, nm) if is_frame else kw
    m = GradientBooster(**args)
    want = dict(DEFAULTS, feature_importance_method="Gain")
    want.update(args)
    same_params(want, m.get_params(), "get_params")
    # the crate holds them before and after fit (name- or index-keyed options: after)
    doc = json.loads(m.json_dump())
    ref0 = crate_doc(kw)
    for f in PARAM_FIELDS:
        if f in ("monotone_constraints", "terminate_missing_features"):
            continue
        ok = np.float32(doc[f]) == np.float32(ref0[f]) if f in FLOATS32 else doc[f] == ref0[f]
        need(ok, lambda: "%s of the new booster is %r instead of %r" % (f, doc[f], ref0[f]))
    ev = [(X, d.y, d.w)]
    m.fit(X, d.y, sample_weight=d.w, evaluation_data=ev)
    ref = reference(kw, d, d.w, [(d, d.w)], d.x, [], key=("param", canon(str(sorted(kw.items(), key=str)))))
    same_model(m.json_dump(), ref["model"])
    same_floats("predict", m.predict(X), ref["predict"])
    want["base_score"] = unnum(ref["base_score"][0])
    same_params(want, m.get_params(), "get_params after fit")
    imp = want["feature_importance_method"] + "-true"
    fi = [unnum(ref["importance"][imp].get(str(j), 0.0)) for j in range(d.cols)]
    need(np.allclose(m.feature_importances_, fi, atol=1e-6, equal_nan=True), "feature_importances_ does not follow feature_importance_method")
    # the parameter object of a plain scikit-learn clone
    c = clone(m)
    same_params(m.get_params(), c.get_params(), "clone")
    need(c.number_of_trees == 0 and not hasattr(c, "n_features_"), "clone is fitted")
    c.fit(X, d.y, sample_weight=d.w, evaluation_data=ev)
    same_model(c.json_dump(), ref["model"], "refit of a clone", skip=() if kw.get("initialize_base_score", True) else ())
    # set_params
    s = GradientBooster().set_params(**args)
    same_params(dict(want, base_score=args.get("base_score", 0.5)), s.get_params(), "set_params")
    s.fit(X, d.y, sample_weight=d.w, evaluation_data=ev)
    same_model(s.json_dump(), ref["model"], "fit after set_params")
    s2 = m.set_params()
    need(s2 is m and m.number_of_trees == 0, "set_params does not return the reinitialised estimator")
    same_params(want, m.get_params(), "empty set_params")
    # and back to the defaults, None included
    back = {k: DEFAULTS.get(k, "Gain") for k in args if k not in BASE}
    m.set_params(**back)
    plain = dict(dict(DEFAULTS, feature_importance_method="Gain"), base_score=m.get_params()["base_score"], **{k: args[k] for k in BASE if k in args})
    if "base_score" in back:
        plain["base_score"] = back["base_score"]
    same_params(plain, m.get_params(), "set_params back to the defaults")
    doc = json.loads(m.json_dump())
    ref0 = crate_doc({k: v for k, v in kw.items() if k in BASE})
    for f in PARAM_FIELDS:
        if f in ("monotone_constraints", "terminate_missing_features", "base_score"):
            continue
        ok = np.float32(doc[f]) == np.float32(ref0[f]) if f in FLOATS32 else doc[f] == ref0[f]
        need(ok, lambda: "%s of the booster set back to the defaults is %r instead of %r" % (f, doc[f], ref0[f]))
    st.states += 5
    st.transitions += 5
    st.traces += 3
    st.checks += 10
    if any(len(t["nodes"]) > 1 for t in json.loads(ref["model"])["trees"]):
        st.nontrivial += 1


# ---- restoring
def via_pickle(p):
    return lambda m, tmp: pickle.loads(pickle.dumps(m, protocol=p))


def via_file(m, tmp):
    path = os.path.join(tmp, "model.json")
    m.save_booster(path)
    return GradientBooster.load_booster(path)


def via_path(m, tmp):
    import pathlib

    path = pathlib.Path(tmp) / "mödel 2.json"
    path.write_text("x" * 100000)
    m.save_booster(path)
    return GradientBooster.load_booster(path)


def via_both(m, tmp):
    return pickle.loads(pickle.dumps(via_file(copy.deepcopy(m), tmp)))


RESTORE = [("pickle %d" % p, via_pickle(p), False) for p in range(6)] + [("copy", lambda m, t: copy.copy(m), False), ("deepcopy", lambda m, t: copy.deepcopy(m), False), ("file", via_file, True), ("path", via_path, True), ("deepcopy, file and pickle", via_both, True), ("file twice", lambda m, t: via_file(via_file(m, t), t), True)]


def observe(m, X):
    out = {"predict": m.predict(X).tolist(), "leaves": m.predict_leaf_indices(X).tolist()}
    for me in ("Average", "Weight", "Shapley"):
        out[me] = m.predict_contributions(X, method=me).tolist()
    out["importance"] = {k: sorted(m.calculate_feature_importance(k, normalize=False).items(), key=str) for k in IMPS}
    out["feature_importances_"] = m.feature_importances_.tolist()
    out["n_features_"] = m.n_features_
    out["names"] = getattr(m, "feature_names_in_", None)
    out["history"] = None if m.get_evaluation_history() is None else m.get_evaluation_history().tolist()
    out["iterations"] = [m.best_iteration, m.prediction_iteration, m.number_of_trees, m.base_score]
    out["doc"] = doc_of(m)
    out["text"] = m.text_dump()
    out["table"] = m.trees_to_dataframe().to_dict("list") if m.number_of_trees else None
    return out


def doc_of(m):
    d = json.loads(m.json_dump())
    d["terminate_missing_features"] = sorted(d["terminate_missing_features"])
    return d


def same_obs(a, b, what):
    for k in a:
        need(canon(jsonable(a[k])) == canon(jsonable(b[k])), lambda: "%s: %s is %s instead of %s" % (what, k, canon(jsonable(b[k]))[:160], canon(jsonable(a[k]))[:160]))


def jsonable(v):
    if isinstance(v, float) and v != v:
        return "nan"
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (np.integer,)):
        return int(v)
    return v


def restore_case(kw, dk, is_frame, ri, what_state, st):
    d = train_set(kw, dk)
    nm = ([2, 0, 3, 1] if is_frame == 2 else NAMES)[: d.cols]
    if dk >= 100:
        nm = wide_names(d.cols, is_frame % 3)
    X = frame(d.x.copy(), nm) if is_frame else d.x.copy()
    args = key_names(kw, nm) if is_frame else kw
    ev = [(X, d.y, d.w)] if what_state != 0 else None
    m = GradientBooster(**args).fit(X, d.y, sample_weight=d.w, evaluation_data=ev)
    notes = {}
    if what_state == 2:
        m.set_prediction_iteration(1)
        notes = {"note 'x'": "vä\"l\\ue\n", "": "empty key", "k": "", "json": '{"a": [1, null]}'}
        for k, v in notes.items():
            m.insert_metadata(k, v)
    name, f, loses_f32 = RESTORE[ri]
    before = observe(m, X)
    params = {k: copy.copy(v) for k, v in m.get_params().items()}
    tmp = tempfile.mkdtemp(prefix="c26-")
    try:
        r = f(m, tmp)
    finally:
        shutil.rmtree(tmp)
    need(r is not m and r.booster is not m.booster, name + " returns the same object")
    same_obs(before, observe(r, X), "after " + name)
    same_params(params, r.get_params(), "after " + name, eff=loses_f32)
    for k, v in notes.items():
        need(r.get_metadata(k) == v, lambda: "after %s: metadata %r is %r instead of %r" % (name, k, r.get_metadata(k), v))
    # refit: restored and original agree, and neither affects the other
    r.fit(X, d.y, sample_weight=d.w, evaluation_data=ev)
    same_obs(before, observe(m, X), "original after refitting the restored one")
    m.fit(X, d.y, sample_weight=d.w, evaluation_data=ev)
    same_obs(observe(m, X), observe(r, X), "refit after " + name)
    # the reverse column order, where options follow the names
    if is_frame and d.cols > 1:
        Xr = X[nm[::-1]]
        m.fit(Xr, d.y, sample_weight=d.w)
        r.fit(Xr, d.y, sample_weight=d.w)
        same_obs(observe(m, Xr), observe(r, Xr), "refit with columns reversed after " + name)
    st.states += 3
    st.transitions += 4
    st.traces += 1
    st.checks += 3
    st.nontrivial += m.number_of_trees > 0


# ---- histories
def hist_world(k):
    named = k % 2 == 0
    a, b = data([2, 4, 2][k % 3]), data([4, 2, 1][k % 3])
    na = NAMES[: a.cols]
    nb = list(reversed(NAMES[: b.cols]))
    kw = dict(iterations=3, max_depth=3, min_leaf_weight=0.2, create_missing_branch=k % 3 != 1, learning_rate=0.8)
    if named:
        kw.update(monotone_constraints={NAMES[0]: 1, NAMES[1]: -1}, terminate_missing_features={NAMES[1]})
    if k % 3 == 2:
        kw.update(early_stopping_rounds=1, evaluation_metric="AUC")
    return dict(k=k, kw=kw, named=named, A=(frame(a.x, na), a, na), B=(frame(b.x, nb), b, nb), arr=(a.x.copy(), a, None))


OPS = ["FitA", "FitB", "FitArray", "BadFit", "BadEval", "Pickle", "Deep", "File", "Clone", "SetParams", "Pin", "Meta"]
FRESH = {}


def fresh(w, kw, which):
    key = (w["k"], canon(str(sorted(kw.items(), key=str))), which)
    if key not in FRESH:
        X, d, nm = w[which]
        m = GradientBooster(**kw).fit(X, d.y, sample_weight=d.w, evaluation_data=[(X, d.y, d.w)])
        obs = {}
        for pin in (None, 1):
            if pin is not None:
                m.set_prediction_iteration(pin)
            o = observe(m, X)
            o["doc"] = {k: v for k, v in o["doc"].items() if k != "metadata"}
            obs[pin] = o
        FRESH[key] = obs
    return FRESH[key]


def history(w, seq, st):
    kw = dict(w["kw"])
    m = GradientBooster(**kw)
    held, pin, meta, lost = None, None, {}, False
    for n, op in enumerate(seq):
        where = "after %s" % seq[: n + 1]
        if op in ("FitA", "FitB", "FitArray"):
            which = {"FitA": "A", "FitB": "B", "FitArray": "arr"}[op]
            X, d, nm = w[which]
            ok = not (op == "FitArray" and w["named"])
            try:
                m.fit(X, d.y, sample_weight=d.w, evaluation_data=[(X, d.y, d.w)])
                did = True
            except (TypeError, ValueError, KeyError):
                did = False
            need(did == ok, lambda: "%s: fit %s" % (where, "accepted" if did else "refused"))
            if ok:
                held, pin = which, None
        elif op == "BadFit":
            X, d, nm = w["B"]
            y = d.y.copy()
            y[len(y) // 2] = NAN
            try:
                m.fit(X, y, sample_weight=d.w)
            except ValueError:
                pass
            else:
                raise Bad(where + ": NaN target accepted")
        elif op == "BadEval":
            X, d, nm = w["B"]
            X2 = X[nm[::-1]]
            try:
                m.fit(X, d.y, sample_weight=d.w, evaluation_data=[(X, d.y), (X2, d.y)])
            except ValueError:
                pass
            else:
                raise Bad(where + ": evaluation frame with other columns accepted")
        elif op == "Pickle":
            m = pickle.loads(pickle.dumps(m))
        elif op == "Deep":
            m = copy.deepcopy(m)
        elif op == "File":
            if held is None:
                continue  # options by name reach the file with the first fit
            tmp = tempfile.mkdtemp(prefix="c26-")
            try:
                m = via_file(m, tmp)
            finally:
                shutil.rmtree(tmp)
        elif op == "Clone":
            m = clone(m)
            held, pin, meta = None, None, {}
        elif op == "SetParams":
            kw["max_depth"] = 5 - kw["max_depth"]
            m.set_params(max_depth=kw["max_depth"])
            held, pin, meta = None, None, {}
        elif op == "Pin":
            m.set_prediction_iteration(1)
            pin = 1
        elif op == "Meta":
            m.insert_metadata("note", "n%d" % n)
            meta["note"] = "n%d" % n
        st.transitions += 1
        st.states += 1
        if held is None:
            need(m.number_of_trees == 0, where + ": trees without a fit")
        else:
            X, d, nm = w[held]
            want = fresh(w, kw, held)[pin]
            got = observe(m, X)
            got["doc"] = {k: v for k, v in got["doc"].items() if k != "metadata"}
            same_obs(want, got, where)
            st.checks += 1
        for k, v in meta.items():
            need(m.get_metadata(k) == v, lambda: "%s: metadata %r" % (where, m.get_metadata(k)))
        p = m.get_params()
        for k, v in kw.items():
            need(same_param(k, v, p[k]), lambda: "%s: parameter %s is %r instead of %r" % (where, k, p[k], v))
    st.traces += 1
    st.nontrivial += sum(o.startswith("Fit") for o in seq) > 0


def spaces(th):
    out = []

    def single(i, st):
        a, fr = digits(i, [len(SINGLES), 2])
        k, v = SINGLES[a]
        kw = dict(BASE)
        kw[k] = v
        param_case(kw, fr == 1, st)

    out.append(Space("one-parameter", "every constructor parameter x every listed non-default value x array/frame: parameters held by the estimator and by the crate, fit equal to the crate's, clone, set_params", len(SINGLES) * 2, single))
    pairs = [(a, b) for a in range(len(SINGLES)) for b in range(a + 1, len(SINGLES)) if SINGLES[a][0] != SINGLES[b][0]]
    if not th:
        firsts = [i for i, (k, v) in enumerate(SINGLES) if v is VALUES[k][-1]]
        pairs = [(a, b) for a in firsts for b in firsts if a < b]

    def pair(i, st):
        a, b = pairs[i]
        kw = dict(BASE)
        kw[SINGLES[a][0]] = SINGLES[a][1]
        kw[SINGLES[b][0]] = SINGLES[b][1]
        param_case(kw, (a + b) % 2 == 1, st)

    out.append(Space("two-parameters", "every pair of parameters at %s non-default values" % ("all listed" if th else "their last listed"), len(pairs), pair))
    rad = [len(RESTORE), 3, NCFG, 4, 3]

    def restore(i, st):
        r, s, c, k, fr = digits(i, rad)
        dk = [2, 3, 4, 1][k]
        kw = cfgs(data(dk).cols)[c]
        restore_case(kw, dk, fr, r, s, st)

    out.append(Space("restore", "%d ways of restoring (pickle protocols, copies, files, chains) x 3 states (plain, with evaluation/early stopping, with prediction iteration and metadata) x %d settings x 4 data sets x array/frame/frame with integer labels; then refits" % (len(RESTORE), NCFG), prod(rad), restore))
    radw = [len(RESTORE), 3, NCFG, len(WIDE), 4 if th else 2]

    def restore_wide(i, st):
        r, s, c, k, fr = digits(i, radw)
        if not th:
            if (r + 2 * s + 3 * c + k) % 11:
                return
            fr = (r + s + c + k) % 4
        kw = dict(cfgs(WIDE[k][1])[c])
        if c == 4:
            kw["monotone_constraints"] = {j: 1 if j % 2 else -1 for j in range(WIDE[k][1]) if j % 3 != 1}
            kw["terminate_missing_features"] = [j for j in range(WIDE[k][1]) if j % 4 == 2]
        restore_case(kw, 100 + k, fr, r, s, st)

    out.append(Space("restore-wide", "the same with %d data sets of up to 130 columns and 2100 rows, constraints on most columns, names in and out of order%s" % (len(WIDE), "" if th else " (every eleventh combination)"), prod(radw), restore_wide))
    rad4 = [len(RESTORE), len(SINGLES), 2, 2]

    def restore_single(i, st):
        r, a, s, fr = digits(i, rad4)
        k, v = SINGLES[a]
        kw = dict(BASE, create_missing_branch=True)
        kw[k] = v
        restore_case(kw, 2, fr == 1, r, s, st)

    out.append(Space("restore-parameter", "%d ways of restoring x every listed non-default value of every parameter x without/with evaluation x array/frame; then refits" % len(RESTORE), prod(rad4), restore_single))
    keyed = [(mo, te) for mo in itertools.product((None, -1, 0, 1), repeat=3) for te in itertools.product((0, 1), repeat=3)]
    rad5 = [len(keyed), 2]

    def restore_keyed(i, st):
        a, fr = digits(i, rad5)
        mo, te = keyed[a]
        kw = dict(BASE, create_missing_branch=True, iterations=2)
        kw["monotone_constraints"] = {j: c for j, c in enumerate(mo) if c is not None}
        kw["terminate_missing_features"] = {j for j in range(3) if te[j]}
        restore_case(kw, 2, fr == 1, 8 + 2 * (a % 2), 0, st)

    out.append(Space("restore-keyed", "every monotone constraint map over 3 features (absent, -1, 0, 1) x every set of terminated features x array/frame, through a file", prod(rad5), restore_keyed))
    BADS = ["label", "weight", "data", "eval label", "eval weight", "eval data", "eval columns", "unknown constraint", "not numeric", "size y", "size w", "eval size y", "eval size w"]
    rad6 = [len(BADS), NCFG, 4, 2, 3]

    def refused_fit(i, st):
        bad, c, k, fr, pos = digits(i, rad6)
        dk = [2, 3, 4, 1][k]
        kw = dict(cfgs(data(dk).cols)[c], missing=-77.0)
        d = train_set(kw, dk)
        nm = NAMES[: d.cols]
        mk = (lambda x: frame(x, nm)) if fr else (lambda x: x)
        args = key_names(kw, nm) if fr else kw
        X = mk(d.x.copy())
        m = GradientBooster(**args).fit(X, d.y, sample_weight=d.w, evaluation_data=[(X, d.y, d.w)])
        before, params = observe(m, X), copy.deepcopy(m.get_params())
        q = [0, d.rows // 2, d.rows - 1][pos]
        # other data, so that an accepted fit would show
        e = Data(d.x[::-1].copy(), 1 - d.y, d.w[::-1].copy(), d.kind, None)
        v = Data(d.x.copy(), d.y.copy(), d.w.copy(), d.kind, None)
        t = v if BADS[bad].startswith("eval") else e
        nmv = nm
        if "label" in BADS[bad]:
            t.y[q] = NAN
        elif "weight" in BADS[bad]:
            t.w[q] = [NAN, -1.0, NAN][pos]
        elif "data" in BADS[bad]:
            t.x[q, pos % d.cols] = NAN
        elif "size y" in BADS[bad]:
            t.y = [t.y[:-1], np.append(t.y, 1.0), t.y[:0]][pos]
        elif "size w" in BADS[bad]:
            t.w = [t.w[:-1], np.append(t.w, 1.0), t.w[:0]][pos]
        Xv, Xe = mk(v.x), mk(e.x)
        if BADS[bad] == "eval columns":
            if not fr or d.cols < 2:
                return
            Xv = Xv[nm[::-1]]
        elif BADS[bad] == "unknown constraint":
            if not fr:
                return
            Xe.columns = ["other %d" % j for j in range(d.cols)]
            Xv.columns = Xe.columns
            if not (m.monotone_constraints or m.terminate_missing_features):
                return
        elif BADS[bad] == "not numeric":
            Xe = Xe.astype(object)
            if fr:
                Xe.iloc[q, 0] = "text"
            else:
                Xe[q, 0] = "text"
        try:
            m.fit(Xe, e.y, sample_weight=e.w, evaluation_data=[(mk(d.x.copy()) if BADS[bad] != "unknown constraint" else Xv, d.y, d.w), (Xv, v.y, v.w)])
        except BaseException as ex:
            need(not isinstance(ex, (SystemExit, KeyboardInterrupt)), "fit ended the process")
        else:
            raise Bad("a fit with %s invalid is accepted" % BADS[bad])
        same_obs(before, observe(m, X), "after a fit refused for its %s" % BADS[bad])
        same_params(params, m.get_params(), "after a fit refused for its %s" % BADS[bad])
        st.states += 2
        st.transitions += 2
        st.traces += 1
        st.checks += 2
        st.nontrivial += 1

    out.append(Space("refused", "%d kinds of invalid input to a second fit (NaN or negative labels, weights, data with a number as missing value, in the training or the last evaluation set; other columns; unknown names; text; targets or weights of another length) x %d settings x 4 data sets x array/frame x 3 positions: the estimator is as before" % (len(BADS), NCFG), prod(rad6), refused_fit))
    depth = 5 if th else 4
    nw = 6 if th else 3
    worlds = [hist_world(k) for k in range(nw)]

    def hist(i, st):
        w = worlds[i % nw]
        seq = [OPS[k] for k in digits(i // nw, [len(OPS)] * depth)]
        history(w, seq, st)

    out.append(Space("histories", "every sequence of %d operations out of %d (fits on two frames and an array, refused fits, pickle, deep copy, save/load, clone, set_params, prediction iteration, metadata) x %d settings, compared after every step with a fresh estimator" % (depth, len(OPS), nw), len(OPS) ** depth * nw, hist))
    return out

"""C27: text, node-list and table exports describe exactly the fitted trees."""
import itertools
import re

import numpy as np
import pandas as pd

from base import *
from c25 import frame, key_names
from pc import Space, digits, prod
from forust import GradientBooster
from forust.forust import GradientBooster as Crate

SPLIT = re.compile(r"^( *)(\d+):\[(.+) < ([^\]]+)\] yes=(\d+),no=(\d+),missing=(\d+),gain=([^,]+),cover=([^,]+)$")
LEAF = re.compile(r"^( *)(\d+):leaf=([^,]+),cover=([^,]+)$")


def eq(a, b, tol=0.0):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def unjson(n):
    n = dict(n)
    for k in ("weight_value", "hessian_sum", "split_value", "split_gain"):
        n[k] = unnum(n[k])
    return n


def parse_text(txt):
    out = {}
    order = []
    for line in txt.splitlines():
        if not line.strip():
            continue
        m = SPLIT.match(line)
        if m:
            ind, num_, f, v, y, n, mi, g, c = m.groups()
            d = dict(leaf=False, f=f, v=float(v), yes=int(y), no=int(n), missing=int(mi), gain=float(g), cover=float(c))
        else:
            m = LEAF.match(line)
            need(m is not None, lambda: "text dump has the line %r" % line)
            ind, num_, w, c = m.groups()
            d = dict(leaf=True, w=float(w), cover=float(c))
        d["indent"] = len(ind)
        need(int(num_) not in out, lambda: "node %s occurs twice in the text dump" % num_)
        out[int(num_)] = d
        order.append(int(num_))
    return out, order


def walk(get, row, missing):
    """get(node) -> (leaf?, weight) or (False, feature index, value, yes, no, missing)"""
    n = 0
    for _ in range(10000):
        t = get(n)
        if t[0]:
            return t[1]
        _, f, v, y, no, mi = t
        x = row[f]
        n = mi if (x != x if missing != missing else x == missing) else (y if x < v else no)
    raise Bad("the exported structure has a cycle")


def exports(m, X, x, names, st):
    doc = json.loads(m.json_dump())
    trees = [[unjson(n) for n in t["nodes"]] for t in doc["trees"]]
    miss = unnum(doc["missing"])
    used = len(trees) if doc["prediction_iteration"] is None else doc["prediction_iteration"]
    ncol = x.shape[1]
    txt = m.text_dump()
    need(len(txt) == len(trees), "text dump has %d trees instead of %d" % (len(txt), len(trees)))
    sums = {k: np.full(x.shape[0], unnum(doc["base_score"])) for k in ("text", "nodes", "table")}
    nl = m.get_node_lists()
    nl_idx = m.get_node_lists(map_features_names=False)
    need(len(nl) == len(trees) == len(nl_idx), "node lists of %d trees instead of %d" % (len(nl), len(trees)))
    tab = m.trees_to_dataframe()
    cols = ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover"]
    need(list(tab.columns) == cols, "table has columns %s" % list(tab.columns))
    need(len(tab) == sum(len(t) for t in trees), "table has %d rows for %d nodes" % (len(tab), sum(len(t) for t in trees)))
    rows = {}
    for r in tab.to_dict("records"):
        k = (int(r["Tree"]), int(r["Node"]))
        need(k not in rows, lambda: "node %s occurs twice in the table" % (k,))
        need(r["ID"] == "%d-%d" % k, lambda: "table ID %s for node %s" % (r["ID"], k))
        rows[k] = r
    for ti, t in enumerate(trees):
        T, order = parse_text(txt[ti])
        need(set(T) == set(n["num"] for n in t), lambda: "text dump of tree %d has nodes %s" % (ti, sorted(T)))
        need(len(nl[ti]) == len(t) == len(nl_idx[ti]), "node list of tree %d has %d nodes instead of %d" % (ti, len(nl[ti]), len(t)))
        need(sorted(n.num for n in nl[ti]) == sorted(n["num"] for n in t), "node list of tree %d has other nodes" % ti)
        N = {n.num: n for n in nl[ti]}
        NI = {n.num: n for n in nl_idx[ti]}
        for n in t:
            k = n["num"]
            a, o, oi, r = T[k], N[k], NI[k], rows[(ti, k)]
            where = "tree %d node %d" % (ti, k)
            st.checks += 3
            need(eq(a["cover"], n["hessian_sum"], 1e-6), lambda: "%s: cover %r in the text dump, %r in the tree" % (where, a["cover"], n["hessian_sum"]))
            for f in ("num", "depth", "missing_node", "left_child", "right_child", "is_leaf"):
                for z in (o, oi):
                    need(getattr(z, f) == n[f], lambda: "%s: %s is %r in the node list, %r in the tree" % (where, f, getattr(z, f), n[f]))
            for f in ("weight_value", "hessian_sum", "split_value", "split_gain"):
                for z in (o, oi):
                    need(eq(getattr(z, f), n[f]), lambda: "%s: %s is %r in the node list, %r in the tree" % (where, f, getattr(z, f), n[f]))
            need(eq(r["Cover"], n["hessian_sum"]), lambda: "%s: cover %r in the table, %r in the tree" % (where, r["Cover"], n["hessian_sum"]))
            need(a["leaf"] == n["is_leaf"] == (r["Feature"] == "Leaf" and r["Yes"] is None), lambda: "%s: leaf in one export but not in another" % where)
            if n["is_leaf"]:
                need(eq(a["w"], n["weight_value"], 1e-6), lambda: "%s: leaf weight %r in the text dump, %r in the tree" % (where, a["w"], n["weight_value"]))
                need(eq(r["Gain"], n["weight_value"]), lambda: "%s: leaf weight %r in the table, %r in the tree" % (where, r["Gain"], n["weight_value"]))
                need(all(pd.isna(r[c]) for c in ("Split", "Yes", "No", "Missing")), lambda: "%s: a leaf with split data in the table" % where)
            else:
                f = n["split_feature"]
                name = names[f] if names else f
                need(a["f"] == str(f), lambda: "%s: feature %s in the text dump, %d in the tree" % (where, a["f"], f))
                need(eq(a["v"], n["split_value"]), lambda: "%s: threshold %r in the text dump, %r in the tree" % (where, a["v"], n["split_value"]))
                need((a["yes"], a["no"], a["missing"]) == (n["left_child"], n["right_child"], n["missing_node"]), lambda: "%s: children %s in the text dump" % (where, (a["yes"], a["no"], a["missing"])))
                need(eq(a["gain"], n["split_gain"], 1e-6), lambda: "%s: gain %r in the text dump, %r in the tree" % (where, a["gain"], n["split_gain"]))
                need(o.split_feature == name and oi.split_feature == f, lambda: "%s: feature %r in the node list, %r in the tree" % (where, o.split_feature, name))
                need(r["Feature"] == str(name) and eq(r["Split"], n["split_value"]) and eq(r["Gain"], n["split_gain"]), lambda: "%s: table row %s" % (where, r))
                need((r["Yes"], r["No"], r["Missing"]) == tuple("%d-%d" % (ti, n[c]) for c in ("left_child", "right_child", "missing_node")), lambda: "%s: children %s in the table" % (where, (r["Yes"], r["No"], r["Missing"])))
                for c in {n["left_child"], n["right_child"], n["missing_node"]}:
                    need(T[c]["indent"] > a["indent"], lambda: "%s: child %d is not indented below it" % (where, c))
        # the structures as functions
        names_ = names or list(range(ncol))
        gets = {
            "text": lambda k: (True, T[k]["w"]) if T[k]["leaf"] else (False, int(T[k]["f"]), T[k]["v"], T[k]["yes"], T[k]["no"], T[k]["missing"]),
            "nodes": lambda k: (True, N[k].weight_value) if N[k].is_leaf else (False, names_.index(N[k].split_feature), N[k].split_value, N[k].left_child, N[k].right_child, N[k].missing_node),
            "table": lambda k: (True, rows[(ti, k)]["Gain"]) if rows[(ti, k)]["Feature"] == "Leaf" and rows[(ti, k)]["Yes"] is None else (False, [str(z) for z in names_].index(rows[(ti, k)]["Feature"]), rows[(ti, k)]["Split"]) + tuple(int(rows[(ti, k)][c].split("-")[1]) for c in ("Yes", "No", "Missing")),
        }
        if ti < used:
            for kind, g in gets.items():
                for i in range(x.shape[0]):
                    sums[kind][i] += walk(g, x[i], miss)
                    st.transitions += 1
    p = m.predict(X)
    for kind, s in sums.items():
        for i in range(x.shape[0]):
            need(eq(p[i], s[i], 1e-5) or abs(p[i] - s[i]) < 1e-9, lambda: "row %d: the %s export predicts %r, the model %r" % (i, kind, s[i], p[i]))
    st.states += sum(len(t) for t in trees)
    st.traces += 1
    st.nontrivial += any(len(t) > 1 for t in trees)


# ---- enumerated trees
VALS = [0.5, -1e-7, 1e300, 12345.678901234567, -0.0, 3.0, 1.0 / 3.0, -5e-324]
W32 = [float(np.float32(v)) for v in (0.1, -1e-30, 3.4e38, -0.0, 1e-45, -7.25, 1.0 / 3, 1e7)]
ODD = [NAN, float("inf"), float("-inf")]


def grow(code, nsplit, nf, odd, flip):
    """decode `code` into a tree: each step expands one leaf as binary (missing left/right) or with a missing branch"""
    nodes = [dict(num=0, depth=0, leaf=True)]
    leaves = [0]
    for s in range(nsplit):
        r = 3 * len(leaves)
        c = code % r
        code //= r
        at = leaves.pop(c // 3)
        kind = c % 3
        k = len(nodes)
        n = 3 if kind == 2 else 2
        ids = list(range(k, k + n))
        for i in ids:
            nodes.append(dict(num=i, depth=nodes[at]["depth"] + 1, leaf=True))
        if flip:
            ids = ids[::-1]
        nodes[at].update(leaf=False, left=ids[0], right=ids[1], miss=ids[2] if kind == 2 else ids[kind], f=(s + c) % nf, v=VALS[(s * 3 + c) % len(VALS)])
        leaves += range(k, k + n)
    out = []
    for n in nodes:
        k = n["num"]
        w = W32[(k * 5 + 1) % 8]
        cov = abs(W32[(k * 3 + 5) % 8])
        if odd and n["leaf"] and k % 3 == 1:
            w = ODD[k % 9 // 3]
        out.append(
            dict(
                num=k,
                weight_value=num(w),
                hessian_sum=num(cov),
                depth=n["depth"],
                split_value=num(n.get("v", 0.0)),
                split_feature=n.get("f", 0),
                split_gain=num(W32[(k * 7) % 8] if not (odd and not n["leaf"]) else ODD[k % 3]) if not n["leaf"] else 0.0,
                missing_node=n.get("miss", 0),
                left_child=n.get("left", 0),
                right_child=n.get("right", 0),
                is_leaf=n["leaf"],
            )
        )
    return out


def ncodes(nsplit):
    """an upper bound that reaches every shape: after k splits at most 1+2k leaves"""
    p = 1
    for k in range(nsplit):
        p *= 3 * (1 + 2 * k)
    return p


def model_of(trees, names, nf, missing=NAN, base=0.25, pred=None):
    d = crate_doc(dict(missing=missing, base_score=base))
    d["trees"] = [{"nodes": t} for t in trees]
    d["prediction_iteration"] = pred
    m = GradientBooster()
    m.booster = Crate.from_json(json.dumps(d))
    m.n_features_ = nf
    if names:
        m.feature_names_in_ = names[:nf]
    return m


def spaces(th):
    out = []
    maxs = 4 if th else 3
    sizes = [(s, ncodes(s)) for s in range(maxs + 1)]
    rad = [2, 2, 2, 2, sum(c for _, c in sizes)]
    pts = [NAN, -1.0, 0.0, -1e-7, 1.0 / 3.0, 0.5, 1.0, 20000.0, 1e300]

    def shapes(i, st):
        odd, flip, named, sent, code = digits(i, rad)
        for s, c in sizes:
            if code < c:
                break
            code -= c
        nf = 2
        t = grow(code, s, nf, odd == 1, flip == 1)
        t2 = grow(code // 2, max(0, s - 1), nf, False, flip == 0)
        miss = 1.0 if sent else NAN
        m = model_of([t, t2], NAMES if named else None, nf, missing=miss, pred=1 if code % 3 == 2 else None)
        x = np.array([(a, b) for a in pts for b in pts])
        if sent:
            x[np.isnan(x)] = 1.0
        X = frame(x, NAMES) if named else x
        exports(m, X, x, NAMES[:nf] if named else None, st)

    out.append(Space("shapes", "every tree of up to %d splits in every growth order (binary with missing left or right, missing branch) with extreme and (variant) non-finite values x node numbering x names/indices x missing NaN/number, evaluated on an 81-row grid around all thresholds" % maxs, prod(rad), shapes))
    radl = [6, 4, 3, 2]

    def large(i, st):
        size, form, nt, named = digits(i, radl)
        n = [10, 33, 70, 150, 400, 1300][size]
        ntrees = [1, 12, 105][nt]
        if n * ntrees > 2000 and (n * ntrees > 5000 or form):
            return
        nf = [3, 12, 40, 130][form]
        trees = []
        for t in range(ntrees):
            # every node is the root of a chain, or of a bush, depending on the form
            nodes = [dict(num=0, depth=0, is_leaf=True)]
            leaves = [0]
            for s in range(n if t == 0 else 1 + (n + t) % 9):
                at = leaves.pop(-1 if form % 2 == 0 else 0)
                ids = list(range(len(nodes), len(nodes) + (3 if (s + t) % 3 == 0 else 2)))
                nodes += [dict(num=q, depth=nodes[at]["depth"] + 1, is_leaf=True) for q in ids]
                nodes[at].update(is_leaf=False, left_child=ids[0], right_child=ids[1], missing_node=ids[2] if len(ids) == 3 else ids[s % 2], split_feature=(s * 7 + t) % nf, split_value=VALS[(s + t) % 8] * (1 + s), split_gain=float(np.float32(0.1 * s + 0.01)))
                leaves += ids
            for q in nodes:
                q["weight_value"] = float(np.float32(((q["num"] * 7919 + t) % 1000) / 999 - 0.4))
                q["hessian_sum"] = float(np.float32(1 + q["num"] % 17 * 0.37))
                for f, v in (("left_child", 0), ("right_child", 0), ("missing_node", 0), ("split_feature", 0), ("split_value", 0.0), ("split_gain", 0.0)):
                    q.setdefault(f, v)
            trees.append(nodes)
        nm = wide_names(nf, 1 - size % 2)
        m = model_of(trees, nm if named else None, nf, pred=[None, ntrees // 2 + 1][size % 2])
        x = np.array([[[NAN, -1.0, 0.4, 1.0, 1e301][(r * 3 + j * r + j) % 5] for j in range(nf)] for r in range(15)])
        exports(m, pd.DataFrame(x, columns=nm) if named else x, x, nm if named else None, st)

    out.append(Space("large", "trees of 10-1300 splits, as chains and as bushes, over 3-130 columns, ensembles of 1, 12 and 105 trees, named or not, evaluated on 15 rows", prod(radl), large))
    rad2 = [NDATA, NCFG, 2, 2]

    def fitted(i, st):
        k, c, fr, pin = digits(i, rad2)
        d = data(k)
        kw = cfgs(d.cols)[c]
        nm = NAMES[: d.cols]
        X = frame(d.x, nm) if fr else d.x
        m = GradientBooster(**(key_names(kw, nm) if fr else kw)).fit(X, d.y, sample_weight=d.w, evaluation_data=[(X, d.y, d.w)])
        if pin:
            m.set_prediction_iteration(1)
        exports(m, X, d.x, nm if fr else None, st)

    out.append(Space("fitted", "models fitted on %d data sets x %d settings x array/frame x all/one tree selected" % (NDATA, NCFG), prod(rad2), fitted))
    return out

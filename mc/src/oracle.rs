//! Independent reference for what a fitted tree has to look like.
//!
//! Everything here is recomputed in f64 from the raw training data; the implementation's
//! trees are only read through their public node fields.
use crate::core::*;
use forust_ml::tree::Tree;
use forust_ml::GradientBooster;

#[derive(Clone, Debug)]
pub struct N {
    pub num: usize,
    pub w: f32,
    pub h: f32,
    pub depth: usize,
    pub sv: f64,
    pub sf: usize,
    pub gain: f32,
    pub m: usize,
    pub l: usize,
    pub r: usize,
    pub leaf: bool,
}
impl N {
    pub fn has_missing_branch(&self) -> bool {
        self.m != self.l && self.m != self.r
    }
    pub fn child(&self, v: f64, missing: f64) -> usize {
        if is_missing(v, missing) {
            self.m
        } else if v < self.sv {
            self.l
        } else {
            self.r
        }
    }
}
pub fn is_missing(v: f64, missing: f64) -> bool {
    if missing.is_nan() {
        v.is_nan()
    } else {
        v == missing
    }
}
pub fn snap(t: &Tree) -> Vec<N> {
    t.nodes
        .iter()
        .map(|n| N {
            num: n.num,
            w: n.weight_value,
            h: n.hessian_sum,
            depth: n.depth,
            sv: n.split_value,
            sf: n.split_feature,
            gain: n.split_gain,
            m: n.missing_node,
            l: n.left_child,
            r: n.right_child,
            leaf: n.is_leaf,
        })
        .collect()
}
pub fn snap_all(b: &GradientBooster) -> Vec<Vec<N>> {
    b.trees.iter().map(snap).collect()
}
pub fn leaf_of(t: &[N], row: &[f64], missing: f64) -> Result<usize, String> {
    let mut i = 0;
    for _ in 0..=t.len() {
        let n = t.get(i).ok_or_else(|| format!("child index {} out of range", i))?;
        if n.leaf {
            return Ok(i);
        }
        i = n.child(row[n.sf], missing);
    }
    Err("routing does not reach a leaf".into())
}

pub fn sigmoid(z: f64) -> f64 {
    1. / (1. + (-z).exp())
}
/// Gradients and hessians as the objective defines them (stored by the crate as f32).
pub fn grad_hess(obj: Obj, y: &[f64], yhat: &[f64], w: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let mut g = Vec::with_capacity(y.len());
    let mut h = Vec::with_capacity(y.len());
    for i in 0..y.len() {
        match obj {
            Obj::Log => {
                let p = sigmoid(yhat[i]);
                g.push((w[i] * (p - y[i])) as f32 as f64);
                h.push((w[i] * p * (1. - p)) as f32 as f64);
            }
            Obj::Sq => {
                g.push((w[i] * (yhat[i] - y[i])) as f32 as f64);
                h.push(w[i] as f32 as f64);
            }
        }
    }
    (g, h)
}

pub fn opt_weight(cfg: &Cfg, g: f64, h: f64) -> f64 {
    let l1 = cfg.l1 as f64;
    let t = if g > l1 {
        g - l1
    } else if g < -l1 {
        g + l1
    } else {
        0.
    };
    let w = -t / (h + cfg.l2 as f64);
    let mds = cfg.mds as f64;
    if mds != 0. && w.abs() > mds {
        mds.copysign(w)
    } else {
        w
    }
}
pub fn gain_at(cfg: &Cfg, g: f64, h: f64, w: f64) -> f64 {
    -(2. * g * w + (h + cfg.l2 as f64) * w * w)
}
fn clamp(w: f64, lo: f64, hi: f64) -> f64 {
    if w > hi {
        hi
    } else if w < lo {
        lo
    } else {
        w
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Tol {
    pub g: f64,
    pub h: f64,
    pub eps: f64,
    /// by how much a cover must exceed min_leaf_weight to count as admissible beyond doubt
    pub adm: f64,
}
#[derive(Clone, Debug)]
struct Info {
    g: f64,
    h: f64,
    /// unscaled weight the node had while the tree was grown
    raw: f64,
    /// tolerance of raw
    dt: f64,
    gain: f64,
    gain_tol: f64,
    lo: f64,
    hi: f64,
    bt: f64,
}

pub struct Flags {
    pub stats: bool,
    pub optimal: bool,
    pub order: bool,
}
pub const STATS: Flags = Flags { stats: true, optimal: false, order: false };
pub const OPT: Flags = Flags { stats: false, optimal: true, order: true };

fn dweight(cfg: &Cfg, t: Tol, h: f64, w: f64) -> f64 {
    let den = h + cfg.l2 as f64 - t.h;
    if den <= 20. * t.h || den <= 0. {
        f64::INFINITY
    } else {
        (t.g + w.abs() * t.h) / den + 2e-6 * (1. + w.abs())
    }
}

/// Rows (of `rows`) reaching every node.
pub fn reach(t: &[N], d: &Data, rows: &[usize], missing: f64) -> Result<Vec<Vec<usize>>, String> {
    let mut at: Vec<Vec<usize>> = vec![vec![]; t.len()];
    for &r in rows {
        let mut i = 0;
        let mut steps = 0;
        loop {
            let n = t.get(i).ok_or_else(|| format!("child index {} out of range", i))?;
            at[i].push(r);
            if n.leaf {
                break;
            }
            if n.sf >= d.cols {
                return Err(format!("split on feature {} of {}", n.sf, d.cols));
            }
            i = n.child(d.at(r, n.sf), missing);
            steps += 1;
            if steps > t.len() {
                return Err("routing does not terminate".into());
            }
        }
    }
    Ok(at)
}

/// Children weights of a split as the documentation defines them (alternatives only on exact ties).
fn pair_weights(cfg: &Cfg, gl: f64, hl: f64, gr: f64, hr: f64, lo: f64, hi: f64, wp: f64, tie: f64) -> Vec<(f64, f64)> {
    let wl = clamp(opt_weight(cfg, gl, hl), lo, hi);
    let wr = clamp(opt_weight(cfg, gr, hr), lo, hi);
    if cfg.cmb && cfg.force {
        let (a, b) = (wl.min(wr), wl.max(wr));
        if wp >= a && wp <= b {
            return vec![(wl, wr)];
        }
        let left_moved = (wp, wr);
        let right_moved = (wl, wp);
        if (wl - wr).abs() <= tie {
            return vec![left_moved, right_moved];
        }
        // the nearer end moves to the parent
        if (wp > b) == (wl > wr) {
            vec![left_moved]
        } else {
            vec![right_moved]
        }
    } else {
        vec![(wl, wr)]
    }
}

/// What one candidate (feature, threshold) of a node promises, if it is certainly admissible.
struct Cand {
    f: usize,
    v: f64,
    gain: f64,
    tol: f64,
}

#[allow(clippy::too_many_arguments)]
fn candidate(
    cfg: &Cfg,
    t: Tol,
    info: &Info,
    d: &Data,
    rows: &[usize],
    g: &[f64],
    h: &[f64],
    f: usize,
    v: f64,
) -> Option<Cand> {
    let (mut gl, mut hl, mut gr, mut hr, mut gm, mut hm) = (0., 0., 0., 0., 0., 0.);
    let (mut nl, mut nr, mut nm) = (0, 0, 0);
    for &r in rows {
        let x = d.at(r, f);
        if is_missing(x, cfg.missing) {
            gm += g[r];
            hm += h[r];
            nm += 1;
        } else if x < v {
            gl += g[r];
            hl += h[r];
            nl += 1;
        } else {
            gr += g[r];
            hr += h[r];
            nr += 1;
        }
    }
    let mlw = cfg.mlw as f64;
    let ok_h = |x: f64| x >= mlw + t.adm.min(x * 1e-5) && x > 0.;
    let mono = cfg.mono_of(f);
    let violates = |wl: f64, wr: f64, tol: f64| -> bool {
        match mono {
            1 => wl >= wr - tol,
            -1 => wl <= wr + tol,
            _ => false,
        }
    };
    let gtol = |g: f64, h: f64, w: f64| -> f64 {
        let dw = dweight(cfg, t, h, w).max(info.bt);
        2. * w.abs() * t.g + w * w * t.h + (2. * g + 2. * (h + cfg.l2 as f64) * w).abs() * dw
            + (h + cfg.l2 as f64) * dw * dw
            + 1e-5 * (2. * (g * w).abs() + (h + cfg.l2 as f64) * w * w)
    };
    let wt = |g: f64, h: f64| clamp(opt_weight(cfg, g, h), info.lo, info.hi);
    if cfg.cmb {
        if nl == 0 || nr == 0 || !ok_h(hl) || !ok_h(hr) {
            return None;
        }
        let ps = pair_weights(cfg, gl, hl, gr, hr, info.lo, info.hi, info.raw, 1e-3);
        if ps.len() != 1 {
            return None;
        }
        let (wl, wr) = ps[0];
        let dl = dweight(cfg, t, hl, wl).max(info.dt).max(info.bt);
        let dr = dweight(cfg, t, hr, wr).max(info.dt).max(info.bt);
        if violates(wl, wr, 2. * (dl + dr)) {
            return None;
        }
        let wm = match cfg.treat {
            Treat::Parent => wt(gm + gl + gr, hm + hl + hr),
            Treat::AvgLeaf | Treat::AvgNode => (wr * hr + wl * hl) / (hr + hl),
            Treat::None => {
                if nm == 0 || hm == 0. {
                    info.raw
                } else {
                    wt(gm, hm)
                }
            }
        };
        let gain = gain_at(cfg, gl, hl, wl) + gain_at(cfg, gr, hr, wr)
            + gain_at(cfg, gm, hm, wm) - info.gain;
        let mut tol = gtol(gl, hl, wl) + gtol(gr, hr, wr) + info.gain_tol;
        let dm = dl + dr + info.dt;
        tol += 2. * wm.abs() * t.g + wm * wm * t.h
            + (2. * gm + 2. * (hm + cfg.l2 as f64) * wm).abs() * dm
            + (hm + cfg.l2 as f64) * dm * dm;
        if cfg.force {
            tol += ((2. * gl + 2. * (hl + cfg.l2 as f64) * wl).abs() + (2. * gr + 2. * (hr + cfg.l2 as f64) * wr).abs()) * info.dt;
        }
        Some(Cand { f, v, gain, tol })
    } else {
        if !cfg.ams && (nl == 0 || nr == 0 || !ok_h(hl) || !ok_h(hr)) {
            return None;
        }
        let has_m = nm > 0 && (gm != 0. || hm != 0.);
        let mut options: Vec<(f64, f64, f64, f64)> = vec![];
        if has_m {
            let wl = wt(gl, hl);
            let wr = wt(gr, hr);
            let wlm = wt(gl + gm, hl + hm);
            let wrm = wt(gr + gm, hr + hm);
            let e = 2. * (dweight(cfg, t, hl + hm, wlm) + dweight(cfg, t, hr + hm, wrm)).max(info.bt);
            let zero_side = |n: usize, g: f64, h: f64, w: f64| if n == 0 { 0. } else { gain_at(cfg, g, h, w) };
            // total gain of sending the missing records left / right
            let tl = gain_at(cfg, gl + gm, hl + hm, wlm) + zero_side(nr, gr, hr, wr);
            let tr = gain_at(cfg, gr + gm, hr + hm, wrm) + zero_side(nl, gl, hl, wl);
            let vl = nr > 0 && violates(wlm, wr, 0.);
            let vr = nl > 0 && violates(wl, wrm, 0.);
            // too close to call: leave the candidate out
            if mono != 0 && (nl == 0 || nr == 0) {
                return None;
            }
            if mono != 0 && ((nr > 0 && (wlm - wr).abs() < e) || (nl > 0 && (wl - wrm).abs() < e)) {
                return None;
            }
            let left = (gl + gm, hl + hm, gr, hr);
            let right = (gl, hl, gr + gm, hr + hm);
            let slack = 1e-4 * (tl.abs() + tr.abs()) + gtol(gl + gm, hl + hm, wlm) + gtol(gr + gm, hr + hm, wrm)
                + gtol(gl, hl, if nl > 0 { wl } else { 0. }) + gtol(gr, hr, if nr > 0 { wr } else { 0. });
            match (vl, vr) {
                (true, true) => return None,
                (true, false) => options.push(right),
                (false, true) => options.push(left),
                _ => {
                    // an empty side plus the missing records: the other direction leaves nothing
                    if tl > tr + slack {
                        options.push(left)
                    } else if tr > tl + slack {
                        options.push(right)
                    } else {
                        options.push(left);
                        options.push(right);
                    }
                }
            }
        } else {
            if nl == 0 || nr == 0 {
                return None;
            }
            options.push((gl, hl, gr, hr));
        }
        let mut best: Option<Cand> = None;
        for (a, b, c, e) in options {
            if !ok_h(b) || !ok_h(e) {
                return None;
            }
            let wl = wt(a, b);
            let wr = wt(c, e);
            let tt = 2. * (dweight(cfg, t, b, wl) + dweight(cfg, t, e, wr)).max(info.bt);
            if violates(wl, wr, tt) {
                return None;
            }
            let gain = gain_at(cfg, a, b, wl) + gain_at(cfg, c, e, wr) - info.gain;
            let tol = gtol(a, b, wl) + gtol(c, e, wr) + info.gain_tol;
            let better = match &best {
                None => true,
                Some(x) => gain - tol < x.gain - x.tol,
            };
            if better {
                best = Some(Cand { f, v, gain, tol });
            }
        }
        best
    }
}

/// Thresholds the documentation promises for a feature: all distinct values if they fit into nbins.
pub fn full_thresholds(d: &Data, f: usize, nbins: u16, missing: f64) -> Option<Vec<f64>> {
    let mut v: Vec<f64> = d.col(f).iter().copied().filter(|x| !is_missing(*x, missing)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    if v.len() <= nbins as usize {
        Some(v)
    } else {
        None
    }
}

/// Audit one tree that was grown on `rows` with gradients g, h.
#[allow(clippy::too_many_arguments)]
pub fn audit_tree(
    cfg: &Cfg,
    d: &Data,
    g: &[f64],
    h: &[f64],
    rows: &[usize],
    features: &[usize],
    t: &[N],
    flags: &Flags,
    eps: f64,
    st: &mut Stats,
) -> Result<(), String> {
    let lr = cfg.lr as f64;
    let at = reach(t, d, rows, cfg.missing)?;
    let sg: f64 = rows.iter().map(|r| g[*r].abs()).sum();
    let sh: f64 = rows.iter().map(|r| h[*r]).sum();
    let exact = is_exact(rows, g, h);
    let tol = Tol { g: eps * sg + 1e-12, h: eps * sh + 1e-12, eps, adm: if exact { 0. } else { eps * sh + 1e-12 } };
    let sums = |i: usize| -> (f64, f64) {
        let mut a = 0.;
        let mut b = 0.;
        for &r in &at[i] {
            a += g[r];
            b += h[r];
        }
        (a, b)
    };
    let mut info: Vec<Option<Info>> = vec![None; t.len()];
    let (g0, h0) = sums(0);
    let w0 = opt_weight(cfg, g0, h0);
    info[0] = Some(Info {
        g: g0,
        h: h0,
        raw: w0,
        dt: dweight(cfg, tol, h0, w0),
        gain: g0 * g0 / (h0 + cfg.l2 as f64),
        gain_tol: 2. * w0.abs() * tol.g + w0 * w0 * tol.h + 1e-5 * (g0 * g0 / (h0 + cfg.l2 as f64)).abs(),
        lo: f64::NEG_INFINITY,
        hi: f64::INFINITY,
        bt: 0.,
    });
    let thresholds: Vec<Option<Vec<f64>>> =
        (0..d.cols).map(|f| full_thresholds(d, f, cfg.nbins, cfg.missing)).collect();
    let mut stack = vec![0usize];
    let mut depths = vec![0usize; t.len()];
    let mut visited = 0;
    let mut open_leaf_depth: Option<usize> = None;
    let mut max_split_depth: Option<usize> = None;
    let mut open_leaf = vec![false; t.len()];
    let n_leaves = t.iter().filter(|n| n.leaf).count();
    let mut ill = vec![false; t.len()];
    // leaf missing children which may not be split further
    let mut terminated = vec![false; t.len()];
    while let Some(i) = stack.pop() {
        visited += 1;
        if visited > t.len() {
            return Err("nodes form a cycle".into());
        }
        let n = &t[i];
        let inf = info[i].clone().unwrap();
        st.states += 1;
        if flags.stats {
            if !((n.h as f64 - inf.h).abs() <= 2. * tol.h) {
                return Err(format!(
                    "node {}: cover {} but the {} records routed to it have hessian sum {}",
                    i, n.h, at[i].len(), inf.h
                ));
            }
            let avgleaf_changed = cfg.cmb && cfg.treat == Treat::AvgLeaf && (!n.leaf || terminated_missing(t, i));
            if !avgleaf_changed && !ill[i] && inf.dt.is_finite() {
                let e = inf.raw * lr;
                if !((n.w as f64 - e).abs() <= 3. * inf.dt * lr + 1e-6 * (1. + e.abs())) {
                    return Err(format!("node {}: weight {} but its records' optimum gives {} (G={} H={})", i, n.w, e, inf.g, inf.h));
                }
            }
        }
        // candidates
        let want_opt = flags.optimal && !ill[i] && inf.dt.is_finite();
        let mut best: Option<Cand> = None;
        let may_split = depths[i] < cfg.max_depth && !terminated[i];
        if want_opt && (!n.leaf || may_split) {
            for &f in features {
                if let Some(ths) = &thresholds[f] {
                    for v in ths {
                        if let Some(c) = candidate(cfg, tol, &inf, d, &at[i], g, h, f, *v) {
                            st.evaluations += 1;
                            if best.as_ref().map_or(true, |b| c.gain - c.tol > b.gain - b.tol) {
                                best = Some(c);
                            }
                        }
                    }
                }
            }
        }
        if n.leaf {
            if want_opt && may_split {
                if let Some(c) = &best {
                    if c.gain - c.tol - 1e-6 > cfg.gamma as f64 {
                        // splittable leaf: only max_leaves can excuse it
                        let add = if cfg.cmb { 2 } else { 1 };
                        if n_leaves.saturating_add(add) <= cfg.max_leaves {
                            return Err(format!(
                                "node {} is a leaf, but splitting it at feature {} < {} has gain {} > gamma {} and no limit forbids it",
                                i, c.f, c.v, c.gain, cfg.gamma
                            ));
                        }
                        open_leaf_depth = Some(open_leaf_depth.map_or(depths[i], |x: usize| x.min(depths[i])));
                        open_leaf[i] = true;
                    }
                }
            }
            continue;
        }
        st.transitions += 1;
        max_split_depth = Some(max_split_depth.map_or(depths[i], |x: usize| x.max(depths[i])));
        for c in [n.l, n.r, n.m] {
            if c >= t.len() || c == 0 {
                return Err(format!("node {}: child {} out of range", i, c));
            }
        }
        let (gl, hl) = sums(n.l);
        let (gr, hr) = sums(n.r);
        let alts = pair_weights(cfg, gl, hl, gr, hr, inf.lo, inf.hi, inf.raw, 1e-3);
        // on an exact tie of the forced pair pick the alternative the tree shows
        let (wl, wr) = if alts.len() == 1 || (cfg.cmb && cfg.treat == Treat::AvgLeaf && !t[n.l].leaf) {
            alts[0]
        } else {
            *alts
                .iter()
                .min_by(|a, b| {
                    let da = (a.0 * lr - t[n.l].w as f64).abs() + (a.1 * lr - t[n.r].w as f64).abs();
                    let db = (b.0 * lr - t[n.l].w as f64).abs() + (b.1 * lr - t[n.r].w as f64).abs();
                    da.partial_cmp(&db).unwrap()
                })
                .unwrap()
        };
        let force = cfg.cmb && cfg.force;
        let extra = if force { inf.dt } else { 0. };
        let dl = dweight(cfg, tol, hl, wl).max(inf.bt) + extra;
        let dr = dweight(cfg, tol, hr, wr).max(inf.bt) + extra;
        let mid = (wl + wr) / 2.;
        let (bl, br) = match cfg.mono_of(n.sf) {
            1 => ((inf.lo, mid), (mid, inf.hi)),
            -1 => ((mid, inf.hi), (inf.lo, mid)),
            _ => ((inf.lo, inf.hi), (inf.lo, inf.hi)),
        };
        let bt = inf.bt.max(if cfg.mono_of(n.sf) != 0 { (dl + dr) / 2. } else { 0. });
        let mk = |g: f64, h: f64, w: f64, dt: f64, b: (f64, f64), gain_w: f64| -> Info {
            Info {
                g,
                h,
                raw: w,
                dt,
                gain: gain_at(cfg, g, h, gain_w),
                gain_tol: 2. * gain_w.abs() * tol.g + gain_w * gain_w * tol.h
                    + (2. * g + 2. * (h + cfg.l2 as f64) * gain_w).abs() * dt
                    + (h + cfg.l2 as f64) * dt * dt
                    + 1e-5 * (2. * (g * gain_w).abs() + (h + cfg.l2 as f64) * gain_w * gain_w),
                lo: b.0,
                hi: b.1,
                bt,
            }
        };
        let li = mk(gl, hl, wl, dl, bl, wl);
        let ri = mk(gr, hr, wr, dr, br, wr);
        let mut total = li.gain + ri.gain;
        let mut total_tol = li.gain_tol + ri.gain_tol + inf.gain_tol;
        // how much more the split may have been credited with because rounding residue in an
        // empty missing bin hides that it is empty
        let mut residue = 0.;
        if n.has_missing_branch() {
            let (gm, hm) = sums(n.m);
            let nm = at[n.m].len();
            let (wm, dm, gw) = match cfg.treat {
                Treat::Parent => {
                    let c = clamp(opt_weight(cfg, gm + gl + gr, hm + hl + hr), inf.lo, inf.hi);
                    (inf.raw, inf.dt, c)
                }
                Treat::AvgLeaf | Treat::AvgNode => {
                    let w = (wr * hr + wl * hl) / (hr + hl);
                    (w, dl + dr, w)
                }
                Treat::None => {
                    if nm == 0 || hm == 0. {
                        (inf.raw, inf.dt, inf.raw)
                    } else {
                        let w = clamp(opt_weight(cfg, gm, hm), inf.lo, inf.hi);
                        (w, dweight(cfg, tol, hm, w).max(inf.bt), w)
                    }
                }
            };
            let mi = mk(gm, hm, wm, dm, (inf.lo, inf.hi), gw);
            total += mi.gain;
            total_tol += mi.gain_tol;
            if nm == 0 && !exact && cfg.treat == Treat::None {
                residue = (-mi.gain).max(0.);
                if cfg.l2 == 0. {
                    total_tol += 1e-3 * sg;
                }
            }
            terminated[n.m] = !cfg.ams || cfg.term.contains(&n.sf) || nm == 0 || (gm == 0. && hm == 0.);
            ill[n.m] = ill[i] || !dm.is_finite();
            info[n.m] = Some(mi);
            depths[n.m] = depths[i] + 1;
            stack.push(n.m);
        }
        let hidden = alts.len() > 1 && cfg.treat == Treat::AvgLeaf && (!t[n.l].leaf || !t[n.r].leaf);
        ill[n.l] = ill[i] || !dl.is_finite() || hidden;
        ill[n.r] = ill[i] || !dr.is_finite() || hidden;
        if hidden {
            ill[n.m] = true;
        }
        info[n.l] = Some(li);
        info[n.r] = Some(ri);
        depths[n.l] = depths[i] + 1;
        depths[n.r] = depths[i] + 1;
        stack.push(n.l);
        stack.push(n.r);
        let gain = total - inf.gain;
        if flags.stats && !ill[i] && !ill[n.l] && !ill[n.r] && total_tol.is_finite() {
            let off = n.gain as f64 - gain;
            if !(off <= residue + 2. * total_tol + 1e-6 && -off <= 2. * total_tol + 1e-6) {
                return Err(format!("node {}: recorded gain {} but the split's loss reduction is {} (tolerance {})", i, n.gain, gain, total_tol));
            }
        }
        if want_opt && !ill[n.l] && !ill[n.r] && total_tol.is_finite() {
            if let Some(c) = &best {
                if c.gain - c.tol > gain + residue + total_tol + 1e-6 {
                    return Err(format!(
                        "node {}: split at feature {} < {} (gain {}) although feature {} < {} has gain {}",
                        i, n.sf, n.sv, gain, c.f, c.v, c.gain
                    ));
                }
            }
        }
    }
    if visited != t.len() {
        return Err(format!("{} of {} nodes are reachable", visited, t.len()));
    }
    if flags.order && !cfg.lossguide {
        if let (Some(o), Some(s)) = (open_leaf_depth, max_split_depth) {
            if s > o {
                return Err(format!("a splittable node at depth {} was left as a leaf while a node at depth {} was split (depth-wise growth)", o, s));
            }
        }
    }
    if flags.order && cfg.lossguide && open_leaf_depth.is_some() && !ill.iter().any(|b| *b) {
        // replay best-first growth: no splittable leaf may rank above every node still to be split
        let sc = |i: usize| {
            let f = info[i].as_ref().unwrap();
            (f.gain, f.gain_tol)
        };
        // nodes that rank equal may be split in either order: take the order of the ranks, and
        // if that does not work out the order in which the children were numbered
        let replay = |by_rank: bool, st: &mut Stats| -> Result<(), String> {
            let mut frontier = vec![0usize];
            loop {
                let open = frontier.iter().copied().filter(|i| !t[*i].leaf);
                let next = if by_rank { open.max_by(|a, b| sc(*a).0.total_cmp(&sc(*b).0)) } else { open.min_by_key(|a| t[*a].l.min(t[*a].r)) };
                let Some(s) = next else { return Ok(()) };
                st.transitions += 1;
                for &o in frontier.iter().filter(|o| open_leaf[**o]) {
                    if sc(o).0 - sc(o).1 > sc(s).0 + sc(s).1 + 1e-5 * (1. + sc(s).0.abs()) {
                        return Err(format!(
                            "loss-guided growth: node {} (loss reduction {}) was split although node {} (loss reduction {}) was open, splittable and is left as a leaf",
                            s, sc(s).0, o, sc(o).0
                        ));
                    }
                }
                frontier.retain(|x| *x != s);
                frontier.push(t[s].l);
                frontier.push(t[s].r);
                if t[s].has_missing_branch() {
                    frontier.push(t[s].m);
                }
            }
        };
        replay(true, st).or_else(|_| replay(false, st))?;
    }
    // AverageLeafWeight: internal nodes and leaf missing children hold the averages
    if flags.stats && cfg.cmb && cfg.treat == Treat::AvgLeaf {
        check_avg_leaf(t)?;
    }
    Ok(())
}

/// All sums of these statistics are exact in f32 (dyadic, small): no rounding residue anywhere.
pub fn is_exact(rows: &[usize], g: &[f64], h: &[f64]) -> bool {
    rows.len() < 256
        && rows.iter().all(|&r| {
            [g[r], h[r]].iter().all(|v| (v * 256.).fract() == 0. && v.abs() <= 64.)
        })
}
fn terminated_missing(t: &[N], i: usize) -> bool {
    t.iter().any(|p| !p.leaf && p.has_missing_branch() && p.m == i) && t[i].leaf
}
pub fn check_avg_leaf(t: &[N]) -> Result<(), String> {
    for n in t.iter().filter(|n| !n.leaf && n.has_missing_branch()) {
        let (l, r, m) = (&t[n.l], &t[n.r], &t[n.m]);
        let mut num = l.w as f64 * l.h as f64 + r.w as f64 * r.h as f64;
        let mut den = l.h as f64 + r.h as f64;
        if !m.leaf {
            num += m.w as f64 * m.h as f64;
            den += m.h as f64;
        }
        if den <= 0. {
            continue;
        }
        let e = num / den;
        let tol = 1e-5 * (1. + e.abs());
        if (n.w as f64 - e).abs() > tol {
            return Err(format!("node {}: AverageLeafWeight, weight {} but the cover-weighted mean of its children is {}", n.num, n.w, e));
        }
        if m.leaf && (m.w as f64 - e).abs() > tol {
            return Err(format!("missing node {}: AverageLeafWeight, weight {} but the mean of its siblings is {}", m.num, m.w, e));
        }
    }
    Ok(())
}

/// Audit every tree of a model trained without sampling.
pub fn audit(cfg: &Cfg, d: &Data, b: &GradientBooster, flags: &Flags, eps: f64, st: &mut Stats) -> Result<(), String> {
    let rows: Vec<usize> = (0..d.rows).collect();
    let features: Vec<usize> = (0..d.cols).collect();
    let mut yhat = vec![b.base_score; d.rows];
    for (k, tr) in b.trees.iter().enumerate() {
        let t = snap(tr);
        let (g, h) = grad_hess(cfg.obj, &d.y, &yhat, &d.w);
        audit_tree(cfg, d, &g, &h, &rows, &features, &t, flags, eps, st).map_err(|e| format!("tree {}: {}", k, e))?;
        if t.len() > 1 {
            st.nontrivial += 1;
        }
        for i in 0..d.rows {
            yhat[i] += t[leaf_of(&t, &d.row(i), cfg.missing)?].w as f64;
        }
    }
    Ok(())
}

/// C03: limits and well-formedness.
pub fn structure(cfg: &Cfg, d: &Data, b: &GradientBooster, st: &mut Stats) -> Result<(), String> {
    if cfg.esr.is_none() && b.trees.len() != cfg.iters {
        return Err(format!("{} trees instead of {}", b.trees.len(), cfg.iters));
    }
    for (k, tr) in b.trees.iter().enumerate() {
        structure_tree(cfg, d, &snap(tr), st).map_err(|e| format!("tree {}: {}", k, e))?;
    }
    Ok(())
}
pub fn structure_tree(cfg: &Cfg, d: &Data, t: &[N], st: &mut Stats) -> Result<(), String> {
    if t.is_empty() {
        return Err("tree without nodes".into());
    }
    let mut parent = vec![usize::MAX; t.len()];
    let leaves = t.iter().filter(|n| n.leaf).count();
    if leaves > cfg.max_leaves.max(1) {
        return Err(format!("{} leaves with max_leaves {}", leaves, cfg.max_leaves));
    }
    if t.len() > 1 {
        st.nontrivial += 1;
    }
    let sh: f64 = t[0].h as f64;
    if t[0].depth != 0 {
        return Err("root depth is not 0".into());
    }
    for (i, n) in t.iter().enumerate() {
        st.states += 1;
        if n.num != i {
            return Err(format!("node at position {} has number {}", i, n.num));
        }
        if n.depth > cfg.max_depth {
            return Err(format!("node {} at depth {} with max_depth {}", i, n.depth, cfg.max_depth));
        }
        if cfg.mds > 0. && (n.w as f64).abs() > cfg.mds as f64 * cfg.lr as f64 * (1. + 1e-6) + 1e-12 {
            return Err(format!("node {}: |weight| {} exceeds learning_rate*max_delta_step", i, n.w));
        }
        if n.leaf {
            continue;
        }
        st.transitions += 1;
        let mut kids = vec![n.l, n.r];
        if n.l == n.r {
            return Err(format!("node {}: left and right child are the same", i));
        }
        if cfg.cmb {
            if !n.has_missing_branch() {
                return Err(format!("node {}: no separate missing child", i));
            }
            kids.push(n.m);
        } else if n.has_missing_branch() {
            return Err(format!("node {}: unexpected missing branch", i));
        }
        let mut hs = 0.;
        for &c in &kids {
            if c >= t.len() || c == 0 {
                return Err(format!("node {}: invalid child {}", i, c));
            }
            if parent[c] != usize::MAX {
                return Err(format!("node {} has two parents", c));
            }
            parent[c] = i;
            if t[c].depth != n.depth + 1 {
                return Err(format!("child {} has depth {} under a parent of depth {}", c, t[c].depth, n.depth));
            }
            hs += t[c].h as f64;
        }
        if (hs - n.h as f64).abs() > 2e-5 * sh.abs() + 1e-9 {
            return Err(format!("node {}: cover {} but its children's covers sum to {}", i, n.h, hs));
        }
        for c in [n.l, n.r] {
            if !(t[c].h as f64 >= cfg.mlw as f64) {
                return Err(format!("node {}: cover {} below min_leaf_weight {}", c, t[c].h, cfg.mlw));
            }
        }
        if !(n.gain as f64 >= cfg.gamma as f64 - 1e-5 * (1. + cfg.gamma as f64)) || !(n.gain > 0.) {
            return Err(format!("node {}: gain {} does not exceed gamma {}", i, n.gain, cfg.gamma));
        }
        if n.sf >= d.cols {
            return Err(format!("node {}: feature {}", i, n.sf));
        }
        if !n.sv.is_finite() || !d.col(n.sf).iter().any(|v| !is_missing(*v, cfg.missing) && *v == n.sv) {
            return Err(format!("node {}: threshold {} is not an observed value of feature {}", i, n.sv, n.sf));
        }
    }
    for (i, p) in parent.iter().enumerate().skip(1) {
        if *p == usize::MAX {
            return Err(format!("node {} has no parent", i));
        }
    }
    Ok(())
}

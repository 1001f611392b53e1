//! C04 monotone constraints, C05 missing-value options, C06 bounded children, C07 objective.
use crate::core::*;
use crate::fits::*;
use crate::oracle::*;
use forust_ml::{GradientBooster, Matrix};

fn ctx<'a>(cfg: &'a Cfg, d: &'a Data) -> impl Fn(String) -> String + 'a {
    move |e| format!("{}\n  cfg {:?}\n  data {:?}", e, cfg, d)
}

/// Predictions on the full grid of the given values per feature; monotone along constrained features.
pub fn monotone_on_grid(cfg: &Cfg, b: &GradientBooster, vals: &[Vec<f64>], st: &mut Stats) -> Result<(), String> {
    let radix: Vec<u64> = vals.iter().map(|v| v.len() as u64).collect();
    let n = prod(&radix) as usize;
    let cols = vals.len();
    let mut x = vec![0.; n * cols];
    for i in 0..n {
        let dg = digits(i as u64, &radix);
        for j in 0..cols {
            x[j * n + i] = vals[j][dg[j]];
        }
    }
    let p = b.predict(&Matrix::new(&x, n, cols), false);
    let mut stride = 1usize;
    for j in 0..cols {
        let m = cfg.mono_of(j);
        if m != 0 {
            for i in 0..n {
                let k = (i / stride) % vals[j].len();
                if k + 1 >= vals[j].len() {
                    continue;
                }
                let (a, c) = (vals[j][k], vals[j][k + 1]);
                if is_missing(a, cfg.missing) || is_missing(c, cfg.missing) {
                    continue;
                }
                st.evaluations += 1;
                let (pa, pc) = (p[i], p[i + stride]);
                let d = (pc - pa) * m as f64;
                if d < -(2e-5 * (1. + pa.abs().max(pc.abs()))) {
                    return Err(format!(
                        "feature {} is declared {} but moving it from {} to {} changes the prediction from {} to {} (row {:?})",
                        j, if m > 0 { "positive" } else { "negative" }, a, c, pa, pc,
                        (0..cols).map(|q| x[q * n + i]).collect::<Vec<_>>()
                    ));
                }
            }
        }
        stride *= vals[j].len();
    }
    Ok(())
}

fn mono_case(cfg: &Cfg, d: &Data, vals: &[Vec<f64>], st: &mut Stats) -> Result<(), String> {
    let b = fit(cfg, d).map_err(ctx(cfg, d))?;
    st.traces += 1;
    st.states += b.trees.iter().map(|t| t.nodes.len() as u64).sum::<u64>();
    st.transitions += b.trees.len() as u64;
    if b.trees.iter().any(|t| t.nodes.len() > 3) {
        st.nontrivial += 1;
    }
    if st.samples.len() < 2 && b.trees.iter().any(|t| t.nodes.len() > 3) {
        st.samples.push(format!("fit mono={:?} cmb={} n={}", cfg.mono, cfg.cmb, d.rows));
    }
    monotone_on_grid(cfg, &b, vals, st).map_err(ctx(cfg, d))
}

/// Along every constrained feature, from every given row: all cells between the model's thresholds.
fn monotone_rows(cfg: &Cfg, b: &GradientBooster, d: &Data, step: usize, st: &mut Stats) -> Result<(), String> {
    for j in 0..d.cols {
        let m = cfg.mono_of(j);
        if m == 0 {
            continue;
        }
        let mut cuts: Vec<f64> = snap_all(b).iter().flatten().filter(|n| !n.leaf && n.sf == j).map(|n| n.sv).collect();
        cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        cuts.dedup();
        if cuts.is_empty() {
            continue;
        }
        cuts.insert(0, -1e12);
        let rows: Vec<usize> = (j % step..d.rows).step_by(step).collect();
        let n = rows.len() * cuts.len();
        let mut x = vec![0.; n * d.cols];
        for (a, r) in rows.iter().enumerate() {
            for (k, v) in cuts.iter().enumerate() {
                for q in 0..d.cols {
                    x[q * n + a * cuts.len() + k] = if q == j { *v } else { d.at(*r, q) };
                }
            }
        }
        let p = b.predict(&Matrix::new(&x, n, d.cols), false);
        for (a, r) in rows.iter().enumerate() {
            for k in 1..cuts.len() {
                st.evaluations += 1;
                let (u, v) = (p[a * cuts.len() + k - 1], p[a * cuts.len() + k]);
                if (v - u) * (m as f64) < -(2e-5 * (1. + u.abs().max(v.abs()))) {
                    return Err(format!("feature {} is declared {} but moving it from {} to {} in row {} changes the prediction from {} to {}", j, m, cuts[k - 1], cuts[k], r, u, v));
                }
            }
        }
    }
    Ok(())
}

/// all non-trivial pairs over {absent, 0, +, -}
fn mono2(i: usize) -> Vec<Mono> {
    const P: [[Mono; 2]; 10] =
        [[1, 2], [-1, 2], [2, 1], [2, -1], [1, 1], [1, -1], [-1, 1], [-1, -1], [1, 0], [0, -1]];
    P[i].to_vec()
}

pub fn c04<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let seqs = 18u64.pow(4);
    let r1: [u64; 3] = [10, MISSING_MODES as u64, seqs];
    v.push(space(
        "tiny2",
        "every sequence of 4 records over two features in {missing,1,2}, y in {0,1} x 10 constraint maps x 9 missing modes (regularisation and objective cycled)",
        prod(&r1),
        move |i, st| {
            let dg = digits(i, &r1);
            let seq = digits(dg[2] as u64, &[18; 4]);
            let d = tiny2(&seq, dg[2] % 3);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], mono: mono2(dg[0]), ..Cfg::default() };
            c.obj = if (dg[2] / 3) % 2 == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, (dg[2] / 5) % 6);
            let g = vec![NAN, 0.5, 1., 1.5, 2., 3.];
            mono_case(&c, &d, &[g.clone(), g], st)
        },
    ));
    // full 3x3 grid, one record per cell, three target levels: nested splits on both features
    let r2: [u64; 4] = [10, 4, 2, 3u64.pow(9)];
    v.push(space(
        "grid3",
        "one record in each cell of a 3x3 grid, every assignment of targets in {0,1,4} x 10 constraint maps x 4 missing modes x 2 growth policies",
        prod(&r2),
        move |i, st| {
            let dg = digits(i, &r2);
            let ys = digits(dg[3] as u64, &[3; 9]);
            let rows: Vec<Vec<f64>> = (0..9).map(|k| vec![(k % 3) as f64 + 1., (k / 3) as f64 + 1.]).collect();
            let y: Vec<f64> = ys.iter().map(|s| [0., 1., 4.][*s]).collect();
            let w: Vec<f64> = (0..9).map(|k| weight_pattern(dg[3] % 3, k)).collect();
            let d = Data::from_rows(&rows, &y, &w);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], mono: mono2(dg[0]), ..Cfg::default() };
            missing_mode(&mut c, [0, 2, 5, 8][dg[1]]);
            c.lossguide = dg[2] == 1;
            reg(&mut c, (dg[3] / 3) % 6);
            let g = vec![NAN, 0.5, 1., 2., 2.5, 3., 9.];
            mono_case(&c, &d, &[g.clone(), g], st)
        },
    ));
    // 3x3 grid whose first level is "missing"
    let r3: [u64; 3] = [10, MISSING_MODES as u64, 3u64.pow(9)];
    v.push(space(
        "grid-missing",
        "one record in each cell of {missing,1,2} x {missing,1,2}, every assignment of targets in {0,1,4} x 10 constraint maps x 9 missing modes",
        prod(&r3),
        move |i, st| {
            let dg = digits(i, &r3);
            let ys = digits(dg[2] as u64, &[3; 9]);
            let val = |k: usize| if k == 0 { NAN } else { k as f64 };
            let rows: Vec<Vec<f64>> = (0..9).map(|k| vec![val(k % 3), val(k / 3)]).collect();
            let y: Vec<f64> = ys.iter().map(|s| [0., 1., 4.][*s]).collect();
            let w: Vec<f64> = (0..9).map(|k| weight_pattern(dg[2] % 3, k)).collect();
            let d = Data::from_rows(&rows, &y, &w);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], mono: mono2(dg[0]), ..Cfg::default() };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, (dg[2] / 3) % 6);
            c.force = (dg[2] / 2) % 3 == 0;
            let g = vec![NAN, 0.5, 1., 2., 2.5];
            mono_case(&c, &d, &[g.clone(), g], st)
        },
    ));
    // 4x2 grid with deep paths on one constrained feature
    let nb = if th { 3u64.pow(12) } else { 2u64.pow(12) };
    let lv = if th { 3u64 } else { 2 };
    let r4: [u64; 3] = [10, 3, nb];
    v.push(space(
        "grid6x2",
        &format!("one record in each cell of a 6x2 grid, every assignment of {} target levels x 10 constraint maps x 3 missing modes", lv),
        prod(&r4),
        move |i, st| {
            let dg = digits(i, &r4);
            let ys = digits(dg[2] as u64, &[lv; 12]);
            let rows: Vec<Vec<f64>> = (0..12).map(|k| vec![(k % 6) as f64, (k / 6) as f64]).collect();
            let y: Vec<f64> = ys.iter().map(|s| [0., 1., -2.][*s]).collect();
            let d = Data::from_rows(&rows, &y, &[1.; 12]);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], mono: mono2(dg[0]), max_depth: 6, ..Cfg::default() };
            missing_mode(&mut c, [0, 2, 4][dg[1]]);
            c.l2 = 0.25;
            mono_case(&c, &d, &[vec![NAN, -1., 0., 1., 2., 3., 4., 5.], vec![NAN, 0., 1.]], st)
        },
    ));
    let lv3: u64 = if th { 3 } else { 2 };
    let r6: [u64; 4] = [8, 4, 2, lv3.pow(12)];
    v.push(space(
        "grid3x2x2",
        &format!("one record in each cell of a 3x2x2 grid, every assignment of {} target levels x 8 constraint maps x 4 missing modes x 2 growth policies", lv3),
        prod(&r6),
        move |i, st| {
            let dg = digits(i, &r6);
            let ys = digits(dg[3] as u64, &[lv3; 12]);
            let rows: Vec<Vec<f64>> = (0..12).map(|k| vec![(k % 3) as f64, ((k / 3) % 2) as f64, if k / 6 == 0 && dg[3] % 2 == 1 { NAN } else { (k / 6) as f64 }]).collect();
            let y: Vec<f64> = ys.iter().enumerate().map(|(k, s)| [0., 1., -2.][*s] + 0.125 * (k * 5 % 12) as f64).collect();
            let w: Vec<f64> = (0..12).map(|k| weight_pattern(dg[3] % 3, k)).collect();
            let d = Data::from_rows(&rows, &y, &w);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], max_depth: 6, ..Cfg::default() };
            c.mono = [[1, 2, 2], [2, 1, 2], [2, 2, -1], [1, -1, 2], [1, 1, -1], [-1, 2, 1], [2, -1, -1], [-1, -1, -1]][dg[0]].to_vec();
            missing_mode(&mut c, [0, 1, 2, 5][dg[1]]);
            c.lossguide = dg[2] == 1;
            reg(&mut c, (dg[3] / 3) % 6);
            mono_case(&c, &d, &[vec![NAN, -1., 0., 1., 2.], vec![NAN, 0., 1.], vec![NAN, 0., 1.]], st)
        },
    ));
    let nk: u64 = if th { 144 } else { 36 };
    let r5: [u64; 6] = [2, MISSING_MODES as u64, 6, 6, 2, nk];
    v.push(space(
        "lattice",
        &format!("2 objectives x 9 missing modes x 6 regularisations x 6 constraint maps x 2 growth policies (row and column sampling and leaf limits cycled) on {} structured data sets, 4 rounds", nk),
        prod(&r5),
        move |i, st| {
            let dg = digits(i, &r5);
            let mut c = Cfg { iters: 4, lr: 0.7, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.mlw = [0.2, 0.][(dg[5] / 7) % 2];
            missing_mode(&mut c, dg[1]);
            reg(&mut c, dg[2]);
            c.mono = [[1, 2, 2, 2], [2, -1, 2, 2], [1, -1, 2, 0], [-1, -1, -1, -1], [0, 1, 1, 2], [1, 1, -1, 1]][dg[3]].to_vec();
            c.lossguide = dg[4] == 1;
            c.nbins = [256, 4][dg[5] % 2];
            match (dg[2] + dg[3] + dg[5]) % 5 {
                0 => {
                    c.samp = Samp::Random;
                    c.subsample = 0.6;
                }
                1 => {
                    c.samp = Samp::Goss;
                    c.top = 0.3;
                    c.other = 0.4;
                }
                2 => c.colsample = 0.5,
                3 => c.max_leaves = 6,
                _ => {}
            }
            c.seed = i;
            let d = rich(dg[5], dg[0] == 0);
            let vals: Vec<Vec<f64>> = (0..d.cols)
                .map(|j| {
                    let mut u: Vec<f64> = d.col(j).iter().copied().filter(|x| !x.is_nan()).collect();
                    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    u.dedup();
                    let step = (u.len() / 6).max(1);
                    let mut g: Vec<f64> = u.iter().copied().step_by(step).collect();
                    if d.cols > 3 {
                        g.truncate(4);
                    }
                    g.insert(0, NAN);
                    g.push(1e9);
                    g
                })
                .collect();
            mono_case(&c, &d, &vals, st)
        },
    ));
    let r6: [u64; 6] = [2, MISSING_MODES as u64, 6, 5, 4, if th { 6 } else { 1 }];
    v.push(space(
        "large",
        "2 objectives x 9 missing modes x 6 sizes (60 to 600 records, 4 to 40 columns) x 5 patterns of constraints over all columns x 4 shapes of trees (to depth 12, by loss, sampled), 6 rounds; every cell of every constrained feature from every seventh record",
        prod(&r6),
        move |i, st| {
            let dg = digits(i, &r6);
            let (n, cols) = [(60, 4), (100, 10), (150, 40), (257, 5), (400, 12), (600, 7)][dg[2]];
            let mut r = Lcg(4000 + dg[2] as u64 * 17 + dg[5] as u64 * 1009);
            for _ in 0..6 {
                r.next();
            }
            let mut d = Data::new(cols);
            d.rows = n;
            for j in 0..cols as u64 {
                for _ in 0..n {
                    let miss = r.below(7) == 0;
                    let v = r.below(6 + j * 9);
                    d.x.push(if miss { NAN } else { v as f64 * 0.5 - 2. });
                }
            }
            for q in 0..n {
                let s: f64 = (0..cols).map(|j| { let x = d.at(q, j); if x.is_nan() { 1.5 } else { (x * (1. + j as f64 * 0.3)).sin() * 3. / (1. + j as f64) } }).sum::<f64>() + r.below(4) as f64 * 0.4;
                d.y.push(if dg[0] == 0 { (s > 1.) as u8 as f64 } else { s });
                d.w.push(weight_pattern(dg[2] % 3, q));
            }
            let mut c = Cfg { iters: 6, lr: 0.6, mlw: 0.1, l2: 0.3, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            c.mono = (0..cols).map(|j| match dg[3] {
                0 => 1,
                1 => if j % 2 == 0 { 1 } else { -1 },
                2 => if j % 3 == 0 { -1 } else { 2 },
                3 => if j + 1 == cols { 1 } else { 0 },
                _ => [-1, 2, 1, 0][j % 4],
            }).collect();
            c.max_depth = [4, 12, 7, 6][dg[4]];
            if dg[4] == 2 {
                c.lossguide = true;
                c.max_leaves = 40;
            } else if dg[4] == 3 {
                c.samp = Samp::Random;
                c.subsample = 0.7;
                c.colsample = 0.6;
            }
            c.parallel = i % 2 == 0;
            c.seed = i;
            let b = fit(&c, &d)?;
            st.traces += 1;
            st.states += b.trees.iter().map(|t| t.nodes.len() as u64).sum::<u64>();
            st.transitions += b.trees.len() as u64;
            st.nontrivial += b.trees.iter().any(|t| t.nodes.len() > 3) as u64;
            monotone_rows(&c, &b, &d, 7, st).map_err(|e| format!("{}\n  {:?} {:?}", e, dg, c))
        },
    ));
    v
}

// ------------------------------------------------------------------------------ C05
pub fn missing_nodes(cfg: &Cfg, d: &Data, b: &GradientBooster, eps: f64, st: &mut Stats) -> Result<(), String> {
    let rows: Vec<usize> = (0..d.rows).collect();
    let mut yhat = vec![b.base_score; d.rows];
    for (k, tr) in b.trees.iter().enumerate() {
        let t = snap(tr);
        let (g, h) = grad_hess(cfg.obj, &d.y, &yhat, &d.w);
        let at = reach(&t, d, &rows, cfg.missing)?;
        let sh: f64 = h.iter().sum();
        let sg: f64 = g.iter().map(|x| x.abs()).sum();
        let e = |s: String| format!("tree {}: {}", k, s);
        if cfg.cmb && cfg.treat == Treat::AvgLeaf {
            check_avg_leaf(&t).map_err(e)?;
        }
        for (i, n) in t.iter().enumerate().filter(|(_, n)| !n.leaf) {
            st.states += 1;
            let miss: Vec<usize> = at[i].iter().copied().filter(|r| is_missing(d.at(*r, n.sf), cfg.missing)).collect();
            if cfg.cmb {
                if n.l == n.r || !n.has_missing_branch() {
                    return Err(e(format!("node {}: a split without three distinct children", i)));
                }
                let m = &t[n.m];
                st.transitions += 1;
                if !m.leaf {
                    if !cfg.ams {
                        return Err(e(format!("missing child {} of node {} is split although allow_missing_splits is off", n.m, i)));
                    }
                    if cfg.term.contains(&n.sf) {
                        return Err(e(format!("missing child {} of node {} is split although feature {} is in terminate_missing_features", n.m, i, n.sf)));
                    }
                    if miss.is_empty() {
                        return Err(e(format!("missing child {} of node {} is split although no record reaches it", n.m, i)));
                    }
                }
                let hm: f64 = miss.iter().map(|r| h[*r]).sum();
                let gm: f64 = miss.iter().map(|r| g[*r]).sum();
                if (m.h as f64 - hm).abs() > 2. * eps * sh + 1e-9 {
                    return Err(e(format!("missing child {}: cover {} but the missing records' hessians sum to {}", n.m, m.h, hm)));
                }
                let (l, r) = (&t[n.l], &t[n.r]);
                match cfg.treat {
                    Treat::Parent => {
                        if m.w != n.w && !(m.w.is_nan() && n.w.is_nan()) {
                            return Err(e(format!("AssignToParent: missing child {} has weight {} and its parent {}", n.m, m.w, n.w)));
                        }
                    }
                    Treat::AvgNode => {
                        let x = (l.w as f64 * l.h as f64 + r.w as f64 * r.h as f64) / (l.h as f64 + r.h as f64);
                        if !close(m.w as f64, x, 1e-5) {
                            return Err(e(format!("AverageNodeWeight: missing child {} has weight {} but the mean of its siblings is {}", n.m, m.w, x)));
                        }
                    }
                    Treat::AvgLeaf => {}
                    Treat::None => {
                        if miss.iter().all(|r| d.w[*r] == 0.) {
                            // none of positive weight
                            if m.w != n.w && !(m.w.is_nan() && n.w.is_nan()) {
                                return Err(e(format!("missing child {} without records has weight {} and its parent {}", n.m, m.w, n.w)));
                            }
                        } else if cfg.mono.iter().all(|c| *c != 1 && *c != -1) && hm + cfg.l2 as f64 > 1e-3 {
                            let x = opt_weight(cfg, gm, hm) * cfg.lr as f64;
                            let tol = 4. * eps * (sg + x.abs() * sh) / (hm + cfg.l2 as f64) * (cfg.lr as f64) + 1e-6 * (1. + x.abs());
                            if (m.w as f64 - x).abs() > tol {
                                return Err(e(format!("missing child {} has weight {} but its own records' optimum is {}", n.m, m.w, x)));
                            }
                        }
                    }
                }
            } else {
                if n.m != n.l && n.m != n.r || n.l == n.r {
                    return Err(e(format!("node {}: missing records neither go left nor right", i)));
                }
                if !cfg.ams {
                    for (c, left) in [(n.l, true), (n.r, false)] {
                        let hs: f64 = at[i]
                            .iter()
                            .filter(|q| !is_missing(d.at(**q, n.sf), cfg.missing) && ((d.at(**q, n.sf) < n.sv) == left))
                            .map(|q| h[*q])
                            .sum();
                        st.transitions += 1;
                        if hs < cfg.mlw as f64 - 2. * eps * sh - 1e-9 || hs <= 0. {
                            return Err(e(format!("node {}: child {} holds only {} of non-missing cover with min_leaf_weight {}", i, c, hs, cfg.mlw)));
                        }
                    }
                }
            }
            st.nontrivial += 1;
        }
        for i in 0..d.rows {
            yhat[i] += t[leaf_of(&t, &d.row(i), cfg.missing)?].w as f64;
        }
        // what the training run recorded must be what prediction does with the records
        if k + 1 == b.trees.len() {
            let p = b.predict(&d.m(), false);
            for i in 0..d.rows {
                if !close(p[i], yhat[i], 1e-9) {
                    return Err(e(format!("record {} is predicted {} but its leaves sum to {}", i, p[i], yhat[i])));
                }
            }
        }
    }
    Ok(())
}
pub fn c05<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = fit_spaces(th, false, missing_nodes);
    // terminate sets x treatments x ams on data with many missing values
    let nk: u64 = if th { 96 } else { 24 };
    let r: [u64; 6] = [2, 4, 2, 8, 3, nk];
    v.push(space(
        "terminate",
        &format!("2 objectives x 4 treatments x allow_missing_splits on/off x 8 terminate sets x 3 depths on {} structured data sets with missing values, 3 rounds", nk),
        prod(&r),
        move |i, st| {
            let dg = digits(i, &r);
            let mut c = Cfg { iters: 3, mlw: [0.3, 0.][(dg[dg.len() - 1] / 7) % 2], cmb: true, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.treat = TREATS[dg[1]];
            c.ams = dg[2] == 1;
            c.term = (0..3).filter(|b| (dg[3] >> b) & 1 == 1).collect();
            c.max_depth = [2, 4, 6][dg[4]];
            let mut d = rich(dg[5], dg[0] == 0);
            // raise the number of missing values
            for (k, x) in d.x.iter_mut().enumerate() {
                if (k * 7 + dg[5]) % 5 == 0 {
                    *x = NAN;
                }
            }
            let b = fit(&c, &d).map_err(ctx(&c, &d))?;
            st.traces += 1;
            missing_nodes(&c, &d, &b, 2e-5, st).map_err(ctx(&c, &d))
        },
    ));
    v
}

// ------------------------------------------------------------------------------ C06
fn bounded(cfg: &Cfg, d: &Data, st: &mut Stats) -> Result<(), String> {
    let b = fit(cfg, d).map_err(ctx(cfg, d))?;
    st.traces += 1;
    if cfg.treat == Treat::AvgLeaf {
        return Ok(());
    }
    for (k, tr) in b.trees.iter().enumerate() {
        let t = snap(tr);
        for (i, n) in t.iter().enumerate().filter(|(_, n)| !n.leaf) {
            st.states += 1;
            st.transitions += 2;
            st.nontrivial += 1;
            let (a, c) = (t[n.l].w.min(t[n.r].w) as f64, t[n.l].w.max(t[n.r].w) as f64);
            let w = n.w as f64;
            let tol = 1e-6 * (1. + w.abs());
            if !(w >= a - tol && w <= c + tol) {
                return Err(ctx(cfg, d)(format!("tree {} node {}: weight {} is not between its children's {} and {}", k, i, w, t[n.l].w, t[n.r].w)));
            }
        }
    }
    // only the child nearer to the parent's weight is moved, exactly onto it
    audit(cfg, d, &b, &Flags { stats: true, optimal: false, order: false }, 2e-5, st).map_err(ctx(cfg, d))
}
pub fn c06<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let r1: [u64; 4] = [4, 5, 6, 18u64.pow(if th { 4 } else { 3 })];
    let n1 = if th { 4 } else { 3 };
    v.push(space(
        "tiny2",
        &format!("every sequence of {} two-feature records x 4 treatments x 5 constraint maps x 6 regularisations, 2 rounds", n1),
        prod(&r1),
        move |i, st| {
            let dg = digits(i, &r1);
            let d = tiny2(&digits(dg[3] as u64, &vec![18; n1]), dg[3] % 3);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], cmb: true, force: true, ..Cfg::default() };
            c.treat = TREATS[dg[0]];
            c.mono = MONOS[dg[1]][..2].to_vec();
            reg(&mut c, dg[2]);
            c.obj = if dg[3] % 2 == 0 { Obj::Log } else { Obj::Sq };
            bounded(&c, &d, st)
        },
    ));
    let r2: [u64; 4] = [4, 5, 3, 3u64.pow(9)];
    v.push(space(
        "grid-missing",
        "one record in each cell of {missing,1,2}^2, every assignment of targets in {0,1,4} x 4 treatments x 5 constraint maps x 3 regularisations",
        prod(&r2),
        move |i, st| {
            let dg = digits(i, &r2);
            let ys = digits(dg[3] as u64, &[3; 9]);
            let val = |k: usize| if k == 0 { NAN } else { k as f64 };
            let rows: Vec<Vec<f64>> = (0..9).map(|k| vec![val(k % 3), val(k / 3)]).collect();
            let y: Vec<f64> = ys.iter().map(|s| [0., 1., 4.][*s]).collect();
            let w: Vec<f64> = (0..9).map(|k| weight_pattern(dg[3] % 3, k)).collect();
            let d = Data::from_rows(&rows, &y, &w);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], cmb: true, force: true, ..Cfg::default() };
            c.treat = TREATS[dg[0]];
            c.mono = MONOS[dg[1]][..2].to_vec();
            reg(&mut c, [0, 2, 5][dg[2]]);
            bounded(&c, &d, st)
        },
    ));
    let r3: [u64; 4] = [4, 5, 3, 3u64.pow(if th { 9 } else { 8 })];
    let n3 = if th { 9 } else { 8 };
    v.push(space(
        "line",
        &format!("{} records on a line with every assignment of targets in {{0,1,-3}}: parent outside the children's range at several levels", n3),
        prod(&r3),
        move |i, st| {
            let dg = digits(i, &r3);
            let ys = digits(dg[3] as u64, &vec![3; n3]);
            let rows: Vec<Vec<f64>> = (0..n3).map(|k| vec![k as f64, (k * 5 % 7) as f64]).collect();
            let y: Vec<f64> = ys.iter().map(|s| [0., 1., -3.][*s]).collect();
            let d = Data::from_rows(&rows, &y, &vec![1.; n3]);
            let mut c = Cfg { iters: 2, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], cmb: true, force: true, ..Cfg::default() };
            c.treat = TREATS[dg[0]];
            c.mono = MONOS[dg[1]][..2].to_vec();
            c.l2 = [0.5, 0., 3.][dg[2]];
            bounded(&c, &d, st)
        },
    ));
    let nk: u64 = if th { 144 } else { 36 };
    let r4: [u64; 6] = [2, 4, 6, 5, 2, nk];
    v.push(space(
        "lattice",
        &format!("2 objectives x 4 treatments x 6 regularisations x 5 constraint maps x 2 growth policies on {} structured data sets, 3 rounds", nk),
        prod(&r4),
        move |i, st| {
            let dg = digits(i, &r4);
            let mut c = Cfg { iters: 3, mlw: [0.3, 0.][(dg[dg.len() - 1] / 7) % 2], cmb: true, force: true, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.treat = TREATS[dg[1]];
            reg(&mut c, dg[2]);
            c.mono = MONOS[dg[3]].to_vec();
            c.lossguide = dg[4] == 1;
            c.base = if dg[5] % 2 == 0 { None } else { Some(0.5) };
            let d = rich(dg[5], dg[0] == 0);
            bounded(&c, &d, st)
        },
    ));
    let r5: [u64; 5] = [2, 4, 7, 5, 4];
    v.push(space(
        "large",
        "2 objectives x 4 treatments x 7 sizes (40 to 1200 records of 3 columns) x 5 constraint maps x 4 shapes of trees (to depth 12, by loss, without a minimum weight), 3 rounds",
        prod(&r5),
        move |i, st| {
            let dg = digits(i, &r5);
            let mut c = Cfg { iters: 3, mlw: [0.3, 1., 0.1, 0.][dg[4]], cmb: true, force: true, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.treat = TREATS[dg[1]];
            c.max_depth = [5, 12, 8, 6][dg[4]];
            c.lossguide = dg[4] == 2;
            c.mono = MONOS[dg[3]].to_vec();
            let n = [40, 65, 129, 257, 300, 600, 1200][dg[2]];
            let d = large(n, [20, 64, 130, 300][dg[4]], dg[0] == 0, dg[2] as u64);
            bounded(&c, &d, st).map_err(|e| e.chars().take(1500).collect())
        },
    ));
    v
}

// ------------------------------------------------------------------------------ C07
fn sq_loss(d: &Data, p: &[f64]) -> f64 {
    (0..d.rows).map(|i| d.w[i] * (p[i] - d.y[i]).powi(2)).sum()
}
pub fn c07<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let n = if th { 6usize } else { 5 };
    let r: [u64; 6] = [2, 8, 6, 3, 4, 3u64.pow(n as u32)];
    v.push(space(
        "newton",
        &format!("{} records, every target assignment ({{0,1,1/4}} resp. {{0,1,-2}}) x 2 objectives x 8 base scores (up to +-30) x 6 regularisations x 3 learning rates x 4 weightings, 4 rounds of single-leaf trees", n),
        prod(&r),
        move |i, st| {
            let dg = digits(i, &r);
            let ys = digits(dg[5] as u64, &vec![3; n]);
            let mut c = Cfg { iters: 4, max_depth: 0, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.base = [None, Some(0.), Some(0.5), Some(-2.), Some(6.), Some(-9.), Some(16.), Some(-30.)][dg[1]];
            reg(&mut c, dg[2]);
            c.lr = [0.3, 1., 0.05][dg[3]];
            let y: Vec<f64> = ys.iter().map(|s| [0., 1., if c.obj == Obj::Log { 0.25 } else { -2. }][*s]).collect();
            let w: Vec<f64> = (0..n).map(|k| weight_pattern(dg[4], k)).collect();
            let rows: Vec<Vec<f64>> = (0..n).map(|k| vec![k as f64]).collect();
            let d = Data::from_rows(&rows, &y, &w);
            newton(&c, &d, st)
        },
    ));
    let r1: [u64; 5] = [2, 8, 4, 7, 12];
    v.push(space(
        "newton-long",
        "structured targets on 16-300 records with weights scaled by 1e-6..1e3, or zero for every third, x 2 objectives x 8 base scores x 4 regularisations, 40 rounds of single-leaf trees",
        prod(&r1),
        move |i, st| {
            let dg = digits(i, &r1);
            let mut c = Cfg { iters: 40, max_depth: 0, lr: 0.2, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.base = [None, Some(0.), Some(0.5), Some(-2.), Some(6.), Some(-9.), Some(16.), Some(-30.)][dg[1]];
            reg(&mut c, dg[2]);
            let n = [16, 17, 31, 33, 48, 63, 64, 65, 100, 127, 257, 300][dg[4]];
            let sc: f64 = [1., 1e-3, 0.1, 30., 1e3, 1e-6, 2.][dg[3]];
            let d = Data {
                rows: n,
                cols: 1,
                x: (0..n).map(|k| k as f64).collect(),
                y: (0..n).map(|k| if c.obj == Obj::Log { [0., 1., 0.25, 1.][(k * k + dg[4]) % 4] } else { [0., 1., -2., 3.5][(k * k + dg[4]) % 4] * sc.sqrt() }).collect(),
                w: (0..n).map(|k| if dg[3] == 6 && k % 3 == 1 { 0. } else { weight_pattern(dg[4] % 4, k) * sc }).collect(),
            };
            newton(&c, &d, st)
        },
    ));
    let rb: [u64; 5] = [2, 6, 13, 3, 4];
    v.push(space(
        "base-scores",
        "1-20000 records with one, two or half of them positive (or of a large target) and weighted 1e-12..1e12 times the others x 2 objectives x 4 weight scales: the initial score",
        prod(&rb),
        move |i, st| {
            let dg = digits(i, &rb);
            let n = [1usize, 2, 10, 100, 1000, 20000][dg[1]];
            let f = 10f64.powi(dg[2] as i32 * 2 - 12);
            let k = [1, 2.min(n), n.div_ceil(2)][dg[3]];
            let sc = [1., 1e-9, 1e9, 0.3][dg[4]];
            let mut c = Cfg { iters: 0, max_depth: 0, base: None, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            let pos = |r: usize| (r + n / 3) % n < k;
            let d = Data {
                rows: n,
                cols: 1,
                x: (0..n).map(|r| r as f64).collect(),
                y: (0..n).map(|r| if c.obj == Obj::Log { pos(r) as u8 as f64 } else if pos(r) { 1e3 } else { (r % 5) as f64 - 2.5 }).collect(),
                w: (0..n).map(|r| if pos(r) { f * sc } else { sc }).collect(),
            };
            let b = fit(&c, &d)?;
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            st.evaluations += 1;
            st.nontrivial += 1;
            let sum = |g: &dyn Fn(usize) -> f64| (0..n).map(g).sum::<f64>();
            let tot = sum(&|r| d.w[r]);
            let (want, tol) = match c.obj {
                Obj::Log => {
                    let (p, q) = (sum(&|r| d.w[r] * d.y[r]), sum(&|r| d.w[r] * (1. - d.y[r])));
                    ((p / q).ln(), 1e-9 + 1e-15 * n as f64 * tot / q.min(p))
                }
                Obj::Sq => {
                    let m = sum(&|r| d.w[r] * d.y[r]) / tot;
                    (m, 1e-9 * (m.abs() + sum(&|r| d.w[r] * d.y[r].abs()) / tot))
                }
            };
            if b.base_score != want && tol < 0.1 * (1. + want.abs()) && !((b.base_score - want).abs() <= tol) {
                return Err(format!("base score {} instead of {} ({} records, {} of weight {}, others of {}, {:?})", b.base_score, want, n, k, f * sc, sc, c.obj));
            }
            Ok(())
        },
    ));
    // loss descent on all tiny sequences and on structured data
    let r2: [u64; 4] = [2, 6, 3, 18u64.pow(4)];
    v.push(space(
        "descent-tiny",
        "every sequence of 4 two-feature records x allow_missing_splits x 6 regularisations x 3 learning rates, 3 rounds of squared loss",
        prod(&r2),
        move |i, st| {
            let dg = digits(i, &r2);
            let d = tiny2(&digits(dg[3] as u64, &[18; 4]), dg[3] % 4);
            let mut c = Cfg { iters: 3, mlw: [0.2, 0.][(dg[dg.len() - 1] / 7) % 2], ..Cfg::default() };
            c.ams = dg[0] == 0;
            reg(&mut c, dg[1]);
            c.lr = [1.0, 0.3, 0.7][dg[2]];
            c.base = if dg[3] % 2 == 0 { None } else { Some(0.5) };
            descent(&c, &d, st)
        },
    ));
    let nk: u64 = if th { 288 } else { 72 };
    let r3: [u64; 6] = [2, 6, 4, 2, 3, nk];
    v.push(space(
        "descent-lattice",
        &format!("allow_missing_splits x 6 regularisations x 4 learning rates x 2 growth policies x 3 bin counts on {} structured data sets, 6 rounds", nk),
        prod(&r3),
        move |i, st| {
            let dg = digits(i, &r3);
            let d = rich(dg[5], false);
            let mut c = Cfg { iters: 6, mlw: 1., ..Cfg::default() };
            c.ams = dg[0] == 0;
            reg(&mut c, dg[1]);
            c.lr = [1.0, 0.3, 0.7, 0.01][dg[2]];
            c.lossguide = dg[3] == 1;
            c.max_leaves = if dg[3] == 1 { 4 } else { usize::MAX };
            c.nbins = [256, 3, 8][dg[4]];
            c.base = if dg[5] % 2 == 0 { None } else { Some(0.5) };
            descent(&c, &d, st)
        },
    ));
    v
}
/// A model of single-leaf trees follows the closed-form Newton iteration.
fn newton(c: &Cfg, d: &Data, st: &mut Stats) -> Result<(), String> {
    let (n, w, y) = (d.rows, &d.w, &d.y);
    let e = ctx(c, d);
    let b = fit(c, d).map_err(&e)?;
    st.traces += 1;
    let sw: f64 = w.iter().sum();
    let mean: f64 = (0..n).map(|k| w[k] * y[k]).sum::<f64>() / sw;
    let base = match c.base {
        Some(x) => x,
        None => match c.obj {
            Obj::Sq => mean,
            Obj::Log => (mean / (1. - mean)).ln(),
        },
    };
    if !close(b.base_score, base, 1e-9) {
        return Err(e(format!("base score {} instead of {}", b.base_score, base)));
    }
    if !base.is_finite() {
        return Ok(());
    }
    st.nontrivial += 1;
    let mut f = base;
    for k in 0..c.iters {
        let t = snap(&b.trees[k]);
        st.states += 1;
        st.transitions += 1;
        if t.len() != 1 {
            return Err(e(format!("tree {} of depth 0 has {} nodes", k, t.len())));
        }
        let (g, h) = match c.obj {
            Obj::Log => {
                let p = sigmoid(f);
                ((0..n).map(|q| w[q] * (p - y[q])).sum::<f64>(), w.iter().map(|x| x * p * (1. - p)).sum::<f64>())
            }
            Obj::Sq => ((0..n).map(|q| w[q] * (f - y[q])).sum::<f64>(), sw),
        };
        let x = c.lr as f64 * opt_weight(c, g, h);
        // gradients and hessians are kept as f32 (relative 6e-8 each), 1-p cancels in f64 for large f
        let p = sigmoid(f);
        let cancel = 4e-16 / (1. - p).max(1e-300);
        let (ag, rh) = match c.obj {
            Obj::Log => ((0..n).map(|q| w[q] * (p - y[q]).abs()).sum::<f64>() * 1e-6 + 4e-16 * sw, 1e-6 + cancel),
            Obj::Sq => ((0..n).map(|q| w[q] * (f - y[q]).abs()).sum::<f64>() * 1e-6 + 4e-16 * sw * f.abs(), 1e-6),
        };
        let den = h + c.l2 as f64;
        if !x.is_finite() || rh > 0.01 || den < 1e-30 {
            // saturated: the hessian is below what can be represented
            return Ok(());
        }
        let step_tol = c.lr as f64 * 2. * (ag + x.abs() / c.lr as f64 * (h * rh)) / den + 4e-6 * x.abs() + 1e-12;
        if !((t[0].w as f64 - x).abs() <= step_tol) {
            return Err(e(format!("round {}: step {} instead of {} (G={} H={})", k, t[0].w, x, g, h)));
        }
        f += t[0].w as f64;
    }
    let p = b.predict(&d.m(), false);
    if !p.iter().all(|x| close(*x, f, 1e-9)) {
        return Err(e(format!("prediction {:?} instead of {}", p, f)));
    }
    Ok(())
}
fn descent(c: &Cfg, d: &Data, st: &mut Stats) -> Result<(), String> {
    let e = ctx(c, d);
    let mut b = fit(c, d).map_err(&e)?;
    st.traces += 1;
    if b.trees.iter().any(|t| t.nodes.len() > 1) {
        st.nontrivial += 1;
    }
    let mut last: Option<f64> = None;
    for k in 0..=b.trees.len() {
        b.prediction_iteration = Some(k);
        let p = b.predict(&d.m(), false);
        let l = sq_loss(d, &p);
        st.states += 1;
        if let Some(q) = last {
            st.transitions += 1;
            if !(l <= q + 1e-5 * (1. + q)) {
                return Err(e(format!("squared loss rises from {} to {} in round {}", q, l, k)));
            }
        }
        last = Some(l);
    }
    Ok(())
}

//! C31: training is total - whatever the constructor accepts, fit comes back with a usable model.
use crate::core::*;
use crate::oracle::*;

type Edit = (&'static str, fn(&mut Cfg));
fn edits() -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    macro_rules! e {
        ($f:ident : $($x:expr),* $(,)?) => { $( v.push((concat!(stringify!($f), "=", stringify!($x)), |c: &mut Cfg| c.$f = $x)); )* };
    }
    e!(iters: 0, 1);
    e!(lr: 0., 1e-30, 2.5, 1e30, f32::INFINITY);
    e!(max_depth: 0, 1, usize::MAX);
    e!(max_leaves: 0, 1, 2, 3);
    e!(l1: 0.25, 1e30, f32::INFINITY);
    e!(l2: 0., 1e-30, 1e30, f32::INFINITY);
    e!(gamma: 0.5, 1e30, f32::INFINITY);
    e!(mds: 1e-30, 0.25, 1e30, f32::INFINITY);
    e!(mlw: 0., 1e-30, 2., 1e30, f32::INFINITY);
    e!(base: None, Some(1e30), Some(-1e3));
    e!(nbins: 0, 1, 2, 3, u16::MAX);
    e!(samp: Samp::Random, Samp::Goss);
    e!(subsample: 0., 1e-30, 0.5, 2., f32::INFINITY);
    e!(top: 0., 1e-30, 0.5, 1., 1.5, f64::INFINITY);
    e!(other: 0., 1e-30, 0.5, 1., 1.5, f64::INFINITY);
    e!(colsample: 0., 1e-30, 0.5, 1.5, 1e30, f64::INFINITY);
    e!(missing: 0., 1., -7., f64::INFINITY);
    e!(esr: Some(0), Some(1), Some(usize::MAX));
    e!(metric: Some(Met::Auc), Some(Met::LogLoss), Some(Met::Rmsle), Some(Met::Rmse));
    e!(log_iters: 1, usize::MAX);
    e!(lossguide: true);
    e!(force: true);
    e!(term: vec![0], vec![0, 1, 9]);
    e!(mono: vec![1, -1], vec![0, 0], vec![2, 1, 1]);
    v
}
const MODES: [(bool, bool, Treat); 6] = [
    (false, true, Treat::None),
    (false, false, Treat::None),
    (true, true, Treat::None),
    (true, false, Treat::Parent),
    (true, true, Treat::AvgLeaf),
    (true, true, Treat::AvgNode),
];
fn dataset(k: usize) -> Data {
    let n = f64::NAN;
    let (rows, y, w): (Vec<Vec<f64>>, Vec<f64>, Vec<f64>) = match k {
        0 => ((0..6).map(|i| vec![(i % 3) as f64, if i % 4 == 3 { n } else { (i / 2) as f64 }]).collect(), vec![0., 1., 1., 0., 1., 0.], vec![1.; 6]),
        1 => (vec![vec![2., n]], vec![1.], vec![1.]),
        2 => (vec![vec![n, n]; 4], vec![0., 1., 0., 1.], vec![1.; 4]),
        3 => (vec![vec![3., 3.]; 4], vec![1.; 4], vec![2.; 4]),
        4 => ((0..5).map(|i| vec![i as f64, -(i as f64)]).collect(), vec![0., 1., 0., 1., 1.], vec![0.; 5]),
        5 => ((0..5).map(|i| vec![i as f64, if i == 2 { n } else { 1e300 * (i as f64 - 2.) }]).collect(), vec![0.; 5], vec![0., 1., 0., 3., 1e-30]),
        6 => ((0..9).map(|i| vec![((i * 5) % 9) as f64, (i % 2) as f64]).collect(), (0..9).map(|i| (i % 2) as f64).collect(), vec![1.; 9]),
        _ => (vec![], vec![], vec![]),
    };
    let mut d = Data::from_rows(&rows, &y, &w);
    d.cols = 2;
    if k == 8 {
        // records without features
        d = Data { rows: 3, cols: 0, x: vec![], y: vec![0., 1., 1.], w: vec![1.; 3] };
    }
    d
}
pub const NSETS: u64 = 9;

/// fit returns, and what it returns can be used: rooted trees, an output per row for every reader
fn total(cfg: &Cfg, d: &Data, evals: usize, st: &mut Stats) -> Result<(), String> {
    log_sink();
    let mut b = cfg.make();
    // the declared missing value, if it is a number, stands where NaN stood
    let mut d = d.clone();
    if !cfg.missing.is_nan() {
        for v in d.x.iter_mut() {
            if v.is_nan() {
                *v = cfg.missing;
            }
        }
    }
    let d = &d;
    let ev = match evals {
        0 => None,
        1 => Some(vec![(d.m(), &d.y[..], &d.w[..])]),
        _ => Some(vec![]),
    };
    let before = if cfg.nbins == 0 { b.json_dump().ok() } else { None };
    let r = b.fit(&d.m(), &d.y, &d.w, ev);
    if cfg.nbins == 0 {
        // no thresholds can be made: refused, and nothing else happens
        st.states += 1;
        st.transitions += 1;
        return match r {
            Ok(_) => Err("nbins = 0 is accepted".into()),
            Err(_) if b.json_dump().ok() != before => Err("the refused fit changed the booster".into()),
            Err(_) => Ok(()),
        };
    }
    r.map_err(|e| format!("fit refused valid data: {}", e))?;
    st.states += 1;
    st.transitions += 1;
    st.evaluations += 1;
    st.traces += 1;
    if b.trees.len() > cfg.iters {
        return Err(format!("{} trees after {} iterations", b.trees.len(), cfg.iters));
    }
    if b.trees.len() != cfg.iters && !(evals == 1 && cfg.esr.is_some()) {
        return Err(format!("{} trees instead of {}", b.trees.len(), cfg.iters));
    }
    for t in snap_all(&b) {
        let mut seen = vec![0usize; t.len()];
        if t.is_empty() {
            return Err("a tree without a node".into());
        }
        for (i, n) in t.iter().enumerate() {
            if n.num != i {
                return Err(format!("node {} is stored at {}", n.num, i));
            }
            if !n.leaf {
                if n.sf >= d.cols {
                    return Err(format!("split on feature {} of {}", n.sf, d.cols));
                }
                let mut ch = vec![n.l, n.r];
                if n.m != n.l && n.m != n.r {
                    ch.push(n.m);
                }
                for c in ch {
                    if c <= i || c >= t.len() {
                        return Err(format!("node {} has child {} of {}", i, c, t.len()));
                    }
                    seen[c] += 1;
                }
            }
        }
        if seen[0] != 0 || seen[1..].iter().any(|s| *s != 1) {
            return Err(format!("not a rooted tree: parents {:?}", seen));
        }
        st.nontrivial += (t.len() > 1) as u64;
    }
    let p = b.predict(&d.m(), false);
    if p.len() != d.rows {
        return Err(format!("{} predictions for {} rows", p.len(), d.rows));
    }
    let s = b.json_dump().map_err(|e| format!("the model cannot be saved: {}", e))?;
    forust_ml::GradientBooster::from_json(&s).map_err(|e| format!("the saved model cannot be loaded: {}", e))?;
    Ok(())
}

pub fn c31<'a>(th: bool) -> Vec<Space<'a>> {
    let es = edits();
    let ne = es.len() as u64;
    let mut v = vec![];
    {
        let rad = [ne, ne, NSETS, 6, 2, 3];
        let es = edits();
        v.push(space(
            "parameter-pairs",
            &format!("every pair of {} boundary settings (zero, tiny, beyond the data, infinite) x {} data sets (ordinary, one record, all missing, constant, all weights zero, mixed magnitudes, ties, no rows, no columns) x 6 missing modes x 2 objectives x without, with one and with an empty list of evaluation sets", ne, NSETS),
            prod(&rad),
            move |i, st| {
                let g = digits(i, &rad);
                if g[0] > g[1] {
                    return Ok(());
                }
                let mut c = Cfg { iters: 2, max_depth: 3, mlw: 0.2, ..Cfg::default() };
                c.obj = if g[4] == 0 { Obj::Log } else { Obj::Sq };
                (c.cmb, c.ams, c.treat) = MODES[g[3]];
                es[g[0]].1(&mut c);
                es[g[1]].1(&mut c);
                total(&c, &dataset(g[2]), g[5], st).map_err(|e| format!("{} {} on set {} ({:?}, mode {}): {}", es[g[0]].0, es[g[1]].0, g[2], c.obj, g[3], e))
            },
        ));
    }
    {
        let rad = [ne, ne, ne, NSETS, if th { 6 } else { 1 }];
        let es = edits();
        v.push(space("parameter-triples", &format!("every triple of {} boundary settings x {} data sets ({} missing modes, objectives and evaluation data in turn)", ne, NSETS, if th { "x 6" } else { "6" }), prod(&rad), move |i, st| {
            let g = digits(i, &rad);
            if g[0] >= g[1] || g[1] >= g[2] {
                return Ok(());
            }
            let k = g[0] * 7 + g[1] * 3 + g[2] + g[3] / 2;
            let mut c = Cfg { iters: 2, max_depth: 3, mlw: 0.2, ..Cfg::default() };
            c.obj = if k % 2 == 0 { Obj::Log } else { Obj::Sq };
            (c.cmb, c.ams, c.treat) = MODES[(g[0] + g[1] + g[2] + g[3] + g[4]) % 6];
            for q in 0..3 {
                es[g[q]].1(&mut c);
            }
            total(&c, &dataset(g[3]), (g[0] + g[2] + g[3]) % 3, st).map_err(|e| format!("{} {} {} on set {} ({:?}): {}", es[g[0]].0, es[g[1]].0, es[g[2]].0, g[3], c.obj, e))
        }));
    }
    {
        // all small data sets
        let k: u64 = if th { 5 } else { 4 };
        let sizes: Vec<u64> = (0..=k).map(|q| nmultiset(36, q)).collect();
        let nd: u64 = sizes.iter().sum();
        let es = edits();
        let pick: Vec<usize> = es.iter().enumerate().filter(|(_, e)| ["mlw=0.", "l2=0.", "nbins=1", "samp=Samp::Random", "samp=Samp::Goss", "max_leaves=2", "base=None", "force=true", "mono=vec![1, -1]", "lossguide=true", "missing=0."].contains(&e.0)).map(|(i, _)| i).collect();
        let np = pick.len() as u64 + 1;
        let rad = [nd, 6, 2, np];
        v.push(space(
            "small-data",
            &format!("every multiset of up to {} records over 2 features in {{missing,0,1}}, y in {{0,1}}, weight in {{0,1}} x 6 missing modes x 2 objectives x {} settings", k, np),
            prod(&rad),
            move |i, st| {
                let g = digits(i, &rad);
                let mut q = g[0] as u64;
                let mut n = 0;
                while q >= sizes[n] {
                    q -= sizes[n];
                    n += 1;
                }
                let ms = multiset(q, 36, n as u64);
                let vals = [f64::NAN, 0., 1.];
                let mut d = Data::new(2);
                let rows: Vec<Vec<f64>> = ms.iter().map(|r| vec![vals[r % 3], vals[r / 3 % 3]]).collect();
                if n > 0 {
                    d = Data::from_rows(&rows, &ms.iter().map(|r| (r / 9 % 2) as f64).collect::<Vec<_>>(), &ms.iter().map(|r| (r / 18) as f64).collect::<Vec<_>>());
                }
                let mut c = Cfg { iters: 2, max_depth: 3, mlw: 0.2, subsample: 0.5, top: 0.3, other: 0.4, ..Cfg::default() };
                c.obj = if g[2] == 0 { Obj::Log } else { Obj::Sq };
                (c.cmb, c.ams, c.treat) = MODES[g[1]];
                let mut name = "";
                if g[3] > 0 {
                    es[pick[g[3] - 1]].1(&mut c);
                    name = es[pick[g[3] - 1]].0;
                }
                if !c.missing.is_nan() {
                    // 0 is declared missing: the other values move away from it
                    for v in d.x.iter_mut() {
                        if *v == 0. {
                            *v = 2.;
                        }
                    }
                }
                total(&c, &d, (g[0] + g[1]) % 2, st).map_err(|e| format!("{} on {:?} ({:?}, mode {}): {}", name, d, c.obj, g[1], e))
            },
        ));
    }
    {
        let m: u64 = if th { 9 } else { 7 };
        let rad = [m, m, m, 4, 2, 2];
        v.push(space(
            "sizes",
            &format!("data of 0-{} rows with targets and weights of every length up to that, in the training set or in one of two evaluation sets with 1-3 columns, fresh and fitted boosters: refused exactly when the sizes disagree, leaving the booster as it was", m - 1),
            prod(&rad),
            move |i, st| {
                let g = digits(i, &rad);
                let (rows, ny, nw) = (g[0], g[1], g[2]);
                let good = dataset(6);
                let x: Vec<f64> = (0..rows * 3).map(|q| (q % 4) as f64).collect();
                let y: Vec<f64> = (0..ny).map(|q| (q % 2) as f64).collect();
                let w: Vec<f64> = vec![1.; nw];
                let mut b = Cfg { iters: 2, max_depth: 2, mlw: 0.2, cmb: g[5] == 1, ..Cfg::default() }.make();
                if g[4] == 1 {
                    b.fit(&good.m(), &good.y, &good.w, None).map_err(|e| e.to_string())?;
                }
                let before = b.json_dump().map_err(|e| e.to_string())?;
                let (mut bad, cols) = (rows != ny || rows != nw, if g[3] == 0 { 2 } else { g[3] });
                let xm = forust_ml::Matrix::new(&x[..rows * cols], rows, cols);
                let r = if g[3] == 0 {
                    b.fit(&xm, &y, &w, None)
                } else {
                    bad |= cols < 2;
                    b.fit(&good.m(), &good.y, &good.w, Some(vec![(good.m(), &good.y[..], &good.w[..]), (xm, &y[..], &w[..])]))
                };
                st.states += 1;
                st.transitions += 1;
                st.evaluations += 1;
                st.traces += 1;
                st.nontrivial += bad as u64;
                let what = format!("{} rows, {} columns, {} targets, {} weights in the {} set", rows, cols, ny, nw, if g[3] == 0 { "training" } else { "evaluation" });
                match (r, bad) {
                    (Ok(_), true) => Err(format!("{}: accepted", what)),
                    (Err(e), false) => Err(format!("{}: refused: {}", what, e)),
                    (Err(_), true) if b.json_dump().map_err(|e| e.to_string())? != before => Err(format!("{}: the refused fit changed the booster", what)),
                    _ => Ok(()),
                }
            },
        ));
    }
    v
}

//! C19-C24: metrics, sentinels, sampling, binning, equivalences, validation.
use crate::core::*;
use crate::fits::*;
use crate::oracle::*;
use crate::props_det::{read, same_reads};
use crate::props_json::fields;
use forust_ml::metric::metric_callables;
use forust_ml::GradientBooster;

// ------------------------------------------------------------------ C19
pub enum MetricVal {
    Undefined,
    Is(f64),
}
/// The metrics by definition.
pub fn metric_ref(m: Met, y: &[f64], yhat: &[f64], w: &[f64]) -> MetricVal {
    let tw: f64 = w.iter().sum();
    if !(tw > 0.) {
        return MetricVal::Undefined;
    }
    if m == Met::Rmsle && (0..y.len()).any(|i| w[i] == 0. && !(y[i] > -1. && yhat[i] > -1.)) {
        // outside the domain of the logarithm, on a record that does not count
        return MetricVal::Undefined;
    }
    let mean = |f: &dyn Fn(usize) -> f64| (0..y.len()).map(|i| if w[i] == 0. { 0. } else { w[i] * f(i) }).sum::<f64>() / tw;
    MetricVal::Is(match m {
        Met::LogLoss => mean(&|i| {
            // -log p(y) in terms of the raw score
            let z = yhat[i];
            let softplus = |z: f64| if z > 0. { z + (-z).exp().ln_1p() } else { z.exp().ln_1p() };
            y[i] * softplus(-z) + (1. - y[i]) * softplus(z)
        }),
        Met::Rmse => mean(&|i| (y[i] - yhat[i]).powi(2)).sqrt(),
        Met::Rmsle => mean(&|i| (y[i].ln_1p() - yhat[i].ln_1p()).powi(2)).sqrt(),
        Met::Auc => {
            if y.iter().any(|v| *v != 0. && *v != 1.) {
                return MetricVal::Undefined;
            }
            let (mut num, mut den) = (0., 0.);
            for i in 0..y.len() {
                for j in 0..y.len() {
                    if y[i] == 1. && y[j] == 0. {
                        let p = w[i] * w[j];
                        den += p;
                        num += p * if yhat[i] > yhat[j] { 1. } else if yhat[i] == yhat[j] { 0.5 } else { 0. };
                    }
                }
            }
            if !(den > 0.) {
                return MetricVal::Undefined;
            }
            num / den
        }
    })
}
fn metric_case(y: &[f64], s: &[f64], w: &[f64], mets: &[Met], st: &mut Stats) -> Result<(), String> {
    for &m in mets {
        let (f, max) = metric_callables(&to_metric(m));
        if max != (m == Met::Auc) {
            return Err(format!("{:?} is {}", m, if max { "maximised" } else { "minimised" }));
        }
        let MetricVal::Is(want) = metric_ref(m, y, s, w) else { continue };
        let got = f(y, s, w);
        st.evaluations += 1;
        let ok = if want.is_nan() { got.is_nan() } else if want.is_infinite() { got == want } else { (got - want).abs() <= 1e-9 * (1. + want.abs()) };
        if !ok {
            return Err(format!("{:?} of labels {:?}, scores {:?}, weights {:?} is {} but by definition {}", m, y, s, w, got, want));
        }
    }
    st.states += 1;
    Ok(())
}
pub fn c19<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    const S: [f64; 6] = [-1000., -0.0, 0.0, 0.5, 0.5000000000000001, 800.];
    const W: [f64; 3] = [1., 0., 2.5];
    let n: u32 = if th { 5 } else { 4 };
    v.push(space(
        "logistic",
        &format!("every list of {} records over labels {{0,1}} x scores {{-1000,-0.0,0.0,0.5,next(0.5),800}} x weights {{0,1,2.5}}: AUC and LogLoss", n),
        36u64.pow(n),
        move |i, st| {
            let dg = digits(i, &vec![36; n as usize]);
            let y: Vec<f64> = dg.iter().map(|k| (k % 2) as f64).collect();
            let s: Vec<f64> = dg.iter().map(|k| S[k / 2 % 6]).collect();
            let w: Vec<f64> = dg.iter().map(|k| W[k / 12]).collect();
            st.transitions += 1;
            st.traces += 1;
            st.nontrivial += 1;
            metric_case(&y, &s, &w, &[Met::Auc, Met::LogLoss], st)
        },
    ));
    const Y: [f64; 4] = [0., 1., -0.5, 1e6];
    const P: [f64; 5] = [0., -0.999, 3.25, 1e12, -1.5];
    v.push(space(
        "regression",
        "every list of 3 records over 4 targets x 5 predictions x 3 weights: RMSE and RMSLE (NaN where the logarithm is undefined)",
        60u64.pow(3),
        move |i, st| {
            let dg = digits(i, &[60; 3]);
            let y: Vec<f64> = dg.iter().map(|k| Y[k % 4]).collect();
            let s: Vec<f64> = dg.iter().map(|k| P[k / 4 % 5]).collect();
            let w: Vec<f64> = dg.iter().map(|k| [1., 0.25, 3.][k / 20]).collect();
            st.transitions += 1;
            st.traces += 1;
            st.nontrivial += 1;
            metric_case(&y, &s, &w, &[Met::Rmse, Met::Rmsle], st)
        },
    ));
    // order of the records
    let np = fact(6);
    v.push(space(
        "orders",
        "every permutation of 6 records x 243 score patterns (ties included) x 3 labellings: all metrics",
        np * 243 * 3,
        move |i, st| {
            let dg = digits(i, &[np, 243, 3]);
            let perm = permutation(dg[0] as u64, 6);
            let sc = digits(dg[1] as u64, &[3; 5]);
            let lab = [0b010110usize, 0b101001, 0b011111][dg[2]];
            let y: Vec<f64> = perm.iter().map(|k| (lab >> k & 1) as f64).collect();
            let s: Vec<f64> = perm.iter().map(|k| if *k < 5 { sc[*k] as f64 * 0.75 - 0.5 } else { 0.25 }).collect();
            let w: Vec<f64> = perm.iter().map(|k| [1., 2., 0.5, 3., 1., 0.25][*k]).collect();
            st.transitions += 1;
            metric_case(&y, &s, &w, &METS, st)
        },
    ));
    v.push(space(
        "long",
        "lists of 1-400 records, scores on a grid with many ties or distinct, extreme scores",
        400 * 4,
        move |i, st| {
            let dg = digits(i, &[400, 4]);
            let n = dg[0] + 1;
            let mut r = Lcg(i + 5);
            let y: Vec<f64> = (0..n).map(|_| r.below(2) as f64).collect();
            let s: Vec<f64> = (0..n)
                .map(|_| match dg[1] {
                    0 => r.below(5) as f64 - 2.,
                    1 => r.below(1 << 20) as f64 / 65536. - 8.,
                    2 => (r.below(9) as f64 - 4.) * 250.,
                    _ => r.below(3) as f64 * 1e15,
                })
                .collect();
            let w: Vec<f64> = (0..n).map(|_| [0., 1., 0.5, 2.][r.below(4) as usize]).collect();
            st.transitions += 1;
            st.nontrivial += 1;
            metric_case(&y, &s, &w, &METS, st)
        },
    ));
    // values far below 1, where the value itself (not 1 plus it) carries the digits
    const T: [f64; 5] = [0., 1e-9, 3e-12, 2e-17, 1e-30];
    v.push(space(
        "tiny",
        "every list of 2 records over 5 targets x 5 predictions of 0-1e-9 x 2 weights: RMSE and RMSLE to 6 digits; every list of 2 records over labels {0,1} x well classified scores of 5-700: LogLoss to 6 digits",
        2500 + 400,
        move |i, st| {
            let (y, s, w, ms): (Vec<f64>, Vec<f64>, Vec<f64>, &[Met]) = if i < 2500 {
                let dg = digits(i, &[5, 5, 2, 5, 5, 2]);
                (vec![T[dg[0]], T[dg[3]]], vec![T[dg[1]], T[dg[4]]], vec![[1., 0.25][dg[2]], [1., 4.][dg[5]]], &[Met::Rmse, Met::Rmsle])
            } else {
                let dg = digits(i - 2500, &[2, 5, 2, 2, 5, 2]);
                let z = |l: usize, k: usize| [5., 20., 36., 40., 700.][k] * if l == 1 { 1. } else { -1. };
                (
                    vec![dg[0] as f64, dg[3] as f64],
                    vec![z(dg[0], dg[1]), z(dg[3], dg[4])],
                    vec![[1., 0.25][dg[2]], [1., 4.][dg[5]]],
                    &[Met::LogLoss],
                )
            };
            st.transitions += 1;
            st.states += 1;
            st.nontrivial += 1;
            for &m in ms {
                let MetricVal::Is(want) = metric_ref(m, &y, &s, &w) else { continue };
                let got = metric_callables(&to_metric(m)).0(&y, &s, &w);
                st.evaluations += 1;
                if !((got - want).abs() <= 1e-6 * want.abs()) {
                    return Err(format!("{:?} of labels {:?}, scores {:?}, weights {:?} is {:e} but by definition {:e}", m, y, s, w, got, want));
                }
            }
            Ok(())
        },
    ));
    v.push(space("finite", "LogLoss is finite for every finite score: 2048 exponents x 2 signs x 4 mantissas x 2 labels", 2048 * 16, move |i, st| {
        let dg = digits(i, &[2048, 2, 4, 2]);
        let man = [0u64, 1, (1 << 52) - 1, 1 << 51][dg[2]];
        let z = f64::from_bits((dg[1] as u64) << 63 | (dg[0] as u64) << 52 | man);
        if !z.is_finite() {
            return Ok(());
        }
        let (f, _) = metric_callables(&to_metric(Met::LogLoss));
        let y = [dg[3] as f64];
        let got = f(&y, &[z], &[1.]);
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.nontrivial += 1;
        if !got.is_finite() || got < 0. {
            return Err(format!("LogLoss of score {} and label {} is {}", z, y[0], got));
        }
        metric_case(&y, &[z], &[1.], &[Met::LogLoss], st)
    }));
    v
}

// ------------------------------------------------------------------ C20
const SENTINELS: [f64; 10] = [-999., 0.0, 1.5, 2.25, 1e30, -1e-300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY];
fn sentinel_case(c: &Cfg, d: &Data, s: f64, st: &mut Stats) -> Result<(), String> {
    if d.x.iter().any(|v| *v == s) {
        return Ok(());
    }
    let a = fit(c, d)?;
    let swap = |d: &Data| {
        let mut e = d.clone();
        for (k, v) in e.x.iter_mut().enumerate() {
            if v.is_nan() {
                // zero is the same value with either sign
                *v = if s == 0. && k % 2 == 1 { -s } else { s };
            }
        }
        e
    };
    let e = swap(d);
    let c2 = Cfg { missing: s, ..c.clone() };
    let b = fit(&c2, &e)?;
    st.states += 2;
    st.transitions += 2;
    st.traces += 1;
    for ((n, x), (_, y)) in fields(&a).iter().zip(fields(&b).iter()) {
        if *n != "missing" && x != y {
            return Err(format!("missing = {}: {} differs from the NaN model: {} / {}", s, n, x.chars().take(200).collect::<String>(), y.chars().take(200).collect::<String>()));
        }
    }
    // rows beyond the training data, missing in various places
    let mut rows: Vec<Vec<f64>> = (0..d.rows).map(|r| d.row(r)).collect();
    for r in 0..8 {
        rows.push((0..d.cols).map(|j| if (r >> (j % 3)) & 1 == 0 { f64::NAN } else { 0.3 + (r * 7 + j) as f64 }).collect());
    }
    let n = rows.len();
    let q = Data::from_rows(&rows, &vec![0.; n], &vec![1.; n]);
    let qs = swap(&q);
    let (r1, _) = read(&a, &q, false);
    let (r2, _) = read(&b, &qs, false);
    same_reads(&r1, &[], &r2, &[]).map_err(|e| format!("missing = {}: {}", s, e))?;
    for f in 0..d.cols {
        for v in [f64::NAN, 0.3, 2.1, 40.] {
            let (x, y) = (a.value_partial_dependence(f, v), b.value_partial_dependence(f, if v.is_nan() { s } else { v }));
            if !((x - y).abs() <= 1e-9 * (1. + x.abs()) || x.is_nan() && y.is_nan()) {
                return Err(format!("missing = {}: partial dependence of feature {} at {} is {} / {}", s, f, v, x, y));
            }
        }
    }
    st.evaluations += 1;
    if a.trees.iter().any(|t| t.nodes.len() > 1) && d.x.iter().any(|v| v.is_nan()) {
        st.nontrivial += 1;
    }
    Ok(())
}
pub fn c20<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let n: u64 = if th { 6 } else { 5 };
    let radix = [10u64, MISSING_MODES as u64, 2, nmultiset(8, n)];
    v.push(space(
        "tiny",
        &format!("every multiset of {} records over x in {{missing,1,2,3}}, y in {{0,1}} x 10 sentinels (below, between, above, infinite, extreme) x 9 missing modes x 2 objectives", n),
        prod(&radix),
        move |i, st| {
            let dg = digits(i, &radix);
            let seq = multiset(dg[3] as u64, 8, n);
            let d = tiny1(&seq, dg[3] % 3);
            let mut c = Cfg { iters: 2, mlw: 0.2, ..Cfg::default() };
            c.obj = if dg[2] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            sentinel_case(&c, &d, SENTINELS[dg[0]], st)
        },
    ));
    let nk: u64 = if th { 72 } else { 24 };
    let radix2 = [10u64, MISSING_MODES as u64, 2, nk, 3];
    v.push(space(
        "structured",
        &format!("{} structured data sets x 10 sentinels x 9 missing modes x 2 objectives x 3 variants (bins, constraints, sampling)", nk),
        prod(&radix2),
        move |i, st| {
            let dg = digits(i, &radix2);
            let d = rich(dg[3], dg[2] == 0);
            let mut c = Cfg { iters: 3, mlw: 0.2, base: None, ..Cfg::default() };
            c.obj = if dg[2] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            match dg[4] {
                0 => {}
                1 => {
                    c.nbins = 3;
                    c.mono = vec![1, -1];
                }
                _ => {
                    c.samp = Samp::Random;
                    c.subsample = 0.7;
                    c.colsample = 0.7;
                    c.max_leaves = 5;
                }
            }
            sentinel_case(&c, &d, SENTINELS[dg[0]], st)
        },
    ));
    let radixl = [10u64, MISSING_MODES as u64, 2, 6];
    v.push(space(
        "large",
        "10 sentinels x 9 missing modes x 2 objectives x 6 sizes (40 to 1100 records, up to 300 distinct values), 2 rounds",
        prod(&radixl),
        move |i, st| {
            let dg = digits(i, &radixl);
            let n = [40, 65, 129, 257, 520, 1100][dg[3]];
            let mut d = crate::fits::large(n, [20, 64, 130, 257, 300, 100][dg[3]], dg[2] == 0, dg[3] as u64);
            // off the sentinels
            d.x.iter_mut().for_each(|v| *v += 0.0625);
            let mut c = Cfg { iters: 2, mlw: 0.2, base: None, parallel: dg[0] % 2 == 0, ..Cfg::default() };
            c.obj = if dg[2] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            sentinel_case(&c, &d, SENTINELS[dg[0]], st)
        },
    ));
    let near: Vec<(f64, Vec<f64>)> = vec![
        (-999., vec![-999.0000000001, -998.9999999999999, -999.0000000000001, -998.9995]),
        (0., vec![f64::MIN_POSITIVE, -5e-324, 1e-16, -1e-12, 1e-9, -1e-6]),
        (1., vec![1. + f64::EPSILON, 1. - f64::EPSILON / 2., 1.0000001, 0.999999]),
        (1e15, vec![1e15 + 0.125, 1e15 - 0.125, 1e15 + 1., 999999999999999.]),
        (f64::MAX, vec![f64::from_bits(f64::MAX.to_bits() - 1), 1.7e308, 1e300, 0.]),
        (f64::INFINITY, vec![1e308, -1e308, 0., 1.]),
        (-1., vec![1., -1.0000000001, -0.9999999999999, 0.]),
    ];
    let rn = [7u64, MISSING_MODES as u64, 2, 4u64.pow(if th { 6 } else { 5 }), 4];
    let nn = if th { 6 } else { 5 };
    v.push(space(
        "near-sentinel",
        &format!("{} records whose values are the sentinel or values right beside it (one ulp, 1e-16, 1e-12, 1e-9, ...) in every arrangement x 7 sentinels x 9 missing modes x 2 objectives x 4 targets", nn),
        prod(&rn),
        move |i, st| {
            let dg = digits(i, &rn);
            let (s, ne) = &near[dg[0]];
            let a = digits(dg[3] as u64, &vec![4; nn]);
            let x: Vec<f64> = a.iter().enumerate().map(|(q, k)| if *k == 0 { f64::NAN } else { ne[(k - 1 + q % 2 * (ne.len() - 3)) % ne.len()] }).collect();
            let y: Vec<f64> = (0..nn).map(|q| [q % 2, (q / 2) % 2, (q * q / 3) % 2, (q > 2) as usize][dg[4]] as f64).collect();
            let rows: Vec<Vec<f64>> = x.iter().map(|v| vec![*v]).collect();
            let d = Data::from_rows(&rows, &y, &vec![1.; nn]);
            let mut c = Cfg { iters: 2, mlw: 0.2, ..Cfg::default() };
            c.obj = if dg[2] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            sentinel_case(&c, &d, *s, st)
        },
    ));
    v.push(space(
        "nan-refused",
        "NaN at every single position of 12 data sets although missing is a number: fit refuses; predict refuses or never looks at it",
        12 * 200 * 2,
        move |i, st| {
            let dg = digits(i, &[12, 200, 2]);
            let mut d = rich(dg[0], true);
            for v in d.x.iter_mut() {
                if v.is_nan() {
                    *v = -999.;
                }
            }
            if dg[1] >= d.x.len() {
                return Ok(());
            }
            let c = Cfg { iters: 2, mlw: 0.2, obj: Obj::Log, missing: -999., cmb: dg[2] == 1, ..Cfg::default() };
            let mut e = d.clone();
            e.x[dg[1]] = f64::NAN;
            st.states += 1;
            st.transitions += 2;
            st.evaluations += 2;
            st.nontrivial += 1;
            let r = std::panic::catch_unwind(|| fit(&c, &e).is_ok());
            if let Ok(true) = r {
                return Err("NaN in the training data was accepted although missing is -999".into());
            }
            let b = fit(&c, &d)?;
            st.traces += 1;
            let row = dg[1] % d.rows;
            let one = e.subset(&[row]);
            for par in [false, true] {
                if let Ok(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.predict(&one.m(), par))) {
                    // then no value there can matter
                    for alt in [-999., -1e9, 1e9, 0.] {
                        let mut o = one.clone();
                        o.x[dg[1] / d.rows] = alt;
                        if b.predict(&o.m(), false)[0] != p[0] {
                            return Err("predict treats NaN as some value although missing is -999".into());
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C21
/// n rows with weights 2^i, so that a sum of weights names the rows in it.
fn coded(n: usize, cols: usize, k: u64) -> Data {
    let mut r = Lcg(900 + k);
    for _ in 0..5 {
        r.next();
    }
    let mut d = Data::new(cols);
    d.rows = n;
    for j in 0..cols {
        for i in 0..n {
            let miss = r.below(9) == 0;
            d.x.push(if miss { f64::NAN } else { (r.below(3 + j as u64 * 2) + (i as u64 % 2)) as f64 });
        }
    }
    for i in 0..n {
        let w = (1u64 << i) as f64;
        // gradients w*(0 - y) are distinct and of comparable size: y = +-(c_i)/w_i
        let c = 64. + ((i as u64 * 37 + k * 11) % 61) as f64;
        d.y.push(if r.below(2) == 0 { c / w } else { -c / w });
        d.w.push(w);
    }
    d
}
fn decode(cover: f64, n: usize, unit: f64) -> Option<Vec<usize>> {
    let v = cover / unit;
    if v < 0. || v.fract() != 0. || v >= (1u64 << n) as f64 {
        return None;
    }
    let b = v as u64;
    Some((0..n).filter(|i| b >> i & 1 == 1).collect())
}
struct Draws {
    per_tree: Vec<Vec<usize>>,
}
/// Is the tree the greedy one on some `k` of the columns? The columns it splits on must be among
/// them, and a column on which some node could have been split better must not: what is left has to
/// offer `k` columns.
fn some_columns(c: &Cfg, d: &Data, g: &[f64], h: &[f64], rows: &[usize], t: &[N], k: usize, flags: &Flags) -> Result<(), String> {
    let mut s2 = Stats::default();
    let mut used: Vec<usize> = t.iter().filter(|n| !n.leaf).map(|n| n.sf).collect();
    used.sort();
    used.dedup();
    if used.len() > k || used.iter().any(|f| *f >= d.cols) {
        return Err(format!("splits on {:?}", used));
    }
    audit_tree(c, d, g, h, rows, &used, t, flags, 2e-5, &mut s2)?;
    let mut better = vec![];
    for f in (0..d.cols).filter(|f| !used.contains(f)) {
        let mut cs = used.clone();
        cs.push(f);
        cs.sort();
        if let Err(e) = audit_tree(c, d, g, h, rows, &cs, t, flags, 2e-5, &mut s2) {
            better.push((f, e));
        }
    }
    if d.cols - better.len() < k {
        return Err(format!("too many columns offer better splits: {:?}", better));
    }
    Ok(())
}
fn sampled_fit(c: &Cfg, d: &Data, st: &mut Stats) -> Result<Draws, String> {
    let b = fit(c, d)?;
    st.traces += 1;
    let n = d.rows;
    let mut yhat = vec![b.base_score; n];
    let mut per_tree = vec![];
    if b.trees.len() != c.iters {
        return Err(format!("{} trees instead of {}", b.trees.len(), c.iters));
    }
    let kcols = if c.colsample == 1. { d.cols } else { ((d.cols as f64 * c.colsample).floor() as usize).min(d.cols) };
    let flags = Flags { stats: true, optimal: true, order: false };
    for (k, tr) in b.trees.iter().enumerate() {
        let t = snap(tr);
        let (g, h) = grad_hess(c.obj, &d.y, &yhat, &d.w);
        let cover = t[0].h as f64;
        // (rows, scaled rows)
        let mut options: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        match c.samp {
            Samp::None => options.push(((0..n).collect(), vec![])),
            Samp::Random => {
                let rows = decode(cover, n, 1.).ok_or_else(|| format!("tree {}: cover {} is not the weight of any subset of the rows", k, cover))?;
                if c.subsample >= 1. && rows.len() != n {
                    return Err(format!("tree {}: rows left out with subsample {}", k, c.subsample));
                }
                options.push((rows, vec![]));
            }
            Samp::Goss => {
                let f = ((1. - c.top) / c.other) as f32 as f64;
                let top_n = (c.top * n as f64) as usize;
                let mut order: Vec<usize> = (0..n).collect();
                order.sort_by(|a, b| g[*b].abs().partial_cmp(&g[*a].abs()).unwrap());
                // equal gradients at the boundary: any of them may be the top
                let mut tops = vec![order[..top_n].to_vec()];
                if top_n > 0 && top_n < n {
                    let e = g[order[top_n - 1]].abs();
                    let tied: Vec<usize> = order.iter().copied().filter(|r| (g[*r].abs() - e).abs() <= 1e-6 * (1. + e)).collect();
                    if tied.len() > 1 {
                        let fixed: Vec<usize> = order[..top_n].iter().copied().filter(|r| !tied.contains(r)).collect();
                        let need = top_n - fixed.len();
                        tops.clear();
                        for s in 0..1u32 << tied.len().min(12) {
                            if s.count_ones() as usize == need {
                                let mut t = fixed.clone();
                                t.extend(tied.iter().enumerate().filter(|(q, _)| s >> q & 1 == 1).map(|x| *x.1));
                                tops.push(t);
                            }
                        }
                    }
                }
                for top in &tops {
                    let rest = cover - top.iter().map(|r| d.w[*r]).sum::<f64>();
                    if let Some(others) = decode(rest, n, f) {
                        if others.iter().all(|r| !top.contains(r)) {
                            let mut rows = top.clone();
                            rows.extend(&others);
                            rows.sort();
                            options.push((rows, others));
                        }
                    }
                }
                if options.is_empty() {
                    return Err(format!("tree {}: cover {} is not that of the {} rows of largest gradient plus other rows scaled by {}", k, cover, top_n, f));
                }
            }
        }
        st.states += 1;
        st.transitions += 1;
        // statistics, optimality on the sample, for some admissible set of columns; with tied
        // gradients several samples can have the same cover
        let mut errs = vec![];
        let mut chosen = None;
        for (rows, scaled) in options {
            if rows.is_empty() {
                chosen = Some(rows);
                break;
            }
            let f = ((1. - c.top) / c.other) as f32;
            let (mut g, mut h) = (g.clone(), h.clone());
            for r in &scaled {
                g[*r] = (g[*r] as f32 * f) as f64;
                h[*r] = (h[*r] as f32 * f) as f64;
            }
            st.evaluations += 1;
            match some_columns(c, d, &g, &h, &rows, &t, kcols, &flags) {
                Ok(()) => {
                    chosen = Some(rows);
                    break;
                }
                Err(e) => errs.push(format!("rows {:?}: {}", rows, e)),
            }
        }
        let Some(rows) = chosen else {
            return Err(format!("tree {}: not a greedy-optimal tree on the sampled rows for any {} of {} columns: {}", k, kcols, d.cols, errs.join(" | ").chars().take(700).collect::<String>()));
        };
        if t.len() > 1 {
            st.nontrivial += 1;
        }
        per_tree.push(rows);
        for r in 0..n {
            yhat[r] += t[leaf_of(&t, &d.row(r), c.missing)?].w as f64;
        }
    }
    Ok(Draws { per_tree })
}
fn frequency(draws: &[Vec<usize>], n: usize, p: f64, what: &str) -> Result<(), String> {
    // every bound is wider than 6 standard deviations
    let m = draws.len() as f64;
    let dev = |x: f64, k: f64| (x - p * k).abs() <= 6. * (k * p * (1. - p)).sqrt() + 1.;
    let total: usize = draws.iter().map(|d| d.len()).sum();
    if !dev(total as f64, m * n as f64) {
        return Err(format!("{}: {} of {} records drawn with probability {}", what, total, m * n as f64, p));
    }
    for r in 0..n {
        let c = draws.iter().filter(|d| d.contains(&r)).count() as f64;
        if !dev(c, m) {
            return Err(format!("{}: record {} drawn {} times out of {} with probability {}", what, r, c, m, p));
        }
    }
    // pairs of records, and the same record in consecutive trees, are independent
    let pp = p * p;
    for a in 0..n {
        for b in 0..a {
            let c = draws.iter().filter(|d| d.contains(&a) && d.contains(&b)).count() as f64;
            if (c - pp * m).abs() > 7. * (m * pp * (1. - pp)).sqrt() + 2. {
                return Err(format!("{}: records {} and {} drawn together {} times out of {}", what, b, a, c, m));
            }
        }
    }
    Ok(())
}
pub fn c21<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let radix = [13u64, 4, 4, MISSING_MODES as u64, if th { 60 } else { 15 }];
    v.push(space(
        "draws",
        "rows whose weights are distinct powers of two, so a root cover names the sampled rows: 13 samplers (GOSS also with rates that keep every row, and that add up to more than one) x 4 column fractions x 4 data sets (12-18 rows, 2-4 columns) x 9 missing modes x seeds, 3 trees; each tree audited on exactly the decoded sample",
        prod(&radix),
        move |i, st| {
            let dg = digits(i, &radix);
            let (n, cols) = [(12, 3), (16, 2), (14, 4), (18, 3)][dg[2]];
            let mut c = Cfg { iters: 3, lr: 0.5, l2: 1., mlw: 0.5, base: Some(0.), seed: dg[4] as u64 * 7 + dg[4] as u64 % 3, ..Cfg::default() };
            missing_mode(&mut c, dg[3]);
            c.max_depth = 2;
            match dg[0] {
                0 => {}
                1..=4 => {
                    c.samp = Samp::Random;
                    c.subsample = [0.3, 0.5, 0.8, 1.0][dg[0] - 1];
                }
                q => {
                    c.samp = Samp::Goss;
                    let (a, b) = [(0.5, 0.25), (0.2, 0.1), (0.25, 0.25), (0.5, 0.5), (0., 1.), (0.9, 0.1), (0.75, 0.5), (0.5, 1.)][q - 5];
                    c.top = a;
                    c.other = b;
                }
            }
            c.colsample = [1., 0.7, 0.5, 0.34][dg[1]];
            let d = coded(n, cols, dg[2] as u64);
            sampled_fit(&c, &d, st).map_err(|e| format!("{}\n  cfg {:?}", e, c))?;
            Ok(())
        },
    ));
    let rk = [256u64, 3, MISSING_MODES as u64, if th { 20 } else { 5 }];
    v.push(space(
        "column-kinds",
        "4 columns, each informative, constant, entirely missing or two-valued with missing values (all 256 assignments) x column fractions 0.3, 0.5, 0.75 x 9 missing modes x seeds, rows sampled for every other seed; each tree audited for some admissible column set",
        prod(&rk),
        move |i, st| {
            let dg = digits(i, &rk);
            let kind = digits(dg[0] as u64, &[4; 4]);
            let mut d = coded(14, 4, 9);
            for j in 0..4 {
                for r in 0..14 {
                    let x = &mut d.x[j * 14 + r];
                    match kind[j] {
                        0 => {}
                        1 => *x = 3.5,
                        2 => *x = f64::NAN,
                        _ => *x = [1., f64::NAN, 2., 1., 2.][(r + j) % 5],
                    }
                }
            }
            let mut c = Cfg { iters: 2, lr: 0.5, l2: 1., mlw: 0.5, max_depth: 2, base: Some(0.), seed: dg[3] as u64, ..Cfg::default() };
            missing_mode(&mut c, dg[2]);
            c.colsample = [0.3, 0.5, 0.75][dg[1]];
            if dg[3] % 2 == 1 {
                c.samp = Samp::Random;
                c.subsample = 0.8;
            }
            sampled_fit(&c, &d, st).map_err(|e| format!("{}\n  cfg {:?} kinds {:?}", e, c, kind))?;
            Ok(())
        },
    ));
    let rw = [6u64, 5, 4, MISSING_MODES as u64, if th { 12 } else { 3 }];
    v.push(space(
        "wide",
        "5, 8, 9, 17, 33, 70 columns with different numbers of values x column fractions 0.2, 0.5, 0.8, 0.99, 1 x 4 samplers x 9 missing modes x seeds, 3 trees of depth 3; each tree audited for some admissible column set",
        prod(&rw),
        move |i, st| {
            let dg = digits(i, &rw);
            let d = coded(13, [5, 8, 9, 17, 33, 70][dg[0]], 20 + dg[4] as u64);
            let mut c = Cfg { iters: 3, lr: 0.5, l2: 1., mlw: 0.5, max_depth: 3, base: Some(0.), seed: dg[4] as u64 * 5 + 1, ..Cfg::default() };
            missing_mode(&mut c, dg[3]);
            c.colsample = [0.2, 0.5, 0.8, 0.99, 1.][dg[1]];
            c.parallel = dg[4] % 2 == 1;
            match dg[2] {
                0 => {}
                1 => {
                    c.samp = Samp::Random;
                    c.subsample = 0.7;
                }
                q => {
                    c.samp = Samp::Goss;
                    (c.top, c.other) = [(0.25, 0.25), (0.5, 0.25)][q - 2];
                }
            }
            sampled_fit(&c, &d, st).map_err(|e| format!("{}\n  cfg {:?}", e, c))?;
            Ok(())
        },
    ));
    let rz = [256u64, 4, 2, if th { 9 } else { 3 }];
    v.push(space(
        "zero-gradients",
        "every subset of 8 of 12 records already predicted exactly (gradient zero, hessian not) x 4 GOSS rates x 2 missing modes x seeds, 2 trees",
        prod(&rz),
        move |i, st| {
            let dg = digits(i, &rz);
            let mut d = coded(12, 2, 31);
            for r in 0..8 {
                if dg[0] >> r & 1 == 1 {
                    d.y[r + r / 3] = 0.;
                }
            }
            let mut c = Cfg { iters: 2, lr: 0.5, l2: 1., mlw: 0.5, max_depth: 2, base: Some(0.), obj: Obj::Sq, seed: dg[3] as u64, ..Cfg::default() };
            missing_mode(&mut c, [0, 4][dg[2]]);
            c.samp = Samp::Goss;
            (c.top, c.other) = [(0.75, 0.125), (0.5, 0.25), (0.5, 0.5), (0.25, 0.375)][dg[1]];
            sampled_fit(&c, &d, st).map_err(|e| format!("{}\n  cfg {:?}", e, c))?;
            Ok(())
        },
    ));
    let seeds = if th { 4000u64 } else { 800 };
    v.push(space(
        "probability",
        "all seeds of a range, 4 trees each, for each subsample in 0.1..1.5: inclusion frequencies of every record and pair, within a tree and in consecutive trees; determined by the seed",
        8,
        move |i, st| {
            let s = [0.1f32, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0, 1.5][i as usize];
            let n = 16;
            let d = coded(n, 1, 3);
            let mut all = vec![];
            let mut cons = vec![];
            for seed in 0..seeds {
                let c = Cfg { iters: 4, max_depth: 0, samp: Samp::Random, subsample: s, seed, ..Cfg::default() };
                let dr = sampled_fit(&c, &d, st)?;
                for w in dr.per_tree.windows(2) {
                    cons.push(w[0].iter().copied().filter(|r| w[1].contains(r)).collect::<Vec<_>>());
                }
                if seed % 50 == 0 && sampled_fit(&c, &d, st)?.per_tree != dr.per_tree {
                    return Err(format!("seed {} does not determine the draw", seed));
                }
                all.extend(dr.per_tree);
            }
            let p = (s as f64).min(1.);
            frequency(&all, n, p, &format!("subsample {}", s))?;
            let m = cons.len() as f64 * n as f64;
            let c: usize = cons.iter().map(|x| x.len()).sum();
            if (c as f64 - p * p * m).abs() > 7. * (m * p * p * (1. - p * p)).sqrt() + 2. {
                return Err(format!("subsample {}: consecutive trees share {} of {} records, expected {}", s, c, m, p * p * m));
            }
            if p < 1. {
                let mut distinct: Vec<&Vec<usize>> = all.iter().collect();
                distinct.sort();
                distinct.dedup();
                if distinct.len() < 10 {
                    return Err("the same rows are drawn again and again".into());
                }
            }
            Ok(())
        },
    ));
    let ns: &'static [usize] = &[30, 63, 64, 65, 100, 129, 257, 600];
    let rm = [ns.len() as u64, 8, if th { 40 } else { 8 }];
    v.push(space(
        "many-rows",
        "30-600 rows, trees grown until every leaf holds one sampled record, whose weight and cover name the record and its scaling: 8 samplers x seeds; the sampled set is decoded and, for GOSS, consists of exactly the rows of largest gradient unscaled and others scaled",
        prod(&rm),
        move |i, st| {
            let dg = digits(i, &rm);
            let n = ns[dg[0]];
            let mut c = Cfg { iters: 1, lr: 1., l2: 0., mlw: 0., max_depth: 200, nbins: 2000, base: Some(0.), obj: Obj::Sq, seed: dg[2] as u64 * 31 + 1, ..Cfg::default() };
            match dg[1] {
                0 => {}
                1..=3 => {
                    c.samp = Samp::Random;
                    c.subsample = [0.2, 0.6, 1.0][dg[1] - 1];
                }
                q => {
                    c.samp = Samp::Goss;
                    let (a, b) = [(0.2, 0.1), (0.5, 0.25), (0.1, 0.6), (0.25, 0.5)][q - 4];
                    c.top = a;
                    c.other = b;
                }
            }
            c.parallel = dg[2] % 2 == 1;
            // targets of distinct magnitude and both signs, in no order
            let y: Vec<f64> = (0..n).map(|q| { let z = ((q * 7919 + 5) % n) as f64 + 1.; if (q * 31) % 5 < 2 { -z } else { z } }).collect();
            let rows: Vec<Vec<f64>> = (0..n).map(|q| vec![q as f64]).collect();
            let d = Data::from_rows(&rows, &y, &vec![1.; n]);
            let b = fit(&c, &d)?;
            let t = snap(&b.trees[0]);
            let mut at: Vec<Vec<usize>> = vec![vec![]; t.len()];
            for r in 0..n {
                at[leaf_of(&t, &d.row(r), c.missing)?].push(r);
            }
            let f = (1. - c.top) / c.other;
            let (mut plain, mut scaled) = (vec![], vec![]);
            for nd in t.iter().filter(|x| x.leaf) {
                st.states += 1;
                st.transitions += 1;
                let here: Vec<usize> = at[nd.num].iter().copied().filter(|r| (d.y[*r] - nd.w as f64).abs() < 0.3).collect();
                if here.len() != 1 {
                    return Err(format!("leaf {} (weight {}, cover {}) is not that of one sampled record; records there: {:?}\n  {:?}", nd.num, nd.w, nd.h, at[nd.num].iter().map(|r| d.y[*r]).collect::<Vec<_>>(), c));
                }
                if (nd.h as f64 - 1.).abs() < 0.02 {
                    plain.push(here[0]);
                } else if c.samp == Samp::Goss && (nd.h as f64 - f).abs() < 0.02 * f {
                    scaled.push(here[0]);
                } else {
                    return Err(format!("record {} was used with weight {}\n  {:?}", here[0], nd.h, c));
                }
            }
            st.traces += 1;
            let within = |k: usize, m: usize, p: f64| (k as f64 - m as f64 * p).abs() <= 6. * (m as f64 * p * (1. - p)).sqrt() + 1e-9;
            match c.samp {
                Samp::None if plain.len() != n => return Err(format!("only {} of {} rows used without sampling", plain.len(), n)),
                Samp::Random if !within(plain.len(), n, c.subsample as f64) => return Err(format!("{} of {} rows used with subsample {}", plain.len(), n, c.subsample)),
                Samp::Goss => {
                    let top = (c.top * n as f64) as usize;
                    if plain.iter().any(|r| d.y[*r].abs() <= (n - top) as f64) || plain.len() != top {
                        return Err(format!("unscaled records {:?} instead of the {} of largest gradient (magnitudes above {})\n  {:?}", plain.iter().map(|r| d.y[*r]).collect::<Vec<_>>(), top, n - top, c));
                    }
                    let rest = (c.other * n as f64) as usize;
                    if !within(scaled.len(), n - top, rest as f64 / (n - top) as f64) {
                        return Err(format!("{} other records drawn, about {} expected\n  {:?}", scaled.len(), rest, c));
                    }
                }
                _ => {}
            }
            st.nontrivial += 1;
            Ok(())
        },
    ));
    v.push(space(
        "goss-draws",
        "GOSS: all seeds of a range for (top, other) in 5 settings: the top rows always, every other row sometimes and not always, other rates as expected",
        5,
        move |i, st| {
            let (a, b) = [(0.5, 0.25), (0.2, 0.1), (0.25, 0.25), (0., 0.5), (0.5, 0.5)][i as usize];
            let n = 20;
            let d = coded(n, 1, 5);
            let mut all = vec![];
            for seed in 0..seeds {
                let c = Cfg { iters: 1, max_depth: 0, samp: Samp::Goss, top: a, other: b, seed, ..Cfg::default() };
                all.extend(sampled_fit(&c, &d, st)?.per_tree);
            }
            let top_n = (a * n as f64) as usize;
            let rand_n = (b * n as f64) as usize;
            let p = rand_n as f64 / (n - top_n) as f64;
            let m = all.len() as f64;
            let mut always = 0;
            for r in 0..n {
                let c = all.iter().filter(|x| x.contains(&r)).count() as f64;
                if c == m {
                    always += 1;
                    continue;
                }
                if (c - p * m).abs() > 6. * (m * p * (1. - p)).sqrt() + 1. {
                    return Err(format!("top {} other {}: record {} drawn {} times out of {}, expected {}", a, b, r, c, m, p * m));
                }
            }
            if p < 1. && always != top_n {
                return Err(format!("top {}: {} records always used, expected {}", a, always, top_n));
            }
            Ok(())
        },
    ));
    v.push(space(
        "columns",
        "colsample_bytree over 2-6 identically informative columns: each tree's columns come from one subset of the right size, every column is chosen for some seed, subsets vary between trees",
        5 * 5,
        move |i, st| {
            let dg = digits(i, &[5, 5]);
            let cols = 2 + dg[0];
            let frac = [0.2, 0.34, 0.5, 0.67, 0.99][dg[1]];
            let k = (cols as f64 * frac).floor() as usize;
            let mut used = vec![0u32; cols];
            let mut firsts = vec![];
            for seed in 0..120u64 {
                let d = coded(14, cols, 17);
                let c = Cfg { iters: 4, max_depth: 2, mlw: 0.5, colsample: frac, seed, samp: if seed % 2 == 0 { Samp::None } else { Samp::Random }, subsample: 0.9, ..Cfg::default() };
                let b = fit(&c, &d)?;
                let mut seq = vec![];
                for t in snap_all(&b) {
                    let mut fs: Vec<usize> = t.iter().filter(|n| !n.leaf).map(|n| n.sf).collect();
                    fs.sort();
                    fs.dedup();
                    if fs.len() > k {
                        return Err(format!("a tree splits on {:?}, more than floor({} * {}) columns", fs, frac, cols));
                    }
                    for f in &fs {
                        used[*f] += 1;
                    }
                    seq.push(fs);
                    st.states += 1;
                }
                sampled_fit(&c, &d, st).map_err(|e| format!("colsample {} seed {}: {}", frac, seed, e))?;
                firsts.push(seq);
            }
            st.transitions += 120;
            if k > 0 && k < cols {
                if let Some(f) = used.iter().position(|u| *u == 0) {
                    return Err(format!("column {} of {} is never used with colsample_bytree {}", f, cols, frac));
                }
                if firsts.iter().all(|s| s.windows(2).all(|w| w[0] == w[1])) {
                    return Err("columns are not drawn anew for every tree".into());
                }
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C22
/// Thresholds that must and may be available.
fn thresholds(x: &[f64], w: &[f64], nbins: usize) -> (Vec<f64>, Vec<f64>) {
    let mut p: Vec<(f64, f64)> = x.iter().copied().zip(w.iter().copied()).filter(|v| !v.0.is_nan()).collect();
    p.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut d: Vec<(f64, f64)> = vec![];
    for (v, w) in p {
        match d.last_mut() {
            Some(l) if l.0 == v => l.1 += w,
            _ => d.push((v, w)),
        }
    }
    if d.len() <= (nbins + 1).min(65535) {
        let v: Vec<f64> = d.iter().map(|x| x.0).collect();
        return (v.clone(), v);
    }
    let total: f64 = d.iter().map(|x| x.1).sum();
    let (mut must, mut may) = (vec![], vec![]);
    let mut cum = 0.;
    let mut k = 0usize;
    for (i, (v, w)) in d.iter().enumerate() {
        let before = cum;
        cum += w / total;
        let mut hit = false;
        let mut near = false;
        // percentiles k/nbins with before < q <= cum
        while k < nbins && (k as f64 / nbins as f64) <= cum {
            hit = true;
            k += 1;
        }
        let eps = 1e-9;
        // rounding of the running sum may move a quantile that falls on a boundary
        for q in [before, cum] {
            let s = q * nbins as f64;
            if (s - s.round()).abs() < eps * nbins as f64 {
                near = true;
            }
        }
        if hit && i > 0 && !near {
            must.push(*v);
        }
        if hit || near || i == 0 {
            may.push(*v);
        }
    }
    (must, may)
}
fn bin_case(d: &Data, nbins: u16, cmb: bool, targets: &[f64], st: &mut Stats) -> Result<(), String> {
    let x: Vec<f64> = d.col(0).to_vec();
    let (must, may) = thresholds(&x, &d.w, nbins as usize);
    let lo = x.iter().copied().filter(|v| !v.is_nan()).fold(f64::INFINITY, f64::min);
    for &t in targets {
        if t == lo {
            continue;
        }
        // a target for which splitting at t is strictly best
        let mut e = d.clone();
        for r in 0..e.rows {
            e.y[r] = if x[r].is_nan() { 0. } else if x[r] < t { -1. } else { 1. };
        }
        let c = Cfg { iters: 1, max_depth: 1, l2: 0., mlw: 0.01, nbins, cmb, lr: 1., ..Cfg::default() };
        let b = fit(&c, &e)?;
        let tr = snap(&b.trees[0]);
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.traces += 1;
        // where every record goes at prediction time is where it went in training
        let leaves = b.predict_leaf_indices(&e.m());
        for n in tr.iter().filter(|n| n.leaf) {
            let h: f64 = (0..e.rows).filter(|r| leaves[*r] == n.num).map(|r| e.w[r]).sum();
            if (h - n.h as f64).abs() > 1e-5 * (1. + h) {
                return Err(format!("nbins {}: node {} trained with cover {} but the records routed there at prediction weigh {} (x {:?})", nbins, n.num, n.h, h, short(&x)));
            }
        }
        if tr[0].leaf {
            // a threshold with no weight on one side separates nothing
            let weighs = |m: f64, below: bool| (0..e.rows).any(|r| e.w[r] > 0. && (if below { x[r] < m } else { x[r] >= m }));
            if must.iter().any(|m| *m > lo && weighs(*m, true) && weighs(*m, false)) && weighs(t, true) && weighs(t, false) {
                return Err(format!("nbins {}: no split although thresholds {:?} exist (x {:?})", nbins, short(&must), short(&x)));
            }
            continue;
        }
        let got = tr[0].sv;
        if !may.contains(&got) {
            return Err(format!("nbins {}: threshold {} is no weighted quantile {:?} of x {:?} w {:?}", nbins, got, short(&may), short(&x), short(&d.w)));
        }
        // other thresholds may separate equally well only if no record lies between
        let (a, z) = if got < t { (got, t) } else { (t, got) };
        let between = (0..e.rows).any(|r| e.w[r] > 0. && x[r] >= a && x[r] < z);
        let lively = (0..e.rows).any(|r| e.w[r] > 0. && x[r] < t) && (0..e.rows).any(|r| e.w[r] > 0. && x[r] >= t);
        if must.contains(&t) && lively && between {
            return Err(format!("nbins {}: the best threshold {} is a weighted quantile but {} was used (x {:?} w {:?})", nbins, t, got, short(&x), short(&d.w)));
        }
        st.nontrivial += 1;
    }
    Ok(())
}
fn short(v: &[f64]) -> Vec<f64> {
    v.iter().copied().take(40).collect()
}
pub fn c22<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let n: u64 = if th { 8 } else { 7 };
    let vals: &'static [f64] = &[-1e300, -2.5, -0.0, 1e-300, 3., 7e10];
    let ns = nmultiset(7, n);
    let radix = [6u64, 6, 2, ns];
    v.push(space(
        "tiny",
        &format!("every multiset of {} values over 6 (negative, signed zero, tiny, huge) and missing x nbins 1..6 x 6 weightings (two with zeros) x 2 missing modes; every value tried as the best threshold", n),
        prod(&radix),
        move |i, st| {
            let dg = digits(i, &radix);
            let ms = multiset(dg[3] as u64, 7, n);
            let mut xs: Vec<f64> = ms.iter().map(|k| if *k == 6 { f64::NAN } else { vals[*k] }).collect();
            // not sorted
            let k = dg[3] % xs.len();
            xs.rotate_left(k);
            let h = xs.len() / 2;
            xs.swap(0, h);
            let m = xs.len();
            let w: Vec<f64> = (0..m).map(|q| if dg[1] < 4 { weight_pattern(dg[1], q) } else if (q + dg[1]) % 3 == 0 { 0. } else { weight_pattern(dg[1] - 4, q) }).collect();
            let d = Data { rows: m, cols: 1, y: vec![0.; m], w, x: xs.clone() };
            let mut t: Vec<f64> = xs.iter().copied().filter(|x| !x.is_nan()).collect();
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            t.dedup();
            bin_case(&d, 1 + dg[0] as u16, dg[2] == 1, &t, st)
        },
    ));
    let sizes: &'static [usize] = &[10, 20, 33, 64, 100, 150, 257, 300];
    let bins: &'static [u16] = &[1, 2, 3, 5, 8, 16, 31, 64, 100, 149, 150, 255, 256, 257, 1000, 65535];
    let radix2 = [sizes.len() as u64, bins.len() as u64, 4, 3];
    v.push(space(
        "grids",
        "10-300 rows with distinct or tied values x 16 bin counts from 1 to 65535 x 4 weightings x 3 orders; up to 40 values tried as the best threshold",
        prod(&radix2),
        move |i, st| {
            let dg = digits(i, &radix2);
            let n = sizes[dg[0]];
            let mut x: Vec<f64> = (0..n)
                .map(|q| {
                    let z = (q * 7919 + 13) % n;
                    match dg[3] {
                        0 => z as f64 * 0.5 - 20.,
                        1 => ((z / 2) as f64).powi(3) - 1e4,
                        _ => (z % (n / 3 + 1)) as f64 * 1e-5,
                    }
                })
                .collect();
            if dg[3] == 1 {
                x[n / 3] = f64::NAN;
            }
            let w: Vec<f64> = (0..n).map(|q| weight_pattern(dg[2], q)).collect();
            let mut t: Vec<f64> = x.iter().copied().filter(|x| !x.is_nan()).collect();
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            t.dedup();
            let step = t.len() / 40 + 1;
            let t: Vec<f64> = t.into_iter().step_by(step).collect();
            let d = Data { rows: n, cols: 1, y: vec![0.; n], w, x };
            bin_case(&d, bins[dg[1]], dg[2] % 2 == 1, &t, st)
        },
    ));
    v.push(space(
        "16-bit",
        "65534..65538 distinct values with nbins 65533..65535 and 70000 rows with ties: at the limit of the 16-bit bin numbers",
        5 * 3 + 3,
        move |i, st| {
            let (n, nb) = if i < 15 { (65534 + (i % 5) as usize, 65533 + (i / 5) as u16) } else { (70000, [65535u16, 40000, 65534][i as usize - 15]) };
            let x: Vec<f64> = (0..n).map(|q| ((q * 48271) % n) as f64 - 1000.).collect();
            let mut t = x.clone();
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let t = vec![t[1], t[n / 2], t[n - 2], t[n - 1]];
            let d = Data { rows: n, cols: 1, y: vec![0.; n], w: vec![1.; n], x };
            bin_case(&d, nb, i % 2 == 0, &t, st)
        },
    ));
    let asize: &'static [usize] = &[40, 257, 300, 600, 1030, 1500, 3000, 5000, 9000];
    let abins: &'static [u16] = &[3, 30, 255, 256, 257, 500, 1023, 1024, 1025, 2048, 4000, 8191, 65535];
    let radixa = [asize.len() as u64, abins.len() as u64, 2, 2];
    v.push(space(
        "all-thresholds",
        "40-9000 rows x 13 bin counts from 3 to 65535 x distinct or tied values x 2 weightings, one fully grown tree: all its thresholds are weighted quantiles, and no leaf could still be divided at one",
        prod(&radixa),
        move |i, st| {
            let dg = digits(i, &radixa);
            let n = asize[dg[0]];
            let nb = abins[dg[1]];
            let tie = 1 + 2 * dg[2];
            let mut d = Data::new(1);
            d.rows = n;
            d.x = (0..n).map(|q| ((q * 48271) % n / tie) as f64 * 0.5 - 77.).collect();
            d.y = (0..n).map(|q| [-3., 2., 0., 5., -1., 4., 1.][(((q * 48271) % n / tie) * 5 + (q * 48271) % n / tie / 7) % 7]).collect();
            d.w = (0..n).map(|q| if dg[3] == 0 { 1. } else { 1. + (q * q % 7) as f64 * 0.25 }).collect();
            let (must, may) = thresholds(&d.x, &d.w, nb as usize);
            let c = Cfg { iters: 1, max_depth: 100_000, l2: 0., mlw: 0.01, nbins: nb, lr: 1., base: Some(0.), ..Cfg::default() };
            let b = fit(&c, &d)?;
            let tr = snap(&b.trees[0]);
            st.states += tr.len() as u64;
            st.evaluations += tr.len() as u64;
            st.transitions += n as u64;
            st.traces += 1;
            st.nontrivial += (tr.len() > 3) as u64;
            let key = |v: f64| (v * 2.).round() as i64;
            let ok: std::collections::HashSet<i64> = may.iter().map(|v| key(*v)).collect();
            let need: std::collections::HashSet<i64> = must.iter().map(|v| key(*v)).collect();
            for nd in tr.iter().filter(|nd| !nd.leaf) {
                if !ok.contains(&key(nd.sv)) || key(nd.sv) as f64 != nd.sv * 2. {
                    return Err(format!("nbins {}, {} rows: threshold {} is no weighted quantile", nb, n, nd.sv));
                }
            }
            let mut at: Vec<Vec<usize>> = vec![vec![]; tr.len()];
            for r in 0..n {
                let mut k = 0;
                while !tr[k].leaf {
                    k = if d.x[r] < tr[k].sv { tr[k].l } else { tr[k].r };
                }
                at[k].push(r);
            }
            for (k, rows) in at.iter_mut().enumerate() {
                rows.sort_by(|a, b| d.x[*a].partial_cmp(&d.x[*b]).unwrap());
                let g = |rs: &[usize]| rs.iter().map(|r| d.y[*r] * d.w[*r]).sum::<f64>();
                let h = |rs: &[usize]| rs.iter().map(|r| d.w[*r]).sum::<f64>();
                for j in 1..rows.len() {
                    let x = d.x[rows[j]];
                    if x > d.x[rows[j - 1]] && need.contains(&key(x)) {
                        let (l, r) = rows.split_at(j);
                        let gain = g(l).powi(2) / h(l) + g(r).powi(2) / h(r) - g(rows).powi(2) / h(rows);
                        if gain > 1e-3 * (1. + g(rows).powi(2) / h(rows)) {
                            return Err(format!("nbins {}, {} rows: leaf {} holds records on both sides of {}, a weighted quantile; dividing it gains {}", nb, n, k, x, gain));
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    let rsize: &'static [usize] = &[60, 130, 260, 300, 513, 600, 1030, 2100, 4100, 9000, 33000, 70000];
    let rbins: &'static [u16] = &[2, 127, 128, 255, 256, 257, 511, 512, 1024, 4096, 32768, 65535];
    let radixr = [rsize.len() as u64, rbins.len() as u64, 2, 2];
    v.push(space(
        "routing",
        "60-70000 rows over 2 columns x 12 bin counts from 2 to 65535 x 2 missing modes x with and without missing values, 2 trees of depth 4: every node, at every level, was trained on exactly the records routed to it by their raw values",
        prod(&radixr),
        move |i, st| {
            let dg = digits(i, &radixr);
            let n = rsize[dg[0]];
            if n > 5000 && dg[1] % 3 != 2 {
                return Ok(());
            }
            let mut d = Data::new(2);
            d.rows = n;
            for j in 0..2usize {
                for q in 0..n {
                    let z = (q * [48271, 7919][j] + j) % n;
                    let x = if j == 0 { z as f64 * 0.25 - 90. } else { (z / 3) as f64 };
                    d.x.push(if dg[3] == 1 && (q * 7 + j) % 11 == 0 { f64::NAN } else { x });
                }
            }
            // a signal at every level, spread over the whole range of both columns
            d.y = (0..n)
                .map(|q| {
                    let (a, b) = (d.x[q], d.x[n + q]);
                    let mut y = ((q * 2654435761) % 97) as f64 / 97.;
                    if !a.is_nan() {
                        y += if a > n as f64 * 0.21 - 90. { 3. } else { 0. } + if a > n as f64 * 0.17 - 90. { 1.5 } else { 0. };
                    }
                    if !b.is_nan() {
                        y += if b > n as f64 * 0.3 { -1. } else { 0.5 };
                    }
                    y
                })
                .collect();
            d.w = (0..n).map(|q| 1. + (q % 3) as f64).collect();
            let c = Cfg { iters: 2, max_depth: 4, l2: 0.5, mlw: 1., nbins: rbins[dg[1]], cmb: dg[2] == 1, lr: 0.5, ..Cfg::default() };
            let b = fit(&c, &d)?;
            for (k, tr) in snap_all(&b).iter().enumerate() {
                let mut h = vec![0.; tr.len()];
                for r in 0..n {
                    let row = [d.x[r], d.x[n + r]];
                    let mut at = 0;
                    loop {
                        h[at] += d.w[r];
                        let nd = &tr[at];
                        if nd.leaf {
                            break;
                        }
                        let v = row[nd.sf];
                        at = if v.is_nan() { nd.m } else if v < nd.sv { nd.l } else { nd.r };
                    }
                }
                st.states += tr.len() as u64;
                st.transitions += n as u64;
                st.evaluations += tr.len() as u64;
                st.traces += 1;
                st.nontrivial += (tr.len() > 7) as u64;
                for nd in tr {
                    if (h[nd.num] - nd.h as f64).abs() > 0.5 {
                        return Err(format!("nbins {}, {} rows: node {} (depth {}) of tree {} trained with cover {} but the records routed there weigh {}", c.nbins, n, nd.num, nd.depth, k, nd.h, h[nd.num]));
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "columns",
        "several columns with different numbers of distinct values: each gets its own thresholds",
        6 * 5 * 4,
        move |i, st| {
            let dg = digits(i, &[6, 5, 4]);
            let n = 40;
            let cols = 1 + dg[3 - 1] + 1;
            let mut d = Data::new(cols);
            d.rows = n;
            for j in 0..cols {
                for q in 0..n {
                    d.x.push(((q * (j + 3) + j) % (2 + j * 5 + dg[0])) as f64 + j as f64 * 100.);
                }
            }
            d.w = (0..n).map(|q| weight_pattern(dg[1] % 4, q)).collect();
            let nb = [2u16, 3, 5, 9, 64][dg[1]];
            for j in 0..cols {
                // make column j the informative one
                let col = d.col(j).to_vec();
                let (must, may) = thresholds(&col, &d.w, nb as usize);
                let mut t = col.clone();
                t.sort_by(|a, b| a.partial_cmp(b).unwrap());
                t.dedup();
                for thr in t.iter().skip(1) {
                    d.y = col.iter().map(|x| if x < thr { -1. } else { 1. }).collect();
                    let c = Cfg { iters: 1, max_depth: 1, l2: 0., mlw: 0.01, nbins: nb, lr: 1., ..Cfg::default() };
                    let b = fit(&c, &d)?;
                    let tr = snap(&b.trees[0]);
                    st.states += 1;
                    st.transitions += 1;
                    st.evaluations += 1;
                    if tr[0].leaf {
                        continue;
                    }
                    st.nontrivial += 1;
                    if tr[0].sf == j && !may.contains(&tr[0].sv) {
                        return Err(format!("column {}: threshold {} is no weighted quantile", j, tr[0].sv));
                    }
                    if must.contains(thr) && (tr[0].sf == j && tr[0].sv != *thr) {
                        return Err(format!("column {}: threshold {} instead of {}", j, tr[0].sv, thr));
                    }
                }
            }
            Ok(())
        },
    ));
    v
}

// ------------------------------------------------------------------ C23
fn preds(c: &Cfg, d: &Data, at: &Data) -> Result<(Vec<f64>, GradientBooster), String> {
    let b = fit(c, d)?;
    Ok((b.predict(&at.m(), false), b))
}
fn equal(what: &str, a: &[f64], b: &[f64]) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !((x - y).abs() <= 1e-6 * (1. + x.abs())) {
            return Err(format!("{}: prediction of record {} changes from {} to {}", what, i, x, y));
        }
    }
    Ok(())
}
fn equiv_case(c: &Cfg, d: &Data, perm: &[usize], st: &mut Stats) -> Result<(), String> {
    let (p0, b0) = preds(c, d, d)?;
    st.traces += 1;
    st.states += 1;
    if b0.trees.iter().any(|t| t.nodes.len() > 1) {
        st.nontrivial += 1;
    }
    // rows permuted
    let dp = d.subset(perm);
    equal("rows permuted", &p0, &preds(c, &dp, d)?.0)?;
    // weights expanded
    let mut idx = vec![];
    for r in 0..d.rows {
        for _ in 0..d.w[r] as usize {
            idx.push(r);
        }
    }
    if d.w.iter().all(|w| w.fract() == 0. && *w >= 1.) {
        let mut de = d.subset(&idx);
        de.w = vec![1.; de.rows];
        equal("weights replaced by repeated records", &p0, &preds(c, &de, d)?.0)?;
        st.transitions += 1;
    }
    // weight zero records with present values
    if d.rows > 0 {
        let mut all: Vec<usize> = (0..d.rows).collect();
        all.extend([0, d.rows - 1, d.rows / 2]);
        let mut dz = d.subset(&all);
        for k in d.rows..dz.rows {
            dz.w[k] = 0.;
            dz.y[k] = 1. - dz.y[k];
        }
        equal("records of weight zero added", &p0, &preds(c, &dz, d)?.0)?;
        // in front
        all.rotate_right(3);
        let mut dz = d.subset(&all);
        for k in 0..3 {
            dz.w[k] = 0.;
            dz.y[k] = 1. - dz.y[k];
        }
        equal("records of weight zero put in front", &p0, &preds(c, &dz, d)?.0)?;
    }
    // increasing transformations, thresholds follow
    for (k, f) in [(|x: f64| x * 3. - 7.) as fn(f64) -> f64, |x: f64| x * x * x, |x: f64| (x / 64.).exp(), |x: f64| -1. / (x + 1e3), |x: f64| x * 2f64.powi(-45), |x: f64| x * 2f64.powi(-900), |x: f64| x * 2f64.powi(900), |x: f64| x + 2f64.powi(40)].iter().enumerate() {
        let mut dt = d.clone();
        let j = (k + k / 4) % d.cols;
        let mut vals: Vec<f64> = d.col(j).iter().copied().filter(|v| !v.is_nan()).collect();
        vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
        vals.dedup();
        if vals.windows(2).any(|w| f(w[0]) >= f(w[1])) {
            continue; // not strictly increasing in double precision
        }
        for r in 0..d.rows {
            dt.x[j * d.rows + r] = f(d.at(r, j));
        }
        let (pt, bt) = preds(c, &dt, &dt)?;
        equal("feature transformed", &p0, &pt)?;
        for (ta, tb) in snap_all(&b0).iter().zip(snap_all(&bt).iter()) {
            if ta.len() != tb.len() {
                return Err("feature transformed: other trees".into());
            }
            for (a, b) in ta.iter().zip(tb) {
                if !a.leaf && (a.sf != b.sf || (a.sf == j && b.sv != f(a.sv)) || (a.sf != j && b.sv != a.sv)) {
                    return Err(format!("feature transformed: split {} < {} became {} < {}", a.sf, a.sv, b.sf, b.sv));
                }
            }
        }
        st.transitions += 1;
    }
    // a copy of each column at the end
    for j in 0..d.cols {
        let mut dc = d.clone();
        dc.x.extend_from_slice(d.col(j));
        dc.cols += 1;
        let mut c2 = c.clone();
        if j < c2.mono.len() {
            c2.mono.resize(d.cols, 2);
            c2.mono.push(c.mono[j]);
        }
        if c.term.contains(&j) {
            c2.term.push(d.cols);
        }
        equal("column duplicated", &p0, &preds(&c2, &dc, &dc)?.0)?;
        st.transitions += 1;
    }
    st.transitions += 3;
    st.evaluations += 8;
    Ok(())
}
pub fn c23<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let nper = if th { 24 } else { 6 };
    let nm = nmultiset(18, 4);
    let radix = [nper, MISSING_MODES as u64, nm];
    v.push(space(
        "tiny2",
        "every multiset of 4 records over two features in {missing,1,2} and y in {0,1} x 9 missing modes x permutations, SquaredLoss with exact sums: permutation, weight expansion, zero weights, transformations, duplicated columns",
        prod(&radix),
        move |i, st| {
            let dg = digits(i, &radix);
            let seq = multiset(dg[2] as u64, 18, 4);
            let mut d = tiny2(&seq, 0);
            for r in 0..4 {
                d.w[r] = [1., 2., 1., 3.][(r + dg[2]) % 4];
            }
            let mut c = Cfg { iters: 1, mlw: 0.5, lr: 1., ..Cfg::default() };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, [0, 3, 4, 2][dg[2] % 4]);
            let perm = permutation(dg[0] as u64 * if th { 1 } else { 5 } % 24, 4);
            equiv_case(&c, &d, &perm, st).map_err(|e| format!("{}\n  cfg {:?}\n  data {:?}", e, c, d))
        },
    ));
    let radix2 = [5u64, MISSING_MODES as u64, if th { 72 } else { 24 }, 3, 3];
    v.push(space(
        "structured",
        "structured data sets of 8-48 rows with integer weights and half-integer targets (sums exact) x 9 missing modes x 5 constraint maps x 3 bin counts x 3 regularisations, one round",
        prod(&radix2),
        move |i, st| {
            let dg = digits(i, &radix2);
            let mut d = rich(dg[2], false);
            for r in 0..d.rows {
                d.w[r] = [1., 2., 1., 1., 3.][(r + dg[2]) % 5];
            }
            let mut c = Cfg { iters: 1, mlw: 0.5, lr: 1., max_depth: 3, ..Cfg::default() };
            c.base = Some(0.5);
            missing_mode(&mut c, dg[1]);
            c.mono = MONOS[dg[0]].to_vec();
            c.nbins = [256, 3, 5][dg[3]];
            reg(&mut c, [0, 3, 4][dg[4]]);
            let perm: Vec<usize> = (0..d.rows).rev().map(|r| (r * 1 + dg[2]) % d.rows).collect();
            // quantile cuts may move by rounding of the running sums when bins are few: compare
            // only unit-weight-independent variants there
            if c.nbins < 256 {
                return bins_case(&c, &d, &perm, st).map_err(|e| format!("{}\n  cfg {:?}\n  data {:?}", e, c, d));
            }
            equiv_case(&c, &d, &perm, st).map_err(|e| format!("{}\n  cfg {:?}\n  data {:?}", e, c, d))
        },
    ));
    let rl = [6u64, MISSING_MODES as u64, 3, if th { 12 } else { 4 }];
    v.push(space(
        "large",
        "sets of 17, 64, 100, 257, 400, 700 rows with ties and missing values, integer weights and half-integer targets (sums exact) x 9 missing modes x 3 regularisations, reversed and rotated rows",
        prod(&rl),
        move |i, st| {
            let dg = digits(i, &rl);
            let mut d = large([17, 64, 100, 257, 400, 700][dg[0]], [9, 40, 150, 24][dg[3] % 4], false, dg[3] as u64);
            for r in 0..d.rows {
                d.y[r] = (d.y[r] * 2.).round() / 2.;
                d.w[r] = [1., 2., 1., 1., 3.][(r + dg[3]) % 5];
            }
            let mut c = Cfg { iters: 1, mlw: 0.5, lr: 1., max_depth: 5, ..Cfg::default() };
            c.base = Some(0.5);
            missing_mode(&mut c, dg[1]);
            reg(&mut c, [0, 3, 4][dg[2]]);
            let perm: Vec<usize> = (0..d.rows).rev().map(|r| (r + 5 * dg[3]) % d.rows).collect();
            equiv_case(&c, &d, &perm, st).map_err(|e| format!("{}\n  {:?} {:?}", e, dg, c))
        },
    ));
    let ru = [2u64, MISSING_MODES as u64, 3, 3, if th { 80 } else { 32 }];
    v.push(space(
        "unweighted",
        "fit_unweighted against fit with weights of one: structured data sets and sets of 100-1100 rows x 2 objectives x 9 missing modes x 3 samplers x no / one / two evaluation sets; complete saved model equal",
        prod(&ru),
        move |i, st| {
            let dg = digits(i, &ru);
            let mut d = if dg[4] < 8 { large([100, 127, 128, 129, 256, 300, 513, 1100][dg[4]], 40, dg[0] == 0, dg[4] as u64) } else { rich(dg[4], dg[0] == 0) };
            d.w = vec![1.; d.rows];
            let mut c = Cfg { iters: 4, mlw: 0.2, base: None, obj: if dg[0] == 0 { Obj::Log } else { Obj::Sq }, ..Cfg::default() };
            missing_mode(&mut c, dg[1]);
            c.samp = [Samp::None, Samp::Random, Samp::Goss][dg[2]];
            c.subsample = 0.7;
            c.top = 0.3;
            c.other = 0.3;
            let run = |unweighted: bool| -> Result<GradientBooster, String> {
                let mut b = c.make();
                let m = d.m();
                let ev = match dg[3] {
                    0 => None,
                    k => Some((0..k).map(|_| (d.m(), &d.y[..], &d.w[..])).collect()),
                };
                let r = if unweighted { b.fit_unweighted(&m, &d.y, ev) } else { b.fit(&m, &d.y, &d.w, ev) };
                r.map_err(|e| e.to_string())?;
                Ok(b)
            };
            let (a, b) = (run(false)?, run(true)?);
            st.states += 2;
            st.transitions += 2;
            st.evaluations += 1;
            st.traces += 1;
            st.nontrivial += a.trees.iter().any(|t| t.nodes.len() > 1) as u64;
            for ((n, x), (_, y)) in fields(&a).iter().zip(fields(&b).iter()) {
                if x != y {
                    return Err(format!("fit_unweighted: {} differs from fit with weights of one", n));
                }
            }
            Ok(())
        },
    ));
    v
}
/// With quantile bins: power-of-two total weight, so every cumulative share is exact.
fn bins_case(c: &Cfg, d: &Data, perm: &[usize], st: &mut Stats) -> Result<(), String> {
    let idx: Vec<usize> = (0..d.rows).collect();
    let take = if d.rows >= 32 { 32 } else if d.rows >= 16 { 16 } else { 8 };
    let mut e = d.subset(&idx[..take]);
    // total weight per column must be a power of two: no missing values, unit weights
    e.w = vec![1.; take];
    for v in e.x.iter_mut() {
        if v.is_nan() {
            *v = -55.5;
        }
    }
    let perm: Vec<usize> = perm.iter().copied().filter(|p| *p < take).collect();
    let mut c = c.clone();
    c.nbins = if c.nbins == 3 { 4 } else { 2 };
    equiv_case(&c, &e, &perm, st)
}

// ------------------------------------------------------------------ C24
const BAD: [f64; 5] = [-1., -1e-30, f64::NAN, f64::NEG_INFINITY, -3.5e-38];
const GOOD: [f64; 6] = [0., 1e-30, 0.5, 1., 1e30, f64::INFINITY];
const NAMES: [&str; 10] = ["learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample", "top_rate", "other_rate", "colsample_bytree"];
fn build(vals: &[f64; 10]) -> Result<GradientBooster, String> {
    use forust_ml::gradientbooster::{GrowPolicy, MissingNodeTreatment};
    use forust_ml::objective::ObjectiveType;
    use forust_ml::sampler::SampleMethod;
    GradientBooster::new(
        ObjectiveType::LogLoss,
        10,
        vals[0] as f32,
        5,
        usize::MAX,
        vals[1] as f32,
        vals[2] as f32,
        vals[3] as f32,
        vals[4] as f32,
        vals[5] as f32,
        0.5,
        256,
        true,
        true,
        None,
        vals[6] as f32,
        vals[7],
        vals[8],
        vals[9],
        0,
        f64::NAN,
        false,
        SampleMethod::None,
        GrowPolicy::DepthWise,
        None,
        None,
        true,
        Default::default(),
        MissingNodeTreatment::AssignToParent,
        0,
        false,
    )
    .map_err(|e| e.to_string())
}
pub fn c24<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    v.push(space("one-parameter", "each of 10 parameters at each of 5 invalid and 6 valid values, the others at 6 valid values", 10 * 11 * 6, move |i, st| {
        let dg = digits(i, &[10, 11, 6]);
        let mut vals = [GOOD[dg[2]]; 10];
        let bad = dg[1] < 5;
        vals[dg[0]] = if bad { BAD[dg[1]] } else { GOOD[dg[1] - 5] };
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.nontrivial += bad as u64;
        st.traces += 1;
        match (build(&vals), bad) {
            (Ok(_), true) => Err(format!("{} = {} is accepted", NAMES[dg[0]], vals[dg[0]])),
            (Err(e), true) if !e.contains(NAMES[dg[0]]) => Err(format!("{} = {}: the error does not name the parameter: {}", NAMES[dg[0]], vals[dg[0]], e)),
            (Err(e), false) => Err(format!("{} = {} is refused: {}", NAMES[dg[0]], vals[dg[0]], e)),
            _ => Ok(()),
        }
    }));
    v.push(space("combinations", "every subset of the 10 parameters negative or NaN: refused unless empty, naming one of them", 1024 * 2, move |i, st| {
        let dg = digits(i, &[1024, 2]);
        let mut vals = [0.5; 10];
        for q in 0..10 {
            if dg[0] >> q & 1 == 1 {
                vals[q] = if dg[1] == 0 { -0.25 } else { f64::NAN };
            }
        }
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        match build(&vals) {
            Ok(_) if dg[0] != 0 => Err(format!("{:?} is accepted", vals)),
            Err(e) if dg[0] == 0 => Err(format!("valid parameters are refused: {}", e)),
            Err(e) if !(0..10).any(|q| dg[0] >> q & 1 == 1 && e.contains(NAMES[q])) => Err(format!("{:?}: the error names none of the invalid parameters: {}", vals, e)),
            _ => Ok(()),
        }
    }));
    let nmax: u64 = if th { 80 } else { 40 };
    v.push(space(
        "positions",
        &format!("1-{} records: an invalid label or weight (NaN, negative, minus infinity) at every position of the training set or of any of three evaluation sets is refused, valid data are not", nmax),
        nmax * nmax * 4 * 2 * 4,
        move |i, st| {
            let dg = digits(i, &[nmax, nmax, 4, 2, 4]);
            let n = dg[0] + 1;
            let pos = dg[1];
            if pos >= n {
                return Ok(());
            }
            let set = dg[2]; // 0 training, 1..3 evaluation
            let weights = dg[3] == 1;
            // the invalid value; 3: a valid edge value
            let val = if weights { [f64::NAN, -1e-300, f64::NEG_INFINITY, 0.][dg[4]] } else { [f64::NAN, f64::NAN, f64::NAN, -5.][dg[4]] };
            let bad = dg[4] != 3;
            let mut d = Data::new(1);
            d.rows = n;
            d.x = (0..n).map(|q| (q % 5) as f64).collect();
            d.y = (0..n).map(|q| ((q * 3) % 2) as f64 - 0.25 * (q % 3) as f64).collect();
            d.w = (0..n).map(|q| 1. + (q % 2) as f64).collect();
            let mut sets = vec![d.clone(), d.clone(), d.clone(), d];
            if weights {
                sets[set].w[pos] = val;
            } else {
                sets[set].y[pos] = val;
            }
            let mut b = Cfg { iters: 1, max_depth: 1, obj: Obj::Sq, cmb: n % 2 == 0, ..Cfg::default() }.make();
            let nev = if set == 0 && n % 3 == 0 { 0 } else { 3 };
            let ev = if nev == 0 { None } else { Some(sets[1..].iter().map(|e| (e.m(), &e.y[..], &e.w[..])).collect::<Vec<_>>()) };
            let r = b.fit(&sets[0].m(), &sets[0].y, &sets[0].w, ev);
            st.states += 1;
            st.transitions += 1;
            st.evaluations += 1;
            st.nontrivial += bad as u64;
            let what = format!("{} = {} at position {} of {} in {}", if weights { "weight" } else { "label" }, val, pos, n, if set == 0 { "the training set".to_string() } else { format!("evaluation set {}", set - 1) });
            match (r, bad) {
                (Ok(_), true) => Err(format!("{} is accepted", what)),
                (Err(e), false) => Err(format!("{} is refused: {}", what, e)),
                _ => Ok(()),
            }
        },
    ));
    let long: &'static [usize] = &[100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10001, 65535, 65536, 65537, 100003];
    let nl = long.len() as u64;
    v.push(space(
        "long",
        "vectors of 100-100003 entries: an invalid label or weight at each of 16 positions (both ends, around powers of two and of ten), training or evaluation set",
        nl * 16 * 2 * 2 * 3,
        move |i, st| {
            let dg = digits(i, &[nl, 16, 2, 2, 3]);
            let n = long[dg[0]];
            let pos = [0, 1, n / 2, n - 1, n - 2, n - 17, n / 3, 64, 255, 256, 999, 1000, 1024, 4096, 65535, 65536][dg[1]];
            if pos >= n {
                return Ok(());
            }
            let weights = dg[3] == 1;
            let val = if weights { [f64::NAN, -1e-300, f64::NEG_INFINITY][dg[4]] } else { f64::NAN };
            let x: Vec<f64> = (0..n).map(|q| (q % 5) as f64).collect();
            let y: Vec<f64> = (0..n).map(|q| (q % 2) as f64).collect();
            let w = vec![1.; n];
            let (mut by, mut bw) = (y.clone(), w.clone());
            if weights {
                bw[pos] = val;
            } else {
                by[pos] = val;
            }
            let small = forust_ml::Matrix::new(&x[..40], 40, 1);
            let big = forust_ml::Matrix::new(&x, n, 1);
            let mut b = Cfg { iters: 1, max_depth: 1, obj: Obj::Sq, ..Cfg::default() }.make();
            let r = if dg[2] == 0 { b.fit(&big, &by, &bw, None) } else { b.fit(&small, &y[..40], &w[..40], Some(vec![(big, &by[..], &bw[..])])) };
            st.states += 1;
            st.transitions += 1;
            st.evaluations += 1;
            st.nontrivial += 1;
            if r.is_ok() {
                return Err(format!("{} = {} at position {} of {} in the {} set is accepted", if weights { "weight" } else { "label" }, val, pos, n, ["training", "evaluation"][dg[2]]));
            }
            Ok(())
        },
    ));
    v.push(space(
        "refused-unchanged",
        "a booster that is new or was fitted (with and without early stopping), 8 data sets x 9 missing modes: a fit refused for NaN or negative labels, weights or - with a number as missing - NaN in the data, at every position of the training or an evaluation set, leaves every field of the booster as it was",
        8 * 9 * 3 * 3 * 2 * 60,
        move |i, st| {
            let dg = digits(i, &[8, 9, 3, 3, 2, 60]);
            let mut d = rich(dg[0], true);
            for v in d.x.iter_mut() {
                if v.is_nan() {
                    *v = -999.;
                }
            }
            let kind = dg[3]; // label, weight, data
            let n = if kind == 2 { d.x.len() } else { d.rows };
            // every position of short vectors, a stride through long ones
            let pos = dg[5] * n.div_ceil(60);
            if pos >= n {
                return Ok(());
            }
            let mut c = Cfg { iters: 3, mlw: 0.2, obj: Obj::Log, missing: -999., max_depth: 2, ..Cfg::default() };
            missing_mode(&mut c, dg[1]);
            let mut b = c.make();
            if dg[2] == 2 {
                b = b.set_early_stopping_rounds(Some(1));
            }
            if dg[2] > 0 {
                b.fit(&d.m(), &d.y, &d.w, Some(vec![(d.m(), &d.y[..], &d.w[..])])).map_err(|e| format!("valid data are refused: {}", e))?;
            }
            let mut e = d.clone();
            match kind {
                0 => e.y[pos] = f64::NAN,
                1 => e.w[pos] = if dg[5] % 2 == 0 { f64::NAN } else { -1. },
                _ => e.x[pos] = f64::NAN,
            }
            // what a fit on these data would change
            let mut o = d.clone();
            o.y.iter_mut().for_each(|y| *y = 1. - *y);
            o.y[0] = 1.;
            let before: serde_json::Value = serde_json::from_str(&b.json_dump().map_err(|e| e.to_string())?).unwrap();
            let what = format!("{} at position {} of the {} set", ["NaN label", "invalid weight", "NaN although missing is -999"][kind], pos, ["training", "evaluation"][dg[4]]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if dg[4] == 0 {
                    let ey: Vec<f64> = e.y.iter().zip(&o.y).map(|(a, b)| if a.is_nan() { *a } else { *b }).collect();
                    b.fit(&e.m(), &ey, &e.w, None).is_ok()
                } else {
                    b.fit(&o.m(), &o.y, &o.w, Some(vec![(o.m(), &o.y[..], &o.w[..]), (e.m(), &e.y[..], &e.w[..])])).is_ok()
                }
            }));
            st.states += 2;
            st.transitions += 2;
            st.evaluations += 1;
            st.traces += 1;
            st.nontrivial += (dg[2] > 0) as u64;
            if let Ok(true) = r {
                return Err(format!("{} is accepted", what));
            }
            let after: serde_json::Value = serde_json::from_str(&b.json_dump().map_err(|e| e.to_string())?).unwrap();
            if before != after {
                let k: Vec<&String> = before.as_object().unwrap().iter().filter(|(k, v)| after.get(k) != Some(v)).map(|(k, _)| k).collect();
                return Err(format!("{}: the refused fit changed {:?}", what, k));
            }
            Ok(())
        },
    ));
    let rads = [6u64, 3, 6, 2, 7, 2];
    v.push(space(
        "shapes",
        "1-6 records of 1-3 columns, evaluation sets of 0-5 columns: fewer columns than the training data are refused, more are ignored; labels and weights of any other length are refused, in the training or an evaluation set, and leave the booster as it was",
        prod(&rads),
        move |i, st| {
            let dg = digits(i, &rads);
            let (n, cols, ecols) = (dg[0] + 1, dg[1] + 1, dg[2]);
            let val = |r: usize, j: usize| ((r * 5 + j * 3 + r * j) % 4) as f64 - 0.5 * (j % 2) as f64;
            let set = |cols: usize| {
                let mut d = Data::new(cols);
                d.rows = n;
                d.x = (0..cols).flat_map(|j| (0..n).map(move |r| val(r, j))).collect();
                d.y = (0..n).map(|r| (r % 2) as f64).collect();
                d.w = (0..n).map(|r| 1. + (r % 3) as f64).collect();
                d
            };
            let c = Cfg { iters: 2, mlw: 0., obj: if dg[5] == 0 { Obj::Log } else { Obj::Sq }, cmb: n % 2 == 0, max_depth: 2, ..Cfg::default() };
            let d = set(cols);
            // which vector has the wrong length: none, training labels or weights, those of the evaluation set
            let (wrong, longer) = ([0, 1, 2, 3, 4, 1, 3][dg[4]], dg[3] == 1);
            let cut = |v: &[f64]| if longer { v.iter().copied().chain([1.]).collect::<Vec<f64>>() } else { v[..n - 1].to_vec() };
            let e = set(ecols);
            let vecs: Vec<Vec<f64>> = [&d.y, &d.w, &e.y, &e.w].iter().enumerate().map(|(q, v)| if q + 1 == wrong { cut(v) } else { v.to_vec() }).collect();
            let bad = wrong > 0 || ecols < cols;
            let mut b = c.make();
            let used = dg[4] >= 5;
            if used {
                b.fit(&d.m(), &d.y, &d.w, None).map_err(|e| format!("valid data are refused: {}", e))?;
            }
            let before: serde_json::Value = serde_json::from_str(&b.json_dump().map_err(|e| e.to_string())?).unwrap();
            let em = forust_ml::Matrix::new(&e.x, n, ecols);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.fit(&d.m(), &vecs[0], &vecs[1], Some(vec![(d.m(), &d.y[..], &d.w[..]), (em, &vecs[2][..], &vecs[3][..])])).map_err(|e| e.to_string())));
            st.states += 1;
            st.transitions += 1;
            st.evaluations += 1;
            st.nontrivial += (bad || ecols > cols) as u64;
            let what = format!("{} records of {} columns, evaluation set of {}, lengths {:?}", n, cols, ecols, vecs.iter().map(|v| v.len()).collect::<Vec<_>>());
            match (r, bad) {
                (Err(_), _) => Err(format!("{}: fit panics", what)),
                (Ok(Ok(_)), true) => Err(format!("{} is accepted", what)),
                (Ok(Err(e)), false) => Err(format!("{} is refused: {}", what, e)),
                (Ok(Err(_)), true) => {
                    let after: serde_json::Value = serde_json::from_str(&b.json_dump().map_err(|e| e.to_string())?).unwrap();
                    if before != after { Err(format!("{}: the refused fit changed the booster", what)) } else { Ok(()) }
                }
                (Ok(Ok(_)), false) => {
                    let t = set(cols);
                    let mut b2 = c.make();
                    b2.fit(&d.m(), &d.y, &d.w, Some(vec![(d.m(), &d.y[..], &d.w[..]), (t.m(), &t.y[..], &t.w[..])])).map_err(|e| e.to_string())?;
                    st.traces += 1;
                    let (p, q): (serde_json::Value, serde_json::Value) = (serde_json::from_str(&b.json_dump().unwrap()).unwrap(), serde_json::from_str(&b2.json_dump().unwrap()).unwrap());
                    if p != q { Err(format!("{}: the columns the training data do not have change the outcome", what)) } else { Ok(()) }
                }
            }
        },
    ));
    v
}

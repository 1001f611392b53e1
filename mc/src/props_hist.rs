//! C17 (histories of use) and C18 (evaluation history, early stopping).
use crate::core::*;
use crate::fits::*;
use crate::oracle::*;
use crate::props_det::{fit_into, read, same_reads};
use crate::props_json::fields;
use crate::props_misc::{metric_ref, MetricVal};
use forust_ml::GradientBooster;

// ------------------------------------------------------------------ C17
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    FitA,
    FitEval,
    FitWide,
    BadLabel,
    BadEval,
    Read,
    Pin,
    Unpin,
    Meta,
    Reload,
    Swap,
}
const OPS: [Op; 11] = [Op::FitA, Op::FitEval, Op::FitWide, Op::BadLabel, Op::BadEval, Op::Read, Op::Pin, Op::Unpin, Op::Meta, Op::Reload, Op::Swap];

type F = Vec<(&'static str, String)>;
struct World {
    params: [Cfg; 2],
    a: Data,
    ev: Data,
    wide: Data,
    /// fields of a fresh booster after [params][fit kind]
    fresh: Vec<Vec<F>>,
    reads: Vec<Vec<(Vec<(String, Vec<u64>)>, Vec<f64>)>>,
}
fn world(k: usize) -> World {
    let obj = k % 2 == 0;
    let mut p = Cfg { iters: 4, lr: 0.9, mlw: 0.2, base: None, esr: Some(1), max_depth: 3, ..Cfg::default() };
    p.obj = if obj { Obj::Log } else { Obj::Sq };
    missing_mode(&mut p, [0, 3, 4, 7, 2, 5][k % 6]);
    let mut q = Cfg { iters: 3, lr: 0.4, mlw: 0.2, base: Some(0.25), max_depth: 2, l1: 0.1, nbins: 4, ..Cfg::default() };
    q.obj = if k % 3 == 0 { Obj::Sq } else { Obj::Log };
    missing_mode(&mut q, [3, 0, 1, 2, 8, 6][k % 6]);
    match k % 5 {
        1 => {
            p.samp = Samp::Random;
            p.subsample = 0.7;
            p.seed = 3;
        }
        2 => {
            q.samp = Samp::Goss;
            q.top = 0.3;
            q.other = 0.3;
            p.colsample = 0.6;
        }
        3 => {
            q.metric = Some(Met::Auc);
            q.esr = Some(2);
            q.mono = vec![1, -1];
        }
        _ => {}
    }
    let a = rich([1, 3, 5, 0, 6, 4][k % 6], obj || k % 3 != 0);
    let ev = rich([13, 15, 17, 12, 18, 16][k % 6], obj || k % 3 != 0);
    let wide = rich([8, 11, 10, 8, 11, 10][k % 6], obj || k % 3 != 0);
    let mut w = World { params: [p, q], a, ev, wide, fresh: vec![], reads: vec![] };
    for c in 0..2 {
        let mut row = vec![];
        let mut rr = vec![];
        for f in 0..3 {
            let mut b = w.params[c].make();
            do_fit(&w, &mut b, f).expect("fresh fit");
            rr.push(read(&b, data_of(&w, f), true));
            row.push(fields(&b));
        }
        w.fresh.push(row);
        w.reads.push(rr);
    }
    w
}
fn data_of(w: &World, f: usize) -> &Data {
    if f == 2 {
        &w.wide
    } else {
        &w.a
    }
}
fn do_fit(w: &World, b: &mut GradientBooster, f: usize) -> Result<(), String> {
    match f {
        0 => fit_into(b, &w.a, &[]),
        1 => fit_into(b, &w.a, &[&w.a, &w.ev]),
        _ => fit_into(b, &w.wide, &[&w.wide]),
    }
}
fn diff(a: &F, b: &F, skip: &[&str]) -> Option<String> {
    for ((n, x), (_, y)) in a.iter().zip(b) {
        if x != y && !skip.contains(n) {
            return Some(format!("{}: {} / {}", n, x.chars().take(160).collect::<String>(), y.chars().take(160).collect::<String>()));
        }
    }
    None
}
/// Model state: which fit the booster holds, under which parameters, and what changed since.
fn history(w: &World, seq: &[Op], st: &mut Stats) -> Result<(), String> {
    let mut b = w.params[0].make();
    let mut cur = 0usize;
    // the state the booster must be in, kept by the model
    let mut expect: F = fields(&b);
    let mut held: Option<(usize, usize)> = None; // (params, fit)
    let mut last: Option<usize> = None;
    let mut ntrees = 0usize;
    let mut pin: Option<Option<usize>> = None;
    let mut meta: Option<String> = None;
    for (step, op) in seq.iter().enumerate() {
        let fail = |e: String| format!("after {:?}: {}", &seq[..=step], e);
        st.transitions += 1;
        st.states += 1;
        match op {
            Op::FitA | Op::FitEval | Op::FitWide => {
                let f = match op {
                    Op::FitA => 0,
                    Op::FitEval => 1,
                    _ => 2,
                };
                do_fit(w, &mut b, f).map_err(fail)?;
                if let Some(d) = diff(&fields(&b), &w.fresh[cur][f], &[]) {
                    return Err(fail(format!("the fit differs from the same fit on a fresh booster: {}", d)));
                }
                expect = w.fresh[cur][f].clone();
                held = Some((cur, f));
                last = Some(f);
                ntrees = b.trees.len();
                pin = None;
                meta = b.get_metadata(&"note".to_string());
            }
            Op::BadLabel => {
                let mut y = w.wide.y.clone();
                let k = step % y.len();
                y[k] = f64::NAN;
                if b.fit(&w.wide.m(), &y, &w.wide.w, None).is_ok() {
                    return Err(fail("NaN label accepted".into()));
                }
            }
            Op::BadEval => {
                let mut ew = w.ev.w.clone();
                let n = ew.len();
                ew[n - 1] = -1.;
                let ev = vec![(w.a.m(), &w.a.y[..], &w.a.w[..]), (w.ev.m(), &w.ev.y[..], &ew[..])];
                if b.fit(&w.a.m(), &w.a.y, &w.a.w, Some(ev)).is_ok() {
                    return Err(fail("negative evaluation weight accepted".into()));
                }
            }
            Op::Read => {
                let usable = match pin {
                    Some(Some(i)) => i < ntrees,
                    _ => true,
                };
                if usable {
                    let f = last.unwrap_or(0);
                    let (r, p) = read(&b, data_of(w, f), step % 2 == 0);
                    if let (Some((c, f)), None) = (held, &pin) {
                        let (r0, p0) = &w.reads[c][f];
                        same_reads(r0, p0, &r, &p).map_err(|e| fail(format!("{} from those of the fresh fit", e)))?;
                    }
                    st.evaluations += 1;
                }
            }
            Op::Pin => {
                b = b.set_prediction_iteration(Some(0));
                pin = Some(Some(0));
                set(&mut expect, "prediction_iteration", "Some(1)");
            }
            Op::Unpin => {
                b = b.set_prediction_iteration(None);
                pin = Some(None);
                set(&mut expect, "prediction_iteration", "None");
            }
            Op::Meta => {
                b.insert_metadata("note".into(), format!("n{}", step));
                meta = Some(format!("n{}", step));
            }
            Op::Reload => {
                let doc = b.json_dump().map_err(|e| fail(e.to_string()))?;
                b = GradientBooster::from_json(&doc).map_err(|e| fail(e.to_string()))?;
            }
            Op::Swap => {
                cur = 1 - cur;
                // new parameters (base score, missing value) may change what the old trees predict
                held = None;
                let c = &w.params[cur];
                c.apply(&mut b);
                let mut fresh = c.make();
                if c.base.is_none() {
                    // an estimated base score stays until the next fit
                    fresh.base_score = b.base_score;
                }
                let keep: F = expect.iter().filter(|x| ["trees", "evaluation_history", "best_iteration", "prediction_iteration"].contains(&x.0)).cloned().collect();
                expect = fields(&fresh);
                for (n, v) in keep {
                    set(&mut expect, n, &v);
                }
            }
        }
        st.evaluations += 1;
        if let Some(d) = diff(&fields(&b), &expect, &[]) {
            return Err(fail(format!("the booster is not in the state its history implies: {}", d)));
        }
        if b.get_metadata(&"note".to_string()) != meta {
            return Err(fail(format!("metadata is {:?} instead of {:?}", b.get_metadata(&"note".to_string()), meta)));
        }
    }
    st.traces += 1;
    if seq.iter().filter(|o| matches!(o, Op::FitA | Op::FitEval | Op::FitWide)).count() > 1 {
        st.nontrivial += 1;
    }
    Ok(())
}
fn set(f: &mut F, name: &str, v: &str) {
    for x in f.iter_mut() {
        if x.0 == name {
            x.1 = v.to_string();
        }
    }
}
pub fn c17<'a>(th: bool) -> Vec<Space<'a>> {
    let nw: u64 = if th { 12 } else { 6 };
    let worlds: &'static Vec<World> = Box::leak(Box::new((0..nw as usize).map(world).collect()));
    let depth: u32 = if th { 5 } else { 4 };
    let n = 11u64.pow(depth);
    let mut v = vec![space(
        "sequences",
        &format!("every sequence of {} operations out of 11 (three fits incl. early-stopped, two rejected fits, predict-type calls, prediction iteration set and cleared, metadata, save/load, parameter change) x {} pairs of parameter settings, checked against an explicit state model after every step", depth, nw),
        n * nw,
        move |i, st| {
            let w = &worlds[(i % nw) as usize];
            let seq: Vec<Op> = digits(i / nw, &vec![11; depth as usize]).iter().map(|k| OPS[*k]).collect();
            history(w, &seq, st)
        },
    )];
    // fits only, longer
    let d2: u32 = if th { 7 } else { 5 };
    v.push(space(
        "fit-chains",
        &format!("every sequence of {} operations out of fits, rejected fit, parameter change and reload", d2),
        6u64.pow(d2) * nw,
        move |i, st| {
            let w = &worlds[(i % nw) as usize];
            let al = [Op::FitA, Op::FitEval, Op::FitWide, Op::BadLabel, Op::Swap, Op::Reload];
            let seq: Vec<Op> = digits(i / nw, &vec![6; d2 as usize]).iter().map(|k| al[*k]).collect();
            history(w, &seq, st)
        },
    ));
    v
}

// ------------------------------------------------------------------ C18
fn snap_key(t: &[N]) -> Vec<(u32, u32, u64, usize, u32, usize, usize, usize, bool)> {
    t.iter().map(|n| (n.w.to_bits(), n.h.to_bits(), n.sv.to_bits(), n.sf, n.gain.to_bits(), n.m, n.l, n.r, n.leaf)).collect()
}

fn eval_case(c: &Cfg, d: &Data, evs: &[&Data], st: &mut Stats) -> Result<(), String> {
    let mut b = c.make();
    fit_into(&mut b, d, evs)?;
    st.traces += 1;
    let trees = snap_all(&b);
    let met = c.metric.unwrap_or(if c.obj == Obj::Log { Met::LogLoss } else { Met::Rmsle });
    if evs.is_empty() {
        if b.evaluation_history.is_some() || b.best_iteration.is_some() || b.prediction_iteration.is_some() {
            return Err("history or best iteration without evaluation data".into());
        }
        if trees.len() != c.iters {
            return Err(format!("{} trees instead of {} without evaluation data", trees.len(), c.iters));
        }
        return Ok(());
    }
    // evaluating is passive: the trees are the first ones of the fit without evaluation data
    let mut plain = Cfg { esr: None, log_iters: 0, parallel: false, ..c.clone() }.make();
    fit_into(&mut plain, d, &[])?;
    let want = snap_all(&plain);
    if want.len() < trees.len() || (0..trees.len()).any(|i| snap_key(&trees[i]) != snap_key(&want[i])) {
        return Err("the trees differ from those trained without evaluation data".into());
    }
    let Some(h) = &b.evaluation_history else {
        return if c.iters == 0 { Ok(()) } else { Err("no evaluation history".into()) };
    };
    if h.rows != trees.len() || h.cols != evs.len() {
        return Err(format!("history of {}x{} for {} trees and {} evaluation sets", h.rows, h.cols, trees.len(), evs.len()));
    }
    // entries
    let mut hist: Vec<Vec<f64>> = vec![];
    for j in 0..h.cols {
        let e = evs[j];
        let mut yhat = vec![b.base_score; e.rows];
        for (i, t) in trees.iter().enumerate() {
            for r in 0..e.rows {
                yhat[r] += t[leaf_of(t, &e.row(r), c.missing)?].w as f64;
            }
            let got = *h.get(i, j);
            st.evaluations += 1;
            st.states += 1;
            match metric_ref(met, &e.y, &yhat, &e.w) {
                MetricVal::Undefined => {}
                MetricVal::Is(w) => {
                    if got != w && !((got - w).abs() <= 1e-9 * (1. + w.abs())) && !(got.is_nan() && w.is_nan()) {
                        return Err(format!("history[{}][{}] is {} but {:?} of the evaluation set under the first {} trees is {}", i, j, got, met, i + 1, w));
                    }
                }
            }
        }
    }
    for i in 0..h.rows {
        hist.push((0..h.cols).map(|j| *h.get(i, j)).collect());
    }
    // stopping rule, on the recorded values of the last evaluation set
    let Some(esr) = c.esr else {
        if trees.len() != c.iters {
            return Err(format!("{} trees instead of {} without early stopping", trees.len(), c.iters));
        }
        if b.best_iteration.is_some() || b.prediction_iteration.is_some() {
            return Err("best iteration set without early stopping".into());
        }
        return Ok(());
    };
    let max = met == Met::Auc;
    let mut best = 0usize;
    let mut stop = None;
    for i in 0..hist.len() {
        st.transitions += 1;
        let m = hist[i][h.cols - 1];
        let v = hist[best][h.cols - 1];
        if i == 0 {
            continue;
        }
        let better = !m.is_nan() && (v.is_nan() || if max { m > v } else { m < v });
        if better {
            best = i;
        } else if i - best >= esr {
            stop = Some(i);
            break;
        }
    }
    if hist.is_empty() {
        return Ok(());
    }
    let want = stop.map_or(c.iters, |i| i + 1);
    if trees.len() != want {
        return Err(format!("training stopped after {} trees instead of {} (early_stopping_rounds {}, metric values {:?})", trees.len(), want, esr, hist.iter().map(|r| r[h.cols - 1]).collect::<Vec<_>>()));
    }
    if b.best_iteration != Some(best) {
        return Err(format!("best iteration {:?} instead of {} (metric values {:?})", b.best_iteration, best, hist.iter().map(|r| r[h.cols - 1]).collect::<Vec<_>>()));
    }
    if stop.is_some() {
        st.nontrivial += 1;
    }
    // predictions use the trees up to the best iteration
    let p = b.predict(&d.m(), false);
    for r in 0..d.rows {
        let mut e = b.base_score;
        for t in &trees[..=best] {
            e += t[leaf_of(t, &d.row(r), c.missing)?].w as f64;
        }
        if !((p[r] - e).abs() <= 1e-9 * (1. + e.abs())) && !(p[r].is_nan() && e.is_nan()) {
            return Err(format!("prediction {} of row {} does not use the trees up to the best iteration {} ({})", p[r], r, best, e));
        }
    }
    Ok(())
}
pub fn c18<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let radix = [2u64, 5, 6, 4, 10, if th { 48 } else { 16 }, 5];
    v.push(space(
        "stopping",
        "full product of 2 objectives x 5 metrics (default included) x early_stopping_rounds none,0..4 x iterations 1,2,4,9 x 10 choices of evaluation sets (none, one, several, training set, disjoint, shuffled labels, tiny, of one record) x structured data x 5 learning rates/shapes (row and column sampling and log_iterations cycled)",
        prod(&radix),
        move |i, st| {
            let dg = digits(i, &radix);
            let bin = dg[0] == 0 || dg[5] % 2 == 0;
            let mut c = Cfg { mlw: 0.2, base: if dg[6] % 2 == 0 { None } else { Some(0.5) }, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.metric = if dg[1] == 0 { None } else { Some(METS[dg[1] - 1]) };
            c.esr = if dg[2] == 0 { None } else { Some(dg[2] - 1) };
            c.iters = [1, 2, 4, 9][dg[3]];
            let (lr, md) = [(0.3, 3), (1.0, 5), (1.7, 4), (2.3, 2), (0.05, 1)][dg[6]];
            c.lr = lr;
            c.max_depth = md;
            missing_mode(&mut c, dg[5] % MISSING_MODES);
            match (dg[5] + dg[6]) % 6 {
                1 => {
                    c.samp = Samp::Random;
                    c.subsample = 0.7;
                }
                3 => {
                    c.samp = Samp::Goss;
                    c.top = 0.3;
                    c.other = 0.4;
                }
                5 => c.colsample = 0.6,
                _ => {}
            }
            c.parallel = dg[5] % 3 == 1;
            c.log_iters = (dg[1] + dg[2] + dg[5]) % 4;
            let d = rich(dg[5], bin);
            let same = |k: usize| {
                // same width as the training data
                let mut e = rich(dg[5] + 12 * k, bin);
                e.cols = e.cols.min(d.cols);
                if e.cols < d.cols {
                    e = d.clone();
                }
                e.x.truncate(e.cols * e.rows);
                e
            };
            let mut flipped = d.clone();
            for (r, y) in flipped.y.iter_mut().enumerate() {
                *y = if bin { ((r * 7 + dg[5]) % 3 == 0) as u8 as f64 } else { (r as f64 * 0.7).sin() * 3. };
            }
            let tiny = d.subset(&[0, d.rows / 2, d.rows - 1]);
            let (one, last) = (d.subset(&[dg[5] % d.rows]), d.subset(&[d.rows - 1]));
            let (e1, e2) = (same(1), same(2));
            let evs: Vec<&Data> = match dg[4] {
                0 => vec![],
                1 => vec![&d],
                2 => vec![&e1],
                3 => vec![&d, &e1],
                4 => vec![&e1, &flipped],
                5 => vec![&flipped, &d, &e2],
                6 => vec![&tiny],
                7 => vec![&d, &one],
                8 => vec![&one, &e1],
                _ => vec![&tiny, &one, &last],
            };
            eval_case(&c, &d, &evs, st).map_err(|e| format!("{}\n  {:?} {:?}", e, dg, c))
        },
    ));
    // every pattern of better/worse/equal/NaN rounds: one-leaf trees on a crafted target
    let n = if th { 8 } else { 6 };
    v.push(space(
        "tiny-evals",
        "one feature, evaluation labels enumerated: every {0,1}-labelling of 8 evaluation rows x 3 metrics x early_stopping_rounds 0..3 x 2 objectives, 10 rounds at a large step",
        256 * 3 * 4 * 2 * n,
        move |i, st| {
            let dg = digits(i, &[256, 3, 4, 2, n]);
            let mut c = Cfg { iters: 10, mlw: 0.1, lr: [1.9, 0.8, 2.6, 0.2, 1.2, 3.1, 0.5, 1.0][dg[4]], max_depth: 2, base: Some(0.1), l2: 0.1, ..Cfg::default() };
            c.obj = if dg[3] == 0 { Obj::Log } else { Obj::Sq };
            c.metric = [None, Some(Met::Auc), Some(Met::Rmsle)][dg[1]];
            c.esr = Some(dg[2]);
            c.log_iters = dg[0] % 5;
            match dg[4] % 4 {
                1 => {
                    c.samp = Samp::Random;
                    c.subsample = 0.6;
                }
                2 => {
                    c.samp = Samp::Goss;
                    c.top = 0.3;
                    c.other = 0.5;
                }
                3 => c.colsample = 0.5,
                _ => {}
            }
            let mut d = rich(1, true);
            d = d.subset(&(0..8).collect::<Vec<_>>());
            let mut e = d.clone();
            for r in 0..8 {
                e.y[r] = (dg[0] >> r & 1) as f64;
            }
            e.w[dg[0] % 8] = 0.25;
            eval_case(&c, &d, &[&d, &e], st).map_err(|e| format!("{}\n  {:?} {:?}", e, dg, c))
        },
    ));
    let r2 = [2u64, 4, 6, 3, 6];
    v.push(space(
        "long",
        "2 objectives x 4 metrics x early_stopping_rounds 5,10,33,64,100,none x iterations 60,130,300 x 6 choices of up to five evaluation sets with 20-300 rows",
        prod(&r2),
        move |i, st| {
            let dg = digits(i, &r2);
            let mut c = Cfg { mlw: 0.2, lr: [0.1, 0.6, 0.02][(dg[1] + dg[4]) % 3], max_depth: 2, base: Some(0.2), ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.metric = Some(METS[dg[1]]);
            c.esr = [Some(5), Some(10), Some(33), Some(64), Some(100), None][dg[2]];
            c.iters = [60, 130, 300][dg[3]];
            c.parallel = dg[4] % 2 == 0;
            c.log_iters = [0, 7, 25][(dg[0] + dg[2]) % 3];
            let d = large(40, 20, true, dg[4] as u64);
            let sets: Vec<Data> = (0..5usize)
                .map(|k| {
                    let mut e = large([20, 33, 64, 300, 50][k], 30, true, (k + 1) as u64);
                    if k % 2 == 1 {
                        let n = e.y.len();
                        for r in 0..n {
                            if r % 3 == 0 {
                                e.y[r] = 1. - e.y[r];
                            }
                        }
                    }
                    e
                })
                .collect();
            let evs: Vec<&Data> = match dg[4] {
                0 => vec![&sets[0]],
                1 => vec![&sets[1]],
                2 => vec![&sets[2], &sets[3]],
                3 => vec![&d, &sets[1], &sets[2], &sets[4]],
                4 => sets.iter().collect(),
                _ => vec![&sets[3], &sets[2], &sets[1]],
            };
            eval_case(&c, &d, &evs, st).map_err(|e| format!("{}\n  {:?} {:?}", e, dg, c))
        },
    ));
    v
}

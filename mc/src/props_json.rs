//! C14-C16: persistence.
use crate::core::*;
use crate::fits::*;
use crate::gen::*;
use crate::oracle::*;
use crate::props_det::{canon, fit_into, read, same_reads, value_diff};
use forust_ml::constraints::Constraint;
use forust_ml::data::RowMajorMatrix;
use forust_ml::gradientbooster::{GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::GradientBooster;
use serde_json::Value;

pub fn f32s(v: f32) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:08x}", v.to_bits())
    }
}
pub fn f64s(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:016x}", v.to_bits())
    }
}
/// Every public field, read from memory (not from a document).
pub fn fields(b: &GradientBooster) -> Vec<(&'static str, String)> {
    let mut term: Vec<usize> = b.terminate_missing_features.iter().copied().collect();
    term.sort();
    let mono = b.monotone_constraints.as_ref().map(|m| {
        let mut v: Vec<(usize, i8)> = m
            .iter()
            .map(|(k, c)| {
                (
                    *k,
                    match c {
                        Constraint::Positive => 1,
                        Constraint::Negative => -1,
                        Constraint::Unconstrained => 0,
                    },
                )
            })
            .collect();
        v.sort();
        v
    });
    vec![
        ("objective_type", match b.objective_type { ObjectiveType::LogLoss => "LogLoss", ObjectiveType::SquaredLoss => "SquaredLoss" }.into()),
        ("iterations", b.iterations.to_string()),
        ("learning_rate", f32s(b.learning_rate)),
        ("max_depth", b.max_depth.to_string()),
        ("max_leaves", b.max_leaves.to_string()),
        ("l1", f32s(b.l1)),
        ("l2", f32s(b.l2)),
        ("gamma", f32s(b.gamma)),
        ("max_delta_step", f32s(b.max_delta_step)),
        ("min_leaf_weight", f32s(b.min_leaf_weight)),
        ("base_score", f64s(b.base_score)),
        ("nbins", b.nbins.to_string()),
        ("parallel", b.parallel.to_string()),
        ("allow_missing_splits", b.allow_missing_splits.to_string()),
        ("monotone_constraints", format!("{:?}", mono)),
        ("subsample", f32s(b.subsample)),
        ("top_rate", f64s(b.top_rate)),
        ("other_rate", f64s(b.other_rate)),
        ("colsample_bytree", f64s(b.colsample_bytree)),
        ("seed", b.seed.to_string()),
        ("missing", f64s(b.missing)),
        ("create_missing_branch", b.create_missing_branch.to_string()),
        ("sample_method", match b.sample_method { SampleMethod::None => "None", SampleMethod::Random => "Random", SampleMethod::Goss => "Goss" }.into()),
        ("grow_policy", match b.grow_policy { GrowPolicy::DepthWise => "DepthWise", GrowPolicy::LossGuide => "LossGuide" }.into()),
        ("evaluation_metric", match b.evaluation_metric { None => "none", Some(Metric::AUC) => "AUC", Some(Metric::LogLoss) => "LogLoss", Some(Metric::RootMeanSquaredLogError) => "RMSLE", Some(Metric::RootMeanSquaredError) => "RMSE" }.into()),
        ("early_stopping_rounds", format!("{:?}", b.early_stopping_rounds)),
        ("initialize_base_score", b.initialize_base_score.to_string()),
        ("terminate_missing_features", format!("{:?}", term)),
        ("evaluation_history", b.evaluation_history.as_ref().map_or("none".into(), |h| {
            let mut s = format!("{}x{}:", h.rows, h.cols);
            for i in 0..h.rows {
                for j in 0..h.cols {
                    s += &f64s(*h.get(i, j));
                    s.push(' ');
                }
            }
            s
        })),
        ("best_iteration", format!("{:?}", b.best_iteration)),
        ("prediction_iteration", format!("{:?}", b.prediction_iteration)),
        ("missing_node_treatment", match b.missing_node_treatment { MissingNodeTreatment::None => "None", MissingNodeTreatment::AssignToParent => "AssignToParent", MissingNodeTreatment::AverageLeafWeight => "AverageLeafWeight", MissingNodeTreatment::AverageNodeWeight => "AverageNodeWeight" }.into()),
        ("log_iterations", b.log_iterations.to_string()),
        ("force_children_to_bound_parent", b.force_children_to_bound_parent.to_string()),
        ("trees", {
            let mut s = String::new();
            for t in &b.trees {
                for n in snap(t) {
                    s += &format!("{} {} {} {} {} {} {} {} {} {} {};", n.num, f32s(n.w), f32s(n.h), n.depth, f64s(n.sv), n.sf, f32s(n.gain), n.m, n.l, n.r, n.leaf);
                }
                s.push('|');
            }
            s
        }),
    ]
}
pub fn same_fields(a: &GradientBooster, b: &GradientBooster) -> Result<(), String> {
    for ((n, x), (_, y)) in fields(a).iter().zip(fields(b).iter()) {
        if x != y {
            if *n == "trees" {
                let (p, q): (Vec<&str>, Vec<&str>) = (x.split(';').collect(), y.split(';').collect());
                let k = p.iter().zip(&q).position(|(a, b)| a != b).unwrap_or(0);
                return Err(format!("trees differ at node {} ({} / {} nodes): {:?} / {:?}", k, p.len(), q.len(), p.get(k), q.get(k)));
            }
            return Err(format!("{} differs: {} / {}", n, x.chars().take(200).collect::<String>(), y.chars().take(200).collect::<String>()));
        }
    }
    Ok(())
}
/// dump, load, compare; the second document must equal the first
fn round_trip(b: &GradientBooster, metadata: &[(String, String)], st: &mut Stats) -> Result<GradientBooster, String> {
    let doc = b.json_dump().map_err(|e| format!("cannot be written: {}", e))?;
    let l = GradientBooster::from_json(&doc).map_err(|e| format!("saved model cannot be loaded: {}", e))?;
    same_fields(b, &l)?;
    for (k, v) in metadata {
        if l.get_metadata(k).as_ref() != Some(v) {
            return Err(format!("metadata {:?} -> {:?} came back as {:?}", k, v, l.get_metadata(k)));
        }
    }
    let (c1, c2) = (canon(b)?, canon(&l)?);
    if c1 != c2 {
        return Err(format!("saving the loaded model gives another document: {}", value_diff(&c1, &c2)));
    }
    st.states += 2;
    st.transitions += 2;
    st.evaluations += 3;
    Ok(l)
}
fn f32_grid(k: u64) -> f32 {
    // sign, 256 exponents, mantissa patterns
    let d = digits(k, &[2, 256, 64]);
    let m = d[2] as u32;
    let man = match m {
        0..=22 => 1u32 << m,
        23..=45 => (1u32 << (m - 22)) - 1,
        46 => 0x555555,
        47 => 0x2aaaaa,
        48 => 0,
        49 => 0x7fffff,
        _ => (m - 48).wrapping_mul(0x9E3779B1) >> 9,
    } & 0x7fffff;
    f32::from_bits((d[0] as u32) << 31 | (d[1] as u32) << 23 | man)
}
fn f64_grid(k: u64) -> f64 {
    let d = digits(k, &[2, 2048, 32]);
    let m = d[2] as u64;
    let man = match m {
        0 => 0,
        1 => (1u64 << 52) - 1,
        2 => 1,
        3 => 0x5555555555555,
        4 => 1 << 51,
        _ => m.wrapping_mul(0x9E3779B97F4A7C15) >> 12,
    } & ((1u64 << 52) - 1);
    f64::from_bits((d[0] as u64) << 63 | (d[1] as u64) << 52 | man)
}
fn leaf_tree(vals: &[(f32, f32, f32, f64)]) -> Vec<N> {
    // a flat list of nodes is enough: persistence does not route
    vals.iter()
        .enumerate()
        .map(|(i, v)| N { num: i, w: v.0, h: v.1, depth: i % 7, sv: v.3, sf: i, gain: v.2, m: i, l: i + 1, r: i + 2, leaf: i % 2 == 0 })
        .collect()
}
fn set_nodes(b: &mut GradientBooster, t: &[N]) {
    // via JSON for the structure, then every float is stored directly
    let flat: Vec<N> = t.iter().map(|n| N { w: 0., h: 0., gain: 0., sv: 0., ..n.clone() }).collect();
    let mut tr = to_tree(&flat);
    for (n, s) in tr.nodes.iter_mut().zip(t) {
        n.weight_value = s.w;
        n.hessian_sum = s.h;
        n.split_gain = s.gain;
        n.split_value = s.sv;
    }
    b.trees.push(tr);
}
const EDGE32: [f32; 16] = [
    0.0, -0.0, 1e-45, -1e-45, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::EPSILON, 7.038531e-26, 0.1, 16777217.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 3.4e38, 1.1754942e-38,
];
const EDGE64: [f64; 18] = [
    0.0, -0.0, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 0.1, 1e22, 1e23, 9007199254740993.0, 2.2250738585072011e-308, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -123456.789,
];

pub fn c14<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let per = 512u64;
    let n32 = 2 * 256 * 64 / per;
    v.push(space(
        "floats",
        "32768 f32 values (both signs x all 256 exponents x 64 mantissas) in every node field and parameter, 131072 f64 values (both signs x all 2048 exponents x 32 mantissas) as thresholds, base scores and history entries",
        n32 * 4,
        move |i, st| {
            let mut b = GradientBooster::default();
            let base = i % n32 * per;
            let vals: Vec<(f32, f32, f32, f64)> =
                (0..per).map(|q| (f32_grid(base + q), f32_grid((base + q * 7 + 3) % 32768), f32_grid((base + q * 5 + 1) % 32768), f64_grid((i * per + q) % 131072))).collect();
            set_nodes(&mut b, &leaf_tree(&vals));
            let h: Vec<f64> = (0..per).map(|q| f64_grid((i * per + q * 3) % 131072)).collect();
            b.evaluation_history = Some(RowMajorMatrix::new(h, per as usize / 2, 2));
            st.traces += 1;
            st.nontrivial += 1;
            round_trip(&b, &[], st)?;
            Ok(())
        },
    ));
    v.push(space(
        "edge-params",
        "every edge value (subnormal, extreme, signed zero, NaN, infinite) in every float parameter, alone and together; every edge integer",
        EDGE64.len() as u64 * 20,
        move |i, st| {
            let dg = digits(i, &[EDGE64.len() as u64, 20]);
            let e = EDGE64[dg[0]];
            let f = EDGE32[dg[0] % 16];
            let mut b = GradientBooster::default();
            let k = dg[1];
            let all = k == 19;
            macro_rules! set { ($n:expr, $f:ident, $v:expr) => { if all || k == $n { b.$f = $v; } } }
            set!(0, learning_rate, f);
            set!(1, l1, f);
            set!(2, l2, f);
            set!(3, gamma, f);
            set!(4, max_delta_step, f);
            set!(5, min_leaf_weight, f);
            set!(6, subsample, f);
            set!(7, base_score, e);
            set!(8, top_rate, e);
            set!(9, other_rate, e);
            set!(10, colsample_bytree, e);
            set!(11, missing, e);
            let us = [0usize, 1, usize::MAX, usize::MAX - 1, 1 << 53, (1 << 53) + 1, u32::MAX as usize][dg[0] % 7];
            set!(12, iterations, us);
            set!(13, max_depth, us);
            set!(14, max_leaves, us);
            set!(15, seed, us as u64);
            set!(16, nbins, [0u16, 1, 255, 256, 65535][dg[0] % 5]);
            set!(17, log_iterations, us);
            set!(18, early_stopping_rounds, Some(us));
            if all {
                b.best_iteration = Some(us);
                b.prediction_iteration = Some(us);
                b.evaluation_history = Some(RowMajorMatrix::new(vec![e; 6], 3, 2));
            }
            st.traces += 1;
            st.nontrivial += 1;
            round_trip(&b, &[], st)?;
            Ok(())
        },
    ));
    let radix_e = [2u64, 4, 3, 5, 2, 2, 2, 2, 2, 2, 3, 3];
    v.push(space(
        "settings",
        "full product of objectives x treatments x samplers x metrics x growth x all boolean settings x 3 constraint maps x 3 terminate sets",
        prod(&radix_e),
        move |i, st| {
            let dg = digits(i, &radix_e);
            let c = Cfg {
                obj: if dg[0] == 0 { Obj::Log } else { Obj::Sq },
                treat: TREATS[dg[1]],
                samp: [Samp::None, Samp::Random, Samp::Goss][dg[2]],
                metric: if dg[3] == 0 { None } else { Some(METS[dg[3] - 1]) },
                lossguide: dg[4] == 1,
                parallel: dg[5] == 1,
                ams: dg[6] == 1,
                cmb: dg[7] == 1,
                force: dg[8] == 1,
                base: if dg[9] == 0 { None } else { Some(1.25) },
                mono: [vec![], vec![1, -1, 0], vec![2, 0]][dg[10]].clone(),
                term: [vec![], vec![0], vec![3, 17, 4]][dg[11]].clone(),
                esr: [None, Some(0), Some(7)][(dg[3] + dg[11]) % 3],
                ..Cfg::default()
            };
            let b = c.make();
            st.traces += 1;
            round_trip(&b, &[], st)?;
            if i % 64 == 0 {
                st.nontrivial += 1;
            }
            Ok(())
        },
    ));
    let nchunk = 0x110000u64 / 1024;
    v.push(space(
        "metadata",
        "every Unicode scalar value in metadata keys and values (1024 per model), plus empty, quoted and JSON-like strings",
        nchunk + 1,
        move |i, st| {
            let mut b = GradientBooster::default();
            let mut md: Vec<(String, String)> = vec![];
            if i < nchunk {
                let s: String = (0..1024u32).filter_map(|q| char::from_u32(i as u32 * 1024 + q)).collect();
                let r: String = s.chars().rev().collect();
                md.push((s.clone(), r.clone()));
                md.push(("k".into(), s));
                for c in r.chars().take(40) {
                    md.push((format!("{}", c), format!("\"{}\\", c)));
                }
            } else {
                for s in ["", "\"", "\\", "\\u0000", "\0", "{\"a\":1}", "null", "NaN", "inf", "\u{feff}", "\r\n", "\u{2028}", "trees", "metadata", "'", "</script>"] {
                    md.push((s.into(), s.into()));
                    md.push((format!("{}x", s), String::new()));
                }
                for n in [1000usize, 100000] {
                    md.push((format!("long{}", n), "\u{1F600}\"".repeat(n)));
                }
            }
            // every key is inserted twice: the later insertion counts
            for (k, v) in md.iter().rev() {
                b.insert_metadata(k.clone(), format!("old {}", v));
            }
            for (k, v) in &md {
                b.insert_metadata(k.clone(), v.clone());
            }
            // later insertions win
            let mut last: Vec<(String, String)> = vec![];
            for (k, v) in &md {
                last.retain(|x| x.0 != *k);
                last.push((k.clone(), v.clone()));
            }
            st.traces += 1;
            st.nontrivial += 1;
            let mut l = round_trip(&b, &last, st)?;
            round_trip(&l, &last, st)?;
            // replaced after loading
            for (k, v) in last.iter_mut() {
                *v = format!("{}|", v.chars().take(8).collect::<String>());
                l.insert_metadata(k.clone(), v.clone());
            }
            round_trip(&l, &last, st)?;
            Ok(())
        },
    ));
    let radix_f = [MISSING_MODES as u64, 2, if th { 48 } else { 12 }, 6];
    v.push(space(
        "trained",
        "trained models (9 missing modes x 2 objectives x structured data x sampling, early stopping, constraints, sentinel, degenerate labels), saved to JSON and to a file, loaded, used and refitted",
        prod(&radix_f),
        move |i, st| {
            let dg = digits(i, &radix_f);
            let mut c = Cfg { iters: 3, mlw: 0.2, base: None, ..Cfg::default() };
            c.obj = if dg[1] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[0]);
            let mut d = rich(dg[2], dg[1] == 0);
            let mut ev = rich(dg[2] + 12, dg[1] == 0);
            match dg[3] {
                0 => {}
                1 => {
                    c.esr = Some(1);
                    c.iters = 6;
                    c.lr = 1.3;
                    c.metric = Some(METS[dg[2] % 4]);
                }
                2 => {
                    c.samp = Samp::Random;
                    c.subsample = 0.6;
                    c.colsample = 0.6;
                    c.mono = vec![1, -1];
                    c.seed = u64::MAX - 5;
                }
                3 => {
                    // labels of one class: infinite base score
                    d.y = vec![(dg[2] % 2) as f64; d.rows];
                }
                4 => {
                    c.missing = -99.;
                    for x in d.x.iter_mut().chain(ev.x.iter_mut()) {
                        if x.is_nan() {
                            *x = -99.;
                        }
                    }
                }
                _ => {
                    c.samp = Samp::Goss;
                    c.top = 0.3;
                    c.other = 0.4;
                    c.l2 = 0.;
                    c.lossguide = true;
                    c.term = vec![1, 0];
                }
            }
            let mut b = c.make();
            fit_into(&mut b, &d, &[&d, &ev])?;
            b.insert_metadata("k\u{e9}y".into(), format!("{:?}", dg));
            let md = vec![("k\u{e9}y".to_string(), format!("{:?}", dg))];
            let mut l = round_trip(&b, &md, st)?;
            let rd = if dg[1] == 0 { &ev } else { &d };
            // rows of the model's width
            let rd = if rd.cols == d.cols { rd } else { &d };
            let (r1, p1) = read(&b, rd, false);
            let (r2, p2) = read(&l, rd, true);
            same_reads(&r1, &p1, &r2, &p2).map_err(|e| format!("loaded model: {}", e))?;
            // through a file
            if i % 8 == 0 {
                let p = scratch(&format!("c14-{}.json", i));
                b.save_booster(&p).map_err(|e| e.to_string())?;
                let f = GradientBooster::load_booster(&p).map_err(|e| format!("saved file cannot be loaded: {}", e));
                // a shorter or longer model over an existing file
                let small = GradientBooster::default();
                let second = small.save_booster(&p).map_err(|e| e.to_string()).and_then(|_| GradientBooster::load_booster(&p).map_err(|e| format!("overwritten file cannot be loaded: {}", e)));
                let _ = std::fs::remove_file(&p);
                same_fields(&b, &f?)?;
                same_fields(&small, &second?)?;
            }
            // refit both
            fit_into(&mut b, &ev, &[&d])?;
            fit_into(&mut l, &ev, &[&d])?;
            same_fields(&b, &l).map_err(|e| format!("refitting the loaded model differs from refitting the original: {}", e))?;
            st.traces += 1;
            st.states += 2;
            st.transitions += 4;
            st.nontrivial += 1;
            Ok(())
        },
    ));
    v.push(space(
        "big-file",
        "models of 50 kB to 6 MB (deep, wide, many trees) with long metadata, written to a file, over a longer and a shorter one, and loaded",
        16,
        move |i, st| {
            let k = i as usize;
            let mk = |k: usize| {
                let mut b = GradientBooster::default();
                let (nt, nn) = [(1, 400), (40, 40), (300, 3), (1, 12000), (120, 200), (3, 65), (900, 5), (16, 1025)][k % 8];
                for t in 0..nt as u64 {
                    let vals: Vec<(f32, f32, f32, f64)> = (0..nn as u64)
                        .map(|q| (f32_grid((t * 977 + q * 31) % 32768), f32_grid((t * 53 + q * 7 + 3) % 32768), f32_grid((q * 5 + 1) % 32768), f64_grid((t * 7919 + q * 3) % 131072)))
                        .collect();
                    set_nodes(&mut b, &leaf_tree(&vals));
                }
                b.insert_metadata("long".into(), "\u{e9}\"x\n".repeat(1 + 4096 * (k % 3)));
                b
            };
            let (b, other) = (mk(k), mk((k + 1 + k / 8 * 3) % 8));
            let p = scratch(&format!("c14-big-{}.json", i));
            let r = (|| -> Result<(), String> {
                for m in [&b, &other, &b] {
                    m.save_booster(&p).map_err(|e| format!("cannot be saved: {}", e))?;
                    let l = GradientBooster::load_booster(&p).map_err(|e| format!("saved file cannot be loaded: {}", e))?;
                    same_fields(m, &l)?;
                    if m.get_metadata(&"long".to_string()) != l.get_metadata(&"long".to_string()) {
                        return Err("long metadata changed".into());
                    }
                    st.states += 1;
                    st.transitions += 2;
                    st.evaluations += 1;
                }
                Ok(())
            })();
            let _ = std::fs::remove_file(&p);
            st.traces += 1;
            st.nontrivial += 1;
            r
        },
    ));
    v
}
pub fn scratch(name: &str) -> String {
    let d = std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d.join(name).to_string_lossy().into_owned()
}

// ------------------------------------------------------------------ C15
fn doc_of(k: usize) -> String {
    sample_model(k).json_dump().expect("dump")
}
pub fn sample_model(k: usize) -> GradientBooster {
    let mut c = Cfg { iters: [1, 2, 0, 3, 1, 2][k % 6], max_depth: 1 + k % 3, mlw: 0.2, base: None, ..Cfg::default() };
    c.obj = if k % 2 == 0 { Obj::Log } else { Obj::Sq };
    missing_mode(&mut c, k % MISSING_MODES);
    c.esr = if k % 3 == 1 { Some(1) } else { None };
    c.missing = if k % 4 == 3 { -99. } else { f64::NAN };
    c.mono = MONOS[k % 5].to_vec();
    let mut d = rich(k % 12, k % 2 == 0);
    if k % 4 == 3 {
        for x in d.x.iter_mut() {
            if x.is_nan() {
                *x = -99.;
            }
        }
    }
    let mut b = c.make();
    if k % 6 != 2 {
        fit_into(&mut b, &d, &[&d]).expect("fit");
    }
    if k % 2 == 1 {
        b.insert_metadata("note".into(), "{\"a\": [1, \"}\"]}".into());
    }
    b
}
fn refused(doc: &str, what: &str) -> Result<(), String> {
    match GradientBooster::from_json(doc) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{} is loaded as a model", what)),
    }
}
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn getrlimit(resource: i32, rlim: *mut RLimit) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
pub fn c15<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    let nm = if th { 24 } else { 10 };
    let docs: Vec<String> = (0..nm).map(doc_of).collect();
    let docs: &'static Vec<String> = Box::leak(Box::new(docs));
    let lens: Vec<u64> = docs.iter().map(|d| d.len() as u64).collect();
    let starts: Vec<u64> = lens.iter().scan(0, |a, l| { let s = *a; *a += l; Some(s) }).collect();
    let total: u64 = lens.iter().sum();
    let locate = move |i: u64| -> (usize, usize) {
        let k = starts.iter().rposition(|s| *s <= i).unwrap();
        (k, (i - starts[k]) as usize)
    };
    let loc1 = locate.clone();
    v.push(space("prefixes", &format!("every byte prefix of {} saved models, as a string and as a file", nm), total, move |i, st| {
        let (k, p) = loc1(i);
        let bytes = &docs[k].as_bytes()[..p];
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.traces += 1;
        if let Ok(s) = std::str::from_utf8(bytes) {
            refused(s, &format!("the first {} of {} bytes of model {}", p, docs[k].len(), k))?;
        }
        if i % if th { 1 } else { 4 } == 0 || p < 64 {
            let f = scratch(&format!("c15-{}.json", i));
            std::fs::write(&f, bytes).map_err(|e| e.to_string())?;
            let r = GradientBooster::load_booster(&f);
            let _ = std::fs::remove_file(&f);
            if r.is_ok() {
                return Err(format!("a file holding the first {} of {} bytes of model {} is loaded", p, docs[k].len(), k));
            }
            st.nontrivial += 1;
        }
        Ok(())
    }));
    let pairs: Vec<(usize, usize)> = (0..nm).flat_map(|a| (0..nm).filter(move |b| docs[*b].len() > docs[a].len()).map(move |b| (a, b))).collect();
    let np = pairs.len() as u64;
    v.push(space("overwrites", "every shorter model written over every longer one without truncation, complete and torn after every 16th byte", np * 64, move |i, st| {
        let (a, b) = pairs[(i % np) as usize];
        let cut = docs[a].len() - ((i / np) as usize * docs[a].len() / 64);
        let mut s = docs[a].as_bytes()[..cut].to_vec();
        s.extend_from_slice(&docs[b].as_bytes()[cut..]);
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.traces += 1;
        let Ok(s) = String::from_utf8(s) else { return Ok(()) };
        if s == docs[b] || s == docs[a] {
            return Ok(());
        }
        if cut == docs[a].len() {
            st.nontrivial += 1;
            return refused(&s, "a shorter model over a longer one");
        }
        // a tear in the middle may by chance leave a readable document; it must not abort
        let _ = GradientBooster::from_json(&s);
        Ok(())
    }));
    v.push(space("trailing", "every saved model followed by every single byte, and by another model", nm as u64 * 257, move |i, st| {
        let (k, c) = ((i / 257) as usize, (i % 257) as u8 as u64 + if i % 257 == 256 { 256 } else { 0 });
        let mut s = docs[k].clone();
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        if c == 256 {
            s.push_str(&docs[(k + 1) % docs.len()]);
        } else {
            if c >= 128 || [9, 10, 13, 32].contains(&c) {
                return Ok(());
            }
            s.push(c as u8 as char);
        }
        st.nontrivial += 1;
        refused(&s, "a model followed by more bytes")
    }));
    let loc2 = locate.clone();
    let loc3 = locate.clone();
    v.push(space("damage", "one byte of a saved model deleted, doubled or replaced by each of 12 bytes, at every position: loading returns, it does not abort", total.min(lens[0] + lens[1] + lens[2]) * 14, move |i, st| {
        let (k, p) = loc2(i / 14);
        let mut s = docs[k].as_bytes().to_vec();
        match i % 14 {
            0 => {
                s.remove(p);
            }
            1 => s.insert(p, s[p]),
            q => s[p] = b"{}[],:\"0-en\x00"[q as usize - 2],
        }
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        if let Ok(t) = String::from_utf8(s) {
            let r = GradientBooster::from_json(&t);
            if r.is_err() {
                st.nontrivial += 1;
            }
        }
        Ok(())
    }));
    v.push(space("not-utf8", "one byte of a saved model replaced by each of 5 bytes that make it no UTF-8 text, or one inserted, at every position of 3 models: the file is refused", total.min(lens[0] + lens[1] + lens[2]) * 6, move |i, st| {
        let (k, p) = loc3(i / 6);
        let mut s = docs[k].as_bytes().to_vec();
        let bytes = [0xff, 0xc0, 0x80, 0xf5, 0xed, 0xfe];
        if i % 6 == 5 {
            s.insert(p, 0xfe);
        } else {
            s[p] = bytes[(i % 6) as usize];
        }
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        if String::from_utf8(s.clone()).is_ok() {
            return Ok(());
        }
        st.nontrivial += 1;
        let f = scratch(&format!("c15u-{}.json", i));
        std::fs::write(&f, &s).map_err(|e| e.to_string())?;
        let r = GradientBooster::load_booster(&f);
        let _ = std::fs::remove_file(&f);
        if r.is_ok() {
            return Err(format!("a file that is no UTF-8 text (byte {} of model {} damaged) is loaded as a model", p, k));
        }
        Ok(())
    }));
    v.push(space("contents", "files that are no models: empty, binary, other JSON, deep nesting, invalid UTF-8; missing and unreadable paths", 24, move |i, st| {
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.nontrivial += 1;
        let deep = |o: &str, c: &str, n: usize| o.repeat(n) + &c.repeat(n);
        let texts: Vec<Vec<u8>> = vec![
            vec![],
            b"null".to_vec(),
            b"{}".to_vec(),
            b"[]".to_vec(),
            b"1".to_vec(),
            b"\"model\"".to_vec(),
            b"\n\n".to_vec(),
            vec![0xff, 0xfe, 0x00],
            vec![0x80; 100],
            deep("[", "]", 100_000).into_bytes(),
            deep("{\"a\":", "}", 100_000).into_bytes(),
            format!("{{\"trees\":{}}}", deep("[", "]", 50_000)).into_bytes(),
            b"{\"trees\":[]}".to_vec(),
            format!("[{}]", docs[0]).into_bytes(),
            format!("\"{}\"", docs[0].replace('"', "\\\"")).into_bytes(),
            docs[0].replace("\"trees\":[", "\"trees\":[null,").into_bytes(),
            docs[0].replace("\"iterations\":", "\"iterations\":-").into_bytes(),
            docs[0].replacen("LogLoss", "NoLoss", 1).into_bytes(),
            docs[0].replace("\"iterations\":1", "\"iterations\":1e400").into_bytes(),
        ];
        let n = texts.len() as u64;
        let path = if i < n {
            let p = scratch(&format!("c15c-{}.json", i));
            std::fs::write(&p, &texts[i as usize]).map_err(|e| e.to_string())?;
            p
        } else {
            match i - n {
                0 => scratch("does/not/exist.json"),
                1 => std::env::temp_dir().to_string_lossy().into_owned(),
                2 => "".into(),
                3 => "a\0b".into(),
                _ => scratch(&"x".repeat(5000)),
            }
        };
        let r = GradientBooster::load_booster(&path);
        if i < n {
            let _ = std::fs::remove_file(&path);
        }
        if r.is_ok() {
            return Err(format!("case {} is loaded as a model", i));
        }
        if i >= n {
            // saving to an impossible path is an error as well
            if sample_model(0).save_booster(&path).is_ok() {
                return Err(format!("saving to {:?} claims success", path));
            }
        }
        Ok(())
    }));
    // real interrupted writes
    let stepb = if th { 1 } else { 7 };
    let small = docs.iter().map(|d| d.len()).min().unwrap() as u64;
    let kmin = docs.iter().position(|d| d.len() as u64 == small).unwrap();
    let mut torn = space("torn-writes", "save_booster with the file system refusing every byte beyond the L-th (RLIMIT_FSIZE), for every L in steps, over nothing and over an existing longer model, and on a full device", (small / stepb + 2) * 2, move |i, st| {
        let over = i % 2 == 1;
        let limit = (i / 2) * stepb;
        let b = sample_model(kmin);
        let len = b.json_dump().unwrap().len() as u64;
        let p = scratch("c15-torn.json");
        let _ = std::fs::remove_file(&p);
        if over {
            std::fs::write(&p, docs.iter().max_by_key(|d| d.len()).unwrap()).map_err(|e| e.to_string())?;
        }
        let r = unsafe {
            signal(25, 1);
            let mut old = RLimit { cur: 0, max: 0 };
            getrlimit(1, &mut old);
            setrlimit(1, &RLimit { cur: limit, max: old.max });
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.save_booster(&p).is_ok()));
            setrlimit(1, &old);
            r
        };
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.traces += 1;
        let loaded = GradientBooster::load_booster(&p);
        let _ = std::fs::remove_file(&p);
        match r {
            Err(_) => return Err("saving aborts when the file cannot be written completely".into()),
            Ok(true) => {
                let l = loaded.map_err(|e| format!("save reported success but the file does not load: {} (limit {}, document {})", e, limit, len))?;
                same_fields(&b, &l).map_err(|e| format!("save reported success but the file holds another model: {}", e))?;
            }
            Ok(false) => {
                st.nontrivial += 1;
                if limit >= len + 64 {
                    return Err(format!("save failed although there was room ({} bytes for {})", limit, len));
                }
                // a crash-safe save may leave the old model, but never a torn one
                if let Ok(l) = loaded {
                    if !over {
                        return Err(format!("interrupted after {} of {} bytes, the file still loads", limit, len));
                    }
                    let old = GradientBooster::from_json(docs.iter().max_by_key(|d| d.len()).unwrap()).unwrap();
                    same_fields(&old, &l).map_err(|_| "a torn save left a file that loads as neither the old nor the new model".to_string())?;
                }
            }
        }
        if std::path::Path::new("/dev/full").exists() && i == 0 && sample_model(kmin).save_booster("/dev/full").is_ok() {
            return Err("saving to a full device claims success".into());
        }
        Ok(())
    });
    torn.serial = true;
    v.push(torn);
    let nl: u64 = if th { 400 } else { 80 };
    let mut torn = space("torn-large", "save_booster of a 200 kB model cut at every multiple of 4096, at offsets next to powers of two, and close to the end, over nothing and over an existing model", nl * 2, move |i, st| {
        let mut b = GradientBooster::default();
        let t: Vec<N> = lay(&bin_shape(700, 3), &mut |q, _| (q, 0.1 * q as f64), 0, 3);
        b.trees = (0..100).map(|_| to_tree(&t)).collect();
        let len = b.json_dump().unwrap().len() as u64;
        let over = i % 2 == 1;
        let k = i / 2;
        let limit = match k {
            0..=17 => (1u64 << k) - 1,
            18..=24 => len - (k - 17),
            _ => ((k - 24) * 4096 + (k % 3) - 1).min(len - 1),
        };
        if limit >= len {
            return Ok(());
        }
        let p = scratch("c15-torn-large.json");
        let _ = std::fs::remove_file(&p);
        if over {
            std::fs::write(&p, &docs[1]).map_err(|e| e.to_string())?;
        }
        let r = unsafe {
            signal(25, 1);
            let mut old = RLimit { cur: 0, max: 0 };
            getrlimit(1, &mut old);
            setrlimit(1, &RLimit { cur: limit, max: old.max });
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.save_booster(&p).is_ok()));
            setrlimit(1, &old);
            r
        };
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.traces += 1;
        st.nontrivial += 1;
        let loaded = GradientBooster::load_booster(&p);
        let _ = std::fs::remove_file(&p);
        match (r, loaded) {
            (Err(_), _) => Err("saving aborts when the file cannot be written completely".into()),
            (Ok(true), _) => Err(format!("save claims success with room for {} of {} bytes", limit, len)),
            (Ok(false), Ok(l)) => {
                if !over {
                    return Err(format!("interrupted after {} of {} bytes, the file still loads", limit, len));
                }
                let old = GradientBooster::from_json(&docs[1]).unwrap();
                same_fields(&old, &l).map_err(|_| "a torn save left a file that loads as neither the old nor the new model".to_string())
            }
            _ => Ok(()),
        }
    });
    torn.serial = true;
    v.push(torn);
    v
}

// ------------------------------------------------------------------ C16
const LATER: [(&str, &str); 17] = [
    // setting, documented default as `fields` shows it
    ("l1", "00000000"),
    ("max_delta_step", "00000000"),
    ("top_rate", "3fb999999999999a"),
    ("other_rate", "3fc999999999999a"),
    ("colsample_bytree", "3ff0000000000000"),
    ("sample_method", "None"),
    ("grow_policy", "DepthWise"),
    ("evaluation_metric", "none"),
    ("early_stopping_rounds", "None"),
    ("initialize_base_score", "false"),
    ("terminate_missing_features", "[]"),
    ("evaluation_history", "none"),
    ("best_iteration", "None"),
    ("prediction_iteration", "None"),
    ("missing_node_treatment", "AssignToParent"),
    ("log_iterations", "0"),
    ("force_children_to_bound_parent", "false"),
];
const ORIGINAL: [&str; 18] = [
    "objective_type", "iterations", "learning_rate", "max_depth", "max_leaves", "l2", "gamma", "min_leaf_weight", "base_score", "nbins", "parallel",
    "allow_missing_splits", "subsample", "seed", "missing", "create_missing_branch", "trees", "metadata",
];
fn old_model(k: usize) -> GradientBooster {
    let mut b = sample_model(3 + k * 6);
    b.l1 = 0.25;
    b.max_delta_step = 0.75;
    b.top_rate = 0.35;
    b.other_rate = 0.45;
    b.colsample_bytree = 0.5;
    b.sample_method = if k % 2 == 0 { SampleMethod::Goss } else { SampleMethod::Random };
    b.grow_policy = GrowPolicy::LossGuide;
    b.evaluation_metric = Some([Metric::AUC, Metric::RootMeanSquaredError][k % 2]);
    b.early_stopping_rounds = Some(4);
    b.initialize_base_score = true;
    b.terminate_missing_features = [1usize, 0].into_iter().collect();
    b.evaluation_history = Some(RowMajorMatrix::new(vec![0.5, 0.25, f64::NAN, 0.125], 2, 2));
    b.best_iteration = Some(0);
    b.prediction_iteration = Some(1);
    b.missing_node_treatment = [MissingNodeTreatment::AverageLeafWeight, MissingNodeTreatment::None][k % 2];
    b.log_iterations = 3;
    b.force_children_to_bound_parent = true;
    b
}
pub fn c16<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    struct Base {
        model: GradientBooster,
        doc: serde_json::Map<String, Value>,
        fields: Vec<(&'static str, String)>,
        rows: Data,
        all: Vec<f64>,
        first: Vec<f64>,
    }
    let bases: Vec<Base> = (0..if th { 4 } else { 2 })
        .map(|k| {
            let model = old_model(k);
            let doc = match serde_json::from_str(&model.json_dump().unwrap()).unwrap() {
                Value::Object(m) => m,
                _ => panic!("not an object"),
            };
            let cols = 1 + model.trees.iter().flat_map(|t| snap(t)).map(|n| n.sf).max().unwrap_or(0);
            let rows = all_rows(&[model.missing, -3., 0.5, 2., 50.], cols.clamp(2, 4));
            let first = model.predict(&rows.m(), false);
            let mut all_model = GradientBooster::from_json(&model.json_dump().unwrap()).unwrap();
            all_model.prediction_iteration = None;
            let all = all_model.predict(&rows.m(), false);
            let fields = fields(&model);
            Base { model, doc, fields, rows, all, first }
        })
        .collect();
    let bases: &'static Vec<Base> = Box::leak(Box::new(bases));
    let nb = bases.len() as u64;
    v.push(space(
        "subsets",
        "every subset of the 17 later-added settings removed from saved models in which each of them has a value other than its default",
        (1 << 17) * nb,
        move |i, st| {
            let b = &bases[(i % nb) as usize];
            let set = i / nb;
            let mut doc = b.doc.clone();
            for (q, (n, _)) in LATER.iter().enumerate() {
                if set >> q & 1 == 1 && doc.remove(*n).is_none() {
                    return Err(format!("{} is not in the saved model", n));
                }
            }
            st.states += 1;
            st.transitions += set.count_ones() as u64;
            st.evaluations += 1;
            st.traces += 1;
            let text = Value::Object(doc).to_string();
            let l = GradientBooster::from_json(&text).map_err(|e| format!("without {:?} the model does not load: {}", absent(set), e))?;
            for ((n, got), (_, was)) in fields(&l).iter().zip(&b.fields) {
                let want = match LATER.iter().position(|x| x.0 == *n) {
                    Some(q) if set >> q & 1 == 1 => LATER[q].1,
                    _ => was,
                };
                if got != want {
                    return Err(format!("without {:?}: {} is {} instead of {}", absent(set), n, got, want));
                }
            }
            let gone = set >> 13 & 1 == 1;
            if i % 16 < 2 {
                let p = l.predict(&b.rows.m(), false);
                let e = if gone { &b.all } else { &b.first };
                if p.iter().zip(e).any(|(x, y)| x.to_bits() != y.to_bits()) {
                    return Err(format!("without {:?}: predictions change", absent(set)));
                }
                st.nontrivial += 1;
            }
            Ok(())
        },
    ));
    v.push(space("required", "each of the 18 original members removed, alone and with each later-added one", 18 * 18 * nb, move |i, st| {
        let dg = digits(i, &[18, 18, nb]);
        let b = &bases[dg[2]];
        let mut doc = b.doc.clone();
        if doc.remove(ORIGINAL[dg[0]]).is_none() {
            return Err(format!("{} is not in the saved model", ORIGINAL[dg[0]]));
        }
        if dg[1] < 17 {
            doc.remove(LATER[dg[1]].0);
        }
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.nontrivial += 1;
        st.traces += 1;
        if GradientBooster::from_json(&Value::Object(doc).to_string()).is_ok() {
            return Err(format!("a model without {} is loaded", ORIGINAL[dg[0]]));
        }
        Ok(())
    }));
    v.push(space("node-fields", "each member of a node removed from the first, a middle and the last node", 11 * 3 * nb, move |i, st| {
        let dg = digits(i, &[11, 3, nb]);
        let b = &bases[dg[2]];
        let mut doc = Value::Object(b.doc.clone());
        let names = ["num", "weight_value", "hessian_sum", "depth", "split_value", "split_feature", "split_gain", "missing_node", "left_child", "right_child", "is_leaf"];
        let nodes = doc["trees"][0]["nodes"].as_array_mut().ok_or("no nodes")?;
        let k = [0, nodes.len() / 2, nodes.len() - 1][dg[1]];
        if nodes[k].as_object_mut().ok_or("node")?.remove(names[dg[0]]).is_none() {
            return Err(format!("{} is not in a saved node", names[dg[0]]));
        }
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.nontrivial += 1;
        if GradientBooster::from_json(&doc.to_string()).is_ok() {
            return Err(format!("a model with a node without {} is loaded", names[dg[0]]));
        }
        let _ = &b.model;
        Ok(())
    }));
    // unknown members of future versions and member order do not matter
    v.push(space("order", "members in reversed and rotated order, with the later-added ones absent or present", 40 * 2 * nb, move |i, st| {
        let dg = digits(i, &[40, 2, nb]);
        let b = &bases[dg[2]];
        let mut items: Vec<(String, Value)> = b.doc.iter().map(|(k, v)| (k.clone(), v.clone())).filter(|(k, _)| dg[1] == 0 || !LATER.iter().any(|x| x.0 == k)).collect();
        let n = items.len();
        items.rotate_left(dg[0] % n);
        if dg[0] % 2 == 1 {
            items.reverse();
        }
        let text = format!("{{{}}}", items.iter().map(|(k, v)| format!("{}:{}", Value::String(k.clone()), v)).collect::<Vec<_>>().join(","));
        let l = GradientBooster::from_json(&text).map_err(|e| format!("reordered members: {}", e))?;
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.nontrivial += 1;
        let p = l.predict(&b.rows.m(), false);
        let e = if dg[1] == 1 { &b.all } else { &b.first };
        if p.iter().zip(e).any(|(x, y)| x.to_bits() != y.to_bits()) {
            return Err("predictions depend on the order of members".into());
        }
        Ok(())
    }));
    v
}
fn absent(set: u64) -> Vec<&'static str> {
    LATER.iter().enumerate().filter(|(q, _)| set >> q & 1 == 1).map(|(_, x)| x.0).collect()
}

//! C30: constructor, setters and names reach exactly the parameter they name.
use crate::core::*;
use crate::props_json::{f32s, f64s, fields, sample_model};
use forust_ml::constraints::{Constraint, ConstraintMap};
use forust_ml::gradientbooster::{GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::GradientBooster;
use std::collections::HashSet;
use std::str::FromStr;

fn mono(k: usize) -> Option<ConstraintMap> {
    let m = |v: &[(usize, i8)]| {
        Some(
            v.iter()
                .map(|(f, c)| {
                    (
                        *f,
                        match c {
                            1 => Constraint::Positive,
                            -1 => Constraint::Negative,
                            _ => Constraint::Unconstrained,
                        },
                    )
                })
                .collect::<ConstraintMap>(),
        )
    };
    match k {
        0 => None,
        1 => m(&[(0, 1), (3, -1)]),
        _ => m(&[(1, 0), (2, -1), (5, 1)]),
    }
}
const MONO_S: [&str; 3] = ["None", "Some([(0, 1), (3, -1)])", "Some([(1, 0), (2, -1), (5, 1)])"];
fn obj(k: usize) -> ObjectiveType {
    if k == 0 {
        ObjectiveType::LogLoss
    } else {
        ObjectiveType::SquaredLoss
    }
}
fn samp(k: usize) -> SampleMethod {
    [|| SampleMethod::None, || SampleMethod::Random, || SampleMethod::Goss][k]()
}
const SAMP_S: [&str; 3] = ["None", "Random", "Goss"];
fn met(k: usize) -> Option<Metric> {
    [None, Some(Metric::AUC), Some(Metric::LogLoss), Some(Metric::RootMeanSquaredLogError), Some(Metric::RootMeanSquaredError)][k]
}
const MET_S: [&str; 5] = ["none", "AUC", "LogLoss", "RMSLE", "RMSE"];
fn term(k: usize) -> HashSet<usize> {
    [vec![], vec![2], vec![0, 1, 7]][k].iter().copied().collect()
}
const TERM_S: [&str; 3] = ["[]", "[2]", "[0, 1, 7]"];
const US: [usize; 4] = [0, 3, 70000, usize::MAX];
const BINS: [u16; 3] = [2, 300, 65535];
const F32: [f32; 4] = [0., 0.3, 7.25, 3.0e38];
const F64: [f64; 4] = [0., 0.7, -3.5, 1e300];
const P64: [f64; 3] = [0., 0.45, 1.];
const SEEDS: [u64; 3] = [1, 4294967301, u64::MAX];
const MISS: [f64; 3] = [f64::NAN, -999., 0.];

/// one setter call: the parameter it names, the call, the value the parameter must have afterwards
struct Call {
    field: &'static str,
    apply: Box<dyn Fn(GradientBooster) -> GradientBooster + Sync + Send>,
    want: String,
}
fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    macro_rules! set {
        ($field:ident, $setter:ident, $n:expr, $val:expr, $show:expr) => {
            for k in 0..$n {
                v.push(Call { field: stringify!($field), apply: Box::new(move |b| b.$setter($val(k))), want: $show(k) });
            }
        };
    }
    let s = |x: &str| x.to_string();
    set!(objective_type, set_objective_type, 2, obj, |k: usize| s(["LogLoss", "SquaredLoss"][k]));
    set!(iterations, set_iterations, 3, |k: usize| US[k], |k: usize| US[k].to_string());
    set!(learning_rate, set_learning_rate, 4, |k: usize| F32[k], |k: usize| f32s(F32[k]));
    set!(max_depth, set_max_depth, 4, |k: usize| US[k], |k: usize| US[k].to_string());
    set!(max_leaves, set_max_leaves, 4, |k: usize| US[k], |k: usize| US[k].to_string());
    set!(nbins, set_nbins, 3, |k: usize| BINS[k], |k: usize| BINS[k].to_string());
    set!(l1, set_l1, 4, |k: usize| F32[k], |k: usize| f32s(F32[k]));
    set!(l2, set_l2, 4, |k: usize| F32[k], |k: usize| f32s(F32[k]));
    set!(gamma, set_gamma, 4, |k: usize| F32[k], |k: usize| f32s(F32[k]));
    set!(max_delta_step, set_max_delta_step, 4, |k: usize| F32[k], |k: usize| f32s(F32[k]));
    set!(min_leaf_weight, set_min_leaf_weight, 4, |k: usize| F32[k], |k: usize| f32s(F32[k]));
    set!(base_score, set_base_score, 4, |k: usize| F64[k], |k: usize| f64s(F64[k]));
    set!(initialize_base_score, set_initialize_base_score, 2, |k: usize| k == 1, |k: usize| (k == 1).to_string());
    set!(parallel, set_parallel, 2, |k: usize| k == 1, |k: usize| (k == 1).to_string());
    set!(allow_missing_splits, set_allow_missing_splits, 2, |k: usize| k == 1, |k: usize| (k == 1).to_string());
    set!(monotone_constraints, set_monotone_constraints, 3, mono, |k: usize| s(MONO_S[k]));
    set!(subsample, set_subsample, 4, |k: usize| F32[k], |k: usize| f32s(F32[k]));
    set!(colsample_bytree, set_colsample_bytree, 3, |k: usize| P64[k], |k: usize| f64s(P64[k]));
    set!(seed, set_seed, 3, |k: usize| SEEDS[k], |k: usize| SEEDS[k].to_string());
    set!(missing, set_missing, 3, |k: usize| MISS[k], |k: usize| f64s(MISS[k]));
    set!(create_missing_branch, set_create_missing_branch, 2, |k: usize| k == 1, |k: usize| (k == 1).to_string());
    set!(sample_method, set_sample_method, 3, samp, |k: usize| s(SAMP_S[k]));
    set!(evaluation_metric, set_evaluation_metric, 5, met, |k: usize| s(MET_S[k]));
    set!(early_stopping_rounds, set_early_stopping_rounds, 3, |k: usize| [None, Some(0), Some(70000)][k], |k: usize| format!("{:?}", [None, Some(0), Some(70000)][k]));
    set!(terminate_missing_features, set_terminate_missing_features, 3, term, |k: usize| s(TERM_S[k]));
    v
}
fn starts() -> Vec<Box<dyn Fn() -> GradientBooster + Sync + Send>> {
    vec![Box::new(GradientBooster::default), Box::new(|| sample_model(1)), Box::new(|| sample_model(9))]
}
fn expect(b: &GradientBooster, want: &[(&'static str, String)], st: &mut Stats) -> Result<(), String> {
    for ((n, got), (_, w)) in fields(b).iter().zip(want) {
        st.evaluations += 1;
        if got != w {
            return Err(format!("{} is {}, expected {}", n, got.chars().take(120).collect::<String>(), w.chars().take(120).collect::<String>()));
        }
    }
    st.states += 1;
    Ok(())
}

/// the constructor arguments, in order
const ARGS: [&str; 31] = [
    "objective_type",
    "iterations",
    "learning_rate",
    "max_depth",
    "max_leaves",
    "l1",
    "l2",
    "gamma",
    "max_delta_step",
    "min_leaf_weight",
    "base_score",
    "nbins",
    "parallel",
    "allow_missing_splits",
    "monotone_constraints",
    "subsample",
    "top_rate",
    "other_rate",
    "colsample_bytree",
    "seed",
    "missing",
    "create_missing_branch",
    "sample_method",
    "grow_policy",
    "evaluation_metric",
    "early_stopping_rounds",
    "initialize_base_score",
    "terminate_missing_features",
    "missing_node_treatment",
    "log_iterations",
    "force_children_to_bound_parent",
];
const NARG: usize = 31;
/// constructor with argument j at its alternative k[j]; returns what every field must be
fn construct(k: &[usize; NARG]) -> (Result<GradientBooster, String>, Vec<(&'static str, String)>) {
    let fl = |j: usize| F32[(k[j] + j) % 4];
    let pr = |j: usize| P64[(k[j] + j) % 3];
    let us = |j: usize| US[(k[j] + j) % 4];
    let bo = |j: usize| (k[j] + j) % 2 == 1;
    let treat = [MissingNodeTreatment::None, MissingNodeTreatment::AssignToParent, MissingNodeTreatment::AverageLeafWeight, MissingNodeTreatment::AverageNodeWeight];
    const TREAT_S: [&str; 4] = ["None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"];
    let es = [None, Some(2usize), Some(100000)];
    let b = GradientBooster::new(
        obj(k[0] % 2),
        us(1),
        fl(2),
        us(3),
        us(4),
        fl(5),
        fl(6),
        fl(7),
        fl(8),
        fl(9),
        F64[k[10] % 4],
        BINS[k[11] % 3],
        bo(12),
        bo(13),
        mono(k[14] % 3),
        fl(15),
        pr(16),
        pr(17),
        pr(18),
        SEEDS[k[19] % 3],
        MISS[k[20] % 3],
        bo(21),
        samp(k[22] % 3),
        if k[23] % 2 == 0 { GrowPolicy::DepthWise } else { GrowPolicy::LossGuide },
        met(k[24] % 5),
        es[k[25] % 3],
        bo(26),
        term(k[27] % 3),
        treat[k[28] % 4],
        us(29),
        bo(30),
    )
    .map_err(|e| e.to_string());
    let s = |x: &str| x.to_string();
    let v = [
        s(["LogLoss", "SquaredLoss"][k[0] % 2]),
        us(1).to_string(),
        f32s(fl(2)),
        us(3).to_string(),
        us(4).to_string(),
        f32s(fl(5)),
        f32s(fl(6)),
        f32s(fl(7)),
        f32s(fl(8)),
        f32s(fl(9)),
        f64s(F64[k[10] % 4]),
        BINS[k[11] % 3].to_string(),
        bo(12).to_string(),
        bo(13).to_string(),
        s(MONO_S[k[14] % 3]),
        f32s(fl(15)),
        f64s(pr(16)),
        f64s(pr(17)),
        f64s(pr(18)),
        SEEDS[k[19] % 3].to_string(),
        f64s(MISS[k[20] % 3]),
        bo(21).to_string(),
        s(SAMP_S[k[22] % 3]),
        s(["DepthWise", "LossGuide"][k[23] % 2]),
        s(MET_S[k[24] % 5]),
        format!("{:?}", es[k[25] % 3]),
        bo(26).to_string(),
        s(TERM_S[k[27] % 3]),
        s(TREAT_S[k[28] % 4]),
        us(29).to_string(),
        bo(30).to_string(),
    ];
    (b, ARGS.into_iter().zip(v).collect())
}
fn check_constructed(k: &[usize; NARG], st: &mut Stats) -> Result<(), String> {
    let (b, want) = construct(k);
    let b = b.map_err(|e| format!("valid parameters are refused: {}", e))?;
    st.transitions += 1;
    st.traces += 1;
    st.states += 1;
    st.nontrivial += 1;
    for (n, got) in fields(&b) {
        st.evaluations += 1;
        let w = match want.iter().find(|w| w.0 == n) {
            Some(w) => w.1.clone(),
            None => match n {
                "trees" => String::new(),
                "evaluation_history" => "none".into(),
                _ => "None".into(),
            },
        };
        if got != w {
            return Err(format!("constructor: {} is {}, expected {}", n, got, w));
        }
    }
    Ok(())
}

pub fn c30<'a>(th: bool) -> Vec<Space<'a>> {
    let cs = std::sync::Arc::new(calls());
    let ss = std::sync::Arc::new(starts());
    let n = cs.len() as u64;
    let depth = if th { 3 } else { 2 };
    let radix: Vec<u64> = std::iter::once(3).chain(vec![n; depth]).collect();
    let mut v = vec![];
    let size = prod(&radix);
    v.push(space(
        "setters",
        &format!("all sequences of {} of {} setter calls (25 setters, 2-5 values each) on a default and two fitted boosters; every field compared after every call", depth, n),
        size,
        move |i, st| {
            let dg = digits(i, &radix);
            let mut b = ss[dg[0]]();
            let mut want = fields(&b);
            for q in &dg[1..] {
                let c = &cs[*q];
                b = (c.apply)(b);
                st.transitions += 1;
                want.iter_mut().find(|w| w.0 == c.field).unwrap().1 = c.want.clone();
                expect(&b, &want, st).map_err(|e| format!("after setting {}: {}", c.field, e))?;
            }
            st.traces += 1;
            st.nontrivial += 1;
            Ok(())
        },
    ));
    v.push(space("constructor", "every pair of the 31 constructor arguments at 5x5 alternatives, the others at each of 4 settings in which neighbouring arguments of one type differ", 31 * 31 * 25 * 4, move |i, st| {
        let dg = digits(i, &[31, 31, 5, 5, 4]);
        let mut k = [dg[4]; NARG];
        k[dg[0]] += dg[2];
        k[dg[1]] += dg[3];
        check_constructed(&k, st)
    }));
    v.push(space("names", "names of the metrics, and every one-character change of them", 4 * 30 * 4 + 4, move |i, st| {
        st.states += 1;
        st.transitions += 1;
        st.evaluations += 1;
        st.traces += 1;
        st.nontrivial += 1;
        let names = ["AUC", "LogLoss", "RootMeanSquaredLogError", "RootMeanSquaredError"];
        if i < 4 {
            let m = Metric::from_str(names[i as usize]).map_err(|e| e.to_string())?;
            let ok = matches!((i, m), (0, Metric::AUC) | (1, Metric::LogLoss) | (2, Metric::RootMeanSquaredLogError) | (3, Metric::RootMeanSquaredError));
            return if ok { Ok(()) } else { Err(format!("{} is parsed as {:?}", names[i as usize], m)) };
        }
        let dg = digits(i - 4, &[4, 30, 4]);
        let mut s: Vec<char> = names[dg[0]].chars().collect();
        if dg[1] > s.len() {
            return Ok(());
        }
        match dg[2] {
            0 => s.insert(dg[1], 'x'),
            1 if dg[1] < s.len() => {
                s.remove(dg[1]);
            }
            2 if dg[1] < s.len() => s[dg[1]] = '?',
            3 => s.truncate(dg[1]),
            _ => return Ok(()),
        }
        let s: String = s.into_iter().collect();
        if names.contains(&s.as_str()) {
            return Ok(());
        }
        match Metric::from_str(&s) {
            Ok(m) => Err(format!("{:?} is accepted as the metric {:?}", s, m)),
            Err(_) => Ok(()),
        }
    }));
    v
}

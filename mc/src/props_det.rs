//! C13: nothing depends on threads, scheduling, logging or repetition.
use crate::core::*;
use crate::fits::*;
use crate::gen::*;
use forust_ml::gradientbooster::ImportanceMethod;
use forust_ml::GradientBooster;
use rayon_core::explore::{self, Plan, Target};
use serde_json::Value;

/// Everything a user can observe of a model, in a canonical form.
#[derive(Clone, PartialEq)]
pub struct Obs {
    pub model: Value,
    pub bits: Vec<(String, Vec<u64>)>,
    pub pd: Vec<f64>,
}
/// The saved document with unordered collections put in order.
pub fn canon(b: &GradientBooster) -> Result<Value, String> {
    let s = b.json_dump().map_err(|e| format!("cannot be written: {}", e))?;
    let mut v: Value = serde_json::from_str(&s).map_err(|e| format!("not JSON: {}", e))?;
    if let Some(Value::Array(a)) = v.get_mut("terminate_missing_features") {
        a.sort_by_key(|x| x.as_u64());
    }
    Ok(v)
}
pub fn drop_keys(mut v: Value, keys: &[&str]) -> Value {
    if let Some(o) = v.as_object_mut() {
        for k in keys {
            o.remove(*k);
        }
    }
    v
}
pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// What predict-type calls return.
pub fn read(b: &GradientBooster, d: &Data, par: bool) -> (Vec<(String, Vec<u64>)>, Vec<f64>) {
    let m = d.m();
    let mut out = vec![
        ("predictions".to_string(), bits(&b.predict(&m, par))),
        ("leaf indices".to_string(), b.predict_leaf_indices(&m).iter().map(|x| *x as u64).collect()),
    ];
    let log = matches!(b.objective_type, forust_ml::objective::ObjectiveType::LogLoss);
    for c in CMS {
        if c == CM::Prob && !log {
            continue;
        }
        out.push((format!("{:?} contributions", c), bits(&b.predict_contributions(&m, to_cm(c), par))));
    }
    for (n, meth) in [
        ("Weight", ImportanceMethod::Weight),
        ("Gain", ImportanceMethod::Gain),
        ("Cover", ImportanceMethod::Cover),
        ("TotalGain", ImportanceMethod::TotalGain),
        ("TotalCover", ImportanceMethod::TotalCover),
    ] {
        let h = b.calculate_feature_importance(meth, n != "TotalGain");
        let mut k: Vec<(usize, u32)> = h.iter().map(|(k, v)| (*k, v.to_bits())).collect();
        k.sort();
        out.push((format!("{} importance", n), k.iter().flat_map(|(a, b)| [*a as u64, *b as u64]).collect()));
    }
    let mut pd = vec![];
    for f in 0..d.cols {
        for v in [b.missing, -1., 0.5, 2., 100.] {
            pd.push(b.value_partial_dependence(f, v));
        }
    }
    (out, pd)
}
pub fn observe(b: &GradientBooster, d: &Data, par: bool) -> Result<Obs, String> {
    let model = drop_keys(canon(b)?, &["parallel", "log_iterations"]);
    let (bits, pd) = read(b, d, par);
    Ok(Obs { model, bits, pd })
}
pub fn same_obs(a: &Obs, b: &Obs) -> Result<(), String> {
    if a.model != b.model {
        return Err(format!("the fitted model differs: {}", value_diff(&a.model, &b.model)));
    }
    same_reads(&a.bits, &a.pd, &b.bits, &b.pd)
}
pub fn same_reads(a: &[(String, Vec<u64>)], pa: &[f64], b: &[(String, Vec<u64>)], pb: &[f64]) -> Result<(), String> {
    for ((n, x), (_, y)) in a.iter().zip(b) {
        if x != y {
            return Err(format!("{} differ", n));
        }
    }
    for (x, y) in pa.iter().zip(pb) {
        if !((x - y).abs() <= 1e-9 * (1. + x.abs()) || x.to_bits() == y.to_bits()) {
            return Err(format!("partial dependence differs: {} / {}", x, y));
        }
    }
    Ok(())
}
/// First difference between two documents.
pub fn value_diff(a: &Value, b: &Value) -> String {
    fn go(p: String, a: &Value, b: &Value) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys()) {
                    let z = Value::String("<absent>".into());
                    if let Some(r) = go(format!("{}.{}", p, k), x.get(k).unwrap_or(&z), y.get(k).unwrap_or(&z)) {
                        return Some(r);
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for i in 0..x.len() {
                    if let Some(r) = go(format!("{}[{}]", p, i), &x[i], &y[i]) {
                        return Some(r);
                    }
                }
                None
            }
            _ if a == b => None,
            _ => Some(format!("{}: {} / {}", p, a, b).chars().take(300).collect()),
        }
    }
    go(String::new(), a, b).unwrap_or_else(|| "equal".into())
}
pub fn fit_ev(cfg: &Cfg, d: &Data, evals: &[&Data]) -> Result<GradientBooster, String> {
    let mut b = cfg.make();
    fit_into(&mut b, d, evals)?;
    Ok(b)
}
pub fn fit_into(b: &mut GradientBooster, d: &Data, evals: &[&Data]) -> Result<(), String> {
    let ev = if evals.is_empty() { None } else { Some(evals.iter().map(|e| (e.m(), &e.y[..], &e.w[..])).collect::<Vec<_>>()) };
    b.fit(&d.m(), &d.y, &d.w, ev).map_err(|e| format!("fit refused valid data: {}", e))
}
/// Configurations that touch every part of training.
fn setting(k: usize, obj: usize) -> Cfg {
    let mut c = Cfg { iters: 3, lr: 0.37, mlw: 0.2, base: None, parallel: true, max_depth: 3, ..Cfg::default() };
    c.obj = if obj == 0 { Obj::Log } else { Obj::Sq };
    missing_mode(&mut c, k % MISSING_MODES);
    match (k / MISSING_MODES) % 6 {
        0 => {}
        1 => {
            c.samp = Samp::Random;
            c.subsample = 0.7;
        }
        2 => {
            c.samp = Samp::Goss;
            c.top = 0.3;
            c.other = 0.4;
        }
        3 => c.colsample = 0.7,
        4 => {
            c.metric = Some(METS[k % 4]);
            c.esr = Some(1);
            c.lossguide = true;
        }
        _ => {
            c.mono = MONOS[1 + k % 4].to_vec();
            c.nbins = 4;
            c.term = vec![0, 1, 2];
        }
    }
    c
}
const NSET: u64 = 54;

/// All schedules of one parallel operation within the bound: every decision sequence when the
/// operation has at most 3 (thorough: 6) joins under the schedules met, otherwise every
/// sequence that deviates from one of the four uniform schedules at no more than one
/// (thorough: two) joins.
fn schedules(th: bool, run: &mut dyn FnMut(Vec<u8>) -> Result<Vec<u8>, String>) -> Result<(), String> {
    // the most joins: everything stolen
    let wide = run(vec![2; 4096])?.len();
    if wide <= if th { 6 } else { 3 } {
        let mut script = vec![];
        loop {
            let taken = run(script)?;
            match explore::next_script(&taken) {
                Some(s) => script = s,
                None => return Ok(()),
            }
        }
    }
    for base in 0..4u8 {
        let n = run(vec![base; 4096])?.len();
        for p in 0..n {
            for alt in (0..4u8).filter(|a| *a != base) {
                let mut s = vec![base; 4096];
                s[p] = alt;
                let taken = run(s.clone())?;
                if th {
                    for q in p + 1..taken.len().min(p + 12) {
                        for alt2 in (0..4u8).filter(|a| *a != base) {
                            let mut s2 = s.clone();
                            s2[q] = alt2;
                            run(s2)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c13<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = vec![];
    // every schedule of every parallel operation of a fit, one operation at a time
    let threads: &'static [usize] = if th { &[2, 3, 4, 5, 8, 16] } else { &[2, 3, 8] };
    let shapes: &'static [usize] = if th { &[0, 2, 4, 8, 9, 11, 7] } else { &[2, 4, 8] };
    let radix = [NSET, 2, threads.len() as u64, shapes.len() as u64];
    v.push(space(
        "fit-schedules",
        "fit with parallel=true under the controlled scheduler: for every parallel operation, the orders of its tasks and the patterns of stealing (hence the ways of cutting and combining) within the bound - all of them up to 3 (thorough 6) joins, else those deviating from a uniform schedule at one (thorough: two nearby) joins -, the other operations at their base schedule; settings x objectives x thread counts x data sets with 2-4 features",
        prod(&radix),
        move |i, st| {
            let dg = digits(i, &radix);
            let mut c = setting(dg[0], dg[1]);
            c.iters = 2;
            let threads = threads[dg[2]];
            let d = rich(shapes[dg[3]], dg[1] == 0);
            let ev = rich(shapes[dg[3]] + 12, dg[1] == 0);
            let serial = observe(&fit_ev(&Cfg { parallel: false, ..c.clone() }, &d, &[&ev])?, &ev, false)?;
            let go = |plan: Plan| {
                let (r, rep) = explore::run(plan, || fit_ev(&c, &d, &[&ev]));
                r.and_then(|b| Ok((drop_keys(canon(&b)?, &["parallel", "log_iterations"]), rep)))
            };
            let (m0, rep0) = go(Plan { threads, base: 0, target: Target::Nothing, script: vec![] })?;
            if m0 != serial.model {
                return Err(format!("parallel and serial fits differ: {}", value_diff(&m0, &serial.model)));
            }
            st.traces += 1;
            for op in 0..rep0.ops {
                schedules(th, &mut |script: Vec<u8>| {
                    let (m, rep) = go(Plan { threads, base: (op % 4) as u8, target: Target::Op(op), script })?;
                    st.states += 1;
                    st.transitions += rep.taken.len() as u64;
                    st.evaluations += 1;
                    if m != m0 {
                        return Err(format!("schedule {:?} of parallel operation {} with {} threads changes the result: {}", rep.taken, op, threads, value_diff(&m0, &m)));
                    }
                    Ok(rep.taken)
                })?;
            }
            if rep0.ops > 0 {
                st.nontrivial += 1;
            }
            Ok(())
        },
    ));
    // predict-type calls: every schedule of each call
    v.push(space(
        "read-schedules",
        "predict, leaf indices, all contribution methods and partial dependence on up to 5 rows and 4 trees: the schedules of every call within the same bound, 2-4 threads",
        NSET * 2 * 3 * 4,
        move |i, st| {
            let dg = digits(i, &[NSET, 2, 3, 4]);
            let c = setting(dg[0], dg[1]);
            let d = rich([2, 4, 8, 10][dg[3]], dg[1] == 0);
            let b = fit_ev(&Cfg { parallel: dg[3] % 2 == 0, iters: 4, esr: None, ..c }, &d, &[])?;
            let few = d.subset(&[0, 3, 5, 6, 7][..2 + dg[2]]);
            let (r0, p0) = read(&b, &few, false);
            let threads = 2 + dg[2];
            let ((ra, pa), rep0) = explore::run(Plan { threads, base: 0, target: Target::Nothing, script: vec![] }, || read(&b, &few, true));
            same_reads(&r0, &p0, &ra, &pa).map_err(|e| format!("parallel against serial: {}", e))?;
            st.traces += 1;
            for op in 0..rep0.ops {
                schedules(th, &mut |script: Vec<u8>| {
                    let ((r, p), rep) = explore::run(Plan { threads, base: 0, target: Target::Op(op), script }, || read(&b, &few, true));
                    st.states += 1;
                    st.transitions += rep.taken.len() as u64;
                    st.evaluations += 1;
                    same_reads(&r0, &p0, &r, &p).map_err(|e| format!("schedule {:?} of operation {}: {}", rep.taken, op, e))?;
                    Ok(rep.taken)
                })?;
            }
            st.nontrivial += 1;
            Ok(())
        },
    ));
    // thread counts 1..16 and uniform schedules on larger data
    let sizes: &'static [(usize, u64)] = &[(40, 12), (300, 120), (1100, 500), (5000, 700), (20000, 300)];
    let nsz: u64 = if th { 5 } else { 4 };
    v.push(space(
        "thread-counts",
        "data of 40-5000 (thorough: 20000) rows: 1..16 believed threads x 4 uniform schedules, and real thread pools of 1..8 threads, against a serial fit; fits, predictions, contributions",
        nsz * 2 * 12,
        move |i, st| {
            let dg = digits(i, &[12, 2, nsz]);
            let (n, dv) = sizes[dg[2]];
            let k = [0, 1, 2, 5, 9, 12, 18, 20, 27, 36, 39, 47][dg[0]];
            let mut c = setting(k, dg[1]);
            c.iters = 2;
            let d = large(n, dv, dg[1] == 0, dg[0] as u64);
            let ev = d.subset(&(0..n.min(900)).map(|q| q * 7 % n).collect::<Vec<_>>());
            let serial = observe(&fit_ev(&Cfg { parallel: false, ..c.clone() }, &d, &[&ev])?, &ev, false)?;
            st.traces += 1;
            let counts: Vec<usize> = if n >= 5000 { vec![1, 3, 8, 16] } else if n > 1000 { vec![1, 2, 3, 5, 8, 16] } else { (1..=16).collect() };
            for t in counts {
                for base in 0..4u8 {
                    if n >= 5000 && base == 2 {
                        continue;
                    }
                    let (r, rep) = explore::run(Plan { threads: t, base, target: Target::Nothing, script: vec![] }, || {
                        fit_ev(&c, &d, &[&ev]).and_then(|b| observe(&b, &ev, true))
                    });
                    same_obs(&serial, &r?).map_err(|e| format!("{} threads, schedule {}: {}", t, base, e))?;
                    st.states += 1;
                    st.transitions += rep.joins as u64;
                    st.evaluations += 1;
                }
            }
            st.nontrivial += 1;
            Ok(())
        },
    ));
    let mut pools = space(
        "real-pools",
        "the same fits on real rayon pools of 1, 2, 3, 4, 8 threads, repeated, against a serial fit",
        24 * 3,
        move |i, st| {
            let dg = digits(i, &[12, 2, 3]);
            let (n, dv) = sizes[dg[2]];
            let k = [0, 1, 2, 5, 9, 12, 18, 20, 27, 36, 39, 47][dg[0]];
            let c = setting(k, dg[1]);
            let d = large(n, dv, dg[1] == 0, dg[0] as u64);
            let serial = observe(&fit_ev(&Cfg { parallel: false, ..c.clone() }, &d, &[&d])?, &d, false)?;
            st.traces += 1;
            for t in [1usize, 2, 3, 4, 8] {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().map_err(|e| e.to_string())?;
                for _ in 0..2 {
                    let o = pool.install(|| fit_ev(&c, &d, &[&d]).and_then(|b| observe(&b, &d, true)))?;
                    same_obs(&serial, &o).map_err(|e| format!("pool of {} threads: {}", t, e))?;
                    st.states += 1;
                    st.transitions += 1;
                    st.evaluations += 1;
                }
            }
            st.nontrivial += 1;
            Ok(())
        },
    );
    pools.serial = true;
    v.push(pools);
    // repetition, logging, other boosters before, between and at the same time
    let mut company = space(
        "company",
        "54 settings x 2 objectives: fitted again, with logging on at every period 1..4, after and between other boosters' fits, and simultaneously with seven different ones on their own threads",
        NSET * 2,
        move |i, st| {
            log_sink();
            let dg = digits(i, &[NSET, 2]);
            let c = setting(dg[0], dg[1]);
            let d = rich(dg[0] % 24, dg[1] == 0);
            let ev = rich(dg[0] % 24 + 24, dg[1] == 0);
            let one = |c: &Cfg| fit_ev(c, &d, &[&d, &ev]).and_then(|b| observe(&b, &ev, true));
            let first = one(&c)?;
            st.traces += 1;
            let mut check = |what: &str, o: Obs| -> Result<(), String> {
                st.states += 1;
                st.transitions += 1;
                st.evaluations += 1;
                same_obs(&first, &o).map_err(|e| format!("{}: {}", what, e))
            };
            for _ in 0..6 {
                check("second fit", one(&c)?)?;
            }
            for p in [false, true] {
                for l in 0..5 {
                    check("log_iterations", one(&Cfg { log_iters: l, parallel: p, ..c.clone() })?)?;
                }
            }
            for k in 1..4 {
                let other = setting(dg[0] + 13 * k, 1 - dg[1]);
                let od = rich(dg[0] + k, dg[1] == 1);
                let _ = fit_ev(&Cfg { seed: k as u64 + 1, ..other }, &od, &[])?;
                check("after another booster's fit", one(&c)?)?;
            }
            // at the same time
            let res: Vec<Result<Obs, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..8usize)
                    .map(|t| {
                        let (c, one, dg) = (&c, &one, &dg);
                        s.spawn(move || {
                            if t % 2 == 0 {
                                one(c)
                            } else {
                                let other = Cfg { seed: t as u64, ..setting(dg[0] + t * 11, dg[1]) };
                                one(&other).and_then(|_| one(c))
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
            });
            for r in res {
                check("while other boosters are fitting", r?)?;
            }
            st.nontrivial += 1;
            Ok(())
        },
    );
    company.serial = true;
    v.push(company);
    v
}

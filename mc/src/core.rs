//! Shared vocabulary of the explorer: parameter settings, data sets, spaces and the runner.
use forust_ml::constraints::{Constraint, ConstraintMap};
use forust_ml::gradientbooster::{GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::{GradientBooster, Matrix};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Obj {
    Log,
    Sq,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Treat {
    None,
    Parent,
    AvgLeaf,
    AvgNode,
}
pub const TREATS: [Treat; 4] = [Treat::None, Treat::Parent, Treat::AvgLeaf, Treat::AvgNode];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Samp {
    None,
    Random,
    Goss,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Met {
    Auc,
    LogLoss,
    Rmsle,
    Rmse,
}
pub const METS: [Met; 4] = [Met::Auc, Met::LogLoss, Met::Rmsle, Met::Rmse];
/// 2 = key absent, 0 = explicitly unconstrained
pub type Mono = i8;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub obj: Obj,
    pub iters: usize,
    pub lr: f32,
    pub max_depth: usize,
    pub max_leaves: usize,
    pub l1: f32,
    pub l2: f32,
    pub gamma: f32,
    pub mds: f32,
    pub mlw: f32,
    /// None: initialise from the data
    pub base: Option<f64>,
    pub nbins: u16,
    pub parallel: bool,
    pub ams: bool,
    pub cmb: bool,
    pub treat: Treat,
    pub term: Vec<usize>,
    pub mono: Vec<Mono>,
    pub samp: Samp,
    pub subsample: f32,
    pub top: f64,
    pub other: f64,
    pub colsample: f64,
    pub seed: u64,
    pub missing: f64,
    pub lossguide: bool,
    pub metric: Option<Met>,
    pub esr: Option<usize>,
    pub force: bool,
    pub log_iters: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            obj: Obj::Sq,
            iters: 1,
            lr: 0.5,
            max_depth: 5,
            max_leaves: usize::MAX,
            l1: 0.,
            l2: 1.,
            gamma: 0.,
            mds: 0.,
            mlw: 1.,
            base: Some(0.),
            nbins: 256,
            parallel: false,
            ams: true,
            cmb: false,
            treat: Treat::None,
            term: vec![],
            mono: vec![],
            samp: Samp::None,
            subsample: 1.,
            top: 0.1,
            other: 0.2,
            colsample: 1.,
            seed: 0,
            missing: f64::NAN,
            lossguide: false,
            metric: None,
            esr: None,
            force: false,
            log_iters: 0,
        }
    }
}

impl Cfg {
    pub fn make(&self) -> GradientBooster {
        let mut b = GradientBooster::default();
        self.apply(&mut b);
        b
    }
    pub fn apply(&self, b: &mut GradientBooster) {
        b.objective_type = match self.obj {
            Obj::Log => ObjectiveType::LogLoss,
            Obj::Sq => ObjectiveType::SquaredLoss,
        };
        b.iterations = self.iters;
        b.learning_rate = self.lr;
        b.max_depth = self.max_depth;
        b.max_leaves = self.max_leaves;
        b.l1 = self.l1;
        b.l2 = self.l2;
        b.gamma = self.gamma;
        b.max_delta_step = self.mds;
        b.min_leaf_weight = self.mlw;
        match self.base {
            Some(v) => {
                b.base_score = v;
                b.initialize_base_score = false;
            }
            None => b.initialize_base_score = true,
        }
        b.nbins = self.nbins;
        b.parallel = self.parallel;
        b.allow_missing_splits = self.ams;
        b.create_missing_branch = self.cmb;
        b.missing_node_treatment = match self.treat {
            Treat::None => MissingNodeTreatment::None,
            Treat::Parent => MissingNodeTreatment::AssignToParent,
            Treat::AvgLeaf => MissingNodeTreatment::AverageLeafWeight,
            Treat::AvgNode => MissingNodeTreatment::AverageNodeWeight,
        };
        b.terminate_missing_features = self.term.iter().copied().collect::<HashSet<_>>();
        let mut m = ConstraintMap::new();
        for (i, c) in self.mono.iter().enumerate() {
            match c {
                1 => {
                    m.insert(i, Constraint::Positive);
                }
                -1 => {
                    m.insert(i, Constraint::Negative);
                }
                0 => {
                    m.insert(i, Constraint::Unconstrained);
                }
                _ => {}
            }
        }
        b.monotone_constraints = if m.is_empty() { None } else { Some(m) };
        b.sample_method = match self.samp {
            Samp::None => SampleMethod::None,
            Samp::Random => SampleMethod::Random,
            Samp::Goss => SampleMethod::Goss,
        };
        b.subsample = self.subsample;
        b.top_rate = self.top;
        b.other_rate = self.other;
        b.colsample_bytree = self.colsample;
        b.seed = self.seed;
        b.missing = self.missing;
        b.grow_policy = if self.lossguide { GrowPolicy::LossGuide } else { GrowPolicy::DepthWise };
        b.evaluation_metric = self.metric.map(to_metric);
        b.early_stopping_rounds = self.esr;
        b.force_children_to_bound_parent = self.force;
        b.log_iterations = self.log_iters;
    }
    pub fn mono_of(&self, f: usize) -> i8 {
        match self.mono.get(f) {
            Some(1) => 1,
            Some(-1) => -1,
            _ => 0,
        }
    }
}
pub fn to_metric(m: Met) -> Metric {
    match m {
        Met::Auc => Metric::AUC,
        Met::LogLoss => Metric::LogLoss,
        Met::Rmsle => Metric::RootMeanSquaredLogError,
        Met::Rmse => Metric::RootMeanSquaredError,
    }
}

/// Column-major data set.
#[derive(Clone, Debug, Default)]
pub struct Data {
    pub rows: usize,
    pub cols: usize,
    pub x: Vec<f64>,
    pub y: Vec<f64>,
    pub w: Vec<f64>,
}
impl Data {
    pub fn new(cols: usize) -> Self {
        Data { rows: 0, cols, x: vec![], y: vec![], w: vec![] }
    }
    pub fn from_rows(rows: &[Vec<f64>], y: &[f64], w: &[f64]) -> Self {
        let n = rows.len();
        let c = if n == 0 { 0 } else { rows[0].len() };
        let mut x = Vec::with_capacity(n * c);
        for j in 0..c {
            for r in rows {
                x.push(r[j]);
            }
        }
        Data { rows: n, cols: c, x, y: y.to_vec(), w: w.to_vec() }
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.x[j * self.rows + i]
    }
    pub fn row(&self, i: usize) -> Vec<f64> {
        (0..self.cols).map(|j| self.at(i, j)).collect()
    }
    pub fn m(&self) -> Matrix<'_, f64> {
        Matrix::new(&self.x, self.rows, self.cols)
    }
    pub fn col(&self, j: usize) -> &[f64] {
        &self.x[j * self.rows..(j + 1) * self.rows]
    }
    pub fn subset(&self, idx: &[usize]) -> Data {
        let rows: Vec<Vec<f64>> = idx.iter().map(|i| self.row(*i)).collect();
        let mut d = Data::from_rows(
            &rows,
            &idx.iter().map(|i| self.y[*i]).collect::<Vec<_>>(),
            &idx.iter().map(|i| self.w[*i]).collect::<Vec<_>>(),
        );
        d.cols = self.cols;
        d
    }
}

pub fn fit(cfg: &Cfg, d: &Data) -> Result<GradientBooster, String> {
    let mut b = cfg.make();
    b.fit(&d.m(), &d.y, &d.w, None).map_err(|e| format!("fit refused valid data: {}", e))?;
    Ok(b)
}

// ---------------------------------------------------------------- enumeration helpers
/// Mixed-radix digits of idx.
pub fn digits(mut idx: u64, radix: &[u64]) -> Vec<usize> {
    let mut v = Vec::with_capacity(radix.len());
    for r in radix {
        v.push((idx % r) as usize);
        idx /= r;
    }
    v
}
pub fn prod(radix: &[u64]) -> u64 {
    radix.iter().product()
}
/// Number of multisets of size k over s symbols.
pub fn nmultiset(s: u64, k: u64) -> u64 {
    let mut r: u128 = 1;
    for i in 0..k {
        r = r * (s + i) as u128 / (i + 1) as u128;
    }
    r as u64
}
/// idx-th multiset (non-decreasing sequence) of size k over 0..s.
pub fn multiset(mut idx: u64, s: u64, k: u64) -> Vec<usize> {
    let mut out = Vec::with_capacity(k as usize);
    let mut lo = 0u64;
    let mut left = k;
    while left > 0 {
        let mut v = lo;
        loop {
            let c = nmultiset(s - v, left - 1);
            if idx < c {
                break;
            }
            idx -= c;
            v += 1;
        }
        out.push(v as usize);
        lo = v;
        left -= 1;
    }
    out
}
/// idx-th permutation of 0..n (factorial number system).
pub fn permutation(mut idx: u64, n: usize) -> Vec<usize> {
    let mut items: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        let f: u64 = (1..i as u64).product();
        let k = (idx / f) as usize % i;
        idx %= f;
        out.push(items.remove(k));
    }
    out
}
pub fn fact(n: u64) -> u64 {
    (1..=n).product()
}
/// Small deterministic generator used only to write down *fixed* structured data sets.
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as u64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

// ---------------------------------------------------------------- spaces and the runner
#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        for s in &o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s.clone());
            }
        }
    }
}
pub type CaseFn<'a> = Box<dyn Fn(u64, &mut Stats) -> Result<(), String> + Sync + Send + 'a>;
pub struct Space<'a> {
    pub name: String,
    pub what: String,
    pub size: u64,
    pub run: CaseFn<'a>,
    /// run with one worker (the case itself uses threads)
    pub serial: bool,
    /// called when one case runs for too long
    pub on_hang: fn(&str, u64, u64),
}
pub fn no_hang(_: &str, _: u64, _: u64) {}
pub fn space<'a, F>(name: &str, what: &str, size: u64, f: F) -> Space<'a>
where
    F: Fn(u64, &mut Stats) -> Result<(), String> + Sync + Send + 'a,
{
    Space { name: name.into(), what: what.into(), size, run: Box::new(f), serial: false, on_hang: no_hang }
}
pub struct Found {
    pub space: String,
    pub index: u64,
    pub msg: String,
}
pub struct SpaceReport {
    pub name: String,
    pub what: String,
    pub size: u64,
    pub done: u64,
    pub stats: Stats,
    pub found: Vec<Found>,
    pub secs: f64,
}

pub fn guarded(sp: &Space, i: u64, st: &mut Stats) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sp.run)(i, st))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err(format!("aborted (panic): {}", m))
        }
    }
}

pub fn run_space(sp: &Space, deadline: Instant, max_found: usize) -> SpaceReport {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let nthreads = if sp.serial {
        1
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    };
    let chunk = (sp.size / (nthreads as u64 * 64)).clamp(1, 512);
    // what each worker is executing: (index + 1, start in ms since t0)
    let current: Vec<(AtomicU64, AtomicU64)> = (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let finished = AtomicU64::new(0);
    std::thread::scope(|s| {
        let current = &current;
        let finished = &finished;
        let (next, done, stop, total, found) = (&next, &done, &stop, &total, &found);
        s.spawn(move || {
            let limit = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(120) * 1000;
            while finished.load(Ordering::Relaxed) < nthreads as u64 {
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() > 2 { 200 } else { 2 }));
                for (idx, since) in current.iter() {
                    let i = idx.load(Ordering::Relaxed);
                    if i > 0 && (t0.elapsed().as_millis() as u64).saturating_sub(since.load(Ordering::Relaxed)) > limit {
                        (sp.on_hang)(&sp.name, i - 1, limit / 1000);
                    }
                }
            }
        });
        for me in 0..nthreads {
            s.spawn(move || {
                let mut st = Stats::default();
                let mut n = 0u64;
                'outer: loop {
                    let a = next.fetch_add(chunk, Ordering::Relaxed);
                    if a >= sp.size {
                        break;
                    }
                    for i in a..(a + chunk).min(sp.size) {
                        if stop.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        current[me].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                        current[me].0.store(i + 1, Ordering::Relaxed);
                        if let Err(msg) = guarded(sp, i, &mut st) {
                            // confirm on a second execution before believing it
                            let mut st2 = Stats::default();
                            if let Err(msg2) = guarded(sp, i, &mut st2) {
                                let mut f = found.lock().unwrap();
                                f.push(Found {
                                    space: sp.name.clone(),
                                    index: i,
                                    msg: if msg2 == msg { msg } else { format!("{} / second run: {}", msg, msg2) },
                                });
                                if f.len() >= max_found {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            } else {
                                let mut f = found.lock().unwrap();
                                f.push(Found { space: sp.name.clone(), index: i, msg: format!("not reproducible: {}", msg) });
                            }
                        }
                        n += 1;
                    }
                    if Instant::now() > deadline {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                current[me].0.store(0, Ordering::Relaxed);
                finished.fetch_add(1, Ordering::Relaxed);
                done.fetch_add(n, Ordering::Relaxed);
                total.lock().unwrap().merge(&st);
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.index);
    SpaceReport {
        name: sp.name.clone(),
        what: sp.what.clone(),
        size: sp.size,
        done: done.into_inner(),
        stats: total.into_inner().unwrap(),
        found: f,
        secs: t0.elapsed().as_secs_f64(),
    }
}
pub fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
/// A logger that formats everything it is given, so that logging code runs as it would for a user who listens.
pub fn log_sink() {
    use std::sync::Once;
    static ON: Once = Once::new();
    ON.call_once(|| {
        struct Sink;
        impl log::Log for Sink {
            fn enabled(&self, _: &log::Metadata) -> bool {
                true
            }
            fn log(&self, r: &log::Record) {
                let _ = format!("{}", r.args());
            }
            fn flush(&self) {}
        }
        static SINK: Sink = Sink;
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
    });
}

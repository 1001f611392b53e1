//! Executes fits and predict-type calls on the crate for the Python-side checks: one JSON job per line.
use forust_ml::data::Matrix;
use forust_ml::gradientbooster::{ContributionsMethod, ImportanceMethod};
use forust_ml::GradientBooster;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn nums(v: &Value) -> Vec<f64> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|x| match x {
                    Value::Null => f64::NAN,
                    Value::String(s) => s.parse().unwrap(),
                    x => x.as_f64().unwrap(),
                })
                .collect()
        })
        .unwrap_or_default()
}
fn out(v: &[f64]) -> Value {
    Value::Array(
        v.iter()
            .map(|x| {
                if x.is_nan() {
                    Value::Null
                } else if x.is_infinite() {
                    json!(x.to_string())
                } else {
                    json!(x)
                }
            })
            .collect(),
    )
}
struct Set {
    x: Vec<f64>,
    rows: usize,
    cols: usize,
    y: Vec<f64>,
    w: Vec<f64>,
}
fn set(v: &Value) -> Set {
    Set { x: nums(&v["x"]), rows: v["rows"].as_u64().unwrap_or(0) as usize, cols: v["cols"].as_u64().unwrap_or(0) as usize, y: nums(&v["y"]), w: nums(&v["w"]) }
}
fn job(v: &Value) -> Result<Value, String> {
    let mut b = GradientBooster::from_json(v["model"].as_str().unwrap()).map_err(|e| e.to_string())?;
    if v["train"].is_object() {
        let t = set(&v["train"]);
        let evs: Vec<Set> = v["eval"].as_array().map(|a| a.iter().map(set).collect()).unwrap_or_default();
        let ev = if v["eval"].is_array() { Some(evs.iter().map(|e| (Matrix::new(&e.x, e.rows, e.cols), &e.y[..], &e.w[..])).collect()) } else { None };
        b.fit(&Matrix::new(&t.x, t.rows, t.cols), &t.y, &t.w, ev).map_err(|e| e.to_string())?;
    }
    if let Some(n) = v["prediction_iteration"].as_u64() {
        b.prediction_iteration = Some(n as usize);
    }
    let q = set(&v["query"]);
    let m = Matrix::new(&q.x, q.rows, q.cols);
    let mut r = serde_json::Map::new();
    r.insert("model".into(), json!(b.json_dump().map_err(|e| e.to_string())?));
    r.insert("predict".into(), out(&b.predict(&m, false)));
    r.insert("leaves".into(), json!(b.predict_leaf_indices(&m)));
    let mut c = serde_json::Map::new();
    for (n, k) in [
        ("Weight", ContributionsMethod::Weight),
        ("Average", ContributionsMethod::Average),
        ("BranchDifference", ContributionsMethod::BranchDifference),
        ("MidpointDifference", ContributionsMethod::MidpointDifference),
        ("ModeDifference", ContributionsMethod::ModeDifference),
        ("ProbabilityChange", ContributionsMethod::ProbabilityChange),
        ("Shapley", ContributionsMethod::Shapley),
    ] {
        if n == "ProbabilityChange" && !matches!(b.objective_type, forust_ml::objective::ObjectiveType::LogLoss) {
            continue;
        }
        c.insert(n.into(), out(&b.predict_contributions(&m, k, false)));
    }
    r.insert("contributions".into(), Value::Object(c));
    let mut im = serde_json::Map::new();
    for (n, k) in [
        ("Weight", ImportanceMethod::Weight),
        ("Gain", ImportanceMethod::Gain),
        ("Cover", ImportanceMethod::Cover),
        ("TotalGain", ImportanceMethod::TotalGain),
        ("TotalCover", ImportanceMethod::TotalCover),
    ] {
        for norm in [false, true] {
            let k = match k {
                ImportanceMethod::Weight => ImportanceMethod::Weight,
                ImportanceMethod::Gain => ImportanceMethod::Gain,
                ImportanceMethod::Cover => ImportanceMethod::Cover,
                ImportanceMethod::TotalGain => ImportanceMethod::TotalGain,
                ImportanceMethod::TotalCover => ImportanceMethod::TotalCover,
            };
            let h = b.calculate_feature_importance(k, norm);
            let mut o = serde_json::Map::new();
            for (f, v) in h {
                o.insert(f.to_string(), out(&[v as f64])[0].clone());
            }
            im.insert(format!("{}-{}", n, norm), Value::Object(o));
        }
    }
    r.insert("importance".into(), Value::Object(im));
    let pd: Vec<f64> = v["pd"].as_array().map(|a| a.iter().map(|p| b.value_partial_dependence(p[0].as_u64().unwrap() as usize, nums(&json!([p[1].clone()]))[0])).collect()).unwrap_or_default();
    r.insert("pd".into(), out(&pd));
    r.insert("trees".into(), json!(b.trees.len()));
    r.insert("best_iteration".into(), json!(b.best_iteration));
    r.insert("prediction_iteration".into(), json!(b.prediction_iteration));
    r.insert("base_score".into(), out(&[b.base_score]));
    r.insert(
        "history".into(),
        match &b.evaluation_history {
            None => Value::Null,
            Some(h) => json!([h.rows, h.cols, out(&(0..h.rows).flat_map(|i| (0..h.cols).map(move |j| (i, j))).map(|(i, j)| *h.get(i, j)).collect::<Vec<_>>())]),
        },
    );
    Ok(Value::Object(r))
}
pub fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        if line.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("job");
        let r = match std::panic::catch_unwind(|| job(&v)) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => json!({"error": e}),
            Err(_) => json!({"error": "panic"}),
        };
        let mut o = stdout.lock();
        let _ = writeln!(o, "{}", r);
        let _ = o.flush();
    }
}

//! Enumerated trees and the reference semantics of everything computed from a model.
use crate::core::*;
use crate::oracle::*;
use forust_ml::tree::Tree;
use forust_ml::GradientBooster;
use serde_json::json;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Sh {
    Leaf,
    /// missing goes left?
    Bin(bool, Box<Sh>, Box<Sh>),
    Ter(Box<Sh>, Box<Sh>, Box<Sh>),
}
pub fn n_bin(d: u32) -> u64 {
    if d == 0 {
        1
    } else {
        let c = n_bin(d - 1);
        1 + 2 * c * c
    }
}
pub fn n_ter(d: u32) -> u64 {
    if d == 0 {
        1
    } else {
        let c = n_ter(d - 1);
        1 + c * c * c
    }
}
pub fn bin_shape(idx: u64, d: u32) -> Sh {
    if idx == 0 {
        return Sh::Leaf;
    }
    let c = n_bin(d - 1);
    let i = idx - 1;
    Sh::Bin(i % 2 == 0, Box::new(bin_shape((i / 2) % c, d - 1)), Box::new(bin_shape(i / 2 / c, d - 1)))
}
pub fn ter_shape(idx: u64, d: u32) -> Sh {
    if idx == 0 {
        return Sh::Leaf;
    }
    let c = n_ter(d - 1);
    let i = idx - 1;
    Sh::Ter(Box::new(ter_shape(i % c, d - 1)), Box::new(ter_shape((i / c) % c, d - 1)), Box::new(ter_shape(i / c / c, d - 1)))
}
pub fn internals(s: &Sh) -> usize {
    match s {
        Sh::Leaf => 0,
        Sh::Bin(_, a, b) => 1 + internals(a) + internals(b),
        Sh::Ter(a, b, c) => 1 + internals(a) + internals(b) + internals(c),
    }
}
/// How node numbers are laid out; the implementation numbers children in creation order, older
/// models may use any.
pub fn lay(s: &Sh, split: &mut dyn FnMut(usize, usize) -> (usize, f64), covers: usize, salt: usize) -> Vec<N> {
    let blank = |num: usize, depth: usize| N { num, w: 0., h: 0., depth, sv: 0., sf: 0, gain: 0., m: 0, l: 0, r: 0, leaf: true };
    let mut out = vec![blank(0, 0)];
    // breadth first, children numbered left, right, missing
    let mut queue = std::collections::VecDeque::new();
    queue.push_back((0usize, s, false));
    let mut zero = vec![];
    let mut k = 0;
    while let Some((i, s, is_missing_child)) = queue.pop_front() {
        let depth = out[i].depth;
        match s {
            Sh::Leaf => {
                if is_missing_child {
                    zero.push(i);
                }
            }
            Sh::Bin(ml, a, b) => {
                let (f, t) = split(k, depth);
                k += 1;
                let l = out.len();
                out.push(blank(l, depth + 1));
                out.push(blank(l + 1, depth + 1));
                let n = &mut out[i];
                n.leaf = false;
                n.l = l;
                n.r = l + 1;
                n.m = if *ml { l } else { l + 1 };
                n.sf = f;
                n.sv = t;
                queue.push_back((l, a, false));
                queue.push_back((l + 1, b, false));
            }
            Sh::Ter(a, b, c) => {
                let (f, t) = split(k, depth);
                k += 1;
                let l = out.len();
                for j in 0..3 {
                    out.push(blank(l + j, depth + 1));
                }
                let n = &mut out[i];
                n.leaf = false;
                // the implementation numbers missing first in some modes: vary by salt
                let o = salt % 3;
                n.l = l + o % 3;
                n.r = l + (1 + o) % 3;
                n.m = l + (2 + o) % 3;
                n.sf = f;
                n.sv = t;
                let (nl, nr, nm) = (n.l, n.r, n.m);
                queue.push_back((nl, a, false));
                queue.push_back((nr, b, false));
                queue.push_back((nm, c, true));
            }
        }
    }
    for i in 0..out.len() {
        let v = (i * 7 + salt * 3) % 11;
        out[i].w = (v as f32 - 4.5) * 0.125 + i as f32 * 0.015625;
        out[i].gain = 0.25 * (1 + (i * 5 + salt) % 9) as f32;
        if out[i].leaf {
            out[i].h = match covers {
                0 => 1.0 + ((i * 3 + salt) % 5) as f32,
                1 => 2.0,
                _ => [0.25, 4., 1., 8.][(i + salt) % 4],
            };
        }
    }
    if covers != 1 {
        for z in zero.iter().enumerate().filter(|(j, _)| covers == 2 || j % 2 == 0).map(|x| *x.1) {
            out[z].h = 0.;
        }
    }
    fill_cover(&mut out, 0);
    out
}
fn fill_cover(t: &mut Vec<N>, i: usize) -> f32 {
    if t[i].leaf {
        return t[i].h;
    }
    let (l, r, m, mb) = (t[i].l, t[i].r, t[i].m, t[i].has_missing_branch());
    let mut s = fill_cover(t, l) + fill_cover(t, r);
    if mb {
        s += fill_cover(t, m);
    }
    t[i].h = s;
    s
}
pub fn to_tree(t: &[N]) -> Tree {
    let nodes: Vec<_> = t
        .iter()
        .map(|n| {
            json!({"num": n.num, "weight_value": n.w, "hessian_sum": n.h, "depth": n.depth, "split_value": n.sv,
                   "split_feature": n.sf, "split_gain": n.gain, "missing_node": n.m, "left_child": n.l,
                   "right_child": n.r, "is_leaf": n.leaf})
        })
        .collect();
    serde_json::from_value(json!({ "nodes": nodes })).expect("tree from node list")
}
pub fn model(trees: &[Vec<N>], base: f64, missing: f64) -> GradientBooster {
    let mut b = GradientBooster::default();
    b.base_score = base;
    b.missing = missing;
    b.trees = trees.iter().map(|t| to_tree(t)).collect();
    b
}

// ------------------------------------------------------------------ reference semantics
pub fn path(t: &[N], row: &[f64], missing: f64) -> Vec<usize> {
    let mut p = vec![0];
    let mut i = 0;
    while !t[i].leaf {
        i = t[i].child(row[t[i].sf], missing);
        p.push(i);
    }
    p
}
fn kids(n: &N) -> Vec<usize> {
    let mut k = vec![n.l, n.r];
    if n.has_missing_branch() {
        k.push(n.m);
    }
    k
}
pub fn mean_leaf(t: &[N], i: usize) -> f64 {
    let n = &t[i];
    if n.leaf {
        return n.w as f64;
    }
    let (mut a, mut c) = (0., 0.);
    for k in kids(n) {
        a += t[k].h as f64 * mean_leaf(t, k);
        c += t[k].h as f64;
    }
    a / c
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CM {
    Weight,
    Average,
    Branch,
    Midpoint,
    Mode,
    Prob,
    Shap,
}
pub const CMS: [CM; 7] = [CM::Weight, CM::Average, CM::Branch, CM::Midpoint, CM::Mode, CM::Prob, CM::Shap];
pub fn to_cm(m: CM) -> forust_ml::gradientbooster::ContributionsMethod {
    use forust_ml::gradientbooster::ContributionsMethod as C;
    match m {
        CM::Weight => C::Weight,
        CM::Average => C::Average,
        CM::Branch => C::BranchDifference,
        CM::Midpoint => C::MidpointDifference,
        CM::Mode => C::ModeDifference,
        CM::Prob => C::ProbabilityChange,
        CM::Shap => C::Shapley,
    }
}
fn cond_exp(t: &[N], i: usize, row: &[f64], missing: f64, in_s: &dyn Fn(usize) -> bool) -> f64 {
    let n = &t[i];
    if n.leaf {
        n.w as f64
    } else if in_s(n.sf) {
        cond_exp(t, n.child(row[n.sf], missing), row, missing, in_s)
    } else {
        let (mut a, mut c) = (0., 0.);
        for k in kids(n) {
            c += t[k].h as f64;
            if t[k].h != 0. {
                a += t[k].h as f64 * cond_exp(t, k, row, missing, in_s);
            }
        }
        a / c
    }
}
/// Contributions of one row by definition; last entry is the bias.
pub fn contributions(trees: &[Vec<N>], base: f64, row: &[f64], missing: f64, m: CM) -> Vec<f64> {
    let c = row.len();
    let mut out = vec![0.; c + 1];
    out[c] = if m == CM::Prob { sigmoid(base) } else { base };
    let mut logit = base;
    for t in trees {
        let p = path(t, row, missing);
        match m {
            CM::Weight => {
                out[c] += t[0].w as f64;
                for s in p.windows(2) {
                    out[t[s[0]].sf] += t[s[1]].w as f64 - t[s[0]].w as f64;
                }
            }
            CM::Average => {
                out[c] += mean_leaf(t, 0);
                for s in p.windows(2) {
                    out[t[s[0]].sf] += mean_leaf(t, s[1]) - mean_leaf(t, s[0]);
                }
            }
            CM::Branch | CM::Midpoint | CM::Mode => {
                for s in p.windows(2) {
                    let n = &t[s[0]];
                    if n.has_missing_branch() && s[1] == n.m {
                        continue;
                    }
                    let (l, r) = (&t[n.l], &t[n.r]);
                    let ch = t[s[1]].w as f64;
                    let reference = match m {
                        CM::Branch => if s[1] == n.l { r.w as f64 } else { l.w as f64 },
                        CM::Midpoint => {
                            (l.w as f64 * l.h as f64 + r.w as f64 * r.h as f64) / (l.h as f64 + r.h as f64)
                        }
                        _ => {
                            if l.h > r.h {
                                l.w as f64
                            } else if r.h > l.h {
                                r.w as f64
                            } else {
                                ch
                            }
                        }
                    };
                    out[n.sf] += ch - reference;
                }
            }
            CM::Prob => {
                out[c] += sigmoid(logit + t[0].w as f64) - sigmoid(logit);
                for s in p.windows(2) {
                    out[t[s[0]].sf] += sigmoid(logit + t[s[1]].w as f64) - sigmoid(logit + t[s[0]].w as f64);
                }
                logit += t[*p.last().unwrap()].w as f64;
            }
            CM::Shap => {
                let mut fs: Vec<usize> = t.iter().filter(|n| !n.leaf).map(|n| n.sf).collect();
                fs.sort();
                fs.dedup();
                let k = fs.len();
                let vals: Vec<f64> = (0..1usize << k)
                    .map(|s| cond_exp(t, 0, row, missing, &|f| fs.iter().position(|x| *x == f).map_or(false, |q| s >> q & 1 == 1)))
                    .collect();
                out[c] += vals[0];
                let f = |n: usize| (1..=n).map(|x| x as f64).product::<f64>();
                for q in 0..k {
                    for s in 0..1usize << k {
                        if s >> q & 1 == 0 {
                            let z = s.count_ones() as usize;
                            let wgt = f(z) * f(k - z - 1) / f(k);
                            out[fs[q]] += wgt * (vals[s | 1 << q] - vals[s]);
                        }
                    }
                }
            }
        }
    }
    out
}
pub fn pd(trees: &[Vec<N>], base: f64, feature: usize, value: f64, missing: f64) -> f64 {
    fn go(t: &[N], i: usize, f: usize, v: f64, missing: f64) -> f64 {
        let n = &t[i];
        if n.leaf {
            return n.w as f64;
        }
        if n.sf == f {
            return go(t, n.child(v, missing), f, v, missing);
        }
        let (mut a, mut c) = (0., 0.);
        for k in kids(n) {
            c += t[k].h as f64;
            if t[k].h != 0. {
                a += t[k].h as f64 * go(t, k, f, v, missing);
            }
        }
        a / c
    }
    base + trees.iter().map(|t| go(t, 0, feature, value, missing)).sum::<f64>()
}
/// feature -> (count, total gain, total cover)
pub fn importances(trees: &[Vec<N>]) -> BTreeMap<usize, (f64, f64, f64)> {
    let mut m = BTreeMap::new();
    for t in trees {
        for n in t.iter().filter(|n| !n.leaf) {
            let e = m.entry(n.sf).or_insert((0., 0., 0.));
            e.0 += 1.;
            e.1 += n.gain as f64;
            e.2 += n.h as f64;
        }
    }
    m
}
/// All rows over the given values per column, as a column-major data set.
pub fn all_rows(values: &[f64], cols: usize) -> Data {
    let n = values.len().pow(cols as u32);
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| digits(i as u64, &vec![values.len() as u64; cols]).iter().map(|k| values[*k]).collect())
        .collect();
    Data::from_rows(&rows, &vec![0.; n], &vec![1.; n])
}

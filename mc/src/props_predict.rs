//! C08-C12: everything computed from a model.
use crate::core::*;
use crate::fits::*;
use crate::gen::*;
use crate::oracle::*;
use forust_ml::gradientbooster::ImportanceMethod;
use forust_ml::GradientBooster;

/// A model, its trees by the reference's own account, and rows to evaluate.
pub struct Subject {
    pub b: GradientBooster,
    pub trees: Vec<Vec<N>>,
    pub data: Data,
    /// weights and covers exactly representable: compare without tolerance
    pub exact: bool,
    /// weights exactly representable, the base score not
    pub odd_base: bool,
    pub values: Vec<f64>,
    pub ctx: String,
}
impl Subject {
    fn scale(&self) -> f64 {
        let mut s: f64 = self.b.base_score.abs();
        for t in &self.trees {
            s += t.iter().map(|n| n.w.abs() as f64).fold(0., f64::max);
        }
        s.max(1e-30)
    }
}
pub type Judge = fn(&Subject, &mut Stats) -> Result<(), String>;

fn with_prefixes(s: &mut Subject, st: &mut Stats, judge: Judge) -> Result<(), String> {
    let k = s.trees.len();
    let full = s.trees.clone();
    let all = s.b.prediction_iteration;
    let mut settings: Vec<(Option<usize>, usize)> = vec![(None, k)];
    if k <= 6 {
        settings.extend((0..=k).map(|i| (Some(i), i)));
    } else {
        settings.extend([0, 1, 2, k / 2, k - 1, k].iter().map(|&i| (Some(i), i)));
    }
    for (p, used) in settings {
        s.b.prediction_iteration = p;
        s.trees = full[..used].to_vec();
        judge(s, st).map_err(|e| format!("{} [prediction_iteration {:?}, {} trees] {}", e, p, k, s.ctx))?;
        st.transitions += 1;
    }
    s.trees = full;
    s.b.prediction_iteration = None;
    // a base score that single precision cannot hold, one row at a time
    if s.exact && s.data.rows > 0 {
        let base = s.b.base_score;
        let one = s.data.subset(&[s.data.rows - 1]);
        let rows = std::mem::replace(&mut s.data, one);
        s.b.base_score = base + 0.1;
        s.exact = false;
        s.odd_base = true;
        judge(s, st).map_err(|e| format!("{} [base score {}, one row] {}", e, base + 0.1, s.ctx))?;
        st.transitions += 1;
        s.exact = true;
        s.odd_base = false;
        s.b.base_score = base;
        s.data = rows;
    }
    s.b.prediction_iteration = all;
    Ok(())
}

pub const THR: [f64; 3] = [-1.5, 0.0, 2.0];
pub fn edge_values(missing: f64) -> Vec<f64> {
    let mut v = vec![missing, f64::NEG_INFINITY, -1.5, -5e-324, -0.0, 0.0, 1.0, 2.0, f64::INFINITY];
    if !missing.is_nan() {
        v.retain(|x| *x == missing && x.is_sign_positive() == missing.is_sign_positive() || *x != missing);
    }
    v
}
/// A path of `d` splits: left, right, alternating or mixed.
fn chain(d: usize, dir: usize, ter: bool) -> Sh {
    if d == 0 {
        return Sh::Leaf;
    }
    let c = Box::new(chain(d - 1, dir, ter));
    let l = || Box::new(Sh::Leaf);
    let side = if dir == 2 { d % 2 } else { dir };
    if ter {
        match if dir == 3 { d % 3 } else { side } {
            0 => Sh::Ter(c, l(), l()),
            1 => Sh::Ter(l(), c, l()),
            _ => Sh::Ter(l(), l(), c),
        }
    } else {
        match if dir == 3 { (d / 2) % 2 } else { side } {
            0 => Sh::Bin(d % 3 == 0, c, l()),
            _ => Sh::Bin(d % 3 != 1, l(), c),
        }
    }
}

/// All models of the bounded family, handed to `judge` under every prediction_iteration.
pub fn model_spaces<'a>(thorough: bool, rows_matter: bool, judge: Judge) -> Vec<Space<'a>> {
    let mut v = vec![];
    // depth <= 2, complete assignment of features and thresholds
    let nb = n_bin(2);
    let nt = n_ter(2);
    let ncov: u64 = if thorough { 3 } else { 1 };
    let opts = 6u64;
    let radix_b = [nb, opts.pow(3), ncov];
    v.push(space(
        "binary-depth2",
        "every binary tree of depth <= 2 with every missing direction x every assignment of 2 features and 3 thresholds x every row over 9 boundary values per feature",
        prod(&radix_b),
        move |i, st| {
            let dg = digits(i, &radix_b);
            let sh = bin_shape(dg[0] as u64, 2);
            let k = internals(&sh);
            let a = digits(dg[1] as u64, &[opts; 3]);
            if (k..3).any(|q| a[q] != 0) {
                return Ok(());
            }
            let salt = dg[1] % 7;
            let cov = if ncov == 1 { dg[1] % 3 } else { dg[2] };
            let t = lay(&sh, &mut |q, _| (a[q] % 2, THR[a[q] / 2]), cov, salt);
            let missing = if salt == 3 { 1.0 } else { f64::NAN };
            single(t, missing, 2, st, judge)
        },
    ));
    let radix_t = [nt, opts.pow(4), ncov];
    v.push(space(
        "missing-branch-depth2",
        "every tree with missing branches of depth <= 2 x every assignment of 2 features and 3 thresholds x every row over 9 boundary values per feature",
        prod(&radix_t),
        move |i, st| {
            let dg = digits(i, &radix_t);
            let sh = ter_shape(dg[0] as u64, 2);
            let k = internals(&sh);
            let a = digits(dg[1] as u64, &[opts; 4]);
            if (k..4).any(|q| a[q] != 0) {
                return Ok(());
            }
            let salt = dg[1] % 7;
            let cov = if ncov == 1 { dg[1] % 3 } else { dg[2] };
            let t = lay(&sh, &mut |q, _| (a[q] % 2, THR[a[q] / 2]), cov, salt);
            let missing = if salt == 3 { 1.0 } else { f64::NAN };
            single(t, missing, 2, st, judge)
        },
    ));
    // depth 3 shapes
    let npat: u64 = if thorough { 27 } else { 9 };
    let (b3, t3) = (n_bin(3), n_ter(3));
    v.push(space(
        "depth3",
        &format!("every binary ({}) and missing-branch ({}) tree shape of depth <= 3 x {} feature patterns over 3 features x 3 cover patterns, 64 rows", b3, t3, npat),
        (b3 + t3) * npat * 3,
        move |i, st| {
            let dg = digits(i, &[b3 + t3, npat, 3]);
            let s = dg[0] as u64;
            let sh = if s < b3 { bin_shape(s, 3) } else { ter_shape(s - b3, 3) };
            let p = digits(dg[1] as u64 + 1, &[3, 3, 3]);
            let t = lay(&sh, &mut |q, d| ((p[0] * q + p[1] * d + p[2]) % 3, THR[(q + d) % 3]), dg[2], dg[1]);
            let missing = if dg[1] % 4 == 3 { -7.0 } else { f64::NAN };
            let data = all_rows(&[missing, -2., 0., 2.5], 3);
            let mut sub = Subject {
                b: model(&[t.clone()], -0.375, missing),
                trees: vec![t],
                data,
                exact: true,
                odd_base: false,
                values: vec![missing, -2., 0., 2., 3.],
                ctx: format!("shape {:?} {:?}", s, p),
            };
            st.states += sub.data.rows as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // deep chains: the same few features met again and again on one path
    v.push(space(
        "chains",
        "chains of depth 4-10 (left, right, alternating, missing), binary and with missing branches, 2-6 features, every column count 1..8 above that",
        7 * 4 * 2 * 5,
        move |i, st| {
            let dg = digits(i, &[7, 4, 2, 5]);
            let depth = 4 + dg[0];
            let nf = 2 + dg[3];
            let sh = chain(depth, dg[1], dg[2] == 1);
            let t = lay(&sh, &mut |q, d| ((q * q + d) % nf, THR[q % 3]), dg[0] % 3, dg[3]);
            let cols = nf + dg[0] % 3;
            let base = all_rows(&[f64::NAN, -3., -1.5, 0.0, 5.], 3);
            let rows: Vec<Vec<f64>> = (0..base.rows).map(|r| (0..cols).map(|c| base.at((r + 31 * (c / 3)) % base.rows, c % 3)).collect()).collect();
            let n = rows.len();
            let mut sub = Subject {
                b: model(&[t.clone()], 0.25, f64::NAN),
                trees: vec![t],
                data: Data::from_rows(&rows, &vec![0.; n], &vec![1.; n]),
                exact: true,
                odd_base: false,
                values: vec![f64::NAN, -2., 0., 2.],
                ctx: format!("chain {:?}", dg),
            };
            st.states += n as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // long paths of different features, one of which returns
    v.push(space(
        "wide-chains",
        "chains on which k = 5..11 different features are followed by the p-th of them again, for every p < k, and one new feature; 4 directions, binary and with missing branches; rows with one feature or all on the other side or missing",
        7 * 11 * 4 * 2,
        move |i, st| {
            let dg = digits(i, &[7, 11, 4, 2]);
            let (k, p) = (5 + dg[0], dg[1]);
            if p >= k {
                return Ok(());
            }
            let sh = chain(k + 2, dg[2], dg[3] == 1);
            let t = lay(&sh, &mut |_, d| if d < k { (d, THR[d % 3]) } else if d == k { (p, THR[(p + 1) % 3]) } else { (k, THR[1]) }, 0, dg[2]);
            let cols = k + 1;
            let mut rows = vec![];
            for v in [-3., 5., f64::NAN] {
                rows.push(vec![v; cols]);
                for j in 0..cols {
                    for u in [-3., 5., f64::NAN, 0.] {
                        if (j + dg[1]) % 3 == 0 || j == p || j == k {
                            let mut r = vec![v; cols];
                            r[j] = u;
                            rows.push(r);
                        }
                    }
                }
            }
            rows.push((0..cols).map(|j| if j % 2 == 0 { -3. } else { 5. }).collect());
            rows.push((0..cols).map(|j| if j % 2 == 1 { -3. } else { 5. }).collect());
            let n = rows.len();
            let mut sub = Subject {
                b: model(&[t.clone()], 0.25, f64::NAN),
                trees: vec![t],
                data: Data::from_rows(&rows, &vec![0.; n], &vec![1.; n]),
                exact: true,
                odd_base: false,
                values: vec![f64::NAN, -2., 0., 2.],
                ctx: format!("wide chain {:?}", dg),
            };
            st.states += n as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // long paths that some row follows to the end
    v.push(space(
        "deep-chains",
        "three chains of depth 12-64 over 5 columns with nested thresholds, 4 directions, binary and with missing branches; rows that follow a chain to its end and rows that leave it at every level",
        14 * 4 * 2,
        move |i, st| {
            let dg = digits(i, &[14, 4, 2]);
            let depth = [12usize, 15, 16, 17, 20, 24, 28, 31, 32, 33, 40, 48, 60, 64][dg[0]];
            let ter = dg[2] == 1;
            let mut trees = vec![];
            let mut rows: Vec<Vec<f64>> = vec![];
            for j in 0..3usize {
                let dir = (dg[1] + j) % 4;
                let dep = if j == 1 { depth } else { depth / 2 + j };
                let (mut lo, mut hi) = ([-4.; 5], [4.; 5]);
                lo[j] = -1e3;
                let mut cuts = vec![];
                for d in 0..dep {
                    let rem = dep - d;
                    let side = match (ter, dir) {
                        (true, 3) => rem % 3,
                        (false, 3) => (rem / 2) % 2,
                        (_, 2) => rem % 2,
                        (_, s) => s,
                    };
                    let f = if side == 2 { 4 } else { (d * (j + 1)) % 4 };
                    let t = if side == 0 { lo[f] + (hi[f] - lo[f]) * 0.75 } else { lo[f] + (hi[f] - lo[f]) * 0.25 };
                    if side == 0 {
                        hi[f] = t;
                    } else if side == 1 {
                        lo[f] = t;
                    }
                    cuts.push((f, t));
                }
                let row: Vec<f64> = (0..5).map(|f| if f == 4 && ter { f64::NAN } else { (lo[f] + hi[f]) / 2. }).collect();
                for (d, (f, t)) in cuts.iter().enumerate() {
                    for v in [*t, t - 1e-9 * (1. + t.abs()), f64::NAN] {
                        if d % 3 == 0 || v == *t {
                            let mut r = row.clone();
                            r[*f] = v;
                            rows.push(r);
                        }
                    }
                }
                rows.push(row);
                trees.push(lay(&chain(dep, dir, ter), &mut |_, d| cuts[d], 1, i as usize + j));
            }
            let n = rows.len();
            let mut sub = Subject {
                b: model(&trees, 0.25, f64::NAN),
                trees,
                data: Data::from_rows(&rows, &vec![0.; n], &vec![1.; n]),
                exact: true,
                odd_base: false,
                values: vec![f64::NAN, -2., 0., 2.],
                ctx: format!("deep chain {:?}", dg),
            };
            st.states += n as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // ensembles
    let nens: u64 = if thorough { 4000 } else { 600 };
    v.push(space(
        "ensembles",
        &format!("{} ensembles of 0-40 enumerated trees (cycling through all shapes of depth <= 3) x every prediction_iteration, 1-5 columns", nens),
        nens,
        move |i, st| {
            let k = [0usize, 1, 2, 3, 4, 5, 6, 17, 40][i as usize % 9];
            let cols = 1 + (i as usize / 9) % 5;
            let missing = [f64::NAN, 0.0, -9.0][(i as usize / 5) % 3];
            let trees: Vec<Vec<N>> = (0..k as u64)
                .map(|q| {
                    let z = i * 131 + q * 977;
                    let sh = if z % 2 == 0 { bin_shape(z % b3, 3) } else { ter_shape(z % t3, 3) };
                    lay(&sh, &mut |a, d| ((a * 2 + d + q as usize) % cols, THR[(a + q as usize) % 3]), (z % 3) as usize, (z % 13) as usize)
                })
                .collect();
            let vals: Vec<f64> = if missing == 0. { vec![0.0, -2., 1., 2., 7.] } else { vec![missing, -2., 0., 2., 7.] };
            let nr = 40usize;
            let rows: Vec<Vec<f64>> = (0..nr).map(|r| (0..cols).map(|c| vals[(r / 5usize.pow((c % 3) as u32) + c * r) % 5]).collect()).collect();
            let mut sub = Subject {
                b: model(&trees, 0.125, missing),
                trees,
                data: Data::from_rows(&rows, &vec![0.; nr], &vec![1.; nr]),
                exact: true,
                odd_base: false,
                values: vals,
                ctx: format!("ensemble {}", i),
            };
            st.states += nr as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // scale: many features, long paths, many trees, extreme weights
    let wide: &'static [usize] = &[0, 1, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 299];
    v.push(space(
        "scale",
        "ensembles over 300 columns (every column is split on, those around powers of two together), chains of depth 12-60, ensembles of 64-600 trees, leaf weights and base scores from 1e-30 to 1e6, gains from 1e-9 to 1e4 and covers from 1e-9 to 1e5",
        13 * 2 + 12 * 2 + 6 + 36 + 26 + 18,
        move |i, st| {
            let mut missing = f64::NAN;
            let mut base = 0.125;
            let mut cols = 3usize;
            let mut exact = true;
            let mut trees: Vec<Vec<N>> = vec![];
            let mut i = i as usize;
            if i >= 118 {
                i -= 118;
                exact = false;
                let (fg, fh) = ([1e-9f32, 1e-4, 1e4][i % 3], [1e-4f32, 1e-9, 1e5][i / 3 % 3]);
                for q in 0..4usize {
                    let z = (i * 131 + q * 977) as u64;
                    let sh = if i < 9 { bin_shape(300 + z % 400, 3) } else { ter_shape(300 + z % 400, 3) };
                    let mut t = lay(&sh, &mut |a, d| ((a * 2 + d + q) % 3, THR[(a + q) % 3]), q % 3, i);
                    t.iter_mut().for_each(|n| {
                        n.gain *= fg;
                        n.h *= fh;
                    });
                    trees.push(t);
                }
            } else if i >= 92 {
                i -= 92;
                cols = 300;
                for q in 0..3usize {
                    let z = (i * 131 + q * 977) as u64;
                    let sh = if i % 2 == 0 { bin_shape(300 + z % 400, 3) } else { ter_shape(300 + z % 400, 3) };
                    trees.push(lay(&sh, &mut |a, d| ((i * 12 + q * 4 + (a * 2 + d) % 4) % 300, THR[(a + q) % 3]), q, i));
                }
            } else if i < 26 {
                cols = 300;
                for q in 0..3usize {
                    let z = (i * 131 + q * 977) as u64;
                    let sh = if i % 2 == 0 { bin_shape(300 + z % 400, 3) } else { ter_shape(300 + z % 400, 3) };
                    trees.push(lay(&sh, &mut |a, d| (wide[(i / 2 + (a * 2 + d) % 4) % 13], THR[(a + q) % 3]), q, i));
                }
            } else if i < 50 {
                i -= 26;
                let ter = i % 2 == 1;
                let depth = [12, 16, 17, 20, 31, 32, 33, 40, 48, 60, 24, 28][i / 2];
                cols = 5;
                let mut sh = Sh::Leaf;
                for d in 0..depth {
                    let (c, l) = (Box::new(sh), Box::new(Sh::Leaf));
                    sh = match (ter, (d / (1 + i % 3)) % 3) {
                        (true, 0) => Sh::Ter(c, l, Box::new(Sh::Leaf)),
                        (true, 1) => Sh::Ter(l, c, Box::new(Sh::Leaf)),
                        (true, _) => Sh::Ter(l, Box::new(Sh::Leaf), c),
                        (false, k) if k % 2 == 0 => Sh::Bin(d % 4 == 0, c, l),
                        (false, _) => Sh::Bin(d % 4 != 1, l, c),
                    };
                }
                for j in 0..3 {
                    trees.push(lay(&sh, &mut |q, d| ((q * q + d + j) % 5, THR[(q + j) % 3]), 1, i + j));
                }
            } else if i < 56 {
                i -= 50;
                let k = [64usize, 65, 128, 256, 257, 600][i];
                for q in 0..k {
                    let z = (q * 977 + i) as u64;
                    let sh = if z % 2 == 0 { bin_shape(z % n_bin(2), 2) } else { ter_shape(z % n_ter(2), 2) };
                    trees.push(lay(&sh, &mut |a, d| ((a * 2 + d + q) % 3, THR[(a + q) % 3]), q % 3, q));
                }
            } else {
                i -= 56;
                exact = false;
                let f = [1e-30, 1e-6, 20., 100., 1e3, 1e6][i % 6];
                base = [0., -4., 30., -36., 700., -1e5][i / 6];
                if i % 5 == 4 {
                    missing = 7.0;
                }
                for q in 0..4usize {
                    let z = (i * 131 + q * 977) as u64;
                    let sh = if z % 2 == 0 { bin_shape(300 + z % 400, 3) } else { ter_shape(300 + z % 400, 3) };
                    let mut t = lay(&sh, &mut |a, d| ((a * 2 + d + q) % 3, THR[(a + q) % 3]), q % 3, i);
                    t.iter_mut().for_each(|n| n.w = (n.w as f64 * f) as f32);
                    trees.push(t);
                }
            }
            let vals = [missing, -2., 0., 2., 9.];
            let nr = 30usize;
            let rows: Vec<Vec<f64>> = (0..nr).map(|r| (0..cols).map(|c| vals[(r / 5usize.pow((c % 3) as u32) + c * r + c / 3) % 5]).collect()).collect();
            let mut sub = Subject {
                b: model(&trees, base, missing),
                trees,
                data: Data::from_rows(&rows, &vec![0.; nr], &vec![1.; nr]),
                exact,
                odd_base: false,
                values: if cols > 10 { vec![missing, 0.] } else { vals.to_vec() },
                ctx: format!("scale {}", i),
            };
            st.states += nr as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // number of rows: internal chunking must not matter
    if rows_matter {
        let counts: Vec<usize> = (0..=70).chain([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4096, 4097, 5000, 8192, 8193, 16385]).collect();
        let nc = counts.len() as u64;
        v.push(space(
            "row-counts",
            "matrices of every row count 0..70 and around powers of two up to 16385, 4 models",
            nc * 4,
            move |i, st| {
                let n = counts[(i % nc) as usize];
                let q = i / nc;
                let cols = 3;
                let trees: Vec<Vec<N>> = (0..3 + q)
                    .map(|z| {
                        let sh = if (z + q) % 2 == 0 { bin_shape((z * 313 + 700) % b3, 3) } else { ter_shape((z * 211 + 725) % t3, 3) };
                        lay(&sh, &mut |a, d| ((a + d + z as usize) % cols, THR[(a * 2 + z as usize) % 3]), (z % 3) as usize, z as usize)
                    })
                    .collect();
                let vals = [f64::NAN, -2., -1., 0., 1., 2., 7.];
                let mut d = Data::new(cols);
                d.rows = n;
                for c in 0..cols {
                    for r in 0..n {
                        d.x.push(vals[(r * (c + 1) + r / 7 + c) % 7]);
                    }
                }
                d.y = vec![0.; n];
                d.w = vec![1.; n];
                let mut sub = Subject { b: model(&trees, 0.125, f64::NAN), trees, data: d, exact: true, odd_base: false, values: vec![], ctx: format!("{} rows", n) };
                st.states += n as u64;
                st.traces += 1;
                let k = sub.trees.len();
                sub.b.prediction_iteration = if q == 3 { Some(k - 1) } else { None };
                if q == 3 {
                    sub.trees.pop();
                }
                judge(&sub, st).map_err(|e| format!("{} [{}]", e, sub.ctx))
            },
        ));
    }
    // large trees: node numbers in the hundreds and thousands, every leaf reached
    v.push(space(
        "large-trees",
        "complete binary trees of depth 7-10 and ternary trees of depth 4-7 (up to 3280 nodes), one column per level, alone and after a small tree; rows that reach every leaf (where the property is about rows: all of them, else every 61st)",
        16,
        move |i, st| {
            let ter = i % 2 == 1;
            let depth = if ter { [4, 5, 6, 7] } else { [7, 8, 9, 10] }[(i / 2 % 4) as usize];
            fn full(d: usize, ter: bool, k: usize) -> Sh {
                if d == 0 {
                    return Sh::Leaf;
                }
                let c = || Box::new(full(d - 1, ter, k / 2));
                if ter {
                    Sh::Ter(c(), c(), c())
                } else {
                    Sh::Bin((d + k) % 2 == 0, c(), c())
                }
            }
            let mut trees = vec![];
            if i >= 8 {
                trees.push(lay(&bin_shape(700, 3), &mut |a, d| ((a + d) % depth, THR[a % 3]), 0, 3));
            }
            trees.push(lay(&full(depth, ter, i as usize), &mut |_, d| (d, THR[d % 3]), (i % 3) as usize, i as usize));
            let vals = [-2., 3., f64::NAN];
            let b = if ter { 3usize } else { 2 };
            let rows: Vec<Vec<f64>> = (0..b.pow(depth as u32))
                .step_by(if rows_matter { 1 } else { 61 })
                .map(|r| (0..depth).map(|c| if !ter && r % 7 == 3 && c % 4 == 1 { f64::NAN } else { vals[r / b.pow(c as u32) % b] }).collect())
                .collect();
            let nr = rows.len();
            let mut sub = Subject {
                b: model(&trees, 0.125, f64::NAN),
                trees,
                data: Data::from_rows(&rows, &vec![0.; nr], &vec![1.; nr]),
                exact: true,
                odd_base: false,
                values: vec![f64::NAN, 0.],
                ctx: format!("large tree {}", i),
            };
            st.states += nr as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // many columns and many trees
    v.push(space(
        "many-columns",
        "ensembles of 1, 12, 40 and 120 trees of 1-7 splits over 17-600 columns (at most 16000 of both multiplied), every column used in turn, on 5 rows of boundary values and missing ones",
        7 * 4 * 2,
        move |i, st| {
            let dg = digits(i, &[7, 4, 2]);
            let cols = [17usize, 33, 65, 101, 130, 260, 600][dg[0]];
            let nt = [1usize, 12, 40, 120][dg[1]];
            if cols * nt > 16000 {
                return Ok(());
            }
            let ter = dg[2] == 1;
            let mut f = 0usize;
            let trees: Vec<Vec<N>> = (0..nt)
                .map(|t| {
                    let shape = if ter { ter_shape((t as u64 * 31 + 8) % n_ter(2).max(1), 2) } else { bin_shape((t as u64 * 97 + 700) % n_bin(3), 3) };
                    lay(&shape, &mut |a, d| { f += 1; ((f * 7 + t) % cols, THR[(a + d) % 3]) }, t % 3, t)
                })
                .collect();
            let vals = [-2., 0., 0.5, 3., f64::NAN];
            let rows: Vec<Vec<f64>> = (0..5usize).map(|r| (0..cols).map(|c| vals[(r * (c % 3 + 1) + c * c + r) % 5]).collect()).collect();
            let nr = rows.len();
            let mut sub = Subject {
                b: model(&trees, 0.125, f64::NAN),
                trees,
                data: Data::from_rows(&rows, &vec![0.; nr], &vec![1.; nr]),
                exact: nt == 1,
                odd_base: false,
                values: vec![f64::NAN, 0.],
                ctx: format!("many columns {}", i),
            };
            st.states += nr as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    // trained models
    let nk: u64 = if thorough { 48 } else { 12 };
    let radix_f = [2, MISSING_MODES as u64, nk, 3];
    v.push(space(
        "trained",
        &format!("models trained on {} structured data sets x 2 objectives x 9 missing modes x 3 depth/leaf limits, 4 rounds, evaluated on training and out-of-range rows", nk),
        prod(&radix_f),
        move |i, st| {
            let dg = digits(i, &radix_f);
            let mut c = Cfg { iters: 4, lr: 0.4, mlw: 0.2, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.base = if dg[3] == 0 { None } else { Some(0.3) };
            missing_mode(&mut c, dg[1]);
            c.max_depth = [6, 2, 4][dg[3]];
            c.max_leaves = [usize::MAX, usize::MAX, 6][dg[3]];
            c.lossguide = dg[2] % 2 == 1;
            let mut d = rich(dg[2], dg[0] == 0);
            if dg[2] % 3 == 2 {
                // sentinel instead of NaN
                c.missing = -999.;
                for x in d.x.iter_mut() {
                    if x.is_nan() {
                        *x = -999.;
                    }
                }
            }
            let b = fit(&c, &d)?;
            let mut rows: Vec<Vec<f64>> = (0..d.rows).map(|r| d.row(r)).collect();
            for r in 0..20 {
                rows.push((0..d.cols).map(|j| if (r + j) % 4 == 0 { c.missing } else { (r as f64 - 9.5) * (1. + j as f64 * 3.) }).collect());
            }
            let n = rows.len();
            let trees = snap_all(&b);
            let mut sub = Subject {
                b,
                trees,
                data: Data::from_rows(&rows, &vec![0.; n], &vec![1.; n]),
                exact: false,
                odd_base: false,
                values: vec![c.missing, -1e3, 0., 1.5, 3., 1e3],
                ctx: format!("trained {:?}", dg),
            };
            st.states += n as u64;
            st.traces += 1;
            with_prefixes(&mut sub, st, judge)
        },
    ));
    v
}
fn single(t: Vec<N>, missing: f64, cols: usize, st: &mut Stats, judge: Judge) -> Result<(), String> {
    let vals = edge_values(missing);
    let data = all_rows(&vals, cols);
    st.states += data.rows as u64;
    st.traces += 1;
    let mut sub = Subject { b: model(&[t.clone()], 0.5, missing), ctx: format!("{:?}", t), trees: vec![t], data, exact: true, odd_base: false, values: vals };
    with_prefixes(&mut sub, st, judge)
}
fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

// ------------------------------------------------------------------ C08
pub fn j_predict(s: &Subject, st: &mut Stats) -> Result<(), String> {
    let d = &s.data;
    let got = s.b.predict(&d.m(), false);
    if got.len() != d.rows {
        return Err(format!("{} predictions for {} rows", got.len(), d.rows));
    }
    let par = s.b.predict(&d.m(), true);
    if !same(&got, &par) {
        return Err("predict differs between parallel and serial".into());
    }
    let leaves = s.b.predict_leaf_indices(&d.m());
    if leaves.len() != d.rows * s.trees.len() {
        return Err(format!("{} leaf indices for {} rows and {} trees", leaves.len(), d.rows, s.trees.len()));
    }
    let missing = s.b.missing;
    let sc = s.scale();
    for r in 0..d.rows {
        let row = d.row(r);
        let mut e = s.b.base_score;
        for (k, t) in s.trees.iter().enumerate() {
            let l = leaf_of(t, &row, missing)?;
            e += t[l].w as f64;
            if leaves[k * d.rows + r] != l {
                return Err(format!("row {:?}, tree {}: leaf index {} but the row is routed to {}", row, k, leaves[k * d.rows + r], l));
            }
        }
        st.evaluations += 1;
        if !((got[r] - e).abs() <= if s.exact { 0. } else { 1e-12 * sc }) {
            return Err(format!("row {:?}: predicted {} but base score plus leaf weights is {}", row, got[r], e));
        }
    }
    // the trees' own methods agree
    for (k, t) in s.trees.iter().enumerate() {
        let tr = &s.b.trees[k];
        let (a, p) = (tr.predict(&d.m(), false, &missing), tr.predict(&d.m(), true, &missing));
        let li = tr.predict_leaf_indices(&d.m(), &missing);
        for r in 0..d.rows {
            let w = t[leaves[k * d.rows + r]].w as f64;
            let one = tr.predict_row_from_row_slice(&d.row(r), &missing);
            if !(a[r] == w && p[r] == w && one == w) || li[r] != leaves[k * d.rows + r] {
                return Err(format!("row {:?}, tree {}: Tree::predict {} / {}, predict_row_from_row_slice {}, leaf {} but leaf {} has weight {}", d.row(r), k, a[r], p[r], one, li[r], leaves[k * d.rows + r], w));
            }
        }
        st.evaluations += 1;
    }
    // a row's result does not depend on its company
    if d.rows > 1 && d.rows <= 200 {
        for (a, step) in [(0usize, 1usize), (d.rows - 1, d.rows - 1)] {
            let idx: Vec<usize> = if a == 0 { vec![d.rows / 2] } else { (0..d.rows).map(|i| (a + i * step) % d.rows).collect() };
            let sub = d.subset(&idx);
            let p = s.b.predict(&sub.m(), false);
            let want: Vec<f64> = idx.iter().map(|i| got[*i]).collect();
            if !same(&p, &want) {
                return Err("prediction of a row changes with the other rows or their order".into());
            }
            let li = s.b.predict_leaf_indices(&sub.m());
            for k in 0..s.trees.len() {
                for (q, i) in idx.iter().enumerate() {
                    if li[k * idx.len() + q] != leaves[k * d.rows + i] {
                        return Err("leaf index of a row changes with the other rows or their order".into());
                    }
                }
            }
        }
        st.evaluations += 2;
    }
    if s.trees.iter().any(|t| t.len() > 1) {
        st.nontrivial += 1;
    }
    Ok(())
}
pub fn c08<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = model_spaces(th, true, j_predict);
    // setter semantics
    v.push(space("setter", "set_prediction_iteration(None | Some(0..k-1)) for ensembles of k = 1..12 trees", 12, |i, st| {
        let k = i as usize + 1;
        let trees: Vec<Vec<N>> = (0..k as u64).map(|q| lay(&bin_shape(1 + q * 37 % 722, 3), &mut |a, _| (a % 2, THR[a % 3]), 0, q as usize)).collect();
        let data = all_rows(&[f64::NAN, -2., 0., 3.], 2);
        for p in 0..=k {
            let mut s = Subject { b: model(&trees, 0.5, f64::NAN), trees: trees.clone(), data: data.clone(), exact: true, odd_base: false, values: vec![], ctx: String::new() };
            if p == k {
                s.b = s.b.set_prediction_iteration(None);
            } else {
                s.b = s.b.set_prediction_iteration(Some(p));
                s.trees.truncate(p + 1);
            }
            j_predict(&s, st).map_err(|e| format!("set_prediction_iteration({}) of {}: {}", p, k, e))?;
            st.states += 1;
            st.transitions += 1;
        }
        st.traces += 1;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C09
fn j_sums(s: &Subject, st: &mut Stats) -> Result<(), String> {
    let d = &s.data;
    let pred = s.b.predict(&d.m(), false);
    let sc = s.scale();
    let log = matches!(s.b.objective_type, forust_ml::objective::ObjectiveType::LogLoss);
    for m in [CM::Weight, CM::Average, CM::Shap, CM::Prob] {
        if m == CM::Prob && !log {
            continue;
        }
        for par in [false, true] {
            let c = s.b.predict_contributions(&d.m(), to_cm(m), par);
            if c.len() != d.rows * (d.cols + 1) {
                return Err(format!("{:?}: {} contributions for {} rows and {} columns", m, c.len(), d.rows, d.cols));
            }
            for r in 0..d.rows {
                let sum: f64 = c[r * (d.cols + 1)..(r + 1) * (d.cols + 1)].iter().sum();
                let (want, tol) = match m {
                    CM::Prob => (sigmoid(pred[r]), 1e-7),
                    CM::Shap => (pred[r], 2e-4 * sc),
                    _ if s.exact || s.odd_base => (pred[r], 1e-10 * sc),
                    _ => (pred[r], 2e-6 * sc),
                };
                st.evaluations += 1;
                if !((sum - want).abs() <= tol) {
                    return Err(format!("{:?} (parallel {}) row {:?}: contributions sum to {} instead of {}", m, par, d.row(r), sum, want));
                }
            }
        }
    }
    if s.trees.iter().any(|t| t.len() > 1) {
        st.nontrivial += 1;
    }
    Ok(())
}
pub fn c09<'a>(th: bool) -> Vec<Space<'a>> {
    model_spaces(th, true, j_sums)
}

// ------------------------------------------------------------------ C10
fn j_contribs(s: &Subject, st: &mut Stats) -> Result<(), String> {
    let d = &s.data;
    let sc = s.scale();
    let log = matches!(s.b.objective_type, forust_ml::objective::ObjectiveType::LogLoss);
    for m in CMS {
        if m == CM::Prob && !log {
            continue;
        }
        let c = s.b.predict_contributions(&d.m(), to_cm(m), false);
        let p = s.b.predict_contributions(&d.m(), to_cm(m), true);
        if !same(&c, &p) {
            return Err(format!("{:?}: contributions differ between parallel and serial", m));
        }
        if c.len() != d.rows * (d.cols + 1) {
            return Err(format!("{:?}: {} contributions for {} rows and {} columns", m, c.len(), d.rows, d.cols));
        }
        let tol = match m {
            CM::Shap => 5e-5 * sc,
            CM::Prob => 1e-7,
            CM::Weight | CM::Average if s.exact || s.odd_base => 1e-10 * sc,
            _ => 2e-6 * sc,
        };
        // big matrices: the rows repeat with period 7*7*7
        let limit = d.rows.min(if m == CM::Shap && d.rows > 400 { 400 } else { usize::MAX });
        for q in 0..limit {
            let r = if limit < d.rows { d.rows - 1 - q } else { q };
            let row = d.row(r);
            let e = contributions(&s.trees, s.b.base_score, &row, s.b.missing, m);
            let got = &c[r * (d.cols + 1)..(r + 1) * (d.cols + 1)];
            st.evaluations += 1;
            for (j, (a, b)) in got.iter().zip(&e).enumerate() {
                if !((a - b).abs() <= tol) {
                    return Err(format!("{:?} row {:?}: {} is {} but by definition {} (all: {:?} vs {:?})", m, row, if j == d.cols { "bias".into() } else { format!("feature {}", j) }, a, b, got, e));
                }
            }
        }
    }
    // the trees' own methods add exactly the tree's share
    for (k, t) in s.trees.iter().enumerate() {
        let tr = &s.b.trees[k];
        let mean = tr.distribute_leaf_weights();
        for i in 0..t.len() {
            let e = mean_leaf(t, i);
            if !((mean[i] - e).abs() <= 2e-6 * sc) || !((tr.get_average_leaf_weights(i) - e).abs() <= 2e-6 * sc) {
                return Err(format!("tree {} node {}: mean leaf weight {} / {} but by definition {}", k, i, mean[i], tr.get_average_leaf_weights(i), e));
            }
        }
        for m in [CM::Weight, CM::Average] {
            let off = 0.25 * sc;
            let mut c = vec![off; d.rows * (d.cols + 1)];
            match m {
                CM::Weight => tr.predict_contributions_weight(&d.m(), &mut c, &s.b.missing),
                _ => tr.predict_contributions_average(&d.m(), &mut c, &mean, &s.b.missing),
            }
            for r in 0..d.rows.min(400) {
                let e = contributions(&s.trees[k..k + 1], 0., &d.row(r), s.b.missing, m);
                for (a, b) in c[r * (d.cols + 1)..].iter().zip(&e) {
                    if !((a - off - b).abs() <= 2e-6 * sc) {
                        return Err(format!("tree {} {:?} row {:?}: added {} instead of {}", k, m, d.row(r), a - off, b));
                    }
                }
            }
            st.evaluations += 1;
        }
    }
    if s.trees.iter().any(|t| t.len() > 1) {
        st.nontrivial += 1;
    }
    Ok(())
}
pub fn c10<'a>(th: bool) -> Vec<Space<'a>> {
    model_spaces(th, true, j_contribs)
}

// ------------------------------------------------------------------ C11
fn j_pd(s: &Subject, st: &mut Stats) -> Result<(), String> {
    let sc = s.scale();
    let missing = s.b.missing;
    let mut used: Vec<usize> = s.trees.iter().flatten().filter(|n| !n.leaf).map(|n| n.sf).collect();
    used.sort();
    used.dedup();
    for f in 0..=s.data.cols {
        for v in &s.values {
            let e = pd(&s.trees, s.b.base_score, f, *v, missing);
            for par in [false, true] {
                // value_partial_dependence reads the booster's own parallel setting
                let g = with_parallel(s, par, |b| b.value_partial_dependence(f, *v));
                st.evaluations += 1;
                if !((g - e).abs() <= 1e-5 * sc) {
                    return Err(format!("partial dependence of feature {} at {} is {} but the expectation is {} (parallel {})", f, v, g, e, par));
                }
                if used.len() == 1 && used[0] == f || used.is_empty() {
                    let row: Vec<f64> = vec![*v; s.data.cols];
                    let one = Data::from_rows(&[row], &[0.], &[1.]);
                    let p = s.b.predict(&one.m(), false)[0];
                    if !((g - p).abs() <= 1e-5 * sc) {
                        return Err(format!("model of feature {} only: partial dependence {} at {} but prediction {}", f, g, v, p));
                    }
                }
            }
        }
    }
    if s.trees.iter().any(|t| t.len() > 1) {
        st.nontrivial += 1;
    }
    Ok(())
}
fn with_parallel<R>(s: &Subject, par: bool, f: impl Fn(&GradientBooster) -> R) -> R {
    // GradientBooster is not Clone: rebuild only when the setting differs
    if s.b.parallel == par {
        f(&s.b)
    } else {
        let mut o = GradientBooster::default();
        o.base_score = s.b.base_score;
        o.missing = s.b.missing;
        o.parallel = par;
        o.prediction_iteration = s.b.prediction_iteration;
        o.trees = snap_all(&s.b).iter().map(|t| to_tree(t)).collect();
        f(&o)
    }
}
pub fn c11<'a>(th: bool) -> Vec<Space<'a>> {
    model_spaces(th, false, j_pd)
}

// ------------------------------------------------------------------ C12
fn j_importance(s: &Subject, st: &mut Stats) -> Result<(), String> {
    let full = snap_all(&s.b);
    let e = importances(&full);
    for (name, meth) in [("Weight", 0), ("Gain", 1), ("Cover", 2), ("TotalGain", 3), ("TotalCover", 4)] {
        let mk = || match meth {
            0 => ImportanceMethod::Weight,
            1 => ImportanceMethod::Gain,
            2 => ImportanceMethod::Cover,
            3 => ImportanceMethod::TotalGain,
            _ => ImportanceMethod::TotalCover,
        };
        let val = |t: &(f64, f64, f64)| match meth {
            0 => t.0,
            1 => t.1 / t.0,
            2 => t.2 / t.0,
            3 => t.1,
            _ => t.2,
        };
        let total: f64 = e.values().map(|t| val(t)).sum();
        for norm in [false, true] {
            let got = s.b.calculate_feature_importance(mk(), norm);
            st.evaluations += 1;
            let mut keys: Vec<usize> = got.keys().copied().collect();
            keys.sort();
            if keys != e.keys().copied().collect::<Vec<_>>() {
                return Err(format!("{}: importance reported for features {:?} but splits use {:?}", name, keys, e.keys()));
            }
            for (f, t) in &e {
                let w = if norm { val(t) / total } else { val(t) };
                let g = got[f] as f64;
                if !((g - w).abs() <= 3e-6 * (w.abs() + total.abs() * if norm { 1. / total.abs() } else { 1. })) {
                    return Err(format!("{} (normalize {}): feature {} has importance {} but by definition {}", name, norm, f, g, w));
                }
            }
            if norm && !e.is_empty() {
                let s: f64 = got.values().map(|x| *x as f64).sum();
                if (s - 1.).abs() > 1e-5 {
                    return Err(format!("{}: normalised importances sum to {}", name, s));
                }
            }
        }
    }
    if !e.is_empty() {
        st.nontrivial += 1;
    }
    Ok(())
}
pub fn c12<'a>(th: bool) -> Vec<Space<'a>> {
    model_spaces(th, false, j_importance)
}

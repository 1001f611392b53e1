//! Spaces of training problems shared by the properties about fitted trees.
use crate::core::*;
use forust_ml::GradientBooster;

pub const NAN: f64 = f64::NAN;

/// (x, y) symbol sequences: one feature over {NaN,1,2,3}, y in {0,1}; radix 8.
pub fn tiny1(seq: &[usize], wpat: usize) -> Data {
    let mut d = Data::new(1);
    d.rows = seq.len();
    for (i, s) in seq.iter().enumerate() {
        let xi = s % 4;
        d.x.push(if xi == 0 { NAN } else { xi as f64 });
        d.y.push((s / 4) as f64);
        d.w.push(weight_pattern(wpat, i));
    }
    d
}
/// two features over {NaN,1,2}, y in {0,1}; radix 18.
pub fn tiny2(seq: &[usize], wpat: usize) -> Data {
    let mut d = Data::new(2);
    let n = seq.len();
    d.rows = n;
    for j in 0..2 {
        for s in seq {
            let xi = if j == 0 { s % 3 } else { (s / 3) % 3 };
            d.x.push(if xi == 0 { NAN } else { xi as f64 });
        }
    }
    for (i, s) in seq.iter().enumerate() {
        d.y.push((s / 9) as f64);
        d.w.push(weight_pattern(wpat, i));
    }
    d
}
pub fn weight_pattern(p: usize, i: usize) -> f64 {
    match p {
        0 => 1.,
        1 => [1., 2., 0.5, 3.][i % 4],
        2 => [1., 1., 2., 4., 1.][i % 5],
        _ => [0.25, 1.5, 1., 2., 5., 0.75][i % 6],
    }
}
/// Fixed structured data sets: k selects shape, missing density, ties, weights.
/// `binary` gives labels in {0,1}, otherwise small real targets.
pub fn rich(k: usize, binary: bool) -> Data {
    let shapes: [(usize, usize, u64, u64); 12] = [
        // rows, cols, distinct values per feature, missing out of 8
        (8, 2, 3, 1),
        (10, 2, 4, 2),
        (12, 3, 3, 0),
        (12, 2, 6, 3),
        (15, 3, 5, 1),
        (16, 2, 8, 2),
        (17, 3, 4, 4),
        (20, 3, 10, 1),
        (24, 4, 3, 2),
        (33, 2, 20, 1),
        (40, 3, 12, 2),
        (48, 4, 6, 3),
    ];
    let (n, c, dv, md) = shapes[k % shapes.len()];
    let wpat = (k / shapes.len()) % 3;
    let mut r = Lcg(0x9E37_79B9 + k as u64 * 7919);
    for _ in 0..8 {
        r.next();
    }
    let mut d = Data::new(c);
    d.rows = n;
    for j in 0..c {
        for _ in 0..n {
            let v = r.below(dv) as f64;
            let miss = r.below(8) < md;
            // spread of magnitudes and signs
            let v = match j % 3 {
                0 => v + 1.,
                1 => (v - 2.) * 1.5,
                _ => v * 100. - 37.25,
            };
            d.x.push(if miss { NAN } else { v });
        }
    }
    for i in 0..n {
        let x0 = d.at(i, 0);
        let x1 = d.at(i, 1);
        let s = if x0.is_nan() { 1.5 } else { x0 } - if x1.is_nan() { -0.5 } else { x1 } + (r.below(5) as f64) - 2.;
        if binary {
            d.y.push(if s > 1. { 1. } else { 0. });
        } else {
            d.y.push((s * 2.).round() / 2.);
        }
        d.w.push(weight_pattern(if wpat == 0 { 0 } else { wpat + 1 }, i));
    }
    if binary && (d.y.iter().all(|v| *v == 0.) || d.y.iter().all(|v| *v == 1.)) {
        d.y[0] = 1. - d.y[0];
    }
    d
}

pub const MISSING_MODES: usize = 9;
pub fn missing_mode(c: &mut Cfg, m: usize) {
    match m {
        0 => {
            c.cmb = false;
            c.ams = true;
        }
        1 => {
            c.cmb = false;
            c.ams = false;
        }
        2..=5 => {
            c.cmb = true;
            c.ams = true;
            c.treat = TREATS[m - 2];
        }
        6 => {
            c.cmb = true;
            c.ams = false;
            c.treat = Treat::None;
        }
        7 => {
            c.cmb = true;
            c.ams = true;
            c.treat = Treat::None;
            c.term = vec![0];
        }
        _ => {
            c.cmb = true;
            c.ams = true;
            c.force = true;
            c.treat = Treat::Parent;
        }
    }
}
pub const REGS: [(f32, f32, f32, f32); 6] = [
    // l1, l2, max_delta_step, gamma
    (0., 1., 0., 0.),
    (0., 0., 0., 0.),
    (0.5, 1., 0., 0.),
    (0., 1., 0.25, 0.),
    (0., 0.5, 0., 0.4),
    (0.25, 0., 0.5, 0.1),
];
pub fn reg(c: &mut Cfg, r: usize) {
    let (a, b, m, g) = REGS[r];
    c.l1 = a;
    c.l2 = b;
    c.mds = m;
    c.gamma = g;
}
pub const MONOS: [[Mono; 4]; 5] =
    [[2, 2, 2, 2], [1, 1, 1, 1], [-1, 2, 2, 2], [2, 1, 0, -1], [1, -1, 2, 0]];

pub type Check = fn(&Cfg, &Data, &GradientBooster, f64, &mut Stats) -> Result<(), String>;

fn one(cfg: &Cfg, d: &Data, eps: f64, st: &mut Stats, check: Check) -> Result<(), String> {
    let ctx = |e: String| format!("{}\n  cfg {:?}\n  data {:?}", e, cfg, d);
    // evaluation data must not make a difference to the trees: present in every other data set
    let b = if d.y.iter().filter(|v| **v > 0.).count() % 2 == 1 {
        let half: Vec<usize> = (0..d.rows.min(64)).step_by(2).collect();
        let e = d.subset(&half);
        let mut b = cfg.make();
        b.fit(&d.m(), &d.y, &d.w, Some(vec![(e.m(), &e.y[..], &e.w[..]), (d.m(), &d.y[..], &d.w[..])])).map_err(|e| ctx(format!("fit refused valid data: {}", e)))?;
        b
    } else {
        fit(cfg, d).map_err(ctx)?
    };
    st.traces += 1;
    check(cfg, d, &b, eps, st).map_err(ctx)?;
    if st.samples.len() < 2 && b.trees.iter().any(|t| t.nodes.len() > 3) {
        st.samples.push(format!("fit n={} cols={} {:?}", d.rows, d.cols, cfg).chars().take(420).collect());
    }
    Ok(())
}

/// The standard family of spaces of training problems.
pub fn fit_spaces<'a>(thorough: bool, limits: bool, check: Check) -> Vec<Space<'a>> {
    let mut v = vec![];
    // all one-feature sequences
    let n1 = if thorough { 6 } else { 5 };
    let size = 8u64.pow(n1) * 2 * MISSING_MODES as u64;
    let nreg1: u64 = if thorough { 6 } else { 3 };
    v.push(space(
        "tiny1",
        &format!("every sequence of {} records over x in {{missing,1,2,3}}, y in {{0,1}} x 2 objectives x 9 missing modes x {} regularisations, 2 rounds", n1, nreg1),
        size * nreg1,
        move |i, st| {
            let dg = digits(i, &[2, MISSING_MODES as u64, nreg1, 8u64.pow(n1)]);
            let seq = digits(dg[3] as u64, &vec![8; n1 as usize]);
            let d = tiny1(&seq, dg[3] % 3);
            let mut c = Cfg { iters: 2, mlw: 0.2, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, dg[2]);
            if limits {
                c.max_leaves = [usize::MAX, 2, 3, 4, 5][(dg[3] / 7) % 5];
                c.max_depth = [5, 1, 2, 3][(dg[3] / 11) % 4];
            }
            one(&c, &d, 2e-5, st, check)
        },
    ));
    // all two-feature sequences of 4 records
    let n2 = 4u32;
    let nreg2: u64 = if thorough { 6 } else { 1 };
    v.push(space(
        "tiny2",
        &format!("every sequence of 4 records over two features in {{missing,1,2}}, y in {{0,1}} x 2 objectives x 9 missing modes x {} regularisations", nreg2),
        18u64.pow(n2) * 2 * MISSING_MODES as u64 * nreg2,
        move |i, st| {
            let dg = digits(i, &[2, MISSING_MODES as u64, nreg2, 18u64.pow(n2)]);
            let seq = digits(dg[3] as u64, &vec![18; n2 as usize]);
            let d = tiny2(&seq, dg[3] % 3);
            let mut c = Cfg { iters: 1, mlw: 0.2, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, if nreg2 == 1 { dg[3] % 6 } else { dg[2] });
            if limits {
                c.max_leaves = [usize::MAX, 2, 3, 4, 5][(dg[3] / 7) % 5];
                c.max_depth = [5, 1, 2, 3][(dg[3] / 11) % 4];
            }
            one(&c, &d, 2e-5, st, check)
        },
    ));
    // multisets of two-feature records, one size up, in a scrambled order
    let n3: u64 = if thorough { 6 } else { 5 };
    v.push(space(
        "tiny2m",
        &format!("every multiset of {} two-feature records (order interleaved) x 9 missing modes", n3),
        nmultiset(18, n3) * MISSING_MODES as u64,
        move |i, st| {
            let dg = digits(i, &[MISSING_MODES as u64, nmultiset(18, n3)]);
            let mut seq = multiset(dg[1] as u64, 18, n3);
            // interleave ends so the stored order is not sorted
            let mut s2 = vec![];
            while !seq.is_empty() {
                s2.push(seq.remove(0));
                if let Some(x) = seq.pop() {
                    s2.push(x);
                }
            }
            let d = tiny2(&s2, (dg[1] + 1) % 3);
            let mut c = Cfg { iters: 2, mlw: 0.2, ..Cfg::default() };
            c.obj = if dg[1] % 2 == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[0]);
            reg(&mut c, (dg[1] / 2) % 6);
            if limits {
                c.max_leaves = [usize::MAX, 2, 3, 4, 5][(dg[1] / 7) % 5];
                c.max_depth = [5, 1, 2, 3][(dg[1] / 11) % 4];
                c.lossguide = (dg[1] / 13) % 2 == 1;
            }
            one(&c, &d, 2e-5, st, check)
        },
    ));
    // parameter lattice on structured data
    let nk: u64 = if thorough { 72 } else { 12 };
    let radix: [u64; 9] = [2, MISSING_MODES as u64, 6, 5, 2, 4, 3, if limits { 5 } else { 1 }, nk];
    v.push(space(
        "lattice",
        &format!("full product of 2 objectives x 9 missing modes x 6 regularisations x 5 constraint maps x 2 grow policies x 4 depths (0 included) x 3 bin counts{} on {} structured data sets (8-48 rows, 2-4 features), 3 rounds", if limits {" x 5 leaf limits"} else {""}, nk),
        prod(&radix),
        move |i, st| {
            let dg = digits(i, &radix);
            let mut c = Cfg { iters: 3, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.mlw = if dg[0] == 0 { 0.3 } else { 1. };
            c.base = if dg[8] % 2 == 0 { None } else { Some(0.5) };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, dg[2]);
            c.mono = MONOS[dg[3]].to_vec();
            c.lossguide = dg[4] == 1;
            c.max_depth = [6, 1, 3, 0][dg[5]];
            c.nbins = [256, 2, 5][dg[6]];
            c.max_leaves = [usize::MAX, 2, 3, 5, 8][dg[7]];
            c.lr = [0.3, 1.0, 0.05][dg[8] % 3];
            let d = rich(dg[8], dg[0] == 0);
            one(&c, &d, 2e-5, st, check)
        },
    ));
    // larger data: more than 16 lanes, more than 256 distinct values
    let big: &'static [(usize, u64)] = &[(64, 64), (100, 40), (257, 257), (300, 300), (513, 400), (700, 90), (1500, 1100)];
    let radix_b: [u64; 5] = [2, MISSING_MODES as u64, 4, big.len() as u64, if thorough { 6 } else { 1 }];
    v.push(space(
        "large",
        "structured data sets with 64-1500 rows and up to 1100 distinct values x 2 objectives x 9 missing modes x 4 bin counts (4, 50, 256, 2000)",
        prod(&radix_b),
        move |i, st| {
            let dg = digits(i, &radix_b);
            let (n, dv) = big[dg[3]];
            let d = large(n, dv, dg[0] == 0, dg[4] as u64);
            let mut c = Cfg { iters: 2, max_depth: 4, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.base = if dg[4] % 2 == 0 { Some(0.) } else { None };
            missing_mode(&mut c, dg[1]);
            c.nbins = [4, 50, 256, 2000][dg[2]];
            if limits {
                c.max_leaves = [6, 7, 9, 12][dg[2]];
                c.lossguide = dg[3] % 2 == 1;
            }
            c.parallel = (dg[1] + dg[3]) % 2 == 1;
            one(&c, &d, 1e-4, st, check)
        },
    ));
    // every weight vector including zeros, and targets of other magnitudes
    let nw: u32 = if thorough { 5 } else { 4 };
    v.push(space(
        "weights",
        &format!("every sequence of {} records over x in {{missing,1,2,3}}, y in {{0,1}} x every weight vector over {{0,0.0001,1,2.5}} x 2 objectives (targets scaled by 1, 1e-3, 1e4) x 9 missing modes", nw),
        32u64.pow(nw) * 2 * MISSING_MODES as u64,
        move |i, st| {
            let dg = digits(i, &[2, MISSING_MODES as u64, 32u64.pow(nw)]);
            let sy = digits(dg[2] as u64, &vec![32; nw as usize]);
            let seq: Vec<usize> = sy.iter().map(|s| s % 8).collect();
            let mut d = tiny1(&seq, 0);
            for (j, s) in sy.iter().enumerate() {
                d.w[j] = [0., 1., 2.5, 1e-4][s / 8];
            }
            if d.w.iter().all(|w| *w == 0.) {
                return Ok(());
            }
            let mut c = Cfg { iters: 2, mlw: 0.2, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            if dg[0] == 1 {
                let s = [1., 1e-3, 1e4][dg[2] % 3];
                d.y.iter_mut().for_each(|y| *y = (*y - 0.25) * s);
            }
            missing_mode(&mut c, dg[1]);
            reg(&mut c, dg[2] % 5);
            if (dg[2] / 5) % 3 == 1 {
                c.mds = [0.5, 0.1][dg[2] % 2];
            }
            one(&c, &d, 2e-5, st, check)
        },
    ));
    // no minimum leaf weight: only emptiness forbids a split
    v.push(space(
        "no-min-weight",
        "min_leaf_weight 0: every sequence of 4 records over x in {missing,1,2,3}, y in {0,1}, weight in {0,1,2.5} x 2 objectives x 9 missing modes (regularisations and limits in turn), 2 rounds",
        24u64.pow(4) * 2 * MISSING_MODES as u64,
        move |i, st| {
            let dg = digits(i, &[2, MISSING_MODES as u64, 24u64.pow(4)]);
            let sy = digits(dg[2] as u64, &[24; 4]);
            let seq: Vec<usize> = sy.iter().map(|s| s % 8).collect();
            let mut d = tiny1(&seq, 0);
            for (j, s) in sy.iter().enumerate() {
                d.w[j] = [1., 2.5, 0.][s / 8];
            }
            if d.w.iter().all(|w| *w == 0.) {
                return Ok(());
            }
            let mut c = Cfg { iters: 2, mlw: 0., ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, (dg[2] / 5) % 6);
            if (dg[2] / 3) % 5 == 1 {
                c.mds = 0.1;
            }
            if limits {
                c.max_leaves = [usize::MAX, 2, 3, 4, 5][(dg[2] / 7) % 5];
                c.max_depth = [5, 1, 2, 3][(dg[2] / 11) % 4];
                c.lossguide = (dg[2] / 13) % 2 == 1;
            }
            one(&c, &d, 2e-5, st, check)
        },
    ));
    let radix_z: [u64; 7] = [2, MISSING_MODES as u64, 6, 3, 2, 3, if thorough { 72 } else { 24 }];
    v.push(space(
        "no-min-weight-rich",
        "min_leaf_weight 0: 2 objectives x 9 missing modes x 6 regularisations x 3 constraint maps x 2 grow policies x 3 bin counts on structured data sets (8-48 rows), 3 rounds, depth 6",
        prod(&radix_z),
        move |i, st| {
            let dg = digits(i, &radix_z);
            let mut c = Cfg { iters: 3, mlw: 0., max_depth: 6, ..Cfg::default() };
            c.obj = if dg[0] == 0 { Obj::Log } else { Obj::Sq };
            c.base = if dg[6] % 2 == 0 { None } else { Some(0.5) };
            missing_mode(&mut c, dg[1]);
            reg(&mut c, dg[2]);
            c.mono = MONOS[dg[3]].to_vec();
            c.lossguide = dg[4] == 1;
            c.nbins = [256, 2, 5][dg[5]];
            if limits {
                c.max_leaves = [usize::MAX, 3, 5, 8][(dg[5] + dg[6]) % 4];
            }
            c.lr = [0.3, 1.0, 0.05][dg[6] % 3];
            let d = rich(dg[6], dg[0] == 0);
            one(&c, &d, 2e-5, st, check)
        },
    ));
    // scale: many features, deep trees, many rounds, many rows
    let what = "wide (70 and 300 features, each informative position in turn), deep (chains to depth 45), long (300 rounds) and tall (5000 and 70000 rows) training problems x 9 missing modes";
    let wide: &'static [(usize, usize)] = &[(70, 0), (70, 7), (70, 31), (70, 32), (70, 63), (70, 64), (70, 69), (300, 127), (300, 128), (300, 254), (300, 255), (300, 256), (300, 257), (300, 299)];
    let n_wide = wide.len() as u64;
    let n_kinds = n_wide + 6 + 2 + 2;
    v.push(space("scale", what, n_kinds * MISSING_MODES as u64 * if thorough { 2 } else { 1 }, move |i, st| {
        let dg = digits(i, &[MISSING_MODES as u64, n_kinds, 2]);
        let mut c = Cfg { iters: 1, ..Cfg::default() };
        missing_mode(&mut c, dg[0]);
        c.lossguide = (dg[0] + dg[1] + dg[2]) % 2 == 1;
        c.parallel = (dg[1] + dg[2]) % 2 == 1;
        let k = dg[1] as u64;
        let (d, eps) = if k < n_wide {
            let (cols, pos) = wide[k as usize];
            c.max_depth = 3;
            if c.term == vec![0] {
                c.term = vec![pos];
            }
            (wide_data(cols, pos), 2e-5)
        } else if k < n_wide + 6 {
            let j = (k - n_wide) as usize;
            c.max_depth = [64, 33, 64, 20, 64, 64][j];
            c.l2 = 0.;
            c.mlw = 0.5;
            (deep_data([46, 46, 34, 46, 20, 46][j], j), 2e-5)
        } else if k < n_wide + 8 {
            c.iters = 300;
            c.lr = 0.05;
            c.max_depth = 2;
            c.obj = if k == n_wide + 6 { Obj::Log } else { Obj::Sq };
            if c.obj == Obj::Log {
                c.mlw = 0.05;
            }
            (rich(k as usize % 12, c.obj == Obj::Log), 5e-5)
        } else {
            c.max_depth = 2;
            c.obj = Obj::Log;
            let n = if k == n_wide + 8 { 5000 } else { 70000 };
            if c.ams && limits {
                c.max_leaves = 3;
            }
            (large(n, 25, true, dg[0] as u64), 3e-4)
        };
        one(&c, &d, eps, st, check).map_err(|e| e.chars().take(3000).collect())
    }));
    v
}
/// Many features of which only one (and, weaker, its neighbour) explains the target.
pub fn wide_data(cols: usize, pos: usize) -> Data {
    let n = 24;
    let mut d = Data::new(cols);
    d.rows = n;
    let mut r = Lcg(5 + pos as u64 * 31 + cols as u64);
    for j in 0..cols {
        for i in 0..n {
            d.x.push(if j == pos {
                if i % 7 == 3 { NAN } else { (i / 4) as f64 }
            } else if (j + i) % 11 == 0 {
                NAN
            } else {
                r.below(3) as f64
            });
        }
    }
    for i in 0..n {
        let a = if i % 7 == 3 { 2. } else { (i / 4) as f64 };
        d.y.push(a * 3. - 7. + (i % 2) as f64 * 0.5);
        d.w.push(1.);
    }
    d
}
/// Targets growing so fast that every best split cuts off one extreme record.
pub fn deep_data(n: usize, k: usize) -> Data {
    let mut d = Data::new(2);
    d.rows = n;
    for j in 0..2 {
        for i in 0..n {
            d.x.push(if j == 0 {
                if k % 2 == 1 && i % 9 == 4 { NAN } else { ((i * 5 + 1) % n) as f64 }
            } else {
                (i % 3) as f64
            });
        }
    }
    for i in 0..n {
        let z = ((i * 5 + 1) % n) as i32;
        d.y.push(match k {
            0 | 1 => 3f64.powi(z - n as i32 / 2),
            2 | 3 => -(2f64.powi(z / 2)),
            4 => 4f64.powi(z),
            _ => 1.6f64.powi(n as i32 - z) - 5.,
        });
        d.w.push(1.);
    }
    d
}
pub fn large(n: usize, dv: u64, binary: bool, k: u64) -> Data {
    let mut r = Lcg(77 + n as u64 * 31 + dv + k * 1009);
    for _ in 0..8 {
        r.next();
    }
    let mut d = Data::new(3);
    d.rows = n;
    for j in 0..3u64 {
        for i in 0..n as u64 {
            // feature 0: a permutation-like column with all dv values; others random with ties
            let v = if j == 0 { (i * 7 + 3) % dv } else { r.below(dv / (j + 1)) };
            let miss = j > 0 && r.below(10) == 0 || j == 0 && i % 29 == 5;
            d.x.push(if miss { NAN } else { v as f64 * 0.25 - 10. });
        }
    }
    for i in 0..n {
        let a = d.at(i, 0);
        let b = d.at(i, 1);
        let s = if a.is_nan() { 3. } else { (a * 0.37).sin() * 4. } + if b.is_nan() { -1. } else { b * 0.1 } + r.below(3) as f64;
        d.y.push(if binary { if s > 1. { 1. } else { 0. } } else { s });
        d.w.push(weight_pattern((k % 3) as usize, i));
    }
    d
}

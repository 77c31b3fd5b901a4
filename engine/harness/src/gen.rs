//! C11 interpolation passes through the data, C12 loose least squares, C13 least squares with fixed ends,
//! C14 parameters, C15 knot generation, C21 what is rejected and how, C25 curve generation.
use crate::util::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, FitError, Penalization};
use bsplines::curve::points::methods::interpolation;
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::{Curve, CurveError};
use bsplines::manipulation::merge::{self, Constraints, MergeError};
use symrt::*;

pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match prop {
        "C11" => {
            for (p, n) in [(1, 1), (1, 2), (1, 5), (2, 2), (2, 3), (2, 6), (3, 3), (3, 4), (3, 7), (4, 4), (4, 6), (5, 5), (5, 8), (2, 11), (3, 12), (1, 14)] {
                for (u, k) in [("eq", "uniform"), ("eq", "averaging"), ("irr", "averaging"), ("irr", "deboor"), ("irr2", "averaging"), ("eq", "deboor")] {
                    v.push(format!("mode=hyb p={} n={} u={} k={} dim={}", p, n, u, k, 1 + (p + n) % 3));
                }
            }
            for c in ["p=2 n=5 mult=2,1", "p=3 n=7 mult=1,3", "p=3 n=9 mult=2,2,2", "p=4 n=9 mult=4,1", "p=5 n=11 mult=2,3,1", "p=1 n=4 mult=1,1,1"] {
                for kn in ["fix", "fix2"] {
                    v.push(format!("mode=hyb {} kn={} dim=2", c, kn));
                }
            }
            // arbitrary parameters and knots
            for (p, n) in [(1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4), (3, 5), (4, 5)] {
                for k in ["uniform", "averaging", "deboor"] {
                    v.push(format!("mode=hyb sym=1 p={} n={} u=sym k={} dim=1", p, n, k));
                }
                v.push(format!("mode=hyb sym=1 p={} n={} mult=r{} kn=sym u=sym dim=1", p, n, n - p));
                v.push(format!("mode=hyb sym=1 p={} n={} mult=r{} kn=fix u=sym dim=1", p, n, n - p));
            }
            for c in ["p=2 n=4 mult=2", "p=3 n=6 mult=2,1", "p=3 n=6 mult=3"] {
                v.push(format!("mode=hyb sym=1 {} kn=sym u=sym dim=1", c));
                v.push(format!("mode=hyb sym=1 {} kn=sym dim=1", c));
            }
            if thorough {
                for (p, n) in [(1, 30), (2, 25), (3, 20), (4, 16), (5, 14), (6, 6), (6, 9), (4, 9), (3, 30)] {
                    for (u, k) in [("eq", "averaging"), ("irr", "averaging"), ("irr", "deboor"), ("irr2", "deboor")] {
                        v.push(format!("mode=hyb p={} n={} u={} k={} dim={}", p, n, u, k, 1 + (p + n) % 3));
                    }
                }
            }
        }
        "C12" | "C13" => {
            let mut l = vec![(1, 1, 1), (1, 2, 2), (1, 2, 5), (1, 4, 9), (2, 2, 2), (2, 2, 6), (2, 3, 3), (2, 4, 8), (2, 5, 13), (3, 3, 5), (3, 4, 4), (3, 5, 9), (3, 6, 14), (4, 4, 7), (4, 6, 10), (5, 5, 9), (5, 7, 12)];
            if thorough {
                l.extend([(1, 10, 24), (2, 9, 9), (2, 10, 30), (3, 9, 20), (3, 12, 40), (4, 9, 18), (5, 10, 25), (6, 7, 12)]);
            }
            for (p, n, m) in l {
                for (u, k) in [("eq", "uniform"), ("irr", "uniform"), ("eq", "fix"), ("irr", "fix3")] {
                    v.push(format!("mode=hyb p={} n={} m={} u={} kn={} dim={}", p, n, m, u, k, 1 + (p + n + m) % 2));
                }
            }
            for (p, n, m) in [(1, 2, 3), (1, 3, 5), (2, 3, 4), (2, 4, 6), (3, 4, 6), (3, 5, 7), (1, 4, 5)] {
                v.push(format!("mode=hyb sym=1 p={} n={} m={} u=sym kn=uniform dim=1", p, n, m));
                v.push(format!("mode=hyb sym=1 p={} n={} m={} u=sym kn=fix dim=1", p, n, m));
                v.push(format!("mode=hyb sym=1 p={} n={} m={} u=sym kn=sym dim=1", p, n, m));
                v.push(format!("mode=hyb sym=1 p={} n={} m={} u=irr kn=sym dim=1", p, n, 2 * m));
            }
            for c in ["p=1 n=9 m=12 kappa=7", "p=2 n=10 m=14 kappa=8", "p=2 n=12 m=14 kappa=10", "p=3 n=13 m=16 kappa=11"] {
                v.push(format!("mode=hyb {} u=eq kn=uniform dim=1", c));
            }
            for c in ["p=2 n=5 m=14 mult=2,1", "p=3 n=7 m=20 mult=1,3", "p=3 n=7 m=18 mult=2,2", "p=4 n=9 m=24 mult=4,1", "p=2 n=5 m=12 mult=3"] {
                for u in ["eq", "irr"] {
                    v.push(format!("mode=hyb {} u={} kn=fix dim=1", c, u));
                }
            }
        }
        "C14" => {
            for k in ["chord", "centripetal"] {
                for c in ["m=1 dim=1", "m=1 dim=2", "m=1 dim=3", "m=2 dim=1", "m=2 dim=2"] {
                    v.push(format!("kind={} {}", k, c));
                }
                for c in ["m=2 dim=3 d=0", "m=3 dim=1 d=0", "m=3 dim=2 d=1", "m=4 dim=2 d=0", "m=4 dim=3 d=2", "m=5 dim=1 d=1", "m=5 dim=2 d=2", "m=6 dim=3 d=0", "m=8 dim=2 d=1"] {
                    v.push(format!("kind={} {}", k, c));
                }
                for c in ["m=2 dim=4 d=3", "m=4 dim=4 d=0", "m=5 dim=6 d=1"] {
                    v.push(format!("kind={} {}", k, c));
                }
                for z in if k == "chord" { [-60, 60] } else { [-24, 20] } {
                    for c in ["m=2 dim=1", "m=3 dim=2 d=1", "m=4 dim=3 d=0"] {
                        v.push(format!("kind={} {} z={}", k, c, z));
                    }
                }
                if thorough {
                    for c in ["m=3 dim=1", "m=2 dim=3", "m=3 dim=2", "m=4 dim=1", "m=12 dim=2 d=3", "m=12 dim=3 d=1", "m=16 dim=1 d=2"] {
                        v.push(format!("kind={} {}", k, c));
                    }
                }
            }
            v.push("kind=equal mode=fp m=1".into());
        }
        "C15" => {
            for (p, n) in [(1, 1), (1, 2), (1, 4), (2, 2), (2, 3), (2, 5), (3, 3), (3, 4), (3, 6), (4, 5), (4, 8), (5, 5), (5, 7)] {
                v.push(format!("kind=averaging p={} n={}", p, n));
                v.push(format!("kind=deboor p={} n={} m={}", p, n, n));
            }
            for (p, n, m) in [(1, 3, 5), (2, 4, 6), (3, 5, 8)] {
                v.push(format!("kind=deboor p={} n={} m={}", p, n, m));
            }
            for c in ["p=1 n=3 eq=2", "p=2 n=4 eq=2", "p=2 n=5 eq=2,4", "p=2 n=5 eq=1", "p=3 n=6 eq=2,3", "p=3 n=6 eq=4,5", "p=4 n=7 eq=3", "p=1 n=4 eq=2,3"] {
                v.push(format!("kind=averaging {}", c));
                v.push(format!("kind=deboor {}", c));
            }
            v.push("kind=uniform mode=fp".into());
            if thorough {
                for (p, n) in [(1, 8), (2, 9), (3, 10), (4, 11), (6, 9)] {
                    v.push(format!("kind=averaging p={} n={}", p, n));
                    v.push(format!("kind=deboor p={} n={} m={}", p, n, n));
                }
            }
        }
        "C21" => {
            for k in ["curve", "knots", "order", "merge-shape", "generate"] {
                v.push(format!("mode=hyb kind={}", k));
            }
            for p in 1..=3 {
                v.push(format!("mode=hyb kind=fit-limits p={}", p));
            }
            for k in ["lambda", "derivative"] {
                v.push(format!("mode=fp kind={}", k));
            }
            for p in 1..=3 {
                v.push(format!("mode=fp kind=merge-knots p={}", p));
            }
        }
        "C25" => {
            for (p, n) in [(1, 1), (1, 4), (2, 2), (2, 5), (3, 3), (3, 6), (4, 5)] {
                v.push(format!("kind=manual p={} n={} dim=2", p, n));
                v.push(format!("mode=hyb kind=interpolation p={} n={} dim=2", p, n));
                v.push(format!("mode=hyb kind=loose p={} n={} m={} dim=2", p, n, n + 3));
                v.push(format!("mode=hyb kind=fixed p={} n={} m={} dim=2", p, n, n + 3));
                v.push(format!("mode=hyb kind=loose p={} n={} m={} dim=1", p, n, n));
                v.push(format!("mode=hyb kind=fixed p={} n={} m={} dim=1", p, n, n));
            }
            v.push("mode=hyb kind=illegal p=1 n=1".into());
            for (p, n) in [(1, 2), (2, 3), (3, 4), (1, 3), (2, 4)] {
                for k in ["averaging", "deboor", "uniform"] {
                    for q in ["eq", "chord", "centripetal"] {
                        v.push(format!("kind=method p={} n={} k={} u={} dim={}", p, n, k, q, 1 + (n + p + 1) % 2));
                    }
                }
            }
        }
        _ => {}
    }
    v
}

/// concrete parameters 0 = u_0 < ... < u_m = 1
pub fn params(kind: &str, m: usize) -> Vec<f64> {
    (0..=m)
        .map(|g| {
            if g == 0 {
                0.0
            } else if g == m {
                1.0
            } else if kind == "eq" {
                g as f64 / m as f64
            } else {
                fixed_knot(if kind == "irr" { "fix" } else { "fix2" }, g - 1, m - 1)
            }
        })
        .collect()
}
/// symbolic parameters 0 = u_0 < ... < u_m = 1
pub fn sym_params(m: usize, gap: f64) -> Vec<f64> {
    let mut q = vec![0.0];
    for g in 1..m {
        let x = par(&format!("u{}", g));
        assume_gap(q[g - 1], x, gap);
        q.push(x);
    }
    if m > 1 {
        assume_gap(q[m - 1], 1.0, gap);
    }
    q.push(1.0);
    q
}
/// Schoenberg and Whitney: every basis function has its own parameter well inside its support
pub fn supported(u: &[f64], p: usize, q: &[f64]) {
    let n = u.len() - p - 2;
    let m = q.len() - 1;
    let margin = if p <= 2 { 0.125 } else { 0.25 };
    for i in 1..n {
        let g = (2 * i * m + n) / (2 * n);
        let w = (u[i + p + 1] - u[i]) * margin;
        assume_le(u[i] + w, q[g]);
        assume_le(q[g], u[i + p + 1] - w);
    }
}
fn data(m: usize, dim: usize) -> M {
    points(m, dim, "Q")
}
/// data points whose successive distances are s_g (centripetal: s_g * s_g) for arbitrary s_g >= 0, along
/// directions of rational length, so that the lengths stay rational functions of the inputs
pub fn directed(m: usize, dim: usize, centripetal: bool, rot: usize) -> M {
    // lengths 1, 4, 9, 16, 25, 49
    let dirs: &[[f64; 3]] = match dim {
        1 => &[[4.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [9.0, 0.0, 0.0], [-4.0, 0.0, 0.0]],
        2 => &[[15.0, 20.0, 0.0], [-24.0, 7.0, 0.0], [0.0, -9.0, 0.0], [16.0, 0.0, 0.0], [-15.0, -20.0, 0.0]],
        _ => &[[3.0, -6.0, 6.0], [4.0, 4.0, -7.0], [-14.0, 21.0, 42.0], [0.0, 0.0, -16.0], [0.0, 15.0, 20.0], [-9.0, 0.0, 0.0]],
    };
    // four and more dimensions
    let wide: [Vec<f64>; 4] = [vec![0.0; dim - 1], vec![2.0, -2.0, 2.0, 2.0], vec![], vec![5.0, 10.0, -10.0, 20.0]];
    let mut q = M::zeros(dim, m + 1);
    for d in 0..dim {
        q[(d, 0)] = coord(&format!("Q0_{}", d));
    }
    for g in 1..=m {
        let s = par(&format!("s{}", g));
        assume_le(0.0, s);
        let l = if centripetal { s * s } else { s };
        let v = &dirs[(g + rot) % dirs.len()];
        let w = &wide[(g + rot) % 4];
        for d in 0..dim {
            let x = if dim < 4 {
                v[d]
            } else {
                match (g + rot) % 4 {
                    // the last coordinate alone, all, a proper space direction, all but unequally
                    0 => if d + 1 == dim { -9.0 } else { 0.0 },
                    2 => *v.get(d).unwrap_or(&0.0),
                    // turned so that the last four coordinates take part
                    _ => if d + 4 >= dim { w[d + 4 - dim] } else { 0.0 },
                }
            };
            q[(d, g)] = q[(d, g - 1)] + x * l;
        }
    }
    q
}
/// sum_i N_i(x) P_i
pub fn at(u: &[f64], p: usize, pts: &M, x: f64) -> Vec<f64> {
    value(u, p, pts, x)
}
fn binom(n: usize, k: usize) -> f64 {
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r
}
/// the k-th forward difference matrix applied: rows i = 0..len-1-k
fn diff_row(i: usize, k: usize, len: usize) -> Vec<f64> {
    let mut r = vec![0.0; len];
    for j in 0..=k {
        r[i + j] = binom(k, j) * if (k - j) % 2 == 1 { -1.0 } else { 1.0 };
    }
    r
}
/// gradient of  sum_g |C(u_g) - Q_g|^2 / 2 + lambda sum_i |Delta^kappa P_i|^2 / 2  over the free control points vanishes
pub fn stationary(label: &str, u: &[f64], p: usize, pts: &M, q: &M, par: &[f64], pen: Option<(f64, usize)>, fixed: bool) {
    let n = u.len() - p - 2;
    let m = par.len() - 1;
    let (lo, hi) = if fixed { (1, n - 1) } else { (0, n) };
    for d in 0..q.nrows() {
        let res: Vec<f64> = (0..=m).map(|g| at(u, p, &M::from_fn(1, n + 1, |_, j| pts[(d, j)]), par[g])[0] - q[(d, g)]).collect();
        for i in lo..=hi {
            let mut s = 0.0;
            let (g0, g1) = if fixed { (1, m - 1) } else { (0, m) };
            for g in g0..=g1 {
                let b = basis_fn(u, p, i, par[g]);
                if b != 0.0 {
                    s += b * res[g];
                }
            }
            if let Some((l, k)) = pen {
                let len = hi + 1 - lo;
                if k < len {
                    for r in 0..len - k {
                        let row = diff_row(r, k, len);
                        let mut t = 0.0;
                        for j in 0..len {
                            if row[j] != 0.0 {
                                t += row[j] * pts[(d, lo + j)];
                            }
                        }
                        if row[i - lo] != 0.0 {
                            s += l * row[i - lo] * t;
                        }
                    }
                }
            }
            // the accuracy of the library's matrix factorisation is relative to the size of the matrix
            if let Some((l, k)) = pen {
                s = s / (1.0 + l * binom(2 * k, k));
            }
            observe(label, s);
            check_eq(&format!("{}: least squares condition {} of coordinate {}", label, i, d), s, 0.0);
        }
    }
}
fn clamped(u: &[f64], p: usize) {
    let l = u.len();
    let mut ok = true;
    for i in 0..=p {
        ok &= u[i] == 0.0 && u[l - 1 - i] == 1.0;
    }
    check("knots clamped", ok);
}

pub fn uniform_knots(p: usize, n: usize) -> Vec<f64> {
    let mut u = vec![0.0; p + 1];
    for i in 1..=n - p {
        u.push(i as f64 / (n - p + 1) as f64);
    }
    u.extend(std::iter::repeat(1.0).take(p + 1));
    u
}
fn averaging_knots(p: usize, n: usize, q: &[f64]) -> Vec<f64> {
    let mut u = vec![0.0; p + 1];
    for j in 1..=n - p {
        let mut s = 0.0;
        for i in j..j + p {
            s += q[i];
        }
        u.push(s / p as f64);
    }
    u.extend(std::iter::repeat(1.0).take(p + 1));
    u
}
/// the highest order of a penalty in C12 and C13
const KAPPA: usize = 6;
/// the library's uniform knots (checked against the formula up to rounding): penalties ask for exactly these
fn library_uniform(p: usize, n: usize) -> Vec<f64> {
    let u: Vec<f64> = knots::methods::uniform(p, n).expect("uniform knots").vector().iter().copied().collect();
    let w = uniform_knots(p, n);
    if u.len() != w.len() || u.iter().zip(w.iter()).any(|(a, b)| !((a - b).abs() < 1e-9)) {
        tol_vec("uniform knots", &u, &w);
    }
    u
}
/// eq. 9.69 with exact integer arithmetic: j d = j (n + 1) / (n - p + 1)
fn de_boor_knots(p: usize, n: usize, q: &[f64]) -> Vec<f64> {
    let mut u = vec![0.0; p + 1];
    let s = n - p + 1;
    for j in 1..=n - p {
        let i = j * (n + 1) / s;
        let a = (j * (n + 1) - i * s) as f64 / s as f64;
        let mut v = (1.0 - a) * q[i - 1];
        if a != 0.0 {
            v += a * q[i];
        }
        u.push(v);
    }
    u.extend(std::iter::repeat(1.0).take(p + 1));
    u
}
fn tol_vec(label: &str, a: &[f64], b: &[f64]) {
    check(&format!("{}: length", label), a.len() == b.len());
    for i in 0..a.len().min(b.len()) {
        check_tol(&format!("{}[{}]", label, i), a[i], b[i], 1e-9);
    }
}
/// distances of consecutive points (centripetal: their square roots)
pub fn lengths(q: &M, centripetal: bool) -> Vec<f64> {
    (1..q.ncols())
        .map(|g| {
            let mut s = 0.0;
            for d in 0..q.nrows() {
                let x = q[(d, g)] - q[(d, g - 1)];
                s += x * x;
            }
            let r = s.sqrt();
            if centripetal {
                r.sqrt()
            } else {
                r
            }
        })
        .collect()
}
fn total(l: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in l {
        s += *x;
    }
    s
}
/// coincident points are excluded
pub fn scope(l: &[f64]) {
    assume_le(1.0 / 1024.0, total(l));
}
fn param_method(k: &str) -> parameters::Method {
    match k {
        "eq" => parameters::Method::EquallySpaced,
        "chord" => parameters::Method::ChordLength,
        _ => parameters::Method::Centripetal,
    }
}
fn knot_method(k: &str) -> knots::Method {
    match k {
        "uniform" => knots::Method::Uniform,
        "deboor" => knots::Method::DeBoor,
        _ => knots::Method::Averaging,
    }
}

pub fn body(prop: &str, cfg: &Cfg) {
    match prop {
        "C11" => {
            let (p, n, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("dim"));
            // given knots with repeated internal ones: the data sit at the knot averages
            let given = cfg.s("mult").map(|_| knots(cfg, p, &mults(cfg, "mult"), ""));
            let ub: Vec<f64> = match &given {
                Some(u) if cfg.is("u", "sym") => {
                    let q = sym_params(n, 1.0 / 32.0);
                    supported(u, p, &q);
                    q
                }
                Some(u) => (0..=n).map(|i| if i == n { 1.0 } else { (1..=p).map(|j| u[i + j]).sum::<f64>() / p as f64 }).collect(),
                None if cfg.is("u", "sym") => {
                    let q = sym_params(n, 1.0 / 32.0);
                    if cfg.is("k", "uniform") {
                        supported(&uniform_knots(p, n), p, &q);
                    }
                    q
                }
                None => params(cfg.s("u").unwrap(), n),
            };
            let par = Parameters::new(vecd(&ub), n);
            let k = match &given {
                Some(u) => Knots::new(p, vecd(u)),
                None => knots::generate(p, n, &par, knot_method(cfg.s("k").unwrap())).expect("knots"),
            };
            let u: Vec<f64> = k.vector().iter().copied().collect();
            let q = data(n, dim);
            let pts = interpolation::interpolate(&k, &DataPoints::new(q.clone()), &par);
            check("one control point per data point", pts.ncols() == n + 1 && pts.nrows() == dim);
            if pts.shape() != q.shape() {
                return;
            }
            let c = curve(p, &u, &pts);
            for g in 0..=n {
                let w = at(&u, p, &pts, ub[g]);
                for d in 0..dim {
                    observe("w", w[d]);
                    check_eq(&format!("coordinate {} at parameter {}", d, g), w[d], q[(d, g)]);
                }
                let want: Vec<f64> = (0..dim).map(|d| q[(d, g)]).collect();
                eq_curve("curve through the data", &c, ub[g], 0, &want);
            }
        }
        "C12" | "C13" => {
            let fixed = prop == "C13";
            let (p, n, m, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("m"), cfg.n("dim"));
            let sym = cfg.is("u", "sym");
            let ub = if sym { sym_params(m, 1.0 / 32.0) } else { params(cfg.s("u").unwrap(), m) };
            let par = Parameters::new(vecd(&ub), m);
            let uniform = cfg.is("kn", "uniform");
            let mult = cfg.s("mult").map(|_| mults(cfg, "mult")).unwrap_or(vec![1; n - p]);
            let u = if uniform { library_uniform(p, n) } else { knots(cfg, p, &mult, "") };
            if sym {
                supported(&u, p, &ub);
            }
            let k = Knots::new(p, vecd(&u));
            // no penalty, or (lambda, kappa)
            let kmax = if fixed { n.max(2) - 2 } else { n - 1 };
            let lambdas: &[f64] = if uniform { &[0.0, 0.0009765625, 0.5, 1.0, 64.0, 4096.0] } else { &[0.0] };
            // kappa=9 in the configuration: this order only
            let high = cfg.s("kappa").map(|x| x.parse::<usize>().unwrap());
            let lambdas = if high.is_some() { &[0.0000152587890625, 0.0009765625][..] } else { lambdas };
            let o = choice("penalty", 1 + if high.is_some() { 1 } else { kmax.min(KAPPA) } * lambdas.len());
            let pen = if o == 0 { None } else { Some((lambdas[(o - 1) % lambdas.len()], high.unwrap_or(1) + (o - 1) / lambdas.len())) };
            if let Some((l, kappa)) = pen {
                if l > 1000.0 && kappa > 1 {
                    // the matrix becomes too ill-conditioned to judge
                    skip();
                }
            }
            let exact = choice("data", 2) == 1;
            let q = if exact {
                // data taken from a spline over the same knots; penalty-free fits return it
                if pen.is_some() {
                    skip();
                }
                let b = points(n, dim, "B");
                let mut q = M::zeros(dim, m + 1);
                for g in 0..=m {
                    let w = at(&u, p, &b, ub[g]);
                    for d in 0..dim {
                        q[(d, g)] = w[d];
                    }
                }
                q
            } else {
                data(m, dim)
            };
            let d = DataPoints::new(q.clone());
            let pn = pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
            let r = if fixed { fit::fixed::fit(&k, &d, &par, pn) } else { fit::loose::fit(&k, &d, &par, pn) };
            let pts = match r {
                Ok(x) => x,
                Err(_) => return check("legal fit accepted", false),
            };
            check("n + 1 control points", pts.ncols() == n + 1 && pts.nrows() == dim);
            if pts.ncols() != n + 1 || pts.nrows() != dim {
                return;
            }
            if fixed {
                for d in 0..dim {
                    check_same("first control point is the first data point", pts[(d, 0)], q[(d, 0)]);
                    check_same("last control point is the last data point", pts[(d, n)], q[(d, m)]);
                }
            }
            if !fixed || n >= 2 {
                stationary(if fixed { "fixed ends" } else { "loose ends" }, &u, p, &pts, &q, &ub, pen, fixed);
            }
        }
        "C14" => c14(cfg),
        "C15" => c15(cfg),
        "C21" => c21(cfg),
        "C25" => c25(cfg),
        _ => panic!("unknown property"),
    }
}

fn c14(cfg: &Cfg) {
    match cfg.s("kind").unwrap() {
        "equal" => {
            let m = 1 + choice("m", 40);
            let q = DataPoints::new(M::zeros(2, m + 1));
            let r = match choice("via", 2) {
                0 => parameters::methods::equally_spaced(m),
                _ => parameters::generate(&q, parameters::Method::EquallySpaced),
            };
            check("one parameter per point", r.vector().len() == m + 1 && r.segments() == m);
            check_same("first parameter", r.vector()[0], 0.0);
            check_same("last parameter", r.vector()[m], 1.0);
            for g in 0..=m {
                check_tol("g / m", r.vector()[g], g as f64 / m as f64, 1e-12);
            }
        }
        k => {
            let (m, dim) = (cfg.n("m"), cfg.n("dim"));
            let mut q = if cfg.s("d").is_some() { directed(m, dim, k == "centripetal", cfg.n("d")) } else { data(m, dim) };
            scope(&lengths(&q, k == "centripetal"));
            if let Some(z) = cfg.s("z") {
                // tiny or huge data
                let f = 2f64.powi(z.parse().unwrap());
                q.iter_mut().for_each(|x| *x *= f);
            }
            let l = lengths(&q, k == "centripetal");
            let d = DataPoints::new(q.clone());
            let r = match (choice("via", 2), k) {
                (0, "chord") => parameters::methods::chord_length(&d),
                (0, _) => parameters::methods::centripetal(&d),
                (_, k) => parameters::generate(&d, param_method(k)),
            };
            check("one parameter per point", r.vector().len() == m + 1 && r.segments() == m);
            if r.vector().len() != m + 1 {
                return;
            }
            let v = r.vector();
            check_same("first parameter", v[0], 0.0);
            check_same("last parameter", v[m], 1.0);
            let t = total(&l);
            let mut c = 0.0;
            for g in 1..m {
                c = c + l[g - 1];
                observe("parameter", v[g]);
                check_eq("parameter is the share of the length up to the point", v[g], c / t);
            }
            for g in 1..=m {
                check_le("parameters do not decrease", v[g - 1], v[g]);
            }
            for e in 0..dim {
                for g in 0..=m {
                    check_same("data untouched", d.matrix()[(e, g)], q[(e, g)]);
                }
            }
        }
    }
}

fn c15(cfg: &Cfg) {
    match cfg.s("kind").unwrap() {
        "uniform" => {
            let p = 1 + choice("p", 6);
            let n = p + choice("n", 12);
            let none = Parameters::new(vecd(&[]), 0);
            let k = match choice("via", 2) {
                0 => knots::methods::uniform(p, n),
                _ => knots::generate(p, n, &none, knots::Method::Uniform),
            }
            .expect("uniform knots");
            let w = uniform_knots(p, n);
            check("degree and segments", k.degree() == p && k.segments() == n && k.vector().len() == w.len());
            for i in 0..w.len().min(k.vector().len()) {
                check_tol("uniform knot", k.vector()[i], w[i], 1e-12);
            }
            clamped(&k.vector().iter().copied().collect::<Vec<f64>>(), p);
            check("is_uniform", knots::is_uniform(&k) == Ok(true));
        }
        kind => {
            let (p, n) = (cfg.n("p"), cfg.n("n"));
            let m = cfg.nd("m", n);
            let mut q = vec![0.0];
            // consecutive data points may coincide: so do their parameters
            let twins = cfg.list("eq");
            for g in 1..m {
                if twins.contains(&g) {
                    let x = q[g - 1];
                    q.push(x);
                    continue;
                }
                let x = par(&format!("u{}", g));
                assume_gap(q[g - 1], x, GAP);
                q.push(x);
            }
            assume_gap(q[m - 1], 1.0, GAP);
            q.push(1.0);
            let pr = Parameters::new(vecd(&q), m);
            let k = match (choice("via", 2), kind) {
                (0, "averaging") => knots::methods::averaging(p, n, &pr),
                (0, _) => knots::methods::de_boor(p, n, &pr),
                (_, k) => knots::generate(p, n, &pr, knot_method(k)),
            }
            .expect("knots");
            let u: Vec<f64> = k.vector().iter().copied().collect();
            check("degree, segments, length", k.degree() == p && k.segments() == n && u.len() == n + p + 2);
            if u.len() != n + p + 2 {
                return;
            }
            clamped(&u, p);
            if kind == "averaging" {
                eq_vec("averaging knots", &u, &averaging_knots(p, n, &q));
            } else if m == n {
                tol_vec("de Boor knots", &u, &de_boor_knots(p, n, &q));
            }
            for i in 1..u.len() {
                observe("knot", u[i]);
                check_le("knots do not decrease", u[i - 1], u[i]);
            }
            if kind == "deboor" && twins.is_empty() {
                for i in p..=n {
                    // rounding of j d may shift a knot by an ulp; the span is taken with a margin
                    let mut has = false;
                    for g in 0..=m {
                        if !has && u[i] - 1e-9 <= q[g] && (i == n || q[g] < u[i + 1]) {
                            has = true;
                        }
                    }
                    check("every span contains a parameter", has);
                }
            }
        }
    }
}

fn simple(p: usize, n: usize, dim: usize) -> Curve {
    Curve::new(Knots::new(p, vecd(&uniform_knots(p, n))), ControlPoints::new(M::from_fn(dim, n + 1, |d, i| (d + i) as f64))).expect("curve")
}

fn c21(cfg: &Cfg) {
    match cfg.s("kind").unwrap() {
        "curve" => {
            // fewer segments than the degree
            let p = choice("p", 6);
            let n = choice("n", 7);
            let mut u = vec![0.0; p + 1];
            u.extend(vec![1.0; p + 1]);
            if n > p {
                u = uniform_knots(p.max(1), n);
                if p == 0 {
                    u.remove(0);
                    u.pop();
                    return;
                }
            }
            let r = Curve::new(Knots::new(p, vecd(&u)), ControlPoints::new(points(n, 2, "P")));
            match r {
                Ok(_) => check("too few points accepted", n >= p),
                Err(CurveError::DegreeAndSegmentsMismatch { p: a, n: b }) => check("rejected exactly if n < p", n < p && a == p && b == n),
                Err(_) => check("wrong error", false),
            }
        }
        "knots" => {
            let p = choice("p", 5);
            let n = choice("n", 7);
            let q = Parameters::new(vecd(&params("irr", n.max(1))), n.max(1));
            let r = match choice("method", 6) {
                0 => knots::methods::uniform(p, n),
                1 => knots::methods::averaging(p, n, &q),
                2 => knots::methods::de_boor(p, n, &q),
                3 => knots::generate(p, n, &q, knots::Method::Uniform),
                4 => knots::generate(p, n, &q, knots::Method::Averaging),
                _ => knots::generate(p, n, &q, knots::Method::DeBoor),
            };
            match r {
                Ok(k) => {
                    check("accepted exactly for 1 <= p <= n", p >= 1 && p <= n);
                    check("as requested", k.degree() == p && k.segments() == n);
                }
                Err(CurveError::DegreeTooLow { p: a, limit }) => check("degree 0 is rejected", p == 0 && a == 0 && limit == 0),
                Err(CurveError::DegreeAndSegmentsMismatch { p: a, n: b }) => check("degree above n is rejected", p >= 1 && p > n && a == p && b == n),
                Err(_) => check("wrong error", false),
            }
        }
        "order" => {
            // the order of a derivative is limited by the degree; higher ones are zero
            let p = 1 + choice("p", 4);
            let c = simple(p, p + choice("n", 3), 2);
            let k = choice("k", p + 3);
            match c.evaluate_derivative(0.25, k) {
                Ok(v) => {
                    check("dimension", v.len() == 2);
                    if k > p {
                        check("derivatives above the degree vanish", v[0] == 0.0 && v[1] == 0.0);
                    }
                }
                Err(_) => check("derivative rejected", false),
            }
        }
        "generate" => {
            let p = choice("p", 5);
            let n = choice("n", 6);
            let q = data(n, 2);
            let d = DataPoints::new(q.clone());
            let (r, seg) = match choice("what", 5) {
                0 => (generate(Generation::Manual { degree: p, points: ControlPoints::new(q.clone()), knots: knots::Generation::Uniform }), n),
                1 => {
                    if n == 0 {
                        return check("skipped", true);
                    }
                    (
                        generate(Generation::Manual {
                            degree: p,
                            points: ControlPoints::new(M::from_fn(2, n + 1, |d, i| (i * i + d) as f64)),
                            knots: knots::Generation::Method { parameter_method: parameters::Method::ChordLength, knot_method: knots::Method::Averaging },
                        }),
                        n,
                    )
                }
                2 => {
                    if n == 0 {
                        return check("skipped", true);
                    }
                    (generate(Generation::Interpolation { degree: p, points: &d }), n)
                }
                o => {
                    if n == 0 {
                        return check("skipped", true);
                    }
                    let s = choice("segments", 7);
                    let method = if o == 3 { fit::Method::LooseEnds } else { fit::Method::FixedEnds };
                    let r = generate(Generation::LeastSquaresFit { degree: p, points: &d, intended_segments: s, method, penalization: None });
                    if p >= 1 && p <= s && s > n {
                        return match r {
                            Err(CurveError::FitError { err: FitError::RequestedPolynomialSegmentAndDataSegementMismatch { n: a, m: b } }) => {
                                check("more segments than data are rejected", a == s && b == n)
                            }
                            _ => check("more segments than data must be rejected", false),
                        };
                    }
                    (r, s)
                }
            };
            match r {
                Ok(c) => {
                    check("generated exactly for 1 <= p <= n", p >= 1 && p <= seg);
                    check("as requested", c.degree() == p && c.segments() == seg && c.dimension() == 2);
                    well_formed("generated", &c);
                }
                Err(CurveError::DegreeTooLow { p: a, limit }) => check("degree 0 is rejected", p == 0 && a == 0 && limit == 0),
                Err(CurveError::DegreeAndSegmentsMismatch { p: a, n: b }) => check("degree above n is rejected", p > seg && a == p && b == seg),
                Err(_) => check("wrong error", false),
            }
        }
        "fit-limits" => {
            // every combination of sizes: an error of the right kind or a result, never a panic
            let p = cfg.n("p");
            let n = p + choice("n", 4);
            let m = choice("m", 8);
            let mp = if choice("mp", 3) == 0 { m + 1 } else { m };
            if m == 0 || mp == 0 {
                return check("skipped", true);
            }
            let o = choice("kappa", 8);
            let fixed = choice("fixed", 2) == 1;
            let pen = if o == 7 { None } else { Some(o + 1) };
            let k = Knots::new(p, vecd(&library_uniform(p, n)));
            let par = Parameters::new(vecd(&params("eq", mp)), mp);
            let d = DataPoints::new(M::from_fn(2, m + 1, |d, g| ((g * 7 + d * 3) % 5) as f64));
            let pn = pen.map(|kappa| Penalization { lambda: 0.5, kappa });
            let r = if fixed { fit::fixed::fit(&k, &d, &par, pn) } else { fit::loose::fit(&k, &d, &par, pn) };
            let kap_ok = match pen {
                None => true,
                Some(kappa) => kappa + if fixed { 2 } else { 1 } <= n,
            };
            match r {
                Ok(pts) => {
                    check("accepted exactly for legal sizes", n <= m && m == mp && kap_ok);
                    check("n + 1 control points", pts.ncols() == n + 1);
                    check("finite", pts.iter().all(|x| x.is_finite()));
                }
                Err(FitError::RequestedPolynomialSegmentAndDataSegementMismatch { n: a, m: b }) => check("n > m", n > m && a == n && b == m),
                Err(FitError::DataSegmentsAndParameterSegmentsMismatch { m: a, mp: b }) => check("parameter count differs", n <= m && m != mp && a == m && b == mp),
                Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n: a, kappa }) => {
                    check("penalty order too high", n <= m && m == mp && !kap_ok && a == n && Some(kappa) == pen)
                }
                Err(_) => check("wrong error", false),
            }
        }
        "lambda" => {
            let l = par("lambda");
            fp_cap(4);
            let (p, n, m) = (2, 4, 7);
            let uniform = choice("uniform", 2) == 0;
            let fixed = choice("fixed", 2) == 1;
            let mut u = library_uniform(p, n);
            if !uniform {
                u[3] = 0.125;
            }
            if !(l < 0.0) && (uniform || !(l > 0.0)) {
                return check("a legal weight: decided by the fits themselves", true);
            }
            let k = Knots::new(p, vecd(&u));
            let pr = Parameters::new(vecd(&params("eq", m)), m);
            let d = DataPoints::new(M::from_fn(1, m + 1, |_, g| (g % 3) as f64));
            let pn = Some(Penalization { lambda: l, kappa: 1 + choice("kappa", 2) });
            let r = if fixed { fit::fixed::fit(&k, &d, &pr, pn) } else { fit::loose::fit(&k, &d, &pr, pn) };
            match r {
                Err(FitError::NegativeLambda { lambda }) => {
                    check("negative weight", l < 0.0);
                    check_same("error names the weight", lambda, l);
                }
                Err(FitError::NonUniformKnots) => check("penalty needs uniform knots", l > 0.0 && !uniform),
                Err(_) => check("wrong error", false),
                Ok(_) => check("illegal weight accepted", false),
            }
        }
        "derivative" => {
            // evaluation rejects every parameter outside [0,1], for every order
            let p = 1 + choice("p", 3);
            let c = simple(p, p + 2, 1);
            let u = par("u");
            let k = choice("k", p + 2);
            if u >= 0.0 && u <= 1.0 {
                return check("inside: decided elsewhere", true);
            }
            match c.evaluate_derivative(u, k) {
                Err(CurveError::ParameterOutOfBounds { u: a, lower_bound, upper_bound }) => {
                    check_same("error names the parameter", a, u);
                    check("error names the bounds", lower_bound == 0.0 && upper_bound == 1.0);
                }
                _ => check("parameter outside [0,1] must be rejected", false),
            }
        }
        "merge-shape" => {
            let (pa, pb) = (1 + choice("pa", 3), 1 + choice("pb", 3));
            let (da, db) = (1 + choice("da", 2), 1 + choice("db", 2));
            let (na, nb) = (choice("na", 3), choice("nb", 3));
            let a = simple(pa, pa + na, da);
            let b = simple(pb, pb + nb, db);
            let r = match choice("how", 3) {
                0 => (merge::merge(&a, &b), 0),
                1 => (merge::merge_from(&a, &b), 1),
                _ => (merge::merge_to(&a, &b), 1),
            };
            match r {
                (Ok(c), k) => {
                    check("merged exactly for equal degree and dimension and fewer constraints than the degree", pa == pb && da == db && k < pa);
                    check("degree and dimension", c.degree() == pa && c.dimension() == da);
                    check("finite", mat(&c).iter().all(|x| x.is_finite()));
                }
                (Err(MergeError::DegreeMismatch { left, right }), _) => check("degrees differ", pa != pb && left == pa && right == pb),
                (Err(MergeError::DimensionMismatch { left, right }), _) => check("dimensions differ", pa == pb && da != db && left == da && right == db),
                (Err(MergeError::TooManyConstraints { totalConstraints, degree }), k) => {
                    check("as many constraints as the degree", pa == pb && da == db && k >= pa && totalConstraints == k && degree == pa)
                }
                _ => check("wrong error", false),
            }
            // more constraints than append can meet
            if pa == pb && da == db {
                let n = choice("constraints", 4);
                let mut c = a.clone();
                let ok = catch(|| {
                    let l: Vec<f64> = (0..n).map(|i| 1.0 - i as f64 / 16.0).collect();
                    c.append_constrained(Constraints { params: l }, &b, Constraints { params: vec![] });
                })
                .is_some();
                check("append accepts fewer constraints than the degree only", ok == (n < pa));
            }
        }
        _ => {
            // knots that are not clamped on [0,1]
            let p = cfg.n("p");
            let n = p + 2;
            let mut u = uniform_knots(p, n);
            let i = choice("i", u.len());
            let x = par("x");
            fp_cap(4);
            assume_le(-1e300, x);
            assume_le(x, 1e300);
            u[i] = x;
            let l = u.len();
            let cl = (i > p || x == 0.0) && (i + p + 1 < l || x == 1.0);
            let normed = x >= 0.0 && x <= 1.0;
            if cl && normed {
                return check("legal knots: decided elsewhere", true);
            }
            let g = Curve::new(Knots::new(p, vecd(&u)), ControlPoints::new(M::from_fn(1, n + 1, |_, j| j as f64))).expect("curve");
            let o = simple(p, n, 1);
            let (r, k) = match choice("side", 2) {
                0 => (merge::merge(&g, &o), 0),
                _ => (merge::merge(&o, &g), 1),
            };
            let _ = k;
            match r {
                Err(MergeError::UnclampedCurve) => check("not clamped", !cl),
                Err(MergeError::UnnormedCurve) => check("clamped, not normed", cl && !normed),
                _ => check("knots outside the clamped unit interval must be rejected", false),
            }
        }
    }
}

/// generation never changes the request: what cannot be met is an error
fn c25_illegal() {
    let p = 1 + choice("p", 4);
    let m = 1 + choice("m", 5);
    let q = data(m, 1);
    let d = DataPoints::new(q.clone());
    let n = 1 + choice("n", 7);
    let kappa = choice("kappa", 6);
    let pen = || if kappa == 0 { None } else { Some(Penalization { lambda: 0.5, kappa }) };
    let what = choice("what", 3);
    if what == 0 && (n > 1 || kappa > 0) {
        skip();
    }
    let (r, legal, seg) = match what {
        0 => (generate(Generation::Interpolation { degree: p, points: &d }), p <= m, m),
        o => {
            let method = if o == 1 { fit::Method::LooseEnds } else { fit::Method::FixedEnds };
            let legal = p <= n && n <= m && (kappa == 0 || kappa + o <= n);
            (generate(Generation::LeastSquaresFit { degree: p, points: &d, intended_segments: n, method, penalization: pen() }), legal, n)
        }
    };
    match r {
        Ok(c) => {
            check("only legal requests are met", legal);
            check("as requested", c.degree() == p && c.segments() == seg && c.dimension() == 1);
            well_formed("generated", &c);
        }
        Err(_) => check("legal requests are met", !legal),
    }
}

fn c25(cfg: &Cfg) {
    if cfg.is("kind", "illegal") {
        return c25_illegal();
    }
    let (p, n, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("dim"));
    let kind = cfg.s("kind").unwrap();
    match kind {
        "manual" => {
            let q = points(n, dim, "P");
            let own = choice("knots", 2) == 1;
            let mut u = uniform_knots(p, n);
            if own {
                u = knots(cfg, p, &vec![1; n - p], "");
            }
            let gen = if own { knots::Generation::Manual { knots: Knots::new(p, vecd(&u)) } } else { knots::Generation::Uniform };
            let c = generate(Generation::Manual { degree: p, points: ControlPoints::new(q.clone()), knots: gen }).expect("curve");
            same_as("manual curve", &c, &Ref { p, u, pts: q });
            check("all derivatives", c.max_derivative() == p);
        }
        "method" => {
            let q = points(n, dim, "P");
            let (uk, kk) = (cfg.s("u").unwrap(), cfg.s("k").unwrap());
            let q = if uk == "eq" { q } else { directed(n, dim, uk == "centripetal", p) };
            let ub = if uk == "eq" {
                params("eq", n)
            } else {
                let l = lengths(&q, uk == "centripetal");
                scope(&l);
                let t = total(&l);
                let mut c = 0.0;
                let mut v = vec![0.0];
                for g in 1..n {
                    c = c + l[g - 1];
                    v.push(c / t);
                }
                v.push(1.0);
                v
            };
            let gen = knots::Generation::Method { parameter_method: param_method(uk), knot_method: knot_method(kk) };
            let c = catch(|| generate(Generation::Manual { degree: p, points: ControlPoints::new(q.clone()), knots: gen }));
            let c = match c {
                Some(Ok(c)) => c,
                _ => return check("curve generated", false),
            };
            let w = match kk {
                "uniform" => uniform_knots(p, n),
                "averaging" => averaging_knots(p, n, &ub),
                _ => de_boor_knots(p, n, &ub),
            };
            tol_vec("knots", &kv(&c), &w);
            let m = mat(&c);
            check("shape", m.shape() == q.shape());
            if m.shape() == q.shape() {
                for i in 0..=n {
                    for d in 0..dim {
                        check_same("control points taken over", m[(d, i)], q[(d, i)]);
                    }
                }
            }
        }
        _ => {
            let m = cfg.nd("m", n);
            let q = data(m, dim);
            let d = DataPoints::new(q.clone());
            let ub = params("eq", m);
            let kmax = if kind == "fixed" { n.max(2) - 2 } else { n - 1 };
            let pen = if kind == "interpolation" {
                None
            } else {
                match choice("penalty", if kmax >= 2 { 3 } else if kmax >= 1 { 2 } else { 1 }) {
                    0 => None,
                    k => Some((0.75, k)),
                }
            };
            let r = match kind {
                "interpolation" => generate(Generation::Interpolation { degree: p, points: &d }),
                _ => generate(Generation::LeastSquaresFit {
                    degree: p,
                    points: &d,
                    intended_segments: n,
                    method: if kind == "fixed" { fit::Method::FixedEnds } else { fit::Method::LooseEnds },
                    penalization: pen.map(|(lambda, kappa)| Penalization { lambda, kappa }),
                }),
            };
            let c = match r {
                Ok(c) => c,
                Err(_) => return check("curve generated", false),
            };
            let w = uniform_knots(p, n);
            check("degree, segments, dimension", c.degree() == p && c.segments() == n && c.dimension() == dim);
            tol_vec("uniform knots", &kv(&c), &w);
            check("all derivatives", c.max_derivative() == p);
            if c.segments() != n || kv(&c).len() != w.len() {
                return;
            }
            let pts = mat(&c);
            if kind == "interpolation" {
                for g in 0..=m {
                    let want: Vec<f64> = (0..dim).map(|e| q[(e, g)]).collect();
                    eq_curve("through the data", &c, ub[g], 0, &want);
                }
            } else {
                if kind == "fixed" {
                    for e in 0..dim {
                        check_eq("starts at the first data point", ev(&c, 0.0, 0)[e], q[(e, 0)]);
                        check_eq("ends at the last data point", ev(&c, 1.0, 0)[e], q[(e, m)]);
                    }
                }
                if kind == "loose" || n >= 2 {
                    stationary(kind, &w, p, &pts, &q, &ub, pen, kind == "fixed");
                }
            }
        }
    }
}

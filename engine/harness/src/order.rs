//! C32 operations commute, C33 fits and interpolation agree where they must, C34 results depend on the arguments only.
use crate::gen::{at, params, stationary, supported, sym_params};
use crate::joins::{merged_knots, optimal, parts};
use crate::util::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, DomainKnotComparatorType as Cmp, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, Penalization};
use bsplines::curve::points::methods::interpolation;
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::Curve;
use bsplines::manipulation::merge::{merge, merge_from, merge_to};
use symrt::*;

pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match prop {
        "C32" => {
            for c in ["p=1 m=1", "p=2 m=-", "p=2 m=1 kn=fix", "p=2 m=2 kn=fix", "p=3 m=1 kn=fix dim=2", "p=3 m=3 kn=fix2", "p=4 m=2,1 kn=fix", "p=5 m=1 kn=fix2"] {
                for op in ["insert-insert", "insert-split", "split-split"] {
                    v.push(format!("op={} {}", op, c));
                }
            }
            for c in ["p=1 m=1,1", "p=2 m=1", "p=2 m=2,1 kn=fix dim=2", "p=3 m=1", "p=3 m=1,2,3 kn=fix", "p=4 m=3,1 kn=fix2", "p=5 m=1,5 kn=fix", "p=6 m=1 kn=fix dim=2", "p=3 m=r8 kn=fix"] {
                for op in ["derive-insert", "derive-split"] {
                    v.push(format!("op={} {}", op, c));
                }
            }
            if thorough {
                for c in ["p=2 m=1", "p=3 m=-", "p=3 m=1,2 kn=fix", "p=6 m=1 kn=fix", "p=3 m=r5 kn=fix2"] {
                    for op in ["insert-insert", "insert-split", "split-split"] {
                        v.push(format!("op={} {}", op, c));
                    }
                }
                for c in ["p=4 m=1", "p=3 m=2,1", "p=8 m=1,2 kn=fix", "p=4 m=r12 kn=fix"] {
                    for op in ["derive-insert", "derive-split"] {
                        v.push(format!("op={} {}", op, c));
                    }
                }
            }
        }
        "C33" => {
            for (p, n) in [(1, 1), (1, 4), (2, 2), (2, 4), (3, 3), (3, 5), (4, 6), (5, 7), (3, 9), (2, 12)] {
                for (u, k) in [("eq", "averaging"), ("irr", "averaging"), ("irr", "deboor")] {
                    v.push(format!("mode=hyb op=square p={} n={} u={} k={} dim={}", p, n, u, k, 1 + (p + n) % 3));
                }
                v.push(format!("mode=hyb op=smooth p={} n={} m={} dim={}", p, n, n + 1 + p, 1 + n % 2));
                v.push(format!("mode=hyb op=again p={} n={} m={} dim={}", p, n, n + 2 + p, 1 + n % 3));
            }
            for (p, n) in [(1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)] {
                for k in ["averaging", "deboor", "given"] {
                    v.push(format!("mode=hyb sym=1 op=square p={} n={} u=sym k={} dim=1", p, n, k));
                }
            }
            for (p, n) in [(1, 1), (2, 2), (3, 3), (5, 5), (7, 7)] {
                v.push(format!("op=bezier p={} n={}", p, n));
            }
            for n in [1, 2, 5, 9] {
                v.push(format!("mode=hyb op=polygon n={} dim=2", n));
            }
            for (p, n) in [(1, 3), (2, 5), (3, 7), (4, 9)] {
                v.push(format!("op=line p={} n={} dim=3", p, n));
            }
            if thorough {
                for (p, n) in [(3, 20), (5, 14), (6, 9)] {
                    v.push(format!("mode=hyb op=square p={} n={} u=irr k=averaging dim=2", p, n));
                    v.push(format!("mode=hyb op=smooth p={} n={} m={} dim=1", p, n, 2 * n));
                    v.push(format!("mode=hyb op=again p={} n={} m={} dim=2", p, n, 2 * n));
                }
            }
        }
        "C34" => {
            for c in ["p=1 m=1", "p=2 m=1", "p=2 m=2 dim=2", "p=3 m=1 kn=fix dim=2", "p=3 m=3,1 kn=fix", "p=5 m=1 kn=fix2"] {
                for op in ["evaluate", "history", "knots", "points"] {
                    v.push(format!("op={} {}", op, c));
                }
            }
            for (p, n) in [(1, 3), (2, 4), (3, 6), (4, 7)] {
                for op in ["fits", "interpolation", "merges", "methods"] {
                    v.push(format!("mode=hyb op={} p={} n={} dim={} kn=fix", op, p, n, 1 + n % 2));
                }
            }
            for c in ["p=1 n=4", "p=2 n=7", "p=3 n=10", "p=2 n=9"] {
                v.push(format!("mode=hyb op=penalties {} dim=1", c));
            }
            if thorough {
                for c in ["p=3 m=1", "p=4 m=2,1 kn=fix", "p=3 m=r5 kn=fix"] {
                    for op in ["evaluate", "history", "knots", "points"] {
                        v.push(format!("op={} {}", op, c));
                    }
                }
            }
        }
        _ => {}
    }
    v
}

pub fn body(prop: &str, cfg: &Cfg) {
    match prop {
        "C32" => commute(cfg),
        "C33" => agree(cfg),
        "C34" => repeat(cfg),
        _ => panic!("unknown property"),
    }
}

fn same(label: &str, a: &Curve, b: &Curve) {
    same_as(label, a, &Ref { p: b.degree(), u: kv(b), pts: mat(b) });
}
fn near(label: &str, a: &M, b: &M, tol: f64) {
    check(&format!("{}: shape", label), a.shape() == b.shape());
    if a.shape() == b.shape() {
        for i in 0..a.ncols() {
            for d in 0..a.nrows() {
                observe(label, a[(d, i)]);
                check_tol(&format!("{}: point {} coordinate {}", label, i, d), a[(d, i)], b[(d, i)], tol);
            }
        }
    }
}
/// multiplicity of t among the given knots
fn mult_of(u: &[f64], t: f64) -> usize {
    u.iter().filter(|x| **x == t).count()
}

fn commute(cfg: &Cfg) {
    let g = gen(cfg);
    let op = cfg.s("op").unwrap();
    let t = open_param("t");
    match op {
        "insert-insert" => {
            let s = open_param("s");
            let (mut a, mut b) = (g.c.clone(), g.c.clone());
            let x = a.insert(s).is_ok() as usize + a.insert(t).is_ok() as usize;
            let y = b.insert(t).is_ok() as usize + b.insert(s).is_ok() as usize;
            check("same number of accepted insertions", x == y);
            if x == y {
                same("insertions in either order", &a, &b);
            }
        }
        "insert-split" => {
            let s = open_param("s");
            assume_lt(s, t);
            let mut a = g.c.clone();
            let ok = a.insert(s).is_ok();
            match (a.split(t), g.c.split(t)) {
                (Ok((x, y)), Ok((mut l, r))) => {
                    check("same verdict", l.insert(s / t).is_ok() == ok);
                    same("left", &x, &l);
                    same("right", &y, &r);
                }
                (Err(_), Err(_)) => check("both rejected", true),
                _ => check("same verdict", false),
            }
        }
        "split-split" => {
            let s = open_param("s");
            assume_lt(s, t);
            match (g.c.split(s), g.c.split(t)) {
                (Ok((a, b)), Ok((c, d))) => match (b.split((t - s) / (1.0 - s)), c.split(s / t)) {
                    (Ok((m, e)), Ok((f, n))) => {
                        same("middle", &m, &n);
                        same("first", &a, &f);
                        same("last", &e, &d);
                    }
                    _ => check("pieces can be split where the curve can", false),
                },
                _ => check("rejected", true),
            }
        }
        "derive-insert" => {
            let k = choice("k", g.p) + 1;
            let mut a = g.c.clone();
            let mut d = g.c.get_derivative_curve(k);
            let m = mult_of(&g.u, t);
            match (a.insert(t).is_ok(), d.insert(t).is_ok()) {
                (true, true) => same("derivative of the refined curve", &a.get_derivative_curve(k), &d),
                (x, y) => {
                    check("curve takes the knot up to multiplicity p + 1", x == (m <= g.p));
                    check("derivative takes the knot up to multiplicity p - k + 1", y == (m <= g.p - k));
                }
            }
        }
        _ => {
            let k = choice("k", g.p) + 1;
            let d = g.c.get_derivative_curve(k);
            let m = mult_of(&g.u, t);
            match (g.c.split(t), d.split(t)) {
                (Ok((a, b)), Ok((x, y))) => {
                    let (mut fa, mut fb) = (1.0, 1.0);
                    for _ in 0..k {
                        fa *= t;
                        fb *= 1.0 - t;
                    }
                    let (a, b) = (a.get_derivative_curve(k), b.get_derivative_curve(k));
                    eq_vec("left knots", &kv(&a), &kv(&x));
                    eq_vec("right knots", &kv(&b), &kv(&y));
                    near("left", &mat(&a), &mat(&x).map(|v| v * fa), HYB_TOL);
                    near("right", &mat(&b), &mat(&y).map(|v| v * fb), HYB_TOL);
                }
                (x, y) => {
                    check("curve can be split up to multiplicity p", x.is_ok() == (m <= g.p));
                    check("derivative can be split up to multiplicity p - k", y.is_ok() == (m <= g.p - k));
                }
            }
        }
    }
}

fn sampled(u: &[f64], p: usize, b: &M, par: &[f64]) -> M {
    let w: Vec<Vec<f64>> = par.iter().map(|x| at(u, p, b, *x)).collect();
    M::from_fn(b.nrows(), par.len(), |d, g| w[g][d])
}
fn agree(cfg: &Cfg) {
    let op = cfg.s("op").unwrap();
    let n = cfg.n("n");
    match op {
        "square" => {
            // as many control points as data: both fits interpolate
            let (p, dim) = (cfg.n("p"), cfg.n("dim"));
            let ub = if cfg.is("u", "sym") { sym_params(n, 1.0 / 32.0) } else { params(cfg.s("u").unwrap(), n) };
            let par = Parameters::new(vecd(&ub), n);
            let method = if cfg.is("k", "deboor") { knots::Method::DeBoor } else { knots::Method::Averaging };
            let k = if cfg.is("k", "given") {
                let u = knots(cfg, p, &vec![1; n - p], "");
                supported(&u, p, &ub);
                Knots::new(p, vecd(&u))
            } else {
                knots::generate(p, n, &par, method).expect("knots")
            };
            let d = DataPoints::new(points(n, dim, "Q"));
            let x = interpolation::interpolate(&k, &d, &par);
            near("loose fit", &fit::loose::fit(&k, &d, &par, None).expect("fit"), &x, 1e-5);
            near("fixed fit", &fit::fixed::fit(&k, &d, &par, None).expect("fit"), &x, 1e-5);
        }
        "smooth" => {
            // data of a curve without kappa-th differences: the penalty is idle, whatever its weight
            let (p, m, dim) = (cfg.n("p"), cfg.n("m"), cfg.n("dim"));
            let fixed = choice("fixed", 2) == 1;
            let top = if fixed { n.max(2) - 2 } else { n - 1 };
            let kappa = 1 + choice("kappa", 3);
            if kappa > top {
                return check("penalty order too high for this size", true);
            }
            let lambda = [0.015625, 1.0, 32.0][choice("lambda", 3)];
            let par = parameters::methods::equally_spaced(m);
            let ub: Vec<f64> = par.vector().iter().copied().collect();
            let k = knots::methods::uniform(p, n).unwrap();
            let u: Vec<f64> = k.vector().iter().copied().collect();
            // control points: polynomials of degree kappa - 1 in their index
            let c = points(kappa - 1, dim, "C");
            let b = M::from_fn(dim, n + 1, |d, i| {
                let x = i as f64 / n as f64 - 0.5;
                let (mut s, mut y) = (0.0, 1.0);
                for j in 0..kappa {
                    s += c[(d, j)] * y;
                    y *= x;
                }
                s
            });
            let q = DataPoints::new(sampled(&u, p, &b, &ub));
            let pen = Some(Penalization { lambda, kappa });
            let r = if fixed { fit::fixed::fit(&k, &q, &par, pen) } else { fit::loose::fit(&k, &q, &par, pen) };
            near("penalised fit of smooth data", &r.expect("fit"), &b, 1e-5);
        }
        "again" => {
            // fitting the points of a fit changes nothing
            let (p, m, dim) = (cfg.n("p"), cfg.n("m"), cfg.n("dim"));
            let par = parameters::methods::equally_spaced(m);
            let ub: Vec<f64> = par.vector().iter().copied().collect();
            let k = knots::methods::uniform(p, n).unwrap();
            let u: Vec<f64> = k.vector().iter().copied().collect();
            let q = DataPoints::new(points(m, dim, "Q"));
            let how = choice("how", 2);
            let f = |q: &DataPoints| if how == 0 { fit::loose::fit(&k, q, &par, None) } else { fit::fixed::fit(&k, q, &par, None) }.expect("fit");
            let x = f(&q);
            let y = f(&DataPoints::new(sampled(&u, p, &x, &ub)));
            near("fit of a fit", &y, &x, 1e-5);
            let z = fit::loose::fit(&k, &DataPoints::new(sampled(&u, p, &x, &ub)), &par, None).expect("fit");
            near("loose fit of a fit", &z, &x, 1e-5);
        }
        "bezier" => {
            // no internal knots: all knot methods agree
            let p = cfg.n("p");
            let mut q = vec![0.0];
            for g in 1..n {
                let x = par(&format!("q{}", g));
                assume_gap(q[g - 1], x, GAP);
                q.push(x);
            }
            assume_gap(q[n - 1], 1.0, GAP);
            q.push(1.0);
            let par = Parameters::new(vecd(&q), n);
            let mut w = vec![0.0; p + 1];
            w.extend(vec![1.0; p + 1]);
            for m in [knots::Method::Uniform, knots::Method::Averaging, knots::Method::DeBoor] {
                let k = knots::generate(p, n, &par, m).expect("knots");
                eq_vec("knots of a Bezier curve", k.vector().as_slice(), &w);
            }
        }
        "polygon" => {
            // degree one with the parameters as knots: the control points are the data
            let dim = cfg.n("dim");
            let ub = params("irr", n);
            let par = Parameters::new(vecd(&ub), n);
            let q = points(n, dim, "Q");
            for m in [knots::Method::Averaging] {
                let k = knots::generate(1, n, &par, m).expect("knots");
                if choice("which", 2) == 0 || n < 2 {
                    near("linear interpolation", &interpolation::interpolate(&k, &DataPoints::new(q.clone()), &par), &q, 1e-6);
                } else {
                    near("linear fit", &fit::fixed::fit(&k, &DataPoints::new(q.clone()), &par, None).expect("fit"), &q, 1e-6);
                }
            }
        }
        _ => {
            // equally spaced data on a line: all parameter methods agree
            let (p, dim) = (cfg.n("p"), cfg.n("dim"));
            let s = par("s");
            assume_le(1.0 / 64.0, s);
            let v = [2.0, -1.0, 2.0];
            let o: Vec<f64> = (0..dim).map(|d| coord(&format!("o{}", d))).collect();
            let q = DataPoints::new(M::from_fn(dim, n + 1, |d, g| o[d] + v[d] * (g as f64) * (s * s * 3.0)));
            for m in [parameters::Method::EquallySpaced, parameters::Method::ChordLength, parameters::Method::Centripetal] {
                let r = parameters::generate(&q, m);
                check("count", r.vector().len() == n + 1);
                for g in 0..=n {
                    observe("u", r.vector()[g]);
                    check_tol("equally spaced", r.vector()[g], g as f64 / n as f64, 1e-9);
                }
                // and the knots computed from them
                let k = knots::generate(p, n, &r, knots::Method::Averaging).expect("knots");
                for j in 1..=n - p {
                    check_tol("averaged knot", k.vector()[p + j], (2 * j + p - 1) as f64 / (2 * n) as f64, 1e-9);
                }
            }
        }
    }
}

fn repeat(cfg: &Cfg) {
    match cfg.s("op").unwrap() {
        "evaluate" => {
            let g = gen(cfg);
            let other = Curve::new(Knots::new(2, vecd(&[0.0, 0.0, 0.0, 0.625, 1.0, 1.0, 1.0])), ControlPoints::new(points(3, g.dim, "X"))).expect("curve");
            let (s, t) = (param("s"), param("t"));
            let k = choice("k", g.p + 1);
            let ws = derivs(&g.u, g.p, &g.pts, s, g.p);
            let wt = derivs(&g.u, g.p, &g.pts, t, g.p);
            eq_curve("first", &g.c, s, k, &ws[k]);
            let l = (k + 1) % (g.p + 1);
            eq_curve("elsewhere", &g.c, t, l, &wt[l]);
            let _ = ev(&other, s, 1);
            eq_curve("again", &g.c, s, k, &ws[k]);
            let copy = g.c.clone();
            eq_curve("copy", &copy, t, k, &wt[k]);
            eq_curve("again elsewhere", &g.c, t, k, &wt[k]);
            unchanged("reading", &g.c, &g);
        }
        "history" => {
            // reads between changes, on the curve and on copies taken before
            let g = gen(cfg);
            let (u, t) = (param("u"), open_param("t"));
            let mut c = g.c.clone();
            let w = derivs(&g.u, g.p, &g.pts, u, g.p);
            let k = choice("k", 2).min(g.p);
            eq_curve("before", &c, u, k, &w[k]);
            match choice("op", 3) {
                0 => {
                    let ok = c.insert(t).is_ok();
                    check("accepted up to multiplicity p", ok == (mult_of(&g.u, t) <= g.p));
                    eq_curve("after an insertion", &c, u, k, &w[k]);
                }
                1 => {
                    c.reverse();
                    // read at the same parameter, in the same place
                    let z = value(&g.u, g.p, &g.pts, 1.0 - u);
                    let multi = g.p + 1;
                    if mult_of(&g.u, 1.0 - u) < multi {
                        eq_curve("reversed in place", &c, u, 0, &z);
                    }
                    let r = c.clone();
                    c.reverse();
                    let s = if k == 1 { -1.0 } else { 1.0 };
                    // at a knot the reversed curve takes the other side
                    if mult_of(&g.u, u) == 0 {
                        let z: Vec<f64> = w[k].iter().map(|x| s * x).collect();
                        eq_curve("reversed", &r, 1.0 - u, k, &z);
                    }
                    eq_curve("after two reversals", &c, u, k, &w[k]);
                }
                _ => {
                    if let Ok((a, b)) = c.split(t) {
                        let (a, b) = if u < t { (a, u / t) } else { (b, (u - t) / (1.0 - t)) };
                        let v = value(&g.u, g.p, &g.pts, u);
                        eq_curve("half", &a, b, 0, &v);
                    }
                    eq_curve("after a split", &c, u, k, &w[k]);
                }
            }
            eq_curve("original", &g.c, u, k, &w[k]);
            unchanged("original", &g.c, &g);
        }
        "knots" => {
            // searches and basis values after the vector has been changed and derived again
            let p = cfg.n("p");
            let mult = mults(cfg, "m");
            let (ua, ub) = (knots(cfg, p, &mult, "a"), knots(cfg, p, &mult, "b"));
            let n = ua.len() - p - 2;
            let x = param("u");
            let k = choice("k", p + 1);
            let mut a = Knots::new(p, vecd(&ua));
            a.derive();
            let keep = a.clone();
            let look = |kn: &Knots, u: &[f64], label: &str| {
                let i = kn.find_idx(x, 0, Cmp::LeftOrEqual);
                check_same(&format!("{}: knot left of u", label), u[i], u[span(u, p, x)]);
                let i = kn.find_idx(x, 0, Cmp::RightOrEqual);
                check(&format!("{}: knot right of or at u", label), u[i] >= x && (i == p || u[i - 1] < x || u[i - 1] == u[i]));
                let i = kn.find_idx(x, 0, Cmp::Left);
                check(&format!("{}: knot strictly left of u", label), (u[i] < x || x == 0.0) && u[i + 1] >= x);
                let i = kn.find_idx(x, 0, Cmp::Right);
                check(&format!("{}: knot strictly right of u", label), (u[i] > x || x == 1.0) && u[i - 1] <= x);
                for i in 0..=n - k {
                    // level k: degree p - k over the inner knots
                    let v = kn.evaluate(k, i, p, x);
                    observe("N", v);
                    check_eq(&format!("{}: basis {}", label, i), v, basis_fn(&u[k..u.len() - k], p - k, i, x));
                }
            };
            look(&a, &ua, "before");
            for i in 0..ub.len() {
                a.vector_mut()[i] = ub[i];
            }
            a.derive();
            look(&a, &ub, "changed");
            look(&keep, &ua, "copy");
        }
        "points" => {
            let g = gen(cfg);
            let z = points(g.n, g.dim, "Z");
            let u = param("u");
            let k = choice("k", g.p + 1);
            let keep = g.c.clone();
            let mut c = g.c.clone();
            eq_curve("before", &c, u, k, &derivs(&g.u, g.p, &g.pts, u, g.p)[k]);
            *c.points.matrix_mut() = z.clone();
            let kn = c.knots.clone();
            c.points.derive(&kn);
            eq_curve("moved", &c, u, k, &derivs(&g.u, g.p, &z, u, g.p)[k]);
            eq_curve("copy", &keep, u, k, &derivs(&g.u, g.p, &g.pts, u, g.p)[k]);
            unchanged("copy", &keep, &g);
        }
        "fits" => {
            let (p, n, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("dim"));
            let m = n + 4;
            let (ua, ub) = (params("irr", m), params("irr2", m));
            let uni: Vec<f64> = knots::methods::uniform(p, n).unwrap().vector().iter().copied().collect();
            let fix = knots(cfg, p, &vec![1; n - p], "");
            let fixed = choice("fixed", 2) == 1;
            let q = [points(m, dim, "Q"), points(m, dim, "R")];
            // same sizes throughout: parameters, knots, data and penalty change in turn
            let calls: [(&Vec<f64>, &Vec<f64>, usize, Option<(f64, usize)>); 6] =
                [(&uni, &ua, 0, None), (&uni, &ub, 0, None), (&fix, &ub, 1, None), (&uni, &ub, 1, Some((2.0, 1))), (&uni, &ub, 1, Some((0.25, 1))), (&uni, &ua, 0, None)];
            for (i, (u, ub, j, pen)) in calls.iter().enumerate() {
                let par = Parameters::new(vecd(ub), m);
                let k = Knots::new(p, vecd(u));
                let d = DataPoints::new(q[*j].clone());
                let pn = pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
                let r = if fixed { fit::fixed::fit(&k, &d, &par, pn) } else { fit::loose::fit(&k, &d, &par, pn) };
                match r {
                    Ok(x) => stationary(&format!("call {}", i), u, p, &x, &q[*j], ub, *pen, fixed),
                    Err(_) => check("legal fit accepted", false),
                }
            }
        }
        "penalties" => {
            // same sizes, knots, parameters and data: only the penalty changes from call to call
            let (p, n, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("dim"));
            let m = n + 3;
            let uni: Vec<f64> = knots::methods::uniform(p, n).unwrap().vector().iter().copied().collect();
            let ua = params("eq", m);
            let par = Parameters::new(vecd(&ua), m);
            let k = Knots::new(p, vecd(&uni));
            let q = points(m, dim, "Q");
            let d = DataPoints::new(q.clone());
            let fixed = choice("fixed", 2) == 1;
            let top = if fixed { n - 2 } else { n - 1 };
            let seq: &[(f64, usize)] = match choice("order", 3) {
                0 => &[(0.5, 1), (0.5, 2), (0.5, 3), (0.5, 4), (0.5, 5), (0.5, 6), (0.5, 7), (0.5, 1)],
                1 => &[(0.25, 7), (0.25, 6), (0.25, 5), (0.25, 4), (0.25, 3), (0.25, 2), (0.25, 1), (0.25, 7)],
                _ => &[(0.5, 2), (0.0, 2), (0.5, 2), (0.5, 4), (0.25, 4), (1.0, 2), (1.0, 1), (0.5, 2)],
            };
            for (i, (lambda, kappa)) in seq.iter().enumerate() {
                if *kappa > top {
                    continue;
                }
                let pn = Some(Penalization { lambda: *lambda, kappa: *kappa });
                let r = if fixed { fit::fixed::fit(&k, &d, &par, pn) } else { fit::loose::fit(&k, &d, &par, pn) };
                match r {
                    Ok(x) => stationary(&format!("call {}", i), &uni, p, &x, &q, &ua, Some((*lambda, *kappa)), fixed),
                    Err(_) => check("legal fit accepted", false),
                }
            }
        }
        "interpolation" => {
            let (p, n, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("dim"));
            let q = [points(n, dim, "Q"), points(n, dim, "R")];
            for (i, (kind, how, j)) in [("irr", 0, 0), ("irr2", 0, 0), ("irr2", 1, 1), ("eq", 0, 1), ("irr", 0, 0)].iter().enumerate() {
                let ub = params(kind, n);
                let par = Parameters::new(vecd(&ub), n);
                let method = if *how == 1 { knots::Method::DeBoor } else { knots::Method::Averaging };
                let k = knots::generate(p, n, &par, method).expect("knots");
                let u: Vec<f64> = k.vector().iter().copied().collect();
                let x = interpolation::interpolate(&k, &DataPoints::new(q[*j].clone()), &par);
                near(&format!("call {}", i), &sampled(&u, p, &x, &ub), &q[*j], 1e-6);
            }
        }
        "merges" => {
            let (p, n, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("dim"));
            let mk = |tag: &str, kn: &str| {
                let u = knots(&Cfg(format!("kn={}", kn)), p, &vec![1; n - p], "");
                let pts = points(n, dim, tag);
                let c = curve(p, &u, &pts);
                Gen { p, n, dim, u, pts, c }
            };
            let (a, b, c) = (mk("A", "fix"), mk("B", "fix2"), mk("C", "fix3"));
            for (i, (x, y, how)) in [(&a, &b, 0), (&b, &a, 0), (&a, &c, 0), (&a, &c, 1), (&a, &c, 2), (&a, &b, 0)].iter().enumerate() {
                if *how > 0 && p < 2 {
                    continue;
                }
                let r = match how {
                    0 => merge(&x.c, &y.c),
                    1 => merge_from(&x.c, &y.c),
                    _ => merge_to(&x.c, &y.c),
                };
                let label = format!("call {}", i);
                match r {
                    Ok(r) => {
                        if let Some(q) = parts(&label, x, y, &r) {
                            let (ca, cb): (&[f64], &[f64]) = [(&[][..], &[][..]), (&[1.0][..], &[][..]), (&[][..], &[0.0][..])][*how];
                            optimal(&label, &q, &merged_knots(&x.u, &y.u, p), ca, cb);
                        }
                    }
                    Err(_) => check("merged", false),
                }
            }
        }
        _ => {
            // generation of several curves, same sizes, different methods and data
            let (p, n, dim) = (cfg.n("p"), cfg.n("n"), cfg.n("dim"));
            let q = [points(n, dim, "Q"), points(n, dim, "R")];
            for j in [0, 1, 0] {
                let c = generate(Generation::Manual { degree: p, points: ControlPoints::new(q[j].clone()), knots: knots::Generation::Uniform }).expect("curve");
                near("generated", &mat(&c), &q[j], 0.0);
                let x = generate(Generation::Interpolation { degree: p, points: &DataPoints::new(q[j].clone()) }).expect("curve");
                let ub: Vec<f64> = (0..=n).map(|g| g as f64 / n as f64).collect();
                near("interpolated", &sampled(&kv(&x), p, &mat(&x), &ub), &q[j], 1e-6);
            }
        }
    }
}
fn unchanged(label: &str, c: &Curve, g: &Gen) {
    same_as(&format!("{}: unchanged", label), c, &Ref { p: g.p, u: g.u.clone(), pts: g.pts.clone() });
}

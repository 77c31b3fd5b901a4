//! C19: every operation treats the coordinates of the points independently and alike.
use crate::util::*;
use bsplines::curve::knots;
use bsplines::curve::parameters;
use bsplines::curve::points::methods::{fit, interpolation};
use bsplines::curve::points::{DataPoints, Points};
use bsplines::curve::Curve;
use bsplines::manipulation::{merge, reverse};
use symrt::*;

fn row(m: &M, d: usize) -> M {
    M::from_fn(1, m.ncols(), |_, j| m[(d, j)])
}
fn eq_rows(label: &str, whole: &M, parts: &[M]) {
    for (d, q) in parts.iter().enumerate() {
        check(&format!("{}: shape", label), q.ncols() == whole.ncols() && whole.nrows() == parts.len());
        if q.ncols() == whole.ncols() && whole.nrows() == parts.len() {
            for j in 0..q.ncols() {
                observe(label, whole[(d, j)]);
                check_eq(&format!("{}: coordinate {} of point {}", label, d, j), whole[(d, j)], q[(0, j)]);
            }
        }
    }
}
fn pts(n: usize, dim: usize, tag: &str) -> M {
    M::from_fn(dim, n + 1, |d, i| coord(&format!("{}{}_{}", tag, i, d)))
}

pub fn body(cfg: &Cfg) {
    let op = cfg.s("op").unwrap();
    let dim = cfg.n("dim");
    let p = cfg.n("p");
    match op {
        "evaluate" | "insert" | "split" | "reverse" | "derivative" => {
            let u = knots(cfg, p, &mults(cfg, "m"), "");
            let n = u.len() - p - 2;
            let q = pts(n, dim, "P");
            let whole = curve(p, &u, &q);
            let parts: Vec<Curve> = (0..dim).map(|d| curve(p, &u, &row(&q, d))).collect();
            match op {
                "evaluate" => {
                    let x = param("u");
                    for k in 0..=p {
                        let v = ev(&whole, x, k);
                        check("dimension", v.len() == dim);
                        for d in 0..dim.min(v.len()) {
                            observe("v", v[d]);
                            check_eq("coordinate", v[d], ev(&parts[d], x, k)[0]);
                        }
                    }
                }
                "insert" => {
                    let t = open_param("t");
                    let mut c = whole.clone();
                    let ok = c.insert(t).is_ok();
                    let mut qs = vec![];
                    for d in 0..dim {
                        let mut e = parts[d].clone();
                        check("same verdict", e.insert(t).is_ok() == ok);
                        qs.push(mat(&e));
                    }
                    eq_rows("insert", &mat(&c), &qs);
                }
                "split" => {
                    let t = open_param("t");
                    let r = whole.split(t);
                    let rs: Vec<_> = parts.iter().map(|c| c.split(t)).collect();
                    for x in &rs {
                        check("same verdict", x.is_ok() == r.is_ok());
                    }
                    if let Ok((a, b)) = r {
                        if rs.iter().all(|x| x.is_ok()) {
                            eq_rows("left", &mat(&a), &rs.iter().map(|x| mat(&x.as_ref().unwrap().0)).collect::<Vec<_>>());
                            eq_rows("right", &mat(&b), &rs.iter().map(|x| mat(&x.as_ref().unwrap().1)).collect::<Vec<_>>());
                        }
                    }
                }
                "reverse" => {
                    let r = reverse::reversed(&whole);
                    eq_rows("reverse", &mat(&r), &parts.iter().map(|c| mat(&reverse::reversed(c))).collect::<Vec<_>>());
                }
                _ => {
                    for k in 0..=p {
                        let r = whole.get_derivative_curve(k);
                        eq_rows("derivative", &mat(&r), &parts.iter().map(|c| mat(&c.get_derivative_curve(k))).collect::<Vec<_>>());
                    }
                }
            }
        }
        "merge" => {
            let n = cfg.n("n");
            let ua = knots(cfg, p, &vec![1; n - p], "a");
            let ub = knots(cfg, p, &vec![1; n + 1 - p], "b");
            let (a, b) = (pts(n, dim, "A"), pts(n + 1, dim, "B"));
            let w = merge::merge(&curve(p, &ua, &a), &curve(p, &ub, &b)).expect("merge");
            let qs: Vec<M> =
                (0..dim).map(|d| mat(&merge::merge(&curve(p, &ua, &row(&a, d)), &curve(p, &ub, &row(&b, d))).expect("merge"))).collect();
            eq_rows("merge", &mat(&w), &qs);
        }
        _ => {
            let n = cfg.n("n");
            let m = if op == "interpolate" { n } else { n + 2 };
            let q = pts(m, dim, "Q");
            let kn = knots::methods::uniform(p, n).unwrap();
            let pen = || if op.ends_with("-pen") { Some(fit::Penalization { lambda: 0.75, kappa: 2 }) } else { None };
            let f = |q: &M| -> M {
                let d = DataPoints::new(q.clone());
                let par = parameters::generate(&d, parameters::Method::EquallySpaced);
                match op {
                    "interpolate" => interpolation::interpolate(&kn, &d, &par),
                    "loose" | "loose-pen" => fit::loose::fit(&kn, &d, &par, pen()).expect("fit"),
                    _ => fit::fixed::fit(&kn, &d, &par, pen()).expect("fit"),
                }
            };
            let w = f(&q);
            let qs: Vec<M> = (0..dim).map(|d| f(&row(&q, d))).collect();
            eq_rows(op, &w, &qs);
            let _ = DataPoints::new(q.clone()).dimension();
        }
    }
}

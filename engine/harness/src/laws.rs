//! C28 the pieces are polynomials that join smoothly, C29 affine maps, C30 reversal commutes with everything,
//! C31 point collections keep what they are given.
use crate::util::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, Penalization};
use bsplines::curve::points::methods::interpolation;
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::Curve;
use bsplines::manipulation::{merge, reverse};
use symrt::*;

pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |l: &[&str]| v.extend(l.iter().map(|x| x.to_string()));
    match prop {
        "C28" => {
            add(&[
                "p=0 m=1,1", "p=1 m=- dim=2", "p=1 m=1,1", "p=1 m=2,1", "p=2 m=1", "p=2 m=2", "p=2 m=1,1 kn=fix", "p=2 m=1,3 kn=fix2", "p=3 m=1 kn=fix", "p=3 m=1,2,3,4 kn=fix dim=2", "p=4 m=1,4,2 kn=fix2",
                "p=5 m=2,5,1 kn=fix", "p=6 m=1,1 kn=fix2", "p=7 m=3,1 kn=fix dim=4", "p=8 m=1 kn=fix", "p=3 m=r16 kn=fix", "p=2 m=r22 kn=fix2 dim=3", "p=5 m=r12 kn=fix",
            ]);
            if thorough {
                add(&["p=3 m=1", "p=2 m=1,1", "p=3 m=2 ", "p=9 m=1,2 kn=fix", "p=3 m=r40 kn=fix", "p=6 m=1,2,3,4,5,6,7 kn=fix", "p=4 m=r30 kn=fix2 dim=6"]);
            }
        }
        "C29" => {
            for c in ["p=1 m=1 dim=2", "p=2 m=1 dim=2", "p=2 m=2,1 kn=fix dim=3", "p=3 m=1 kn=fix dim=2", "p=3 m=1,2,3 kn=fix2 dim=2", "p=4 m=2 kn=fix dim=1", "p=5 m=1,1 kn=fix2 dim=2"] {
                for op in ["evaluate", "insert", "split", "reverse"] {
                    v.push(format!("op={} {}", op, c));
                }
            }
            for c in ["p=1 m=1", "p=2 m=1,1", "p=3 m=2", "p=3 m=1,1 kn=fix", "p=4 m=1,2 kn=fix2", "p=6 m=1,3 kn=fix", "p=8 m=r4 kn=fix"] {
                v.push(format!("op=greville {}", c));
            }
            for op in ["merge", "merge-from", "merge-to", "interpolate", "loose", "fixed", "loose-pen", "fixed-pen"] {
                for c in ["p=1 n=3 dim=2", "p=2 n=4 dim=2", "p=3 n=5 dim=3", "p=4 n=7 dim=1", "p=5 n=9 dim=2"] {
                    v.push(format!("mode=hyb op={} {} kn=fix", op, c));
                }
            }
            for op in ["merge", "merge-from", "merge-to", "interpolate", "loose", "fixed"] {
                for c in ["p=1 n=2 dim=1", "p=2 n=2 dim=1", "p=2 n=3 dim=2", "p=2 n=4 dim=1", "p=3 n=4 dim=1"] {
                    v.push(format!("mode=hyb sym=1 op={} {} kn=sym", op, c));
                }
            }
            for k in ["chord", "centripetal"] {
                for c in ["m=2 dim=2", "m=3 dim=3", "m=5 dim=1", if k == "chord" { "m=6 dim=2" } else { "m=3 dim=2" }] {
                    v.push(format!("op=params kind={} {}", k, c));
                }
                for z in if k == "chord" { [-60, 60] } else { [-24, 60] } {
                    for c in ["m=2 dim=2", "m=3 dim=5", "m=3 dim=1"] {
                        v.push(format!("op=params kind={} {} z={}", k, c, z));
                    }
                }
            }
            if thorough {
                for op in ["merge", "interpolate", "loose", "fixed", "loose-pen", "fixed-pen"] {
                    v.push(format!("mode=hyb op={} p=3 n=14 dim=3 kn=fix", op));
                }
                for op in ["evaluate", "insert", "split", "reverse"] {
                    v.push(format!("op={} p=3 m=r8 kn=fix dim=2", op));
                }
            }
        }
        "C30" => {
            for c in ["p=1 m=1,1", "p=2 m=1", "p=2 m=2 dim=2", "p=2 m=3,1 kn=fix", "p=3 m=1 kn=fix", "p=3 m=1,3 kn=fix2", "p=4 m=2,1 kn=fix dim=2", "p=5 m=1 kn=fix", "p=3 m=r6 kn=fix"] {
                for op in ["insert", "split", "derivative"] {
                    v.push(format!("op={} {}", op, c));
                }
            }
            for c in ["p=1 m=1 mb=-", "p=2 m=1 mb=1,1 dim=2", "p=3 m=2 mb=1", "p=3 m=1,1 mb=-", "p=4 m=1 mb=2,1", "p=5 m=- mb=1", "p=6 m=1 mb=1"] {
                for kn in ["fix", "fix3"] {
                    v.push(format!("mode=hyb op=merge {} kn={}", c, kn));
                }
            }
            for op in ["interpolate", "loose", "fixed", "loose-pen", "fixed-pen"] {
                for c in ["p=1 n=4 dim=2", "p=2 n=5 dim=1", "p=3 n=6 dim=2", "p=4 n=8 dim=1", "p=5 n=7 dim=1", "p=3 n=12 dim=1"] {
                    v.push(format!("mode=hyb op={} {} kn=fix", op, c));
                }
            }
            for c in ["p=1 m=1 mb=1", "p=2 m=1 mb=-", "p=2 m=1 mb=1", "p=2 m=2 mb=1", "p=3 m=1 mb=1", "p=3 m=2 mb=-"] {
                v.push(format!("mode=hyb sym=1 op=merge {} kn=sym", c));
            }
            for op in ["interpolate", "loose", "fixed"] {
                for c in ["p=1 n=3 dim=1", "p=2 n=3 dim=2", "p=2 n=4 dim=1", "p=3 n=5 dim=1"] {
                    v.push(format!("mode=hyb sym=1 op={} {} kn=sym", op, c));
                }
            }
            for k in ["equal", "chord", "centripetal"] {
                for c in ["m=2 dim=2", "m=4 dim=3", "m=7 dim=1"] {
                    v.push(format!("op=params kind={} {}", k, c));
                }
            }
            for c in ["p=1 n=4", "p=2 n=5", "p=3 n=7", "p=5 n=8", "p=2 n=5 eq=2", "p=3 n=6 eq=2,3", "p=2 n=6 eq=1,5"] {
                v.push(format!("op=knots {}", c));
            }
            if thorough {
                for op in ["insert", "split", "derivative"] {
                    for c in ["p=3 m=1", "p=2 m=1,2", "p=4 m=1,2,3 kn=fix", "p=7 m=1 kn=fix", "p=3 m=r14 kn=fix"] {
                        v.push(format!("op={} {}", op, c));
                    }
                }
            }
        }
        "C31" => {
            add(&["mode=fp n=0 dim=1", "mode=fp n=1 dim=2", "mode=fp n=4 dim=3", "mode=fp n=9 dim=1", "mode=fp n=3 dim=6", "op=derive p=1 m=1", "op=derive p=2 m=1,1 dim=2", "op=derive p=3 m=2,1 kn=fix dim=3", "op=derive p=5 m=1,1 kn=fix", "op=derive p=4 m=r6 kn=fix dim=2"]);
            if thorough {
                add(&["mode=fp n=20 dim=4", "op=derive p=3 m=1,1", "op=derive p=7 m=r4 kn=fix"]);
            }
        }
        _ => {}
    }
    v
}

pub fn body(prop: &str, cfg: &Cfg) {
    match prop {
        "C28" => pieces(cfg),
        "C29" => affine(cfg),
        "C30" => mirror(cfg),
        "C31" => collections(cfg),
        _ => panic!("unknown property"),
    }
}

/// value at x of the polynomial through (xs[i], ys[i])
fn lagrange(xs: &[f64], ys: &[f64], x: f64) -> f64 {
    let mut s = 0.0;
    for i in 0..xs.len() {
        let mut l = 1.0;
        for j in 0..xs.len() {
            if j != i {
                l = l * (x - xs[j]) / (xs[i] - xs[j]);
            }
        }
        s += l * ys[i];
    }
    s
}
/// derivative at xs[0] of the polynomial through (xs[i], ys[i])
fn lagrange_slope(xs: &[f64], ys: &[f64]) -> f64 {
    let mut s = 0.0;
    let mut d = 0.0;
    for j in 1..xs.len() {
        d += 1.0 / (xs[0] - xs[j]);
        let mut l = 1.0 / (xs[j] - xs[0]);
        for i in 1..xs.len() {
            if i != j {
                l = l * (xs[0] - xs[i]) / (xs[j] - xs[i]);
            }
        }
        s += l * ys[j];
    }
    s + d * ys[0]
}
/// m + 1 distinct points inside the span (a, b)
fn inside(a: f64, b: f64, m: usize) -> Vec<f64> {
    (1..=m + 1).map(|j| a + (b - a) * (j as f64 / 16.0)).collect()
}

/// no reference curve: the values the library returns are those of polynomials of degree p - k that join smoothly
fn pieces(cfg: &Cfg) {
    let g = gen(cfg);
    let p = g.p;
    let mult = mults(cfg, "m");
    // the distinct knots
    let mut t = vec![0.0];
    let mut i = p + 1;
    for m in &mult {
        t.push(g.u[i]);
        i += m;
    }
    t.push(1.0);
    let s = choice("span", t.len() - 1);
    let k = choice("k", p + 1);
    let xs = inside(t[s], t[s + 1], p - k + 1);
    let v: Vec<Vec<f64>> = xs.iter().map(|x| ev(&g.c, *x, k)).collect();
    let last = s + 2 == t.len();
    let w: Option<(Vec<f64>, Vec<Vec<f64>>)> = if k < p { Some((xs.clone(), xs.iter().map(|x| ev(&g.c, *x, k + 1)).collect())) } else { None };
    let ends = (ev(&g.c, t[s], k), ev(&g.c, t[s + 1], k));
    // anywhere in the span
    let any = cfg.s("kn").map(|_| {
        let x = par("x");
        assume_lt(t[s], x);
        assume_lt(x, t[s + 1]);
        (x, ev(&g.c, x, k))
    });
    for d in 0..g.dim {
        let ys: Vec<f64> = v.iter().map(|y| y[d]).collect();
        let l = xs.len() - 1;
        observe("y", ys[l]);
        if let Some((x, y)) = &any {
            check_eq("polynomial of degree p - k, anywhere in the span", lagrange(&xs[..l], &ys[..l], *x), y[d]);
        }
        check_eq("polynomial of degree p - k in a span", lagrange(&xs[..l], &ys[..l], xs[l]), ys[l]);
        check_eq("the start of the span belongs to it", lagrange(&xs[..l], &ys[..l], t[s]), ends.0[d]);
        if let Some((xs, w)) = &w {
            check_eq("order k + 1 is the slope of order k", lagrange_slope(&xs[..l], &ys[..l]), w[0][d]);
        }
        // continuity at the end: orders up to p - multiplicity
        if last || k + mult[s] <= p {
            check_eq("continuous up to order p - multiplicity", lagrange(&xs[..l], &ys[..l], t[s + 1]), ends.1[d]);
        }
    }
}

/// x -> A x + b with a fixed regular A and arbitrary b
struct Map {
    a: M,
    b: Vec<f64>,
}
impl Map {
    fn new(dim: usize, b: &str) -> Map {
        let mut a = M::zeros(dim, dim);
        for i in 0..dim {
            for j in 0..dim {
                a[(i, j)] = if i == j { 0.5 + 0.25 * (i % 2) as f64 } else { [0.125, -0.25, 0.375][(i * 2 + j) % 3] };
            }
        }
        if dim == 1 {
            a[(0, 0)] = -0.625;
        }
        Map { a, b: (0..dim).map(|d| coord(&format!("{}{}", b, d))).collect() }
    }
    fn points(&self, q: &M) -> M {
        M::from_fn(q.nrows(), q.ncols(), |d, i| self.one(&(0..q.nrows()).map(|e| q[(e, i)]).collect::<Vec<_>>(), true)[d])
    }
    fn one(&self, x: &[f64], shift: bool) -> Vec<f64> {
        (0..x.len())
            .map(|d| {
                let mut s = if shift { self.b[d] } else { 0.0 };
                for e in 0..x.len() {
                    s += self.a[(d, e)] * x[e];
                }
                s
            })
            .collect()
    }
}
fn same_points(label: &str, a: &M, b: &M) {
    check(&format!("{}: shape", label), a.shape() == b.shape());
    if a.shape() == b.shape() {
        for i in 0..a.ncols() {
            for d in 0..a.nrows() {
                observe(label, a[(d, i)]);
                check_eq(&format!("{}: point {} coordinate {}", label, i, d), a[(d, i)], b[(d, i)]);
            }
        }
    }
}
fn same_curve(label: &str, a: &Curve, b: &Curve) {
    check(&format!("{}: degree", label), a.degree() == b.degree());
    eq_vec(&format!("{}: knots", label), &kv(a), &kv(b));
    same_points(label, &mat(a), &mat(b));
}
fn fit_knots(cfg: &Cfg, op: &str, p: usize, n: usize) -> Knots {
    if op.ends_with("-pen") || op == "interpolate" && !cfg.is("sym", "1") {
        return knots::methods::uniform(p, n).unwrap();
    }
    let u = knots(cfg, p, &vec![1; n - p], "");
    if cfg.is("sym", "1") {
        let m = if op == "interpolate" { n } else { n + 3 };
        crate::gen::supported(&u, p, &crate::gen::params("eq", m));
    }
    Knots::new(p, vecd(&u))
}
fn fitted(op: &str, k: &Knots, q: &M) -> M {
    let d = DataPoints::new(q.clone());
    let par = parameters::generate(&d, parameters::Method::EquallySpaced);
    let n = k.segments();
    let pen = if op.ends_with("-pen") { Some(Penalization { lambda: 0.75, kappa: if n >= 4 { 2 } else { 1 } }) } else { None };
    match op {
        "interpolate" => interpolation::interpolate(k, &d, &par),
        "loose" | "loose-pen" => fit::loose::fit(k, &d, &par, pen).expect("fit"),
        _ => fit::fixed::fit(k, &d, &par, pen).expect("fit"),
    }
}

fn affine(cfg: &Cfg) {
    let op = cfg.s("op").unwrap();
    let dim = cfg.nd("dim", 1);
    match op {
        "evaluate" | "insert" | "split" | "reverse" => {
            let g = gen(cfg);
            let f = Map::new(dim, "b");
            let c = curve(g.p, &g.u, &f.points(&g.pts));
            match op {
                "evaluate" => {
                    let u = param("u");
                    for k in 0..=g.p + 1 {
                        let w = f.one(&ev(&g.c, u, k), k == 0);
                        eq_curve("image", &c, u, k, &w);
                    }
                }
                "insert" => {
                    let t = open_param("t");
                    let (mut a, mut b) = (g.c.clone(), c.clone());
                    let (x, y) = (a.insert(t).is_ok(), b.insert(t).is_ok());
                    check("same verdict", x == y);
                    same_points("insert", &mat(&b), &f.points(&mat(&a)));
                    eq_vec("knots", &kv(&a), &kv(&b));
                }
                "split" => {
                    let t = open_param("t");
                    match (g.c.split(t), c.split(t)) {
                        (Ok((a, b)), Ok((x, y))) => {
                            same_points("left", &mat(&x), &f.points(&mat(&a)));
                            same_points("right", &mat(&y), &f.points(&mat(&b)));
                        }
                        (Err(_), Err(_)) => check("both rejected", true),
                        _ => check("same verdict", false),
                    }
                }
                _ => same_points("reverse", &mat(&reverse::reversed(&c)), &f.points(&mat(&reverse::reversed(&g.c)))),
            }
        }
        "greville" => {
            // control points at the knot averages: the curve is the identity
            let p = cfg.n("p");
            let u = knots(cfg, p, &mults(cfg, "m"), "");
            let n = u.len() - p - 2;
            let a = coord("a");
            let q = M::from_fn(2, n + 1, |d, i| {
                if d == 1 {
                    return a;
                }
                let mut s = 0.0;
                for j in 1..=p {
                    s += u[i + j];
                }
                s / p as f64
            });
            let c = curve(p, &u, &q);
            let x = param("u");
            eq_curve("identity", &c, x, 0, &[x, a]);
            eq_curve("speed one", &c, x, 1, &[1.0, 0.0]);
            // (higher orders lose too many digits in the native replay)
            for k in 2..=p.min(4) {
                eq_curve("no curvature", &c, x, k, &[0.0, 0.0]);
            }
        }
        "merge" | "merge-from" | "merge-to" => {
            let (p, n) = (cfg.n("p"), cfg.n("n"));
            if op != "merge" && p < 2 {
                return check("too few free points", true);
            }
            let ua = knots(cfg, p, &vec![1; n - p], "a");
            let ub = knots(cfg, p, &vec![1; n + 1 - p], "b");
            let (a, b) = (points(n, dim, "A"), points(n + 1, dim, "B"));
            let f = Map::new(dim, "c");
            let go = |a: &M, b: &M| {
                let (x, y) = (curve(p, &ua, a), curve(p, &ub, b));
                match op {
                    "merge" => merge::merge(&x, &y),
                    "merge-from" => merge::merge_from(&x, &y),
                    _ => merge::merge_to(&x, &y),
                }
                .expect("merge")
            };
            let (x, y) = (go(&a, &b), go(&f.points(&a), &f.points(&b)));
            same_points(op, &mat(&y), &f.points(&mat(&x)));
        }
        "params" => {
            let m = cfg.n("m");
            let cp = cfg.is("kind", "centripetal");
            let q = crate::gen::directed(m, dim, cp, 1);
            crate::gen::scope(&crate::gen::lengths(&q, cp));
            // a rotation with rational entries, a uniform scale and a shift
            let sh: Vec<f64> = (0..dim).map(|d| coord(&format!("b{}", d))).collect();
            let scale = 2f64.powi(cfg.s("z").unwrap_or("0").parse().unwrap());
            let z = M::from_fn(dim, m + 1, |d, i| {
                let v = match (dim, d) {
                    (1, _) => -q[(0, i)],
                    (_, 0) => 0.75 * q[(0, i)] - q[(1, i)],
                    (_, 1) => q[(0, i)] + 0.75 * q[(1, i)],
                    _ => 1.25 * q[(d, i)],
                };
                (4.0 * v + sh[d]) * scale
            });
            let method = || if cp { parameters::Method::Centripetal } else { parameters::Method::ChordLength };
            let a = parameters::generate(&DataPoints::new(q.clone()), method());
            let b = parameters::generate(&DataPoints::new(z), method());
            {
                check("as many parameters", a.vector().len() == b.vector().len());
            }
            for g in 0..=m {
                observe("u", a.vector()[g]);
                check_eq(&format!("parameter {} invariant", g), a.vector()[g], b.vector()[g]);
            }
        }
        _ => {
            let (p, n) = (cfg.n("p"), cfg.n("n"));
            let m = if op == "interpolate" { n } else { n + 3 };
            let q = points(m, dim, "Q");
            let f = Map::new(dim, "b");
            let k = fit_knots(cfg, op, p, n);
            same_points(op, &fitted(op, &k, &f.points(&q)), &f.points(&fitted(op, &k, &q)));
        }
    }
}

fn turned(q: &M) -> M {
    let n = q.ncols();
    M::from_fn(q.nrows(), n, |d, i| q[(d, n - 1 - i)])
}
fn mirror(cfg: &Cfg) {
    let op = cfg.s("op").unwrap();
    let dim = cfg.nd("dim", 1);
    match op {
        "insert" => {
            let g = gen(cfg);
            let t = open_param("t");
            let mut a = g.c.clone();
            let mut b = reverse::reversed(&g.c);
            let (x, y) = (a.insert(t).is_ok(), b.insert(1.0 - t).is_ok());
            check("same verdict", x == y);
            same_curve("insert", &reverse::reversed(&a), &b);
        }
        "split" => {
            let g = gen(cfg);
            let t = open_param("t");
            let r = reverse::reversed(&g.c);
            match (g.c.split(t), r.split(1.0 - t)) {
                (Ok((a, b)), Ok((x, y))) => {
                    same_curve("left", &reverse::reversed(&b), &x);
                    same_curve("right", &reverse::reversed(&a), &y);
                }
                (Err(_), Err(_)) => check("both rejected", true),
                _ => check("same verdict", false),
            }
        }
        "derivative" => {
            let g = gen(cfg);
            let k = choice("k", g.p + 1);
            let a = reverse::reversed(&g.c.get_derivative_curve(k));
            let b = reverse::reversed(&g.c).get_derivative_curve(k);
            let s = if k % 2 == 1 { -1.0 } else { 1.0 };
            let m = mat(&a).map(|x| s * x);
            eq_vec("derivative: knots", &kv(&a), &kv(&b));
            same_points("derivative", &m, &mat(&b));
        }
        "merge" => {
            let g = gen_tag(cfg, "p", "m", "a");
            let h = gen_tag(cfg, "p", "mb", "b");
            let (rg, rh) = (reverse::reversed(&g.c), reverse::reversed(&h.c));
            let (x, y) = match choice("how", 3) {
                0 => (merge::merge(&g.c, &h.c), merge::merge(&rh, &rg)),
                1 if g.p >= 2 => (merge::merge_from(&g.c, &h.c), merge::merge_to(&rh, &rg)),
                2 if g.p >= 2 => (merge::merge_to(&g.c, &h.c), merge::merge_from(&rh, &rg)),
                _ => return check("too few free points", true),
            };
            match (x, y) {
                (Ok(x), Ok(y)) => same_curve("merge", &reverse::reversed(&x), &y),
                _ => check("merged", false),
            }
        }
        "params" => {
            let m = cfg.n("m");
            let kind = cfg.s("kind").unwrap();
            let q = crate::gen::directed(m, dim, kind == "centripetal", 0);
            crate::gen::scope(&crate::gen::lengths(&q, kind == "centripetal"));
            let method = || match kind {
                "equal" => parameters::Method::EquallySpaced,
                "chord" => parameters::Method::ChordLength,
                _ => parameters::Method::Centripetal,
            };
            let a = parameters::generate(&DataPoints::new(q.clone()), method());
            let b = parameters::generate(&DataPoints::new(turned(&q)), method());
            for g in 0..=m {
                observe("u", a.vector()[g]);
                check_tol(&format!("parameter {} mirrored", g), a.vector()[g], 1.0 - b.vector()[m - g], 1e-12);
            }
        }
        "knots" => {
            // averaging and uniform knots are symmetric
            let (p, n) = (cfg.n("p"), cfg.n("n"));
            let mut q = vec![0.0];
            let twins = cfg.list("eq");
            for g in 1..n {
                if twins.contains(&g) {
                    // coinciding parameters
                    let x = q[g - 1];
                    q.push(x);
                    continue;
                }
                let x = par(&format!("q{}", g));
                assume_gap(q[g - 1], x, GAP);
                q.push(x);
            }
            assume_gap(q[n - 1], 1.0, GAP);
            q.push(1.0);
            let z: Vec<f64> = q.iter().rev().map(|x| 1.0 - *x).collect();
            for how in 0..2 {
                let f = |v: &[f64]| -> Vec<f64> {
                    let par = Parameters::new(vecd(v), n);
                    let m = if how == 0 { knots::Method::Averaging } else { knots::Method::Uniform };
                    knots::generate(p, n, &par, m).expect("knots").vector().iter().copied().collect()
                };
                let (a, b) = (f(&q), f(&z));
                check("as many knots", a.len() == b.len());
                for i in 0..a.len() {
                    observe("knot", a[i]);
                    check_tol(&format!("knot {} mirrored", i), a[i], 1.0 - b[a.len() - 1 - i], 1e-12);
                }
            }
        }
        _ => {
            let (p, n) = (cfg.n("p"), cfg.n("n"));
            let m = if op == "interpolate" { n } else { n + 3 };
            let q = points(m, dim, "Q");
            let k = fit_knots(cfg, op, p, n);
            let kr = if op.ends_with("-pen") || op == "interpolate" && !cfg.is("sym", "1") {
                fit_knots(cfg, op, p, n)
            } else {
                let w: Vec<f64> = k.vector().iter().rev().map(|x| 1.0 - *x).collect();
                Knots::new(p, vecd(&w))
            };
            same_points(op, &fitted(op, &kr, &turned(&q)), &turned(&fitted(op, &k, &q)));
        }
    }
}

fn collections(cfg: &Cfg) {
    if cfg.is("op", "derive") {
        return derive_again(cfg);
    }
    let (n, dim) = (cfg.n("n"), cfg.n("dim"));
    let q = points(n, dim, "Q");
    let z = points(n, dim, "Z");
    fn all<T: Points>(label: &str, c: &mut T, q: &M, z: &M) {
        check("dimension", c.dimension() == q.nrows());
        check("count", c.count() == q.ncols());
        check("empty", !c.is_empty());
        let same = |c: &T, q: &M| {
            check("shape", c.matrix().shape() == q.shape());
            for i in 0..q.ncols() {
                check("length of a point", c.get(i).len() == q.nrows());
                for d in 0..q.nrows() {
                    check_same(&format!("{}: matrix", label), c.matrix()[(d, i)], q[(d, i)]);
                    check_same(&format!("{}: point", label), c.get(i)[d], q[(d, i)]);
                }
            }
        };
        same(c, q);
        let i = choice("i", q.ncols());
        let mut w = q.clone();
        for d in 0..q.nrows() {
            if d % 2 == 0 {
                c.get_mut(i)[d] = z[(d, i)];
            } else {
                c.matrix_mut()[(d, i)] = z[(d, i)];
            }
            w[(d, i)] = z[(d, i)];
        }
        same(c, &w);
    }
    match choice("what", 3) {
        0 => {
            let mut c = DataPoints::new(q.clone());
            check("segments", c.segments() == n);
            let before = c.clone();
            c.reverse();
            for i in 0..=n {
                for d in 0..dim {
                    check_same("reversed", c.get(n - i)[d], q[(d, i)]);
                    check_same("copy is independent", before.get(i)[d], q[(d, i)]);
                }
            }
            c.reverse();
            all("data", &mut c, &q, &z);
        }
        o => {
            let mut c = if o == 1 { ControlPoints::new(q.clone()) } else { ControlPoints::new_with_capacity(q.clone(), n) };
            check("segments", c.segments() == n);
            check("count", c.count() == n + 1 && c.count_derivative(0) == n + 1);
            check("no derivatives yet", c.max_derivative() == 0);
            let before = c.clone();
            c.reverse();
            for i in 0..=n {
                for d in 0..dim {
                    check_same("reversed", c.get(n - i)[d], q[(d, i)]);
                    check_same("level 0", c.matrix_derivative(0)[(d, n - i)], q[(d, i)]);
                    check_same("copy is independent", before.get(i)[d], q[(d, i)]);
                }
            }
            c.reverse();
            all("control", &mut c, &q, &z);
        }
    }
}
/// deriving again after changes: every level follows, and only the level asked for is handed out
fn derive_again(cfg: &Cfg) {
    let g = gen(cfg);
    let (p, n, dim) = (g.p, g.n, g.dim);
    let z = points(n, dim, "Z");
    let mut c = g.c.points.clone();
    for i in 0..=n {
        for d in 0..dim {
            c.matrix_mut()[(d, i)] = z[(d, i)];
        }
    }
    let ub = knots(cfg, p, &mults(cfg, "m"), "b");
    let kn = Knots::new(p, vecd(&ub));
    c.derive(&kn);
    check("all levels", c.max_derivative() == p);
    let mut w: Vec<M> = vec![z.clone()];
    for k in 1..=p {
        let q = w[k - 1].clone();
        w.push(M::from_fn(dim, n + 1 - k, |d, i| {
            let den = ub[i + p + 1] - ub[i + k];
            if den == 0.0 {
                0.0
            } else {
                (p + 1 - k) as f64 * (q[(d, i + 1)] - q[(d, i)]) / den
            }
        }));
    }
    for k in 0..=p {
        check("count of a level", c.count_derivative(k) == n + 1 - k);
        same_points("derived again", c.matrix_derivative(k), &w[k]);
    }
    // through a curve
    let d = generate(Generation::Manual { degree: p, points: c, knots: knots::Generation::Manual { knots: kn } }).expect("curve");
    check("derivatives of the curve", d.max_derivative() == p);
    for k in 0..=p {
        same_points("in a curve", d.points.matrix_derivative(k), &w[k]);
    }
}

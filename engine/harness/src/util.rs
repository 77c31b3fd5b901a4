//! Input builders and independent oracles.
use bsplines::curve::{knots::Knots, points::{ControlPoints, Points}, Curve};
use nalgebra::{DMatrix, DVector};
use symrt::*;

pub type V = DVector<f64>;
pub type M = DMatrix<f64>;

#[derive(Clone)]
pub struct Cfg(pub String);

impl Cfg {
    pub fn s(&self, k: &str) -> Option<&str> {
        self.0.split_whitespace().find_map(|kv| kv.strip_prefix(k).and_then(|r| r.strip_prefix('=')))
    }
    pub fn n(&self, k: &str) -> usize {
        self.s(k).unwrap_or_else(|| panic!("config lacks {}", k)).parse().unwrap()
    }
    pub fn nd(&self, k: &str, d: usize) -> usize {
        self.s(k).map(|x| x.parse().unwrap()).unwrap_or(d)
    }
    pub fn list(&self, k: &str) -> Vec<usize> {
        match self.s(k) {
            None | Some("-") => vec![],
            Some(x) => x.split(',').map(|y| y.parse().unwrap()).collect(),
        }
    }
    pub fn is(&self, k: &str, v: &str) -> bool {
        self.s(k) == Some(v)
    }
}

/// distinct knots differ by at least this much
pub const GAP: f64 = 1.0 / 1048576.0;
/// irregular dyadic values used where knots are concrete
pub const FIXED: [[f64; 7]; 3] = [
    [0.15625, 0.25, 0.421875, 0.6875, 0.75, 0.90625, 0.96875],
    [0.03125, 0.3125, 0.375, 0.5, 0.59375, 0.84375, 0.9375],
    [0.125, 0.1875, 0.28125, 0.46875, 0.65625, 0.78125, 0.875],
];

/// the j-th of r concrete internal knots
pub fn fixed_knot(mode: &str, j: usize, r: usize) -> f64 {
    if mode == "uni" {
        return (j + 1) as f64 / (r + 1) as f64;
    }
    let t = match mode {
        "fix2" => &FIXED[1],
        "fix3" => &FIXED[2],
        _ => &FIXED[0],
    };
    if r <= 1 {
        return t[if mode == "fix2" { 4 } else { 2 }];
    }
    if r <= t.len() {
        return t[j * (t.len() - 1) / (r - 1)];
    }
    // many knots: an irregular strictly increasing dyadic sequence
    let k = (j + 1) * 4080 / (r + 1) + (j * 7 + if mode == "fix2" { 5 } else { 0 }) % 13;
    k as f64 / 4096.0
}
/// the distinct internal knots.
/// kn=sym: symbolic, strictly increasing in (0,1); kn=mix: only every other one is symbolic;
/// kn=fix/fix2/uni: concrete values
pub fn internal(cfg: &Cfg, r: usize, tag: &str) -> Vec<f64> {
    let mode = cfg.s("kn").unwrap_or("sym").to_string();
    let mode = if tag == "b" && mode == "fix" { "fix2".to_string() } else { mode };
    // behind a matrix factorisation, spans of a size that keeps the matrix well-conditioned
    let gap = if cfg.is("sym", "1") { 1.0 / cfg.nd("gap", 16) as f64 } else { GAP };
    let mut out = vec![];
    let mut prev = 0.0;
    for j in 0..r {
        let symbolic = mode == "sym" || (mode == "mix" && j % 2 == 0);
        let v = if symbolic {
            let v = par(&format!("{}t{}", tag, j + 1));
            assume_gap(prev, v, gap);
            v
        } else {
            let v = fixed_knot(&mode, j, r);
            if mode == "mix" && j > 0 {
                assume_gap(prev, v, gap);
            }
            v
        };
        if j + 1 == r && symbolic {
            assume_gap(v, 1.0, gap);
        }
        out.push(v);
        prev = v;
    }
    out
}
/// clamped knot vector of degree p with the given multiplicities of the internal knots
pub fn knots(cfg: &Cfg, p: usize, mult: &[usize], tag: &str) -> Vec<f64> {
    let t = internal(cfg, mult.len(), tag);
    let mut u = vec![0.0; p + 1];
    for (v, m) in t.iter().zip(mult.iter()) {
        for _ in 0..*m {
            u.push(*v);
        }
    }
    for _ in 0..=p {
        u.push(1.0);
    }
    u
}

pub fn points(n: usize, dim: usize, tag: &str) -> M {
    M::from_fn(dim, n + 1, |d, i| coord(&match d {
        0..=3 => format!("{}{}_{}", tag, i, ["x", "y", "z", "w"][d]),
        _ => format!("{}{}_c{}", tag, i, d),
    }))
}

pub fn vecd(v: &[f64]) -> V {
    V::from_iterator(v.len(), v.iter().copied())
}
pub fn curve(p: usize, u: &[f64], pts: &M) -> Curve {
    Curve::new(Knots::new(p, vecd(u)), ControlPoints::new(pts.clone())).expect("valid curve rejected")
}

/// "m=" of a configuration: multiplicities of the internal knots; "r=" alone: r simple knots
pub fn mults(cfg: &Cfg, key: &str) -> Vec<usize> {
    match cfg.s(key) {
        Some(x) if x.starts_with('r') => vec![1; x[1..].parse().unwrap()],
        _ => cfg.list(key),
    }
}
/// the curve of a configuration: degree p, internal multiplicities m, dimension dim
pub struct Gen {
    pub p: usize,
    pub n: usize,
    pub dim: usize,
    pub u: Vec<f64>,
    pub pts: M,
    pub c: Curve,
}
pub fn gen(cfg: &Cfg) -> Gen {
    gen_tag(cfg, "p", "m", "")
}
pub fn gen_tag(cfg: &Cfg, pk: &str, mk: &str, tag: &str) -> Gen {
    let p = cfg.n(pk);
    let mult = mults(cfg, mk);
    let dim = cfg.nd("dim", 1);
    let u = knots(cfg, p, &mult, tag);
    let n = u.len() - p - 2;
    let pts = points(n, dim, &format!("{}P", tag));
    let c = curve(p, &u, &pts);
    Gen { p, n, dim, u, pts, c }
}

/// parameter in [0,1]
pub fn param(name: &str) -> f64 {
    let u = par(name);
    assume_le(0.0, u);
    assume_le(u, 1.0);
    u
}
/// parameter in (0,1)
pub fn open_param(name: &str) -> f64 {
    let u = par(name);
    assume_lt(0.0, u);
    assume_lt(u, 1.0);
    u
}

/// index of the knot span that defines the curve at u: the last non-empty span whose left end is <= u
pub fn span(u: &[f64], p: usize, x: f64) -> usize {
    let n = u.len() - p - 2;
    let mut s = usize::MAX;
    for i in p..=n {
        if u[i] < u[i + 1] {
            if u[i] <= x || s == usize::MAX {
                s = i;
            } else {
                break;
            }
        }
    }
    s
}

/// de Boor's algorithm over truncated power series in h: coefficients of C(x + h) for h >= 0 small
/// (h <= 0 at the right end).  c[d][k] is the k-th Taylor coefficient of coordinate d.
pub fn series(u: &[f64], p: usize, pts: &M, x: f64, order: usize) -> Vec<Vec<f64>> {
    let s = span(u, p, x);
    series_at(u, p, pts, x, order, s)
}
pub fn series_at(u: &[f64], p: usize, pts: &M, x: f64, order: usize, s: usize) -> Vec<Vec<f64>> {
    let dim = pts.nrows();
    let mut out = vec![];
    for d in 0..dim {
        let mut w: Vec<Vec<f64>> = (0..=p).map(|j| vec![pts[(d, j + s - p)]]).collect();
        for r in 1..=p {
            for j in (r..=p).rev() {
                let i = j + s - p;
                let den = u[i + p + 1 - r] - u[i];
                // weight a = (x + h - u_i) / den ; result = w[j-1] + a (w[j] - w[j-1])
                let len = (w[j].len() + 1).min(order + 1);
                let mut z = vec![0.0; len];
                for k in 0..len {
                    let a = w[j - 1].get(k).copied().unwrap_or(0.0);
                    let b = w[j].get(k).copied().unwrap_or(0.0);
                    // ((u_hi - x) a + (x - u_lo) b) / den
                    let mut v = ((u[i + p + 1 - r] - x) * a + (x - u[i]) * b) / den;
                    if k > 0 {
                        let a1 = w[j - 1].get(k - 1).copied().unwrap_or(0.0);
                        let b1 = w[j].get(k - 1).copied().unwrap_or(0.0);
                        v += (b1 - a1) / den;
                    }
                    z[k] = v;
                }
                w[j] = z;
            }
        }
        let mut c = w[p].clone();
        c.resize(order + 1, 0.0);
        out.push(c);
    }
    out
}
pub fn value(u: &[f64], p: usize, pts: &M, x: f64) -> Vec<f64> {
    series(u, p, pts, x, 0).into_iter().map(|c| c[0]).collect()
}
pub fn fact(k: usize) -> f64 {
    (1..=k).map(|x| x as f64).product()
}
pub fn mat(c: &Curve) -> M {
    c.points.matrix().clone()
}
pub fn kv(c: &Curve) -> Vec<f64> {
    c.knots.vector().iter().copied().collect()
}
pub fn eq_vec(label: &str, a: &[f64], b: &[f64]) {
    check(&format!("{} (length {} vs {})", label, a.len(), b.len()), a.len() == b.len());
    if a.len() == b.len() {
        for i in 0..a.len() {
            check_eq(&format!("{}[{}]", label, i), a[i], b[i]);
        }
    }
}
pub fn ev(c: &Curve, x: f64, k: usize) -> Vec<f64> {
    match c.evaluate_derivative(x, k) {
        Ok(v) => v.iter().copied().collect(),
        Err(_) => {
            check("evaluation rejected a parameter in [0,1]", false);
            vec![]
        }
    }
}

/// the span that defines the limit from the left at x > 0 (x = 0: the first span)
pub fn span_left(u: &[f64], p: usize, x: f64) -> usize {
    let n = u.len() - p - 2;
    let mut s = usize::MAX;
    for i in p..=n {
        if u[i] < u[i + 1] {
            if u[i] < x || s == usize::MAX {
                s = i;
            } else {
                break;
            }
        }
    }
    s
}
/// k-th derivative (for every k up to p+1) of the curve at x, as the pieces are defined from the right
/// (from the left at the right end); [k][d]
pub fn derivs(u: &[f64], p: usize, pts: &M, x: f64, order: usize) -> Vec<Vec<f64>> {
    scale(series(u, p, pts, x, order))
}
pub fn derivs_at(u: &[f64], p: usize, pts: &M, x: f64, order: usize, s: usize) -> Vec<Vec<f64>> {
    scale(series_at(u, p, pts, x, order, s))
}
fn scale(c: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let order = c[0].len() - 1;
    (0..=order).map(|k| c.iter().map(|d| d[k] * fact(k)).collect()).collect()
}
/// basis function i at x by its definition
pub fn basis_fn(u: &[f64], p: usize, i: usize, x: f64) -> f64 {
    let n = u.len() - p - 2;
    let pts = M::from_fn(1, n + 1, |_, j| if i == j { 1.0 } else { 0.0 });
    value(u, p, &pts, x)[0]
}
/// the curve as it should be: (knots, points)
#[derive(Clone)]
pub struct Ref {
    pub p: usize,
    pub u: Vec<f64>,
    pub pts: M,
}
/// Boehm's knot insertion on the reference (t in the domain, counted as lying in the span right of it)
pub fn insert_ref(r: &Ref, t: f64) -> Ref {
    let (u, p) = (&r.u, r.p);
    let n = r.pts.ncols() - 1;
    let mut l = p;
    while l < n && u[l + 1] <= t {
        l += 1;
    }
    let dim = r.pts.nrows();
    let mut q = M::zeros(dim, n + 2);
    for i in 0..=n + 1 {
        for d in 0..dim {
            q[(d, i)] = if i + p <= l {
                r.pts[(d, i)]
            } else if i > l {
                r.pts[(d, i - 1)]
            } else if u[i + p] == u[i] {
                r.pts[(d, i - 1)]
            } else {
                let den = u[i + p] - u[i];
                ((u[i + p] - t) * r.pts[(d, i - 1)] + (t - u[i]) * r.pts[(d, i)]) / den
            };
        }
    }
    let mut w = u.clone();
    w.insert(l + 1, t);
    Ref { p, u: w, pts: q }
}
/// well-formedness every valid curve has: counts agree, knots sorted, derivatives available
pub fn well_formed(label: &str, c: &Curve) {
    let p = c.degree();
    let n = c.segments();
    check(&format!("{}: knot count {} = n + p + 2 = {}", label, c.knots.vector().len(), n + p + 2), c.knots.vector().len() == n + p + 2);
    check(&format!("{}: segments >= degree", label), n >= p);
    let u = kv(c);
    let mut sorted = true;
    for i in 1..u.len() {
        if !(u[i - 1] <= u[i]) {
            sorted = false;
        }
    }
    check(&format!("{}: knots sorted", label), sorted);
}
/// everything observable about the curve agrees with the reference: knots, control points
pub fn same_as(label: &str, c: &Curve, r: &Ref) {
    check(&format!("{}: degree", label), c.degree() == r.p);
    eq_vec(&format!("{}: knots", label), &kv(c), &r.u);
    let m = mat(c);
    check(&format!("{}: shape", label), m.nrows() == r.pts.nrows() && m.ncols() == r.pts.ncols());
    if m.nrows() == r.pts.nrows() && m.ncols() == r.pts.ncols() {
        for i in 0..m.ncols() {
            for d in 0..m.nrows() {
                check_eq(&format!("{}: point {} coordinate {}", label, i, d), m[(d, i)], r.pts[(d, i)]);
            }
        }
    }
}
/// curve value(s) at x for derivative k against expected; also recorded for the native comparison
pub fn eq_curve(label: &str, c: &Curve, x: f64, k: usize, want: &[f64]) {
    let got = ev(c, x, k);
    if got.len() != want.len() {
        check(&format!("{}: dimension", label), false);
        return;
    }
    for d in 0..got.len() {
        observe(&format!("{}[{}]", label, d), got[d]);
        check_eq(&format!("{}: k={} coordinate {}", label, k, d), got[d], want[d]);
    }
}
pub fn cfgs(list: &[&str]) -> Vec<String> {
    list.iter().map(|x| x.to_string()).collect()
}

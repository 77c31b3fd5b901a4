//! C09 merge joins two curves smoothly and leaves the far parts alone, C10 the change is the smallest possible
//! (constrained least squares), C23 append/prepend are merges.
use crate::util::*;
use bsplines::curve::Curve;
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
use symrt::*;

pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match prop {
        "C09" | "C10" | "C23" => {
            for kn in ["fix", "fix2", "uni"] {
                for c in [
                    "p=1 m=- mb=-", "p=1 m=1 mb=1,1 dim=2", "p=2 m=- mb=-", "p=2 m=1 mb=1 dim=2", "p=2 m=1,1 mb=-", "p=2 m=- mb=1,1", "p=2 m=2,1 mb=1,2", "p=3 m=- mb=-", "p=3 m=1 mb=1 dim=3",
                    "p=3 m=1,1 mb=1", "p=3 m=- mb=1,2", "p=3 m=1,3 mb=2", "p=4 m=1 mb=1", "p=4 m=- mb=1,1", "p=4 m=2,1 mb=-", "p=5 m=- mb=-", "p=5 m=1 mb=1,1",
                ] {
                    v.push(format!("mode=hyb {} kn={}", c, kn));
                }
                if thorough {
                    for c in ["p=1 m=r6 mb=r3", "p=2 m=r5 mb=r7", "p=3 m=r6 mb=r4", "p=3 m=4 mb=4,1", "p=4 m=r4 mb=r6", "p=4 m=1,2,3 mb=3,2,1", "p=5 m=r3 mb=2,2", "p=6 m=1 mb=-", "p=6 m=r2 mb=r3"] {
                        v.push(format!("mode=hyb {} kn={}", c, kn));
                    }
                }
            }
            // arbitrary knots, arbitrary constraint parameters
            for c in ["p=1 m=1 mb=1", "p=2 m=1 mb=-", "p=2 m=- mb=1", "p=2 m=1 mb=1", "p=2 m=2 mb=1", "p=3 m=1 mb=1", "p=3 m=2 mb=-", "p=3 m=- mb=1,1", "p=4 m=1 mb=-", "p=4 m=- mb=1"] {
                v.push(format!("mode=hyb sym=1 {} kn=sym", c));
                if prop != "C09" && !c.contains("p=1") {
                    v.push(format!("mode=hyb sym=1 {} kn=sym kc=sym", c));
                    v.push(format!("mode=hyb sym=1 {} kn=fix kc=sym", c));
                }
            }
            for c in ["p=2 m=r6 mb=r4 kn=fix", "p=3 m=r5 mb=r6 kn=fix2", "p=4 m=r4 mb=r2 kn=fix"] {
                v.push(format!("mode=hyb {}", c));
            }
        }
        _ => {}
    }
    v
}

pub struct Parts {
    a: Ref,
    b: Ref,
    /// the two pieces of the merged curve as curves over the original knots
    am: M,
    bm: M,
}

/// cut the merged curve at the joint (by the reference insertion) into pieces over the original knots
fn cut(w: &[f64], pts: &M, p: usize, m: usize, o: usize) -> (M, M) {
    let mut r = Ref { p, u: w.to_vec(), pts: pts.clone() };
    for _ in 0..p {
        r = insert_ref(&r, 0.5);
    }
    let am = r.pts.columns(0, m + 1).into_owned();
    let bm = r.pts.columns(r.pts.ncols() - (o + 1), o + 1).into_owned();
    (am, bm)
}
pub fn merged_knots(a: &[f64], b: &[f64], p: usize) -> Vec<f64> {
    let m = a.len() - p - 2;
    let mut w: Vec<f64> = a[..m + 2].iter().map(|x| x / 2.0).collect();
    w.extend(b[p + 1..].iter().map(|x| (1.0 + x) / 2.0));
    w
}
pub fn parts(label: &str, g: &Gen, h: &Gen, c: &Curve) -> Option<Parts> {
    let p = g.p;
    check(&format!("{}: degree", label), c.degree() == p);
    check(&format!("{}: dimension", label), c.dimension() == g.dim);
    check(&format!("{}: control point count", label), c.segments() + 1 == g.n + h.n + 2 - p);
    well_formed(label, c);
    let w = merged_knots(&g.u, &h.u, p);
    eq_vec(&format!("{}: knots", label), &kv(c), &w);
    if c.segments() + 1 != g.n + h.n + 2 - p || kv(c).len() != w.len() {
        return None;
    }
    let (am, bm) = cut(&w, &mat(c), p, g.n, h.n);
    Some(Parts {
        a: Ref { p, u: g.u.clone(), pts: g.pts.clone() },
        b: Ref { p, u: h.u.clone(), pts: h.pts.clone() },
        am,
        bm,
    })
}
fn far_parts(label: &str, q: &Parts) {
    let p = q.a.p;
    let (m, o) = (q.a.pts.ncols() - 1, q.b.pts.ncols() - 1);
    for d in 0..q.a.pts.nrows() {
        for i in 0..=m - p {
            check_eq(&format!("{}: left control point {} kept", label, i), q.am[(d, i)], q.a.pts[(d, i)]);
        }
        for j in p..=o {
            check_eq(&format!("{}: right control point {} kept", label, j), q.bm[(d, j)], q.b.pts[(d, j)]);
        }
    }
}
/// null space of the rows (t x p) by Gauss-Jordan elimination with pivoting; concrete numbers
fn null_space(mut r: Vec<Vec<f64>>, p: usize) -> Vec<Vec<f64>> {
    let mut piv = vec![];
    let mut row = 0;
    for _ in 0..r.len() {
        let (mut bi, mut bj, mut bv) = (row, 0, 1e-9);
        for i in row..r.len() {
            for j in 0..p {
                if !piv.contains(&j) && r[i][j].abs() > bv {
                    bv = r[i][j].abs();
                    bi = i;
                    bj = j;
                }
            }
        }
        if bv <= 1e-9 {
            break;
        }
        r.swap(row, bi);
        let d = r[row][bj];
        for j in 0..p {
            r[row][j] /= d;
        }
        for i in 0..r.len() {
            if i != row {
                let f = r[i][bj];
                for j in 0..p {
                    let x = r[row][j];
                    r[i][j] -= f * x;
                }
            }
        }
        piv.push(bj);
        row += 1;
    }
    let mut out = vec![];
    for f in 0..p {
        if piv.contains(&f) {
            continue;
        }
        let mut z = vec![0.0; p];
        z[f] = 1.0;
        for (i, c) in piv.iter().enumerate() {
            z[*c] = -r[i][f];
        }
        let mut s = 0.0f64;
        for x in &z {
            s = s.max(x.abs());
        }
        out.push(z.iter().map(|x| x / s).collect());
    }
    out
}
/// first-order optimality of the displacement, with the points at ca (left) and cb (right) held fixed
pub fn optimal(label: &str, q: &Parts, w: &[f64], ca: &[f64], cb: &[f64]) {
    let p = q.a.p;
    let (m, o) = (q.a.pts.ncols() - 1, q.b.pts.ncols() - 1);
    let dim = q.a.pts.nrows();
    for x in ca {
        let (n, e) = (value(&q.a.u, p, &q.am, *x), value(&q.a.u, p, &q.a.pts, *x));
        for d in 0..dim {
            check_eq(&format!("{}: constrained point of the left curve kept", label), n[d], e[d]);
        }
    }
    for x in cb {
        let (n, e) = (value(&q.b.u, p, &q.bm, *x), value(&q.b.u, p, &q.b.pts, *x));
        for d in 0..dim {
            check_eq(&format!("{}: constrained point of the right curve kept", label), n[d], e[d]);
        }
    }
    // admissible directions: the p control points of the merged curve around the joint
    let total = m + o + 2 - p;
    let mut dirs: Vec<(M, M)> = vec![];
    for j in m + 1 - p..=m {
        let e = M::from_fn(1, total, |_, i| if i == j { 1.0 } else { 0.0 });
        dirs.push(cut(w, &e, p, m, o));
    }
    let mut rows = vec![];
    for x in ca {
        rows.push(dirs.iter().map(|d| value(&q.a.u, p, &d.0, *x)[0]).collect::<Vec<_>>());
    }
    for x in cb {
        rows.push(dirs.iter().map(|d| value(&q.b.u, p, &d.1, *x)[0]).collect::<Vec<_>>());
    }
    for (k, z) in null_space(rows, p).iter().enumerate() {
        for d in 0..dim {
            let mut s = 0.0;
            for (zj, (da, db)) in z.iter().zip(dirs.iter()) {
                for i in 0..=m {
                    s += *zj * da[(0, i)] * (q.am[(d, i)] - q.a.pts[(d, i)]);
                }
                for i in 0..=o {
                    s += *zj * db[(0, i)] * (q.bm[(d, i)] - q.b.pts[(d, i)]);
                }
            }
            // the joint system of degree 6 and above has a condition number beyond 1e9
            check_tol(&format!("{}: displacement minimal along direction {}", label, k), s, 0.0, if p >= 6 { 1e-3 } else { 1e-6 });
        }
    }
}

fn sets(p: usize) -> Vec<(Vec<f64>, Vec<f64>)> {
    let mut v = vec![(vec![], vec![])];
    if p >= 2 {
        v.push((vec![1.0], vec![]));
        v.push((vec![], vec![0.0]));
        v.push((vec![0.96875], vec![]));
        v.push((vec![], vec![0.03125]));
        // away from the joint: partly or wholly kept anyway
        v.push((vec![0.0], vec![]));
        v.push((vec![], vec![1.0]));
        v.push((vec![0.5], vec![]));
        v.push((vec![], vec![0.5]));
    }
    if p >= 3 {
        v.push((vec![0.9375, 1.0], vec![]));
        v.push((vec![], vec![0.0, 0.0625]));
        v.push((vec![1.0], vec![0.0625]));
        v.push((vec![0.96875], vec![0.03125]));
        v.push((vec![0.5], vec![0.75]));
    }
    if p >= 4 {
        v.push((vec![0.875, 0.9375, 1.0], vec![]));
        v.push((vec![0.9375], vec![0.0, 0.0625]));
        v.push((vec![0.90625, 1.0], vec![0.0625]));
    }
    v
}
/// constraint sets with arbitrary parameters: outside the part that changes, or well inside it
fn sym_sets(g: &Gen, h: &Gen) -> (Vec<f64>, Vec<f64>) {
    let p = g.p;
    let (a0, b1) = (g.u[g.n + 1 - p], h.u[2 * p]);
    let left = |name: &str| {
        let x = param(name);
        if x > a0 {
            assume_le(a0 + (1.0 - a0) * if p <= 2 { 0.125 } else { 0.25 }, x);
        }
        x
    };
    let right = |name: &str| {
        let x = param(name);
        if x < b1 {
            assume_le(x, b1 * if p <= 2 { 0.875 } else { 0.75 });
        }
        x
    };
    match choice("shape", if p >= 3 { 5 } else { 2 }) {
        0 => (vec![left("ca")], vec![]),
        1 => (vec![], vec![right("cb")]),
        2 => {
            // not both at the joint
            let (x, y) = (left("ca"), right("cb"));
            if choice("apart", 2) == 0 {
                assume_le(x, 0.875);
            } else {
                assume_le(0.125, y);
            }
            (vec![x], vec![y])
        }
        3 => {
            let (x, y) = (left("ca"), left("ca2"));
            assume_gap(x, y, 0.0625);
            (vec![x, y], vec![])
        }
        _ => {
            // in decreasing order
            let (x, y) = (right("cb"), right("cb2"));
            assume_gap(y, x, 0.0625);
            (vec![], vec![x, y])
        }
    }
}
fn con(v: &[f64]) -> Constraints {
    Constraints { params: v.to_vec() }
}
fn same_curves(label: &str, x: &Curve, y: &Curve) {
    same_as(label, x, &Ref { p: y.degree(), u: kv(y), pts: mat(y) });
}

pub fn body(prop: &str, cfg: &Cfg) {
    let g = gen_tag(cfg, "p", "m", "a");
    let h = gen_tag(cfg, "p", "mb", "b");
    let p = g.p;
    let w = merged_knots(&g.u, &h.u, p);
    match prop {
        "C09" => {
            let c = match choice("how", if p >= 2 { 3 } else { 1 }) {
                0 => merge(&g.c, &h.c),
                1 => merge_from(&g.c, &h.c),
                _ => merge_to(&g.c, &h.c),
            };
            let c = match c {
                Ok(c) => c,
                Err(_) => return check("two clamped curves of one degree and dimension can be merged", false),
            };
            let q = match parts("merge", &g, &h, &c) {
                Some(q) => q,
                None => return,
            };
            far_parts("merge", &q);
            // joint: all derivatives up to p-1 agree from both sides, through the library's evaluation just around it
            let lo = derivs_at(&w, p, &mat(&c), 0.5, p, span_left(&w, p, 0.5));
            for k in 0..p {
                eq_curve("joint", &c, 0.5, k, &lo[k]);
            }
            // values on the far parts
            let u = param("u");
            let got = ev(&c, u, 0);
            let ends_a = g.u[g.n + 1 - p] / 2.0;
            let ends_b = (1.0 + h.u[2 * p]) / 2.0;
            for d in 0..g.dim.min(got.len()) {
                if u < ends_a {
                    check_eq("left part of the merged curve", got[d], value(&g.u, p, &g.pts, 2.0 * u)[d]);
                }
                if u >= ends_b && p + h.n >= 2 * p {
                    check_eq("right part of the merged curve", got[d], value(&h.u, p, &h.pts, 2.0 * u - 1.0)[d]);
                }
            }
            for (x, gg) in [(&g.c, &g), (&h.c, &h)] {
                same_as("the inputs are unchanged", x, &Ref { p, u: gg.u.clone(), pts: gg.pts.clone() });
            }
        }
        "C10" => {
            let sym = cfg.is("kc", "sym");
            let s = if sym { vec![sym_sets(&g, &h)] } else { sets(p) };
            let k = choice("constraints", s.len() + if p >= 2 && !sym { 2 } else { 0 });
            if k < s.len() {
                let (ca, cb) = &s[k];
                let mut c = g.c.clone();
                if ca.is_empty() && cb.is_empty() {
                    c = merge(&g.c, &h.c).expect("merge");
                } else {
                    c.append_constrained(con(ca), &h.c, con(cb));
                }
                if let Some(q) = parts("merge", &g, &h, &c) {
                    far_parts("merge", &q);
                    optimal("merge", &q, &w, ca, cb);
                }
            } else if k == s.len() {
                let c = merge_from(&g.c, &h.c).expect("merge_from");
                if let Some(q) = parts("merge_from", &g, &h, &c) {
                    optimal("merge_from", &q, &w, &[1.0], &[]);
                    let v = ev(&c, 0.5, 0);
                    for d in 0..g.dim {
                        check_eq("merge_from joins where the left curve ends", v[d], g.pts[(d, g.n)]);
                    }
                }
            } else {
                let c = merge_to(&g.c, &h.c).expect("merge_to");
                if let Some(q) = parts("merge_to", &g, &h, &c) {
                    optimal("merge_to", &q, &w, &[], &[0.0]);
                    let v = ev(&c, 0.5, 0);
                    for d in 0..g.dim {
                        check_eq("merge_to joins where the right curve starts", v[d], h.pts[(d, 0)]);
                    }
                }
            }
        }
        "C23" => {
            let sym = cfg.is("kc", "sym");
            let s = if sym { vec![sym_sets(&g, &h)] } else { sets(p) };
            let k = choice("constraints", s.len());
            let (ca, cb) = &s[k];
            if k == 0 && !sym {
                let m = merge(&g.c, &h.c).expect("merge");
                let mut a = g.c.clone();
                let r = a.append(&h.c).clone();
                same_curves("append is merge", &a, &m);
                same_curves("append returns the curve", &r, &m);
                let mut b = h.c.clone();
                let r = b.prepend(&g.c).clone();
                same_curves("prepend is merge", &b, &m);
                same_curves("prepend returns the curve", &r, &m);
                check("derivatives available", a.max_derivative() == p && b.max_derivative() == p);
                same_as("argument unchanged", &h.c, &Ref { p, u: h.u.clone(), pts: h.pts.clone() });
            } else {
                let mut a = g.c.clone();
                a.append_constrained(con(ca), &h.c, con(cb));
                if let Some(q) = parts("append_constrained", &g, &h, &a) {
                    far_parts("append_constrained", &q);
                    optimal("append_constrained", &q, &w, ca, cb);
                }
                let mut b = h.c.clone();
                b.prepend_constrained(con(cb), &g.c, con(ca));
                if let Some(q) = parts("prepend_constrained", &g, &h, &b) {
                    far_parts("prepend_constrained", &q);
                    optimal("prepend_constrained", &q, &w, ca, cb);
                }
            }
        }
        _ => panic!("unknown property"),
    }
}

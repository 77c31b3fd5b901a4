//! C01 curve value, C02 basis functions, C03 derivatives, C04 parameter domain, C20 derivative curves,
//! C22 geometry (end points, tangents, hull, local control), C19 coordinates are independent.
use crate::util::*;
use bsplines::curve::{basis, CurveError};
use symrt::*;

pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |l: &[&str]| v.extend(l.iter().map(|x| x.to_string()));
    match prop {
        "C01" => {
            add(&[
                "p=0 m=1,1", "p=1 m=- dim=2", "p=1 m=1,1,1", "p=1 m=2,1", "p=2 m=- dim=3", "p=2 m=1,1,1,1", "p=2 m=1,2,1",
                "p=2 m=3,1", "p=2 m=1,3 dim=2", "p=3 m=-", "p=3 m=1,1,1 dim=2", "p=3 m=1,2,1", "p=3 m=3,1", "p=3 m=1,4", "p=4 m=1,1",
                "p=4 m=4", "p=4 m=2,1 dim=2", "p=4 m=5", "p=5 m=1", "p=5 m=1,1", "p=3 m=r4 kn=mix",
                "p=1 m=r12 kn=fix dim=4", "p=2 m=r10 kn=fix dim=3", "p=3 m=r7 kn=fix dim=2", "p=4 m=r6 kn=fix2",
                "p=5 m=r5 kn=fix dim=2", "p=6 m=r3 kn=fix", "p=7 m=r2 kn=fix2", "p=3 m=1,2,3,4,1,2 kn=fix",
                "p=3 m=r28 kn=fix", "p=2 m=r40 kn=fix2", "p=8 m=- kn=fix", "p=3 m=- dim=6",
            ]);
            if thorough {
                add(&[
                    "p=2 m=r7", "p=3 m=r5", "p=3 m=2,2,2", "p=4 m=r4", "p=4 m=1,3,2", "p=5 m=1,2,1", "p=5 m=r3", "p=6 m=r2", "p=6 m=1,3",
                    "p=7 m=1,1", "p=6 m=r8 kn=fix", "p=7 m=r6 kn=fix", "p=8 m=r4 kn=fix2", "p=9 m=r2 kn=fix", "p=4 m=r40 kn=fix",
                    "p=3 m=r80 kn=fix2", "p=1 m=r120 kn=fix", "p=5 m=1,2,3,4,5,6 kn=fix2", "p=2 m=r6 kn=mix dim=5",
                ]);
            }
        }
        "C02" => {
            add(&[
                "p=0 m=1,1 k=0", "p=1 m=1,2 k=0", "p=1 m=1,1,1 k=1", "p=2 m=1,1,1 k=0", "p=2 m=1,2 k=0", "p=2 m=3 k=0", "p=2 m=1,1 k=1",
                "p=2 m=2 k=2", "p=3 m=1,1 k=0", "p=3 m=2 k=0", "p=3 m=1,2 k=0 kn=mix", "p=3 m=1,2 k=1", "p=3 m=1,1,1 k=2", "p=3 m=4 k=0", "p=3 m=1,1 k=3",
                "p=4 m=1,2 k=0 kn=fix", "p=4 m=1,1 k=2", "p=4 m=1 k=1", "p=5 m=1,1 k=0 kn=fix2", "p=5 m=1 k=3", "p=3 m=r6 k=0 kn=fix", "p=4 m=r5 k=1 kn=fix2",
                "p=2 m=r9 k=0 kn=fix", "p=6 m=r2 k=0 kn=fix", "p=5 m=1,3,1 k=2 kn=fix",
            ]);
            if thorough {
                add(&[
                    "p=3 m=1,1,1 k=0", "p=4 m=1 k=0", "p=4 m=2 k=1", "p=5 m=1,1 k=3", "p=3 m=r20 k=0 kn=fix", "p=4 m=1,2,3,4 k=0 kn=fix", "p=7 m=r3 k=0 kn=fix2",
                    "p=5 m=r6 k=0 kn=fix", "p=6 m=1,2,3 k=2 kn=fix", "p=6 m=1,1 k=4", "p=2 m=r30 k=0 kn=fix2",
                ]);
            }
        }
        "C03" => {
            add(&[
                "p=0 m=1", "p=1 m=1,1", "p=1 m=2", "p=2 m=1,1", "p=2 m=2,1", "p=2 m=3 dim=2", "p=3 m=- dim=3", "p=3 m=1,1", "p=3 m=2,1", "p=3 m=3", "p=3 m=4",
                "p=4 m=1", "p=4 m=2", "p=4 m=3", "p=5 m=1", "p=2 m=r8 kn=fix dim=2", "p=3 m=r7 kn=fix dim=2", "p=4 m=r5 kn=fix2",
                "p=5 m=r3 kn=fix", "p=6 m=r2 kn=fix", "p=3 m=1,2,3,1 kn=fix2", "p=4 m=4,1,2 kn=fix", "p=3 m=r24 kn=fix",
            ]);
            if thorough {
                add(&[
                    "p=3 m=r3", "p=3 m=1,2,1", "p=4 m=1,1", "p=4 m=4,1", "p=5 m=1,1", "p=5 m=3", "p=6 m=1", "p=6 m=r5 kn=fix2", "p=7 m=r3 kn=fix", "p=8 m=r2 kn=fix",
                    "p=5 m=1,2,3,4,5 kn=fix", "p=4 m=r30 kn=fix2", "p=2 m=r60 kn=fix",
                ]);
            }
        }
        "C04" => {
            add(&[
                "mode=fp p=0 m=1 kn=fix", "mode=fp p=1 m=1,1 kn=fix", "mode=fp p=2 m=1,2 kn=fix dim=2", "mode=fp p=3 m=1,1 kn=fix2 dim=3", "mode=fp p=3 m=2,1 kn=sym",
                "mode=fp p=4 m=r2 kn=fix", "mode=fp p=5 m=1 kn=sym", "mode=fp p=2 m=r8 kn=fix", "mode=fp p=6 m=- kn=fix",
            ]);
            if thorough {
                add(&["mode=fp p=3 m=r4 kn=sym", "mode=fp p=2 m=r30 kn=fix", "mode=fp p=4 m=1,2,4 kn=sym", "mode=fp p=7 m=r2 kn=sym"]);
            }
        }
        "C20" => {
            add(&[
                "p=1 m=1,1", "p=2 m=1,1", "p=2 m=2", "p=3 m=1,1 dim=2", "p=3 m=2", "p=3 m=3,1 kn=fix", "p=4 m=1", "p=4 m=r3 kn=fix dim=3", "p=5 m=r2 kn=fix2", "p=6 m=- kn=fix",
                "p=3 m=r9 kn=fix",
            ]);
            if thorough {
                add(&["p=3 m=1,2", "p=4 m=2,1", "p=5 m=1", "p=6 m=r3 kn=fix", "p=4 m=r12 kn=fix2", "p=5 m=1,2,3 kn=fix", "p=7 m=1 kn=fix"]);
            }
        }
        "C22" => {
            add(&[
                "p=1 m=1,1 dim=2", "p=2 m=1,1", "p=2 m=- dim=3", "p=2 m=2,1", "p=3 m=1 dim=2", "p=3 m=1,2 kn=fix", "p=3 m=r6 kn=fix", "p=4 m=r2 kn=fix2", "p=5 m=1 kn=fix", "p=2 m=r9 kn=fix2",
                "p=6 m=- kn=fix",
            ]);
            if thorough {
                add(&["p=2 m=r4", "p=3 m=1,1", "p=3 m=2", "p=4 m=1", "p=4 m=r7 kn=fix", "p=5 m=r5 kn=fix2", "p=3 m=r20 kn=fix", "p=6 m=2,1 kn=fix"]);
            }
        }
        _ => {}
    }
    v
}

pub fn body(prop: &str, cfg: &Cfg) {
    match prop {
        "C01" => {
            let g = gen(cfg);
            let u = param("u");
            let want = value(&g.u, g.p, &g.pts, u);
            let got = match g.c.evaluate(u) {
                Ok(v) => v.iter().copied().collect::<Vec<_>>(),
                Err(_) => return check("evaluation rejected a parameter in [0,1]", false),
            };
            for d in 0..got.len() {
                observe("c", got[d]);
            }
            eq_vec("C(u)", &got, &want);
        }
        "C02" => {
            let p = cfg.n("p");
            let k = cfg.n("k");
            let u = knots(cfg, p, &mults(cfg, "m"), "");
            let n = u.len() - p - 2;
            let kn = bsplines::curve::knots::Knots::new(p, vecd(&u));
            let q = p - k;
            let w: Vec<f64> = u[k..u.len() - k].to_vec();
            let stored: Vec<f64> = kn.vector_derivative(k).iter().copied().collect();
            eq_vec("derivative knot vector", &stored, &w);
            let x = param("u");
            let mut sum = 0.0;
            for i in 0..=n - k {
                let b = kn.evaluate(k, i, p, x);
                let b2 = basis::basis(kn.vector_derivative(k), i, q, k, n, x);
                sum += b;
                observe("N", b);
                check_eq(&format!("N_{} equals its definition", i), b, basis_fn(&w, q, i, x));
                check_eq(&format!("N_{} the same through both entry points", i), b, b2);
                check_le(&format!("N_{} >= 0", i), 0.0, b);
                let inside = (w[i] <= x && x < w[i + q + 1]) || (x == 1.0 && w[i + q + 1] == 1.0);
                if !inside {
                    check_eq(&format!("N_{} = 0 outside its support", i), b, 0.0);
                }
            }
            check_eq("basis functions sum to one", sum, 1.0);
        }
        "C03" => {
            let g = gen(cfg);
            let u = param("u");
            let want = derivs(&g.u, g.p, &g.pts, u, g.p + 2);
            for k in 0..=g.p + 2 {
                eq_curve("derivative", &g.c, u, k, &want[k]);
            }
            check("max_derivative is the degree", g.c.max_derivative() == g.p);
        }
        "C04" => {
            let p = cfg.n("p");
            let mult = mults(cfg, "m");
            let kn: Vec<f64> = if cfg.is("kn", "sym") {
                let mut prev = 0.0;
                let mut v = vec![];
                for j in 0..mult.len() {
                    let t = par(&format!("t{}", j + 1));
                    assume_lt(prev, t);
                    prev = t;
                    v.push(t);
                }
                if !v.is_empty() {
                    assume_lt(prev, 1.0);
                }
                let mut u = vec![0.0; p + 1];
                for (t, m) in v.iter().zip(mult.iter()) {
                    u.extend(std::iter::repeat(*t).take(*m));
                }
                u.extend(std::iter::repeat(1.0).take(p + 1));
                u
            } else {
                knots(cfg, p, &mult, "")
            };
            let n = kn.len() - p - 2;
            let dim = cfg.nd("dim", 1);
            let pts = M::from_fn(dim, n + 1, |d, i| (i as f64) * 0.5 - d as f64);
            // derivative control points of symbolic knots would be floating-point divisions; they are not compared
            let c = curve(p, &kn, &pts);
            let k = choice("k", p + 3);
            let u = par("u");
            let r = c.evaluate_derivative(u, k);
            let inside = u >= 0.0 && u <= 1.0;
            match r {
                Ok(v) => {
                    check("accepts only parameters in [0,1]", inside);
                    check("value has the curve's dimension", v.len() == dim);
                    if k > p {
                        for x in v.iter() {
                            check_same("derivatives above the degree vanish", *x, 0.0);
                        }
                    }
                }
                Err(CurveError::ParameterOutOfBounds { u: eu, lower_bound, upper_bound }) => {
                    check("accepts every parameter in [0,1]", !inside);
                    check_same("error names the parameter", eu, u);
                    check("error names the bounds", lower_bound == 0.0 && upper_bound == 1.0);
                }
                Err(_) => check("out-of-range parameters are reported as such", false),
            }
            if k == 0 {
                let e = c.evaluate(u);
                check("evaluate accepts exactly [0,1]", e.is_ok() == inside);
            }
        }
        "C20" => {
            let g = gen(cfg);
            let k = choice("k", g.p + 1);
            let u = param("u");
            let want = derivs(&g.u, g.p, &g.pts, u, g.p + 1);
            let d = g.c.get_derivative_curve(k);
            check("degree drops by k", d.degree() == g.p - k);
            check("segments drop by k", d.segments() == g.n - k);
            check("dimension is kept", d.dimension() == g.dim);
            eq_vec("knots", &kv(&d), &g.u[k..g.u.len() - k].to_vec());
            well_formed("derivative curve", &d);
            check("all remaining derivatives are available", d.max_derivative() == g.p - k);
            for j in 0..=g.p - k + 1 {
                eq_curve("derivative curve", &d, u, j, &want[k + j]);
            }
            if k < g.p {
                let e = d.get_derivative_curve(1);
                eq_curve("derivative of the derivative curve", &e, u, 0, &want[k + 1]);
            }
            same_as("the curve itself is unchanged", &g.c, &Ref { p: g.p, u: g.u.clone(), pts: g.pts.clone() });
        }
        "C22" => {
            let g = gen(cfg);
            let (p, n) = (g.p, g.n);
            for d in 0..g.dim {
                let (a, b) = (ev(&g.c, 0.0, 0), ev(&g.c, 1.0, 0));
                check_eq("C(0) is the first control point", a[d], g.pts[(d, 0)]);
                check_eq("C(1) is the last control point", b[d], g.pts[(d, n)]);
                let (a, b) = (ev(&g.c, 0.0, 1), ev(&g.c, 1.0, 1));
                let ta = p as f64 / (g.u[p + 1] - 0.0) * (g.pts[(d, 1)] - g.pts[(d, 0)]);
                let tb = p as f64 / (1.0 - g.u[n]) * (g.pts[(d, n)] - g.pts[(d, n - 1)]);
                check_eq("start tangent along the first leg", a[d], ta);
                check_eq("end tangent along the last leg", b[d], tb);
            }
            let u = param("u");
            let c0 = ev(&g.c, u, 0);
            // local control: moving point i changes the curve only on [U_i, U_{i+p+1}]
            let i = choice("i", n + 1);
            let mut q = g.pts.clone();
            let dlt = coord("delta");
            for d in 0..g.dim {
                q[(d, i)] += dlt;
            }
            let c1 = ev(&curve(p, &g.u, &q), u, 0);
            let out = u < g.u[i] || u > g.u[i + p + 1];
            for d in 0..g.dim {
                observe("c", c0[d]);
                if out {
                    check_eq("moving a control point leaves the curve outside its support", c1[d], c0[d]);
                }
            }
            // hull: inside the box of the p+1 control points of the span
            let s = span(&g.u, p, u);
            let mut mono = true;
            let x0 = coord("lo");
            let x1 = coord("hi");
            let h = M::from_fn(1, n + 1, |_, j| if j + p < s || j > s { g.pts[(0, j)] } else { if (j + s) % 2 == 0 { x0 } else { x1 } });
            if !(x0 <= x1) {
                mono = false;
            }
            if mono {
                let v = ev(&curve(p, &g.u, &h), u, 0)[0];
                check_le("curve stays above the smallest control point of its span", x0, v);
                check_le("curve stays below the largest control point of its span", v, x1);
            }
        }
        _ => panic!("unknown property"),
    }
}

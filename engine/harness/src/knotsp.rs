//! C17 knot search, C18 knot predicates and rescaling, C26 knot vector bookkeeping.
use crate::util::*;
use bsplines::curve::knots::{self, DomainKnotComparatorType as D, Knots};
use symrt::*;

pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |l: &[&str]| v.extend(l.iter().map(|x| x.to_string()));
    match prop {
        "C17" => {
            add(&[
                "mode=fp p=0 m=1,1", "mode=fp p=1 m=-", "mode=fp p=1 m=1,1", "mode=fp p=1 m=2,1", "mode=fp p=2 m=1,2,1", "mode=fp p=2 m=3,1", "mode=fp p=2 m=2", "mode=fp p=3 m=1,1,1", "mode=fp p=3 m=1,3",
                "mode=fp p=3 m=4,2,1", "mode=fp p=4 m=2,2,2", "mode=fp p=5 m=1,5,1",
            ]);
            if thorough {
                add(&["mode=fp p=2 m=r8", "mode=fp p=3 m=1,2,3,4,1,2", "mode=fp p=4 m=5,1,5", "mode=fp p=1 m=r12", "mode=fp p=6 m=1,2,3,4,5,6", "mode=fp p=3 m=r15"]);
            }
        }
        "C18" => {
            add(&[
                "op=pred w=0 mode=fp p=1 n=2", "op=pred w=0 mode=fp p=2 n=4", "op=pred w=1 mode=fp p=1 n=2", "op=pred w=1 mode=fp p=2 n=3", "op=pred w=1 mode=fp p=4 n=5", "op=pred w=2 mode=fp p=1 n=1",
                "op=pred w=2 mode=fp p=2 n=3 sym=3", "op=pred w=2 mode=fp p=3 n=5 sym=3", "op=uniform mode=fp p=1 n=3", "op=uniform mode=fp p=2 n=4", "op=uniform mode=fp p=3 n=7",
                "op=scale p=1 m=1,1", "op=scale p=2 m=1,2", "op=scale p=3 m=1", "op=scale p=2 m=3 kn=fix", "op=scale p=4 m=1,1 kn=fix2", "op=clamp mode=fp p=2 n=4", "op=clamp mode=fp p=3 n=3", "op=clamp mode=fp p=1 n=4",
            ]);
            if thorough {
                add(&["op=pred w=2 mode=fp p=1 n=2", "op=pred w=2 mode=fp p=3 n=4 sym=4", "op=pred w=0 mode=fp p=3 n=12", "op=clamp mode=fp p=4 n=6", "op=uniform mode=fp p=4 n=14", "op=scale p=3 m=1,2,3", "op=scale p=5 m=1,1"]);
            }
        }
        "C26" => {
            add(&["mode=fp p=0 m=1,1", "mode=fp p=1 m=-", "mode=fp p=1 m=1,2", "mode=fp p=2 m=1,1,1", "mode=fp p=2 m=3", "mode=fp p=3 m=1,2,1", "mode=fp p=4 m=2,2", "mode=fp p=5 m=1,1,1,1", "mode=fp p=6 m=-"]);
            if thorough {
                add(&["mode=fp p=3 m=r12", "mode=fp p=4 m=1,2,3,4", "mode=fp p=8 m=1,8"]);
            }
        }
        _ => {}
    }
    v
}
/// symbolic, strictly increasing internal knots; any f64 values
fn fp_knots(p: usize, mult: &[usize]) -> Vec<f64> {
    let mut u = vec![0.0; p + 1];
    let mut prev = 0.0;
    for (j, m) in mult.iter().enumerate() {
        let t = par(&format!("t{}", j + 1));
        assume_lt(prev, t);
        prev = t;
        u.extend(std::iter::repeat(t).take(*m));
    }
    if !mult.is_empty() {
        assume_lt(prev, 1.0);
    }
    u.extend(std::iter::repeat(1.0).take(p + 1));
    u
}

pub fn body(prop: &str, cfg: &Cfg) {
    match prop {
        "C17" => {
            let p = cfg.n("p");
            let u = if cfg.s("kn").is_some() { knots(cfg, p, &mults(cfg, "m"), "") } else { fp_knots(p, &mults(cfg, "m")) };
            let n = u.len() - p - 2;
            let c = Knots::new(p, vecd(&u));
            let k = choice("k", p + 1);
            let w: Vec<f64> = u[k..u.len() - k].to_vec();
            let (first, last) = (p - k, n + 1 - k);
            let x = par("u");
            assume_le(0.0, x);
            assume_le(x, 1.0);
            match choice("cmp", 4) {
                0 => {
                    let i = c.find_idx(x, k, D::LeftOrEqual);
                    observe_int("i", i);
                    check("start of a domain span", i >= first && i < last);
                    check("knot at the index is <= u", w[i] <= x);
                    // no other knot lies in (knot, u], except that u = 1 belongs to the last span
                    for j in first..last {
                        if w[j] > w[i] {
                            check("no larger knot <= u", w[j] > x);
                        }
                    }
                    if w[i] == x && i > first {
                        check("first index of a knot equal to u", w[i - 1] < x);
                    } else if i + 1 < last {
                        check("the span starting at the index contains u", x < w[i + 1]);
                    }
                }
                1 => {
                    let i = c.find_idx(x, k, D::Left);
                    observe_int("i", i);
                    check("start of a domain span", i >= first && i < last);
                    if x > w[first] {
                        check("knot at the index is < u", w[i] < x);
                        check("next knot is >= u", x <= w[i + 1]);
                    } else {
                        check("at the start: the first index", i == first);
                    }
                }
                2 => {
                    let i = c.find_idx(x, k, D::RightOrEqual);
                    observe_int("i", i);
                    check("a domain index", i >= first && i <= last);
                    check("knot at the index is >= u", w[i] >= x);
                    for j in first..=last {
                        if w[j] < w[i] {
                            check("no smaller knot >= u", w[j] < x);
                        }
                    }
                }
                _ => {
                    let i = c.find_idx(x, k, D::Right);
                    observe_int("i", i);
                    check("end of a domain span", i > first && i <= last);
                    if x < 1.0 {
                        check("knot at the index is > u", w[i] > x);
                        check("previous knot is <= u", w[i - 1] <= x);
                    } else {
                        check("at the end: the last index", i == last);
                    }
                }
            }
        }
        "C18" => match cfg.s("op").unwrap() {
            "pred" => {
                // arbitrary values
                let (p, n) = (cfg.n("p"), cfg.n("n"));
                let l = n + p + 2;
                let sym = cfg.nd("sym", l);
                let at = choice("at", l + 1 - sym);
                let u: Vec<f64> = (0..l)
                    .map(|i| {
                        if i < at || i >= at + sym {
                            return i as f64 / (l - 1) as f64;
                        }
                        let x = par(&format!("u{}", i));
                        assume_le(-1e300, x);
                        assume_le(x, 1e300);
                        x
                    })
                    .collect();
                let k = Knots::new(p, vecd(&u));
                match cfg.n("w") {
                    0 => {
                        let mut s = true;
                        for i in 1..u.len() {
                            s = s && u[i - 1] <= u[i];
                        }
                        check("is_sorted", knots::is_sorted(&k) == s);
                    }
                    1 => {
                        let mut s = true;
                        for i in 0..=p {
                            s = s && u[i] == 0.0 && u[u.len() - 1 - i] == 1.0;
                        }
                        check("is_clamped", knots::is_clamped(&k) == s);
                    }
                    _ => {
                        let (mut all, mut z, mut o) = (true, false, false);
                        for x in &u {
                            all = all && *x >= 0.0 && *x <= 1.0;
                            if all {
                                z = z || *x == 0.0;
                                o = o || *x == 1.0;
                            }
                        }
                        check("is_normed", knots::is_normed(&k) == (all && z && o));
                    }
                }
            }
            "clamp" => {
                // one or two arbitrary values in an otherwise clamped vector
                let (p, n) = (cfg.n("p"), cfg.n("n"));
                let mut u = vec![0.0; p + 1];
                for j in 0..n - p {
                    u.push((j + 1) as f64 / 16.0);
                }
                u.extend(std::iter::repeat(1.0).take(p + 1));
                let i = choice("i", u.len());
                u[i] = par("x");
                assume_le(-1e300, u[i]);
                assume_le(u[i], 1e300);
                let k = Knots::new(p, vecd(&u));
                let x = u[i];
                let l = u.len();
                let cl = (i > p || x == 0.0) && (i + p + 1 < l || x == 1.0);
                check("is_clamped", knots::is_clamped(&k) == cl);
                check("is_normed", knots::is_normed(&k) == (x >= 0.0 && x <= 1.0 && (p > 0 || (i != 0 || x == 0.0) && (i != l - 1 || x == 1.0))));
                let so = (i == 0 || u[i - 1] <= x) && (i + 1 == l || x <= u[i + 1]);
                check("is_sorted", knots::is_sorted(&k) == so);
                let y = par("y");
                let mut m = 0;
                for j in p..=n + 1 {
                    if u[j] == y {
                        m += 1;
                    }
                }
                check("multiplicity counts the domain knots equal to u", k.multiplicity(y) == m);
            }
            "uniform" => {
                let (p, n) = (cfg.n("p"), cfg.n("n"));
                let k = knots::methods::uniform(p, n).unwrap();
                let mut u = k.vector().clone();
                check("the uniform vector is uniform", knots::is_uniform(&k) == Ok(true));
                let i = choice("i", u.len());
                let old = u[i];
                let x = par("x");
                u[i] = x;
                let r = knots::is_uniform(&Knots::new(p, u));
                check("is_uniform exactly for the uniform vector", r == Ok(x == old));
            }
            _ => {
                let p = cfg.n("p");
                let u = crate::util::knots(cfg, p, &mults(cfg, "m"), "");
                let (a, b) = (par("a"), par("b"));
                assume_gap(a, b, GAP);
                // an arbitrary affine image of a clamped vector
                let img: Vec<f64> = u.iter().map(|x| a + (b - a) * *x).collect();
                match choice("how", 4) {
                    3 => {
                        // any pair of intervals: the old one need not hold the knots, the new one may be descending
                        let (e, f, c, d) = (par("e"), par("f"), par("c"), par("d"));
                        if choice("old", 2) == 0 {
                            assume_gap(e, f, GAP);
                        } else {
                            assume_gap(f, e, GAP);
                        }
                        let mut k = Knots::new(p, vecd(&u));
                        k.rescale((e, f), (c, d));
                        for j in 0..=p {
                            let w: Vec<f64> = u[j..u.len() - j].iter().map(|x| c + (d - c) * ((*x - e) / (f - e))).collect();
                            eq_vec("rescaled knots, any intervals", &k.vector_derivative(j).iter().copied().collect::<Vec<_>>(), &w);
                        }
                    }
                    0 => {
                        let mut k = Knots::new(p, vecd(&img));
                        k.normalize();
                        for j in 0..=p {
                            eq_vec("normalized knots of every derivative", &k.vector_derivative(j).iter().copied().collect::<Vec<_>>(), &u[j..u.len() - j].to_vec());
                        }
                    }
                    1 => {
                        let mut v = vecd(&img);
                        let w = knots::normalized(&mut v);
                        eq_vec("normalized copy", &w.iter().copied().collect::<Vec<_>>(), &u);
                        eq_vec("normalized leaves its argument", &v.iter().copied().collect::<Vec<_>>(), &img);
                        knots::normalize(&mut v);
                        eq_vec("normalize in place", &v.iter().copied().collect::<Vec<_>>(), &u);
                    }
                    _ => {
                        let (c, d) = (par("c"), par("d"));
                        assume_gap(c, d, GAP);
                        let mut k = Knots::new(p, vecd(&img));
                        k.rescale((a, b), (c, d));
                        for j in 0..=p {
                            let w: Vec<f64> = u[j..u.len() - j].iter().map(|x| c + (d - c) * *x).collect();
                            eq_vec("rescaled knots", &k.vector_derivative(j).iter().copied().collect::<Vec<_>>(), &w);
                        }
                    }
                }
            }
        },
        "C26" => {
            let p = cfg.n("p");
            let mult = mults(cfg, "m");
            let u = if cfg.s("kn").is_some() { knots(cfg, p, &mult, "") } else { fp_knots(p, &mult) };
            let n = u.len() - p - 2;
            let mut k = Knots::new(p, vecd(&u));
            check("degree", k.degree() == p);
            check("segments", k.segments() == n);
            check("max_derivative", k.max_derivative() == p);
            check("internal count", k.internal_count() == n - p);
            check("domain count", k.domain_count() == n - p + 2);
            for j in 0..=p {
                check("length of the derivative knot vector", k.len(j) == n + p + 2 - 2 * j);
                check("segments of the derivative", k.segments_derivative(j) == n);
                let v = k.vector_derivative(j).clone();
                for i in 0..v.len().min(u.len() - 2 * j) {
                    check_same("derivative knots drop both ends", v[i], u[j + i]);
                }
                let d = k.domain_derivative(j);
                check("domain length", d.len() == n - p + 2);
                for i in 0..d.len() {
                    check_same("domain of the derivative", d[i], u[p + i]);
                }
            }
            let inn = k.internal();
            check("internal length", inn.len() == n - p);
            for i in 0..inn.len() {
                check_same("internal knots", inn[i], u[p + 1 + i]);
                check_same("internal knot", k.internal_knot(i), u[p + 1 + i]);
            }
            for i in 0..k.domain_count() {
                check_same("domain knot", k.domain_knot(i), u[p + i]);
            }
            let x = par("x");
            let mut m = 0;
            for i in p..=n + 1 {
                if u[i] == x {
                    m += 1;
                }
            }
            check("multiplicity", k.multiplicity(x) == m);
            // a changed vector is taken over by derive()
            if n > p {
                let y = par("y");
                k.vector_mut()[p + 1] = y;
                k.derive();
                for j in 0..=p {
                    check_same("derive() follows the vector", k.vector_derivative(j)[p + 1 - j], y);
                }
                check("derive() keeps the order", k.max_derivative() == p);
            }
        }
        _ => panic!("unknown property"),
    }
}

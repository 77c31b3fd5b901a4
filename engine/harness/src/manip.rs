//! C05 insertion keeps the curve, C06 insertion/split domain (bit-exact), C07 split, C08 reverse,
//! C16 derivative data after manipulation, C19 coordinates are independent, C24 split-merge round trip, C27 histories.
use crate::util::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::Knots;
use bsplines::curve::points::{DataPoints, Points};
use bsplines::curve::Curve;
use bsplines::manipulation::insert::{insert, InsertError};
use bsplines::manipulation::split::{split, split_and_normalize, SplitError};
use bsplines::manipulation::{merge, reverse};
use symrt::*;

pub fn configs(prop: &str, thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |l: &[&str]| v.extend(l.iter().map(|x| x.to_string()));
    match prop {
        "C05" => {
            add(&[
                "op=one p=1 m=- dim=2", "op=one p=1 m=1,1", "op=one p=1 m=2,1", "op=one p=2 m=- dim=3", "op=one p=2 m=1", "op=one p=2 m=1,1", "op=one p=2 m=2",
                "op=one p=2 m=2,1", "op=one p=2 m=3", "op=one p=3 m=1", "op=one p=3 m=1,2 kn=fix", "op=one p=3 m=2", "op=one p=3 m=3,1 kn=fix2", "op=one p=3 m=4 kn=fix",
                "op=one p=4 m=1 kn=fix", "op=one p=4 m=2,1 kn=fix dim=2", "op=one p=5 m=1 kn=fix", "op=one p=3 m=r7 kn=fix", "op=one p=2 m=r9 kn=fix2", "op=one p=1 m=r11 kn=fix",
                "op=one p=4 m=r5 kn=fix2", "op=one p=6 m=- kn=fix", "op=one p=3 m=1,2,3,1 kn=fix2",
                "op=times p=1 m=1", "op=times p=2 m=1", "op=times p=2 m=2,1 kn=fix", "op=times p=3 m=1 kn=fix", "op=times p=3 m=1,2 kn=fix2", "op=times p=4 m=1 kn=fix",
                "op=two p=1 m=1", "op=two p=2 m=- dim=2", "op=two p=2 m=1 kn=fix", "op=two p=3 m=- ", "op=two p=3 m=1 kn=fix", "op=two p=2 m=2,1 kn=fix2",
            ]);
            if thorough {
                add(&[
                    "op=one p=2 m=1,1,1", "op=one p=3 m=1,1", "op=one p=3 m=1,2", "op=one p=3 m=4,1", "op=one p=4 m=1", "op=one p=4 m=3", "op=one p=5 m=1", "op=one p=5 m=r4 kn=fix",
                    "op=one p=6 m=1,2 kn=fix", "op=one p=3 m=r20 kn=fix", "op=one p=7 m=1 kn=fix2", "op=one p=4 m=1,2,3,4 kn=fix",
                    "op=times p=3 m=1", "op=times p=2 m=1,1", "op=times p=5 m=2 kn=fix", "op=times p=3 m=r4 kn=fix2",
                    "op=two p=2 m=1", "op=two p=2 m=1,1 kn=fix", "op=two p=3 m=2,1 kn=fix", "op=two p=4 m=1 kn=fix2", "op=three p=1 m=-", "op=three p=2 m=1 kn=fix", "op=three p=2 m=-",
                ]);
            }
        }
        "C06" => {
            add(&[
                "mode=fp p=1 m=1,1 kn=fix", "mode=fp p=1 m=2 kn=fix", "mode=fp p=2 m=1,2,1 kn=fix", "mode=fp p=2 m=3 kn=fix2", "mode=fp p=3 m=1,3,2 kn=fix", "mode=fp p=3 m=4,1 kn=fix2",
                "mode=fp p=3 m=1,2 kn=fp", "mode=fp p=2 m=1,3 kn=fp", "mode=fp p=4 m=2,4,5 kn=fix", "mode=fp p=2 m=r7 kn=fix", "mode=fp p=5 m=1,5 kn=fix2",
            ]);
            if thorough {
                add(&["mode=fp p=3 m=1,2,3,4 kn=fp", "mode=fp p=4 m=1,1,1,1 kn=fp", "mode=fp p=3 m=r20 kn=fix", "mode=fp p=6 m=3,6,7 kn=fix", "mode=fp p=2 m=r40 kn=fix2"]);
            }
        }
        "C07" => {
            add(&[
                "p=1 m=- dim=2", "p=1 m=1", "p=1 m=2,1", "p=2 m=- dim=3", "p=2 m=1", "p=2 m=1,1 kn=fix", "p=2 m=2", "p=2 m=1,2 kn=fix2", "p=2 m=3,1 kn=fix", "p=3 m=-", "p=3 m=1 kn=fix", "p=3 m=2,1 kn=fix",
                "p=3 m=3 kn=fix2", "p=3 m=r5 kn=fix", "p=4 m=- kn=fix", "p=4 m=2 kn=fix", "p=4 m=1,4 kn=fix2", "p=5 m=1 kn=fix", "p=2 m=r7 kn=fix dim=2", "p=3 m=1,2,3,1 kn=fix2",
                "p=6 m=- kn=fix",
            ]);
            if thorough {
                add(&[
                    "p=1 m=1,1,1", "p=2 m=1,1", "p=2 m=2,1", "p=3 m=1", "p=3 m=2", "p=3 m=1,1 kn=fix2", "p=3 m=4,1 kn=fix", "p=4 m=1,2,3 kn=fix", "p=5 m=1,5 kn=fix", "p=3 m=r14 kn=fix", "p=4 m=r7 kn=fix2",
                    "p=6 m=2 kn=fix", "p=7 m=- kn=fix",
                ]);
            }
        }
        "C08" => {
            add(&[
                "p=1 m=1,1 dim=2", "p=1 m=2", "p=2 m=1", "p=2 m=1,1 dim=3", "p=2 m=2,1", "p=2 m=3", "p=3 m=-", "p=3 m=1 dim=2", "p=3 m=2", "p=3 m=1,2 kn=fix", "p=3 m=4 kn=fix", "p=4 m=1 kn=fix", "p=4 m=3,1 kn=fix2",
                "p=5 m=1,1 kn=fix", "p=3 m=r7 kn=fix", "p=2 m=r8 kn=fix2 dim=4", "p=6 m=1 kn=fix", "p=0 m=1,1",
            ]);
            if thorough {
                add(&["p=2 m=1,1,1", "p=3 m=1,1", "p=3 m=3,1", "p=4 m=1", "p=4 m=2", "p=5 m=1", "p=5 m=r5 kn=fix2", "p=7 m=1,2 kn=fix", "p=3 m=r20 kn=fix", "p=4 m=1,2,3,4,5 kn=fix2"]);
            }
        }
        "C16" => {
            for op in ["insert", "split", "reverse", "split-insert", "reverse-insert", "reverse-split", "insert-reverse"] {
                for c in ["p=1 m=1", "p=2 m=1", "p=2 m=2 kn=fix", "p=3 m=1 kn=fix dim=2", "p=4 m=1,2 kn=fix2", "p=3 m=3,1 kn=fix"] {
                    v.push(format!("op={} {}", op, c));
                }
                if thorough {
                    for c in ["p=2 m=1,1", "p=3 m=1", "p=3 m=2,1 kn=fix2", "p=5 m=1 kn=fix", "p=3 m=r6 kn=fix"] {
                        v.push(format!("op={} {}", op, c));
                    }
                }
            }
            for c in ["p=1 m=1", "p=2 m=1 dim=2", "p=3 m=1,2", "p=4 m=1"] {
                v.push(format!("mode=hyb op=merge {} kn=fix", c));
            }
            for c in ["p=1 m=1,1", "p=2 m=1", "p=2 m=2 dim=2", "p=3 m=1,1 kn=fix", "p=4 m=2,1 kn=fix dim=2", "p=5 m=r6 kn=fix", "p=3 m=3 kn=fix2"] {
                v.push(format!("op=rebuild {}", c));
            }
        }
        "C19" => {
            for op in ["evaluate", "insert", "split", "reverse", "derivative"] {
                for c in ["p=1 m=1 dim=2", "p=2 m=1,2 kn=fix dim=3", "p=3 m=1 kn=fix dim=4", "p=2 m=2 dim=2", "p=2 m=1 kn=fix dim=6"] {
                    v.push(format!("op={} {}", op, c));
                }
            }
            for op in ["merge", "interpolate", "loose", "fixed", "loose-pen", "fixed-pen"] {
                for c in ["p=1 n=4 dim=2", "p=2 n=4 dim=3", "p=3 n=5 dim=4", "p=2 n=5 dim=6"] {
                    v.push(format!("mode=hyb op={} {} kn=fix", op, c));
                }
            }
            for c in ["p=1 n=2 dim=2", "p=2 n=3 dim=3", "p=3 n=4 dim=2"] {
                v.push(format!("mode=hyb sym=1 op=merge {} kn=sym", c));
            }
        }
        "C24" => {
            for c in ["p=1 m=1", "p=2 m=- dim=2", "p=2 m=1,1", "p=2 m=2,1 dim=3", "p=3 m=-", "p=3 m=1,1,1", "p=3 m=1,2", "p=4 m=1,1", "p=4 m=- dim=2", "p=5 m=1,1", "p=3 m=r6", "p=2 m=r8", "p=1 m=r6 dim=2"] {
                for kn in ["fix", "fix3"] {
                    v.push(format!("mode=hyb {} kn={}", c, kn));
                }
            }
            for c in ["p=1 m=1", "p=1 m=1,1", "p=2 m=1", "p=2 m=1,1", "p=2 m=2", "p=3 m=1", "p=3 m=1,1", "p=3 m=2,1", "p=4 m=1"] {
                v.push(format!("mode=hyb sym=1 {} kn=sym", c));
            }
        }
        "C27" => {
            add(&[
                "len=2 p=1 m=1 kn=fix dim=2", "len=2 p=2 m=1 kn=fix", "len=2 p=2 m=2 kn=fix2", "len=2 p=3 m=1,1 kn=fix", "len=3 p=1 m=- kn=fix", "len=3 p=2 m=1 kn=fix", "len=3 p=3 m=- kn=fix",
                "len=2 p=2 m=1 kn=sym", "len=2 p=3 m=2,1 kn=fix2", "len=3 p=2 m=2 kn=fix2", "len=2 p=4 m=1 kn=fix",
            ]);
            if thorough {
                add(&["len=3 p=3 m=1,2 kn=fix", "len=4 p=2 m=1 kn=fix", "len=4 p=1 m=1 kn=fix", "len=3 p=4 m=1 kn=fix2", "len=4 p=3 m=2 kn=fix", "len=2 p=3 m=1 kn=sym", "len=3 p=2 m=- kn=sym"]);
            }
        }
        _ => {}
    }
    v
}

/// knots of u with t added, sorted (t decided against every knot)
fn with_knot(u: &[f64], t: f64) -> Vec<f64> {
    let mut w = vec![];
    let mut done = false;
    for (i, x) in u.iter().enumerate() {
        if !done && i > 0 && t < *x {
            w.push(t);
            done = true;
        }
        w.push(*x);
    }
    if !done {
        w.push(t);
    }
    w
}
fn mult_in(u: &[f64], t: f64) -> usize {
    let mut m = 0;
    for x in u {
        if *x == t {
            m += 1;
        }
    }
    m
}

/// insertion of t into c, whose knots are `u`: the outcome the specification demands.  Returns the new knots.
fn checked_insert(c: &mut Curve, u: &[f64], t: f64, how: usize) -> Vec<f64> {
    let p = c.degree();
    let n0 = c.segments();
    let before = Ref { p, u: u.to_vec(), pts: mat(c) };
    let m = mult_in(u, t);
    let r = match how {
        0 => insert(c, t),
        1 => c.insert(t).map(|_| ()),
        _ => c.insert_times(t, 1).map(|_| ()),
    };
    if m > p {
        match r {
            Err(InsertError::MultiplicityError { u: eu, m: em, p: ep }) => {
                check_eq("error names the knot", eu, t);
                check("error names multiplicity and degree", em == m && ep == p);
            }
            _ => check("inserting a knot of multiplicity p+1 is rejected", false),
        }
        same_as("a rejected insertion leaves the curve", c, &before);
        u.to_vec()
    } else {
        check("a legal insertion is accepted", r.is_ok());
        check("one more segment", c.segments() == n0 + 1);
        let w = with_knot(u, t);
        eq_vec("knots", &kv(c), &w);
        well_formed("after insertion", c);
        w
    }
}

pub fn body(prop: &str, cfg: &Cfg) {
    match prop {
        "C05" => {
            let g = gen(cfg);
            let mut c = g.c.clone();
            let t = open_param("t");
            match cfg.s("op").unwrap() {
                "one" => {
                    checked_insert(&mut c, &g.u, t, 0);
                }
                "times" => {
                    let x = choice("x", g.p + 3);
                    let m = mult_in(&g.u, t);
                    let room = g.p + 1 - m.min(g.p + 1);
                    let r = c.insert_times(t, x).map(|_| ());
                    check("insert_times succeeds exactly while the multiplicity allows", r.is_ok() == (x <= room));
                    check("the admissible insertions happened", c.segments() == g.n + x.min(room));
                    let mut w = g.u.clone();
                    for _ in 0..x.min(room) {
                        w = with_knot(&w, t);
                    }
                    eq_vec("knots", &kv(&c), &w);
                    well_formed("after insertions", &c);
                }
                "two" | "three" => {
                    let w = checked_insert(&mut c, &g.u, t, 1);
                    let t2 = open_param("s");
                    let w = checked_insert(&mut c, &w, t2, 2);
                    if cfg.is("op", "three") {
                        let t3 = open_param("r");
                        checked_insert(&mut c, &w, t3, 0);
                    }
                }
                _ => panic!(),
            }
            let u = param("u");
            let want = value(&g.u, g.p, &g.pts, u);
            eq_curve("the curve after insertion", &c, u, 0, &want);
        }
        "C06" => {
            let p = cfg.n("p");
            let mult = mults(cfg, "m");
            let kn: Vec<f64> = if cfg.is("kn", "fp") {
                let mut v = vec![];
                let mut prev = 0.0;
                for j in 0..mult.len() {
                    let t = par(&format!("t{}", j + 1));
                    assume_lt(prev, t);
                    prev = t;
                    v.push(t);
                }
                assume_lt(prev, 1.0);
                let mut u = vec![0.0; p + 1];
                for (t, m) in v.iter().zip(mult.iter()) {
                    u.extend(std::iter::repeat(*t).take(*m));
                }
                u.extend(std::iter::repeat(1.0).take(p + 1));
                u
            } else {
                knots(cfg, p, &mult, "")
            };
            let n = kn.len() - p - 2;
            let pts = M::from_fn(2, n + 1, |d, i| (i as f64) * 0.5 - d as f64);
            let c = curve(p, &kn, &pts);
            let t = par("t");
            let inside = t > 0.0 && t < 1.0;
            let m = if inside { mult_in(&kn, t) } else { 0 };
            let ok = inside && m <= p;
            match choice("op", if p <= 3 { 6 } else { 5 }) {
                5 => {
                    // as often as permitted, and once more
                    if !ok {
                        return;
                    }
                    let more = choice("more", 2);
                    let mut d = c.clone();
                    let r = d.insert_times(t, p + 1 - m + more).map(|_| ());
                    check("insert_times succeeds exactly while the multiplicity allows", r.is_ok() == (more == 0));
                    check("the admissible insertions happened", d.segments() == n + p + 1 - m);
                    if let Err(e) = r {
                        match e {
                            InsertError::MultiplicityError { u, m: em, p: ep } => {
                                check_same("error names the knot", u, t);
                                check("error names the multiplicity and the degree", em == p + 1 && ep == p);
                            }
                            _ => check("multiplicity error", false),
                        }
                    }
                }
                o @ 0..=2 => {
                    let mut d = c.clone();
                    let r = match o {
                        0 => insert(&mut d, t),
                        1 => d.insert(t).map(|_| ()),
                        _ => d.insert_times(t, 1).map(|_| ()),
                    };
                    check("insertion succeeds exactly for 0 < u < 1 with multiplicity at most p", r.is_ok() == ok);
                    match r {
                        Ok(()) => {
                            let w = kv(&d);
                            check("one more knot", w.len() == kn.len() + 1);
                            check("one more control point", d.segments() == n + 1);
                            let want = with_knot(&kn, t);
                            for i in 0..w.len().min(want.len()) {
                                check_same("knots after insertion", w[i], want[i]);
                            }
                        }
                        Err(e) => {
                            match e {
                                InsertError::OutOfBounds { u, lower_bound, upper_bound } => {
                                    check("bounds error only outside (0,1)", !inside);
                                    check_same("error names the parameter", u, t);
                                    check("error names the bounds", lower_bound == 0.0 && upper_bound == 1.0);
                                }
                                InsertError::MultiplicityError { u, m: em, p: ep } => {
                                    check("multiplicity error only inside (0,1)", inside);
                                    check_same("error names the knot", u, t);
                                    check("error names the multiplicity and the degree", em == m && ep == p);
                                }
                            }
                            unchanged(&d, &kn, &pts);
                        }
                    }
                }
                o => {
                    if o == 4 && ok {
                        // normalised halves: their knots are quotients; the accepting side is decided over the reals (C07)
                        return;
                    }
                    let r = if o == 3 { split_and_normalize(&c, t, (false, false)) } else { split(&c, t) };
                    check("split succeeds exactly for 0 < u < 1 with multiplicity at most p", r.is_ok() == ok);
                    match r {
                        Ok((a, b)) => {
                            let (wa, wb) = (kv(&a), kv(&b));
                            for (w, lo, hi) in [(&wa, 0.0, t), (&wb, t, 1.0)] {
                                let l = w.len();
                                check("clamped length", l >= 2 * p + 2);
                                for i in 0..=p {
                                    check_same("clamped start", w[i], lo);
                                    check_same("clamped end", w[l - 1 - i], hi);
                                }
                                for i in 1..l {
                                    check("knots sorted", w[i - 1] <= w[i]);
                                }
                            }
                            check("segments", a.segments() + p + 2 == wa.len() && b.segments() + p + 2 == wb.len());
                            check("total", wa.len() + wb.len() == kn.len() - m + 2 * p + 2);
                        }
                        Err(e) => match e {
                            SplitError::OutOfBounds { u, lower_bound, upper_bound } => {
                                check("bounds error only outside (0,1)", !inside);
                                check_same("error names the parameter", u, t);
                                check("error names the bounds", lower_bound == 0.0 && upper_bound == 1.0);
                            }
                            SplitError::MultiplicityTooHigh { u, multiplicity, p: ep } => {
                                check("multiplicity error only inside (0,1)", inside);
                                check_same("error names the knot", u, t);
                                check("error names the multiplicity and the degree", multiplicity == m && ep == p);
                            }
                            _ => check("no other error", false),
                        },
                    }
                    unchanged(&c, &kn, &pts);
                }
            }
        }
        "C07" => {
            let g = gen(cfg);
            let t = open_param("t");
            let m = mult_in(&g.u, t);
            let how = choice("how", 5);
            let norm = match how {
                0 | 1 => (true, true),
                2 => (true, false),
                3 => (false, true),
                _ => (false, false),
            };
            let r = match how {
                0 => g.c.split(t),
                1 => split(&g.c, t),
                _ => split_and_normalize(&g.c, t, norm),
            };
            if m > g.p {
                check("splitting at a knot of multiplicity p+1 is rejected", r.is_err());
                return;
            }
            let (a, b) = match r {
                Ok(x) => x,
                Err(_) => return check("splitting at a legal parameter succeeds", false),
            };
            // knots: the original ones on either side, clamped at t
            let (mut wa, mut wb) = (vec![], vec![]);
            for x in &g.u {
                if *x < t {
                    wa.push(*x);
                }
                if *x > t {
                    wb.push(*x);
                }
            }
            let na = if norm.0 { t } else { 1.0 };
            for x in wa.iter_mut() {
                *x = *x / na;
            }
            wa.extend(std::iter::repeat(t / na).take(g.p + 1));
            let nb = if norm.1 { 1.0 - t } else { 1.0 };
            let ob = if norm.1 { t } else { 0.0 };
            let mut wb2 = vec![(t - ob) / nb; g.p + 1];
            wb2.extend(wb.iter().map(|x| (*x - ob) / nb));
            eq_vec("left knots", &kv(&a), &wa);
            eq_vec("right knots", &kv(&b), &wb2);
            check("degrees kept", a.degree() == g.p && b.degree() == g.p);
            well_formed("left", &a);
            well_formed("right", &b);
            same_as("the original is unchanged", &g.c, &Ref { p: g.p, u: g.u.clone(), pts: g.pts.clone() });
            // the halves trace the original
            if choice("half", 2) == 0 {
                let x = par("x");
                assume_le(0.0, x);
                assume_le(x, t);
                let want = if x < t { value(&g.u, g.p, &g.pts, x) } else { left_value(&g, x) };
                eq_curve("left half", &a, x / na, 0, &want);
            } else {
                let x = par("x");
                assume_le(t, x);
                assume_le(x, 1.0);
                eq_curve("right half", &b, (x - ob) / nb, 0, &value(&g.u, g.p, &g.pts, x));
            }
        }
        "C08" => {
            let g = gen(cfg);
            let how = choice("how", 3);
            let r = match how {
                0 => {
                    let mut c = g.c.clone();
                    c.reverse();
                    c
                }
                1 => {
                    let mut c = g.c.clone();
                    reverse::reverse(&mut c);
                    c
                }
                _ => {
                    let r = reverse::reversed(&g.c);
                    same_as("reversed() leaves its argument", &g.c, &Ref { p: g.p, u: g.u.clone(), pts: g.pts.clone() });
                    r
                }
            };
            let l = g.u.len();
            let w: Vec<f64> = (0..l).map(|i| 1.0 - g.u[l - 1 - i]).collect();
            let q = M::from_fn(g.dim, g.n + 1, |d, i| g.pts[(d, g.n - i)]);
            same_as("reversed curve", &r, &Ref { p: g.p, u: w, pts: q });
            check("reversed curve has all derivatives", r.max_derivative() == g.p);
            let u = param("u");
            let x = 1.0 - u;
            let s = if u < 1.0 { span_left(&g.u, g.p, x) } else { span(&g.u, g.p, x) };
            let want = derivs_at(&g.u, g.p, &g.pts, x, g.p + 1, s);
            for k in 0..=g.p + 1 {
                let sg = if k % 2 == 1 { -1.0 } else { 1.0 };
                let w: Vec<f64> = want[k].iter().map(|v| sg * *v).collect();
                eq_curve("reversed curve", &r, u, k, &w);
            }
            let rr = reverse::reversed(&r);
            same_as("reversing twice restores the curve", &rr, &Ref { p: g.p, u: g.u.clone(), pts: g.pts.clone() });
            let want = derivs(&g.u, g.p, &g.pts, u, g.p);
            for k in 0..=g.p {
                eq_curve("reversed twice", &rr, u, k, &want[k]);
            }
            if how == 0 {
                let mut d = DataPoints::new(g.pts.clone());
                d.reverse();
                for i in 0..=g.n {
                    for e in 0..g.dim {
                        check_eq("data points reversed", d.matrix()[(e, i)], g.pts[(e, g.n - i)]);
                    }
                }
            }
        }
        "C16" => c16(cfg),
        "C19" => crate::indep::body(cfg),
        "C24" => {
            // split in the middle, merge again: the same curve
            let p = cfg.n("p");
            let mult = mults(cfg, "m");
            let g = gen(cfg);
            let _ = mult;
            if cfg.is("sym", "1") {
                for x in &g.u[p + 1..g.n + 1] {
                    if *x < 0.5 {
                        assume_gap(*x, 0.5, 0.0625);
                    } else {
                        assume_gap(0.5, *x, 0.0625);
                    }
                }
            } else if g.u.iter().any(|x| *x == 0.5) {
                return check("configuration has a knot in the middle", false);
            }
            let (a, b) = match g.c.split(0.5) {
                Ok(x) => x,
                Err(_) => return check("splitting in the middle succeeds", false),
            };
            let how = choice("how", if p >= 2 { 6 } else { 3 });
            let m = match how {
                3 => merge::merge_from(&a, &b).expect("halves merge"),
                4 => merge::merge_to(&a, &b).expect("halves merge"),
                5 => {
                    // a constraint is kept by the original curve already
                    let mut c = a.clone();
                    c.append_constrained(merge::Constraints { params: vec![] }, &b, merge::Constraints { params: vec![0.25] });
                    c
                }
                0 => merge::merge(&a, &b).expect("halves merge"),
                1 => {
                    let mut c = a.clone();
                    c.append(&b);
                    c
                }
                _ => {
                    let mut c = b.clone();
                    c.prepend(&a);
                    c
                }
            };
            let want = insert_ref(&Ref { p, u: g.u.clone(), pts: g.pts.clone() }, 0.5);
            same_as("split and merge gives the curve with one more knot", &m, &want);
            if p >= 4 || how > 0 {
                // knots and control points agree: the values follow (C01); their powers of u are out of the solver's reach
                return;
            }
            let u = param("u");
            let v = value(&g.u, g.p, &g.pts, u);
            eq_curve("split and merge", &m, u, 0, &v);
        }
        "C27" => c27(cfg),
        _ => panic!("unknown property"),
    }
}

fn left_value(g: &Gen, x: f64) -> Vec<f64> {
    let s = span_left(&g.u, g.p, x);
    series_at(&g.u, g.p, &g.pts, x, 0, s).into_iter().map(|c| c[0]).collect()
}

fn unchanged(c: &Curve, kn: &[f64], pts: &M) {
    let w = kv(c);
    check("knot count unchanged", w.len() == kn.len());
    for i in 0..w.len().min(kn.len()) {
        check_same("knots unchanged", w[i], kn[i]);
    }
    let q = mat(c);
    check("points unchanged", q.nrows() == pts.nrows() && q.ncols() == pts.ncols() && q.iter().zip(pts.iter()).all(|(a, b)| a == b));
}

/// every derivative the manipulated curve offers is that of a curve built from its knots and points
fn fresh_state(label: &str, c: &Curve) {
    let p = c.degree();
    let r = Ref { p, u: kv(c), pts: mat(c) };
    let f = curve(p, &r.u, &r.pts);
    check(&format!("{}: max_derivative", label), c.max_derivative() == p);
    for k in 0..=p {
        eq_vec(
            &format!("{}: derivative knots of order {}", label, k),
            &c.knots.vector_derivative(k).iter().copied().collect::<Vec<_>>(),
            &r.u[k..r.u.len() - k].to_vec(),
        );
        let (a, b) = (c.points.matrix_derivative(k), f.points.matrix_derivative(k));
        check(&format!("{}: derivative points shape", label), a.shape() == b.shape());
        if a.shape() == b.shape() {
            for i in 0..a.ncols() {
                for d in 0..a.nrows() {
                    check_eq(&format!("{}: derivative point {} of order {}", label, i, k), a[(d, i)], b[(d, i)]);
                }
            }
        }
    }
    if p >= 4 && label == "merged" {
        // the derivative data agree: the values follow (C03)
        return;
    }
    let u = param("u");
    let want = derivs(&r.u, p, &r.pts, u, p);
    for k in 0..=p {
        eq_curve(label, c, u, k, &want[k]);
    }
}

fn c16(cfg: &Cfg) {
    let g = gen(cfg);
    let mut c = g.c.clone();
    if cfg.is("op", "merge") {
        let b = gen_tag(cfg, "p", "m", "b");
        let m = merge::merge(&g.c, &b.c).expect("merge");
        return fresh_state("merged", &m);
    }
    if cfg.is("op", "rebuild") {
        return rebuild(cfg, &g);
    }
    for (i, op) in cfg.s("op").unwrap().split('-').enumerate() {
        match op {
            "reverse" => {
                c.reverse();
            }
            "insert" => {
                let t = open_param(&format!("t_{}", i));
                if c.insert(t).is_err() {
                    skip();
                }
            }
            "split" => {
                let t = open_param(&format!("t_{}", i));
                match c.split(t) {
                    Ok((a, b)) => c = if choice("half", 2) == 0 { a } else { b },
                    Err(_) => skip(),
                }
            }
            _ => panic!(),
        }
    }
    fresh_state(cfg.s("op").unwrap(), &c);
}

/// a curve built from knots and points that carry derivative data of something else
fn rebuild(cfg: &Cfg, g: &Gen) {
    let p = g.p;
    let mult = mults(cfg, "m");
    let other = knots(cfg, p, &mult, "b");
    let mut ub = g.u.clone();
    let mut qb = g.pts.clone();
    let mut kn = g.c.knots.clone();
    let mut pt = g.c.points.clone();
    let how = choice("built", 6);
    match how {
        // control points of a curve over other knots
        0 => {
            ub = other;
            kn = Knots::new(p, vecd(&ub));
        }
        // knots changed in place
        1 => {
            ub = other;
            for (i, x) in ub.iter().enumerate() {
                kn.vector_mut()[i] = *x;
            }
        }
        // control points changed in place
        2 => {
            qb = points(g.n, g.dim, "S");
            for i in 0..=g.n {
                for d in 0..g.dim {
                    if i % 2 == 0 {
                        pt.matrix_mut()[(d, i)] = qb[(d, i)];
                    } else {
                        pt.get_mut(i)[d] = qb[(d, i)];
                    }
                }
            }
        }
        // control points of a curve of the same number of points and another degree
        3 => {
            if g.n < p + 1 {
                skip();
            }
            let mut w = vec![0.0; p + 2];
            w.extend((1..g.n - p).map(|j| j as f64 / 16.0));
            w.extend(vec![1.0; p + 2]);
            pt = curve(p + 1, &w, &g.pts).points.clone();
        }
        // everything replaced in an existing curve's parts, by generation
        4 => ub = other,
        // derived by hand from other knots
        _ => pt.derive(&Knots::new(p, vecd(&other))),
    }
    let c = if how == 4 {
        let knots = bsplines::curve::knots::Generation::Manual { knots: Knots::new(p, vecd(&ub)) };
        generate(Generation::Manual { degree: p, points: pt, knots })
    } else {
        Curve::new(kn, pt)
    };
    match c {
        Ok(c) => {
            same_as("built", &c, &Ref { p, u: ub, pts: qb });
            fresh_state("built", &c);
        }
        Err(_) => check("built from legal parts", false),
    }
}

/// a history of operations: the curve is always C0(a + s x) of the original one
fn c27(cfg: &Cfg) {
    let g = gen(cfg);
    let mut c = g.c.clone();
    let (mut a, mut s) = (0.0, 1.0);
    let mut fwd = true;
    let mut u = g.u.clone();
    for step in 0..cfg.n("len") {
        match choice(&format!("op{}", step), 4) {
            0 => {
                let t = open_param(&format!("t{}_", step));
                if mult_in(&u, t) > g.p {
                    skip();
                }
                check("legal insertion accepted", c.insert(t).is_ok());
                u = with_knot(&u, t);
            }
            1 => {
                c.reverse();
                a = a + s;
                s = -s;
                fwd = !fwd;
                u = u.iter().rev().map(|x| 1.0 - *x).collect();
            }
            o => {
                let t = open_param(&format!("t{}_", step));
                if mult_in(&u, t) > g.p {
                    skip();
                }
                let (x, y) = match c.split(t) {
                    Ok(z) => z,
                    Err(_) => return check("legal split accepted", false),
                };
                let mut w = vec![];
                if o == 2 {
                    for k in &u {
                        if *k < t {
                            w.push(*k / t);
                        }
                    }
                    w.extend(std::iter::repeat(1.0).take(g.p + 1));
                    s = s * t;
                    c = x;
                } else {
                    w.extend(std::iter::repeat(0.0).take(g.p + 1));
                    for k in &u {
                        if *k > t {
                            w.push((*k - t) / (1.0 - t));
                        }
                    }
                    a = a + s * t;
                    s = s * (1.0 - t);
                    c = y;
                }
                u = w;
            }
        }
        well_formed("history", &c);
        eq_vec("history: knots", &kv(&c), &u);
    }
    check("history: degree", c.degree() == g.p);
    check("history: all derivatives available", c.max_derivative() == g.p);
    let x = open_param("x");
    for k in &u {
        if x == *k {
            skip();
        }
    }
    let y = a + s * x;
    let _ = fwd;
    let want = derivs(&g.u, g.p, &g.pts, y, g.p);
    let mut f = 1.0;
    let top = if cfg.is("kn", "sym") { 1 } else { g.p };
    for k in 0..=g.p.min(top) {
        let w: Vec<f64> = want[k].iter().map(|v| f * *v).collect();
        eq_curve("history", &c, x, k, &w);
        f = f * s;
    }
}

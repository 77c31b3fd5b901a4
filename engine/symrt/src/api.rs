//! What the harness uses: symbolic inputs, assumptions, checks, observations and the exploration loop.
//! The same harness code runs natively (un-instrumented build) to replay models on the ordinary program.
use crate::big::Rat;
use crate::rt::*;
use crate::solver::*;
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub use crate::rt::Mode;

struct Stop;

#[derive(Default)]
struct Nat {
    vals: HashMap<String, f64>,
    fails: Vec<String>,
    obs: Vec<(String, f64)>,
    assume_failed: Option<String>,
}
static mut NAT: Option<Nat> = None;
#[allow(static_mut_refs)]
fn nat() -> &'static mut Nat {
    unsafe {
        if NAT.is_none() {
            NAT = Some(Nat::default());
        }
        NAT.as_mut().unwrap()
    }
}
static mut LAST_PANIC: Option<String> = None;
#[allow(static_mut_refs)]
fn last_panic() -> &'static mut Option<String> {
    unsafe { &mut LAST_PANIC }
}

#[inline(never)]
pub fn native() -> bool {
    st().mode == Mode::Native
}
#[inline(never)]
pub fn is_fp() -> bool {
    st().mode == Mode::Fp
}

fn new_var(name: &str, pinned: bool) -> f64 {
    let s = st();
    if s.mode == Mode::Native {
        let n = nat();
        return match n.vals.get(name) {
            Some(v) => *v,
            None => {
                n.assume_failed = Some(format!("no value for {}", name));
                0.0
            }
        };
    }
    if let Some(v) = s.fixed.get(name) {
        return *v;
    }
    s.vars.push((name.to_string(), pinned));
    if s.mode == Mode::Fp {
        let n = s.terms.fintern(FNode::Var(name.to_string()));
        let mut d = vec![];
        s.terms.fdefine(n, &mut d);
        s.sol().define(d);
        return s.put(SV::F(n));
    }
    let p = s.terms.var(name);
    let mut d = vec![];
    s.terms.define(p.t[0].0, &mut d);
    s.sol().define(d);
    if s.mode == Mode::Hybrid {
        let f = format!("(and (<= (- {1}) {0}) (<= {0} {1}))", name, Rat::from_f64(s.unit).smt());
        s.assume(f.clone(), f, false);
    }
    s.put(SV::R { num: p, den: vec![] })
}
/// size of the coordinates of this configuration (hybrid mode: they lie in [-r, r]); tolerances are relative to it
#[inline(never)]
pub fn range(r: f64) {
    st().unit = r;
}
/// symbolic input that appears non-linearly (knots, parameters): pinned first when a counterexample is made concrete
#[inline(never)]
pub fn par(name: &str) -> f64 {
    new_var(name, true)
}
/// symbolic input that appears linearly (coordinates)
#[inline(never)]
pub fn coord(name: &str) -> f64 {
    new_var(name, false)
}
/// Fp mode: a path that performs more than n symbolic operations from here on goes on with one concrete value.
/// For requests that are to be turned down: no path of correct code gets there, and the violation of code that
/// goes on is visible without the whole computation being symbolic.
#[inline(never)]
pub fn fp_cap(n: u64) {
    let s = st();
    s.fp_cap = n;
    s.fp_ops = 0;
}
/// structural choice 0..n, enumerated
#[inline(never)]
pub fn choice(name: &str, n: usize) -> usize {
    let s = st();
    if s.mode == Mode::Native {
        return *nat().vals.get(name).unwrap_or(&0.0) as usize;
    }
    let k = match s.fixed.get(name) {
        Some(v) => *v as usize,
        None => s.choice(n),
    };
    s.obs.push((format!("#{}", name), k as f64));
    k
}

fn stop_if_dead() {
    if st().dead {
        std::panic::panic_any(Stop);
    }
}
fn assume_sign(a: f64, b: f64, mask: u8) {
    let s = st();
    if boxed(a).is_none() && boxed(b).is_none() {
        let d = a - b;
        let m = if d < 0.0 {
            NEG
        } else if d > 0.0 {
            POS
        } else {
            ZERO
        };
        if m & mask == 0 {
            s.dead = true;
        }
        return;
    }
    let d = s.sub(a, b);
    let (t, r) = s.sign_formula(&d, mask);
    if t == "true" {
        return;
    }
    s.assume(t, r, true);
}
fn nat_assume(ok: bool, what: &str) {
    if !ok {
        let n = nat();
        if n.assume_failed.is_none() {
            n.assume_failed = Some(what.to_string());
        }
    }
}
/// a + gap <= b   (gap > 0: distinct values are at least `gap` apart)
#[inline(never)]
pub fn assume_gap(a: f64, b: f64, gap: f64) {
    if native() {
        return nat_assume(a < b, "a<b");
    }
    assume_sign(sx_fadd(a, gap), b, NEG | ZERO);
    stop_if_dead();
}
#[inline(never)]
pub fn assume_lt(a: f64, b: f64) {
    if native() {
        return nat_assume(a < b, "a<b");
    }
    if is_fp() {
        let s = st();
        let t = format!("(fp.lt {} {})", s.fname(a), s.fname(b));
        s.assume(t.clone(), t, true);
    } else {
        assume_sign(a, b, NEG);
    }
    stop_if_dead();
}
#[inline(never)]
pub fn assume_le(a: f64, b: f64) {
    if native() {
        return nat_assume(a <= b, "a<=b");
    }
    if is_fp() {
        let s = st();
        let t = format!("(fp.leq {} {})", s.fname(a), s.fname(b));
        s.assume(t.clone(), t, true);
    } else {
        assume_sign(a, b, NEG | ZERO);
    }
    stop_if_dead();
}
#[inline(never)]
pub fn assume_ne(a: f64, b: f64) {
    if native() {
        return nat_assume(a != b, "a!=b");
    }
    if is_fp() {
        let s = st();
        let t = format!("(not (fp.eq {} {}))", s.fname(a), s.fname(b));
        s.assume(t.clone(), t, true);
    } else {
        assume_sign(a, b, NEG | POS);
    }
    stop_if_dead();
}
/// abandon this path (its condition is outside the property's scope)
#[inline(never)]
pub fn skip() -> ! {
    if native() {
        nat_assume(false, "skip");
    }
    std::panic::panic_any(Stop);
}

/// name under which a counterexample records the size of its coordinates
const UNIT: &str = "size of coordinates";
fn unit() -> f64 {
    let s = st();
    if s.mode == Mode::Native {
        if let Some(v) = nat().vals.get(UNIT) {
            return *v;
        }
    }
    s.unit
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= tol * (unit() + a.abs().max(b.abs()))
}

pub const NAT_TOL: f64 = 1e-7;
pub const HYB_TOL: f64 = 1e-6;

/// exact equality in real mode; |a-b| <= tol in hybrid mode
#[inline(never)]
pub fn check_tol(label: &str, a: f64, b: f64, tol: f64) {
    let s = st();
    if s.scout {
        end_scouting();
    }
    match s.mode {
        Mode::Native => {
            if !close(a, b, tol.max(NAT_TOL) * 0.5) {
                nat().fails.push(format!("{}: {:?} != {:?}", label, a, b));
            }
        }
        Mode::Fp => {
            assert!(boxed(a).is_none() && boxed(b).is_none(), "symbolic check_tol in fp mode");
            s.checks.push(Check::True(label.to_string(), close(a, b, tol)));
        }
        _ => s.checks.push(Check::Eq(label.to_string(), a, b, tol)),
    }
}
#[inline(never)]
pub fn check_eq(label: &str, a: f64, b: f64) {
    check_tol(label, a, b, HYB_TOL)
}
#[inline(never)]
pub fn check_le(label: &str, a: f64, b: f64) {
    let s = st();
    if s.scout {
        end_scouting();
    }
    match s.mode {
        Mode::Native => {
            if !(a <= b + NAT_TOL * (unit() + b.abs())) {
                nat().fails.push(format!("{}: {:?} > {:?}", label, a, b));
            }
        }
        Mode::Fp => panic!("check_le in fp mode"),
        _ => s.checks.push(Check::Le(label.to_string(), a, b, HYB_TOL)),
    }
}
/// bit-for-bit / IEEE equality of two values that should be the same input or constant
#[inline(never)]
pub fn check_same(label: &str, a: f64, b: f64) {
    let s = st();
    if s.scout {
        end_scouting();
    }
    match s.mode {
        Mode::Native => {
            if !(a == b || a.is_nan() && b.is_nan()) {
                nat().fails.push(format!("{}: {:?} != {:?}", label, a, b));
            }
        }
        Mode::Fp => {
            let ok = if boxed(a).is_none() && boxed(b).is_none() {
                a == b || a.is_nan() && b.is_nan()
            } else {
                let (x, y) = (s.fname(a), s.fname(b));
                let t = format!("(or (fp.eq {0} {1}) (and (fp.isNaN {0}) (fp.isNaN {1})))", x, y);
                s.fdecide(t)
            };
            s.checks.push(Check::True(label.to_string(), ok));
        }
        _ => s.checks.push(Check::Eq(label.to_string(), a, b, 0.0)),
    }
}
#[inline(never)]
pub fn check(label: &str, ok: bool) {
    let s = st();
    if s.scout {
        end_scouting();
    }
    if s.mode == Mode::Native {
        if !ok {
            nat().fails.push(label.to_string());
        }
        return;
    }
    s.checks.push(Check::True(label.to_string(), ok));
}
/// value compared between the symbolic run (under the path's model) and the native run
#[inline(never)]
pub fn observe(label: &str, v: f64) {
    let s = st();
    if s.mode == Mode::Native {
        nat().obs.push((label.to_string(), v));
    } else {
        s.obs.push((label.to_string(), v));
    }
}
#[inline(never)]
pub fn observe_int(label: &str, v: usize) {
    observe(label, v as f64)
}
/// run code that may panic; None = it panicked
#[inline(never)]
pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            if e.is::<Stop>() {
                std::panic::resume_unwind(e);
            }
            None
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *last_panic() = Some(format!("{} at {}", msg.replace('\n', " "), loc));
    }));
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Default)]
pub struct Model {
    pub vals: Vec<(String, f64)>,
    pub text: Vec<(String, String)>,
}
impl Model {
    fn get(&self, n: &str) -> f64 {
        self.vals.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(0.0)
    }
}

pub struct Viol {
    pub labels: Vec<String>,
    pub model: Model,
    pub robust: bool,
    pub note: String,
}

pub struct Report {
    pub wall: f64,
    pub viols: Vec<Viol>,
    pub paths: Vec<(Model, Vec<(String, f64)>, bool)>,
    pub complete: bool,
    pub samples: Vec<String>,
    pub undecided: Vec<String>,
    pub hang: bool,
}

pub struct Limits {
    pub max_paths: u64,
    pub max_secs: f64,
    pub check_s: u64,
    pub fallback_s: u64,
    pub cross_every: u64,
}

static mut HANG: Option<Box<dyn Fn()>> = None;
#[allow(static_mut_refs)]
pub fn on_hang() -> ! {
    unsafe {
        if let Some(f) = &HANG {
            f();
        }
    }
    std::process::exit(3);
}
pub fn set_on_hang(f: Box<dyn Fn()>) {
    unsafe {
        HANG = Some(f);
    }
}

pub fn current_model() -> Model {
    let s = st();
    let base = s.sol().stack.len();
    let mut m = match nice_model(s, &[]) {
        Some((m, _)) => m,
        None => Model::default(),
    };
    s.sol().pop_to(base);
    add_choices(s, &mut m);
    m
}

fn model_now(s: &mut St) -> Model {
    let mut names: Vec<String> = s.vars.iter().map(|v| v.0.clone()).collect();
    let nv = names.len();
    names.extend(s.aux.iter().cloned());
    let fp = s.mode == Mode::Fp;
    let v = s.sol().values(&names);
    let mut m = Model::default();
    for n in &names {
        let t = &v[n];
        let x = if fp { fp_value(t) } else { real_value(t) };
        m.vals.push((n.clone(), x.unwrap_or(0.0)));
        m.text.push((n.clone(), t.clone()));
    }
    let _ = nv;
    m
}

/// the robust form of the path condition: strict inequalities hold by at least d, inputs are bounded
fn robust_path(s: &St, d: &str, size: f64) -> Vec<String> {
    let mut v = vec![];
    for e in &s.log {
        let f = match (e.kind, e.outcome) {
            (Kind::Dec, true) => &e.rt,
            (Kind::Dec, false) => &e.rf,
            (Kind::Assume, _) => &e.rt,
            _ => continue,
        };
        if f.contains("@D@") {
            v.push(f.replace("@D@", d));
        }
    }
    if s.mode != Mode::Fp {
        for (n, pin) in &s.vars {
            let b = if *pin { 16.0 } else { 8.0 * size * s.unit };
            v.push(format!("(and (<= (- {1}) {0}) (<= {0} {1}))", n, Rat::from_f64(b).smt()));
        }
    }
    v
}

/// model of the path condition (plus extra), as well-separated as possible; bool = robust
fn nice_model(s: &mut St, extra: &[String]) -> Option<(Model, bool)> {
    let base = s.sol().stack.len();
    for e in extra {
        s.sol().push(e);
    }
    let lvl = s.sol().stack.len();
    let mut best: Option<(Model, bool)> = None;
    if s.mode != Mode::Fp {
        for (d, size) in [("(/ 1.0 16.0)", 1.0), ("(/ 1.0 256.0)", 1.0), ("(/ 1.0 256.0)", 1048576.0)] {
            for f in robust_path(s, d, size) {
                s.sol().push(&f);
            }
            let a = s.sol().check(2000);
            if a == Ans::Sat {
                let m = model_now(s);
                best = Some((m, true));
                s.sol().pop_to(lvl);
                break;
            }
            s.sol().pop_to(lvl);
        }
        // try a dyadic rounding of the parameters, so that the replay is exact
        if let Some((m, _)) = &best {
            let mut ok = true;
            for (n, pin) in s.vars.clone() {
                if pin {
                    let x = (m.get(&n) * 1024.0).round() / 1024.0;
                    let f = format!("(= {} {})", n, Rat::from_f64(x).smt());
                    s.sol().push(&f);
                    ok = true;
                }
            }
            if ok && s.sol().check(1000) == Ans::Sat {
                best = Some((model_now(s), true));
            }
            s.sol().pop_to(lvl);
        }
    }
    // generic coordinates, so that the native replay compares something
    if extra.is_empty() && s.mode != Mode::Fp {
        if let Some((m, rob)) = best.clone() {
            let mut k = 7u64;
            for (n, pin) in s.vars.clone() {
                if pin {
                    let t = &m.text.iter().find(|x| x.0 == n).unwrap().1;
                    if !t.contains('?') {
                        s.sol().push(&format!("(= {} {})", n, t));
                    }
                } else {
                    k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let x = (((k >> 33) % 65) as f64 / 64.0 - 0.5) * s.unit;
                    s.sol().push(&format!("(= {} {})", n, Rat::from_f64(x).smt()));
                }
            }
            if s.sol().check(500) == Ans::Sat {
                best = Some((model_now(s), rob));
            }
            s.sol().pop_to(lvl);
        }
    }
    if best.is_none() {
        if s.sol().check(5000) == Ans::Sat {
            best = Some((model_now(s), s.mode == Mode::Fp));
        }
    }
    s.sol().pop_to(base);
    best
}

enum CF {
    Pass,
    Fail,
    /// exact violation formula, tolerance violation formula (meaningful once parameters are pinned)
    F(String, String),
}

fn check_formula(s: &mut St, c: &Check) -> (String, CF) {
    match c {
        Check::True(l, b) => (l.clone(), if *b { CF::Pass } else { CF::Fail }),
        Check::Eq(l, a, b, tol) => {
            let (ca, cb) = (boxed(*a).is_none(), boxed(*b).is_none());
            if ca && cb {
                let ok = if s.mode == Mode::Hybrid { close(*a, *b, *tol) } else { *a == *b || (a.is_nan() && b.is_nan()) };
                return (l.clone(), if ok { CF::Pass } else { CF::Fail });
            }
            if (ca && !a.is_finite()) || (cb && !b.is_finite()) {
                return (l.clone(), CF::Fail);
            }
            let d = s.sub(*a, *b);
            let num = match &d {
                SV::R { num, .. } => num.clone(),
                _ => unreachable!(),
            };
            if num.is_const() {
                let ok = if s.mode == Mode::Hybrid { num.c0.to_f64().abs() <= *tol * s.unit } else { num.is_zero() };
                return (l.clone(), if ok { CF::Pass } else { CF::Fail });
            }
            let (n, dd) = s.parts(&d);
            let rob = format!(
                "(or (> (* {0} {1}) (* @V@ {1} {1})) (< (* {0} {1}) (* (- @V@) {1} {1})))",
                n, dd
            );
            if s.mode == Mode::Hybrid {
                let t = Rat::from_f64(*tol * s.unit).smt();
                let f = format!("(or (> {0} {1}) (< {0} (- {1})))", n, t);
                let t2 = Rat::from_f64(*tol * 4.0 * s.unit).smt();
                let r = format!("(or (> {0} {1}) (< {0} (- {1})))", n, t2);
                return (l.clone(), CF::F(f, r));
            }
            (l.clone(), CF::F(format!("(not (= {} 0.0))", n), rob))
        }
        Check::Le(l, a, b, tol) => {
            let (ca, cb) = (boxed(*a).is_none(), boxed(*b).is_none());
            if ca && cb {
                let slack = if s.mode == Mode::Hybrid { *tol * s.unit } else { 0.0 };
                return (l.clone(), if *a <= *b + slack { CF::Pass } else { CF::Fail });
            }
            if (ca && !a.is_finite()) || (cb && !b.is_finite()) {
                return (l.clone(), if cmp_le(*a, *b) { CF::Pass } else { CF::Fail });
            }
            let d = s.sub(*a, *b);
            if s.mode == Mode::Hybrid {
                let (n, _) = s.parts(&d);
                let t = Rat::from_f64(*tol * s.unit).smt();
                let t2 = Rat::from_f64(*tol * 4.0 * s.unit).smt();
                return (l.clone(), CF::F(format!("(> {} {})", n, t), format!("(> {} {})", n, t2)));
            }
            if let SV::R { num, den } = &d {
                if num.is_const() && den.is_empty() {
                    return (l.clone(), if num.c0.sign() <= 0 { CF::Pass } else { CF::Fail });
                }
            }
            let (f, _) = s.sign_formula(&d, POS);
            let (n, dd) = s.parts(&d);
            let rob = format!("(> (* {0} {1}) (* @V@ {1} {1}))", n, dd);
            (l.clone(), CF::F(f, rob))
        }
    }
}
fn cmp_le(a: f64, b: f64) -> bool {
    let a = if boxed(a).is_some() { 0.0 } else { a };
    let b = if boxed(b).is_some() { 0.0 } else { b };
    a <= b
}

fn or_all(v: &[String]) -> String {
    if v.len() == 1 {
        v[0].clone()
    } else {
        format!("(or {})", v.join(" "))
    }
}

/// a difference counts as visible above a thousandth of the size of the coordinates
fn visible(f: &str, size: f64) -> String {
    f.replace("@V@", &Rat::from_f64(size / 1024.0).smt())
}
/// make a violating assignment concrete: well separated parameters first, then a clearly visible difference
fn concretise_violation(s: &mut St, exact: &str, robust: &str) -> Option<(Model, bool)> {
    let base = s.sol().stack.len();
    let mut res: Option<(Model, bool)> = None;
    let mut cands: Vec<Model> = vec![];
    if let Some((m, _)) = nice_model(s, &[]) {
        cands.push(m);
    }
    if let Some((m, _)) = nice_model(s, &[exact.to_string()]) {
        if s.mode == Mode::Fp {
            return Some((m, true));
        }
        cands.push(m);
    }
    let fixed = s.mode == Mode::Hybrid;
    // coordinates of ordinary size first, then large and tiny ones
    let sizes: &[f64] = if fixed { &[1.0] } else { &[1.0, 1048576.0, 9.313225746154785e-10] };
    for (m, (round, size)) in sizes.iter().flat_map(|z| cands.iter().rev().flat_map(move |m| [64.0, 4096.0, 0.0].iter().map(move |r| (m, (*r, *z))))) {
        let mut pins = vec![];
        for (n, pin) in s.vars.clone() {
            if pin {
                if round > 0.0 {
                    let x = (m.get(&n) * round).round() / round;
                    pins.push(format!("(= {} {})", n, Rat::from_f64(x).smt()));
                } else {
                    let t = &m.text.iter().find(|x| x.0 == n).unwrap().1;
                    if t.contains('?') {
                        continue;
                    }
                    pins.push(format!("(= {} {})", n, t));
                }
            } else {
                pins.push(format!("(and (<= (- {1}) {0}) (<= {0} {1}))", n, Rat::from_f64(4.0 * size * s.unit).smt()));
            }
        }
        for p in &pins {
            s.sol().push(p);
        }
        let vis = visible(robust, size * s.unit);
        s.sol().push(&vis);
        let a = s.sol().check(if size == 1.0 { 4000 } else { 1000 });
        if a == Ans::Sat {
            let mut m = model_now(s);
            m.vals.push((UNIT.into(), size * s.unit));
            res = Some((m, true));
        }
        s.sol().pop_to(base);
        if res.is_some() {
            return res;
        }
    }
    cands.into_iter().last().map(|m| (m, false))
}

fn add_choices(s: &St, m: &mut Model) {
    for (l, v) in &s.obs {
        if let Some(n) = l.strip_prefix('#') {
            m.vals.push((n.to_string(), *v));
            m.text.push((n.to_string(), format!("{}", v)));
        }
    }
}

fn end_path(s: &mut St, rep: &mut Report, lim: &Limits, panicked: Option<String>) {
    // violations
    let mut fails: Vec<String> = vec![];
    let mut forms: Vec<(String, String, String)> = vec![];
    if let Some(m) = &panicked {
        fails.push(format!("panic: {}", m));
    }
    let checks = std::mem::take(&mut s.checks);
    let base = s.sol().stack.len();
    for c in &checks {
        s.stats.checks += 1;
        let (l, cf) = check_formula(s, c);
        match cf {
            CF::Pass => s.stats.proved += 1,
            CF::Fail => fails.push(l),
            CF::F(e, r) => forms.push((l, e, r)),
        }
    }
    if !fails.is_empty() {
        if let Some((mut m, rob)) = nice_model(s, &[]) {
            add_choices(s, &mut m);
            rep.viols.push(Viol { labels: fails, model: m, robust: rob, note: "path condition".into() });
        } else {
            rep.undecided.push(format!("no model for a path failing: {:?}", fails));
        }
    } else if !forms.is_empty() {
        let all: Vec<String> = forms.iter().map(|f| f.1.clone()).collect();
        let allf = or_all(&all);
        s.stats.check_queries += 1;
        let mut a = s.sol().oneshot(&allf, lim.check_s);
        let mut todo: Vec<usize> = (0..forms.len()).collect();
        if a == Ans::Unsat {
            s.stats.proved += forms.len() as u64;
            todo.clear();
            if lim.cross_every > 0 && s.stats.check_queries % lim.cross_every == 1 {
                let fp = s.mode == Mode::Fp;
                match s.sol().cross_check(&allf, 3, fp) {
                    Ans::Unsat => s.stats.crosschecked += 1,
                    Ans::Sat => rep.undecided.push("cvc5 disagrees with z3 on an unsat answer".into()),
                    Ans::Unknown => {}
                }
            }
        }
        if a == Ans::Unknown && forms.len() > 1 {
            // one at a time
            let mut left = vec![];
            for i in todo {
                s.stats.check_queries += 1;
                match s.sol().oneshot(&forms[i].1, lim.check_s) {
                    Ans::Unsat => s.stats.proved += 1,
                    Ans::Sat => {
                        a = Ans::Sat;
                        left = vec![i];
                        break;
                    }
                    Ans::Unknown => left.push(i),
                }
            }
            todo = left;
        }
        if a == Ans::Unknown && !todo.is_empty() {
            let mut left = vec![];
            for i in todo {
                let fp = s.mode == Mode::Fp;
                match s.sol().fallback(&forms[i].1, lim.fallback_s, fp) {
                    Ans::Unsat => s.stats.proved += 1,
                    Ans::Sat => {
                        a = Ans::Sat;
                        left = vec![i];
                        break;
                    }
                    Ans::Unknown => left.push(i),
                }
            }
            todo = left;
        }
        if !todo.is_empty() {
            let ex: Vec<String> = todo.iter().map(|i| forms[*i].1.clone()).collect();
            let rb: Vec<String> = todo.iter().map(|i| forms[*i].2.clone()).collect();
            if a == Ans::Sat {
                match concretise_violation(s, &or_all(&ex), &or_all(&rb)) {
                    Some((mut m, true)) => {
                        add_choices(s, &mut m);
                        rep.viols.push(Viol {
                            labels: todo.iter().map(|i| forms[*i].0.clone()).collect(),
                            model: m,
                            robust: true,
                            note: "counterexample".into(),
                        });
                    }
                    Some((m, false)) => {
                        s.stats.subtol += 1;
                        if rep.samples.len() < 20 {
                            rep.samples.push(format!("difference below 1e-3 at pinned parameters: {:?}", m.vals));
                        }
                    }
                    None => rep.undecided.push("counterexample could not be made concrete".into()),
                }
            } else {
                // decide with the parameters pinned to values of this path (bounded further; recorded)
                let mut ok = false;
                if let Some((m, _)) = nice_model(s, &[]) {
                    for (n, pin) in s.vars.clone() {
                        if pin {
                            let t = m.text.iter().find(|x| x.0 == n).unwrap().1.clone();
                            if !t.contains('?') {
                                s.sol().push(&format!("(= {} {})", n, t));
                            }
                        }
                    }
                    match s.sol().oneshot(&or_all(&ex), lim.check_s) {
                        Ans::Unsat => {
                            s.stats.pinned_only += todo.len() as u64;
                            ok = true;
                        }
                        Ans::Sat => {
                            let vis = visible(&or_all(&rb), s.unit);
                            s.sol().push(&vis);
                            if s.sol().check(lim.check_s * 1000) == Ans::Sat {
                                let mut m = model_now(s);
                                add_choices(s, &mut m);
                                rep.viols.push(Viol {
                                    labels: todo.iter().map(|i| forms[*i].0.clone()).collect(),
                                    model: m,
                                    robust: true,
                                    note: "counterexample at pinned parameters".into(),
                                });
                            } else {
                                s.stats.subtol += 1;
                            }
                            ok = true;
                        }
                        Ans::Unknown => {}
                    }
                    s.sol().pop_to(base);
                }
                if !ok {
                    s.stats.undecided += todo.len() as u64;
                    rep.undecided.push(format!("solver gave no answer for {:?}", todo.iter().map(|i| &forms[*i].0).collect::<Vec<_>>()));
                }
            }
        }
    }
    s.sol().pop_to(base);
    // witness of the path for the native replay
    if rep.paths.len() < 400 {
        if let Some((mut m, rob)) = nice_model(s, &[]) {
            let mut memo = HashMap::new();
            let get = |n: &str| m.vals.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(0.0);
            let mut obs = vec![];
            let fp = s.mode == Mode::Fp;
            for (l, v) in s.obs.clone() {
                if l.starts_with('#') {
                    continue;
                }
                match boxed(v) {
                    None => obs.push((l, v)),
                    Some(i) if !fp => {
                        let sv = s.vals[i as usize].clone();
                        obs.push((l, s.terms.eval_sv(&sv, &get, &mut memo)));
                    }
                    Some(_) => obs.push((l, f64::from_bits(TAG))), // placeholder: not compared
                }
            }
            if rep.samples.len() < 6 {
                let mut t = String::new();
                for e in &s.log {
                    match (e.kind, e.outcome) {
                        (Kind::Dec, true) if !e.forced => write!(t, "{} ", e.t).unwrap(),
                        (Kind::Dec, false) if !e.forced => write!(t, "{} ", e.f).unwrap(),
                        _ => {}
                    }
                }
                let mv: Vec<String> = m.text.iter().map(|(n, v)| format!("{}={}", n, v.replace(' ', " "))).collect();
                t.truncate(600);
                rep.samples.push(format!("path: {} ; model: {} ; checks: {}", t, mv.join(", "), checks.len()));
            }
            add_choices(s, &mut m);
            rep.paths.push((m, obs, rob));
        }
    }
}

/// explore every path of `f`
/// ends a path of the scouting phase
pub fn end_scouting() -> ! {
    std::panic::panic_any(Stop);
}
/// First phase for code behind a matrix factorisation: knots and parameters are symbolic up to the first
/// factorisation or assertion; one model (inputs that appear non-linearly, and choices) per path.
pub fn scout(lim: &Limits, max: usize, f: &dyn Fn()) -> (Vec<Vec<(String, f64)>>, bool) {
    let s = st();
    s.mode = Mode::Hybrid;
    s.terms.round = true;
    s.fixed.clear();
    let mut out: Vec<Vec<(String, f64)>> = vec![];
    let mut complete = true;
    let t0 = Instant::now();
    loop {
        let s = st();
        s.reset_path();
        s.scout = true;
        *last_panic() = None;
        let _ = run_fresh(f);
        let s = st();
        s.scout = false;
        if s.dead {
            s.stats.dead += 1;
        } else if let Some((mut m, _)) = nice_model(s, &[]) {
            let pins: Vec<String> = s.vars.iter().filter(|v| v.1).map(|v| v.0.clone()).collect();
            m.vals.retain(|(n, _)| pins.contains(n));
            add_choices(s, &mut m);
            if !out.contains(&m.vals) {
                out.push(m.vals);
            }
        } else {
            complete = false;
        }
        if !s.backtrack() {
            break;
        }
        if out.len() >= max || t0.elapsed().as_secs_f64() > lim.max_secs / 2.0 {
            complete = false;
            break;
        }
    }
    st().clear_log();
    (out, complete)
}

struct Body<'a>(&'a dyn Fn());
unsafe impl Send for Body<'_> {}

/// run the body as a fresh process would: on a new thread (its thread-locals are new) and with the
/// mutable statics of the crate at their initial values
fn run_fresh(f: &dyn Fn()) -> std::thread::Result<()> {
    crate::rt::fresh_statics();
    let b = Body(f);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(sc, move || {
                let b = b;
                catch_unwind(AssertUnwindSafe(b.0))
            })
            .expect("thread")
            .join()
            .and_then(|r| r)
    })
}

pub fn explore(mode: Mode, lim: &Limits, f: &dyn Fn()) -> Report {
    let s = st();
    s.mode = mode;
    s.terms.round = mode == Mode::Hybrid;
    let mut rep = Report { wall: 0.0, viols: vec![], paths: vec![], complete: true, samples: vec![], undecided: vec![], hang: false };
    let t0 = Instant::now();
    loop {
        let s = st();
        s.reset_path();
        *last_panic() = None;
        let r = run_fresh(f);
        let s = st();
        let mut panicked = None;
        let mut skip = s.dead;
        if let Err(e) = r {
            if e.is::<Stop>() {
                skip = true;
            } else {
                panicked = Some(last_panic().clone().unwrap_or_else(|| "panic".into()));
            }
        }
        if s.pos != s.log.len() && !skip {
            eprintln!("symrt: path ended before its prefix was consumed");
            std::process::exit(2);
        }
        if skip {
            s.stats.dead += 1;
        } else {
            s.stats.paths += 1;
            end_path(s, &mut rep, lim, panicked);
        }
        if rep.viols.len() >= 4 {
            rep.complete = false;
            break;
        }
        if s.stats.paths + s.stats.dead >= lim.max_paths || t0.elapsed().as_secs_f64() > lim.max_secs {
            rep.complete = !s.backtrack();
            break;
        }
        if !s.backtrack() {
            break;
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

/// one native run with the given values: (failures, observations, panic)
pub fn run_native(vals: HashMap<String, f64>, f: &dyn Fn()) -> (Vec<String>, Vec<(String, f64)>, Option<String>) {
    let s = st();
    s.mode = Mode::Native;
    *nat() = Nat { vals, ..Nat::default() };
    *last_panic() = None;
    let r = run_fresh(f);
    let n = nat();
    let mut fails = n.fails.clone();
    let mut out_of_scope = n.assume_failed.clone();
    if let Err(e) = r {
        if e.is::<Stop>() {
            out_of_scope = Some("skip".into());
        } else {
            fails.push(format!("panic: {}", last_panic().clone().unwrap_or_default()));
        }
    }
    (fails, n.obs.clone(), out_of_scope)
}

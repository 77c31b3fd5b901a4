//! State of the symbolic execution, path exploration and the f64 operations.
use crate::big::{Big, Rat};
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeSet, HashMap};

pub const TAG: u64 = 0x7FFD_0000_0000_0000;
pub const TAGMASK: u64 = 0xFFFF_0000_0000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Native,
    Real,
    Hybrid,
    Fp,
}

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Dec,    // two-way decision
    Assume, // assertion added by the harness or the runtime
    Info,   // a solver-derived fact (data), no assertion
    Choice, // n-way structural choice
}

pub struct Entry {
    pub kind: Kind,
    pub t: String,
    pub f: String,
    pub rt: String,
    pub rf: String,
    pub outcome: bool,
    pub forced: bool,
    pub alt: bool,
    pub data: i64,
    pub n: i64,
    pub level: usize, // solver stack height before this entry
}

pub enum Check {
    Eq(String, f64, f64, f64),
    Le(String, f64, f64, f64),
    True(String, bool),
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub decisions: u64,
    pub forced: u64,
    pub ops: u64,
    pub checks: u64,
    pub check_queries: u64,
    pub proved: u64,
    pub pinned_only: u64,
    pub undecided: u64,
    pub subtol: u64,
    pub crosschecked: u64,
    pub concretised: u64,
    pub unknown_dec: u64,
}

pub struct St {
    pub mode: Mode,
    pub terms: Terms,
    pub vals: Vec<SV>,
    pub vmap: HashMap<SV, u32>,
    pub log: Vec<Entry>,
    pub pos: usize,
    pub signs: HashMap<N, u8>,
    pub fcache: HashMap<String, bool>,
    pub solver: Option<Solver>,
    pub dead: bool,
    pub vars: Vec<(String, bool)>, // name, pinned class
    pub aux: Vec<String>,
    pub checks: Vec<Check>,
    pub obs: Vec<(String, f64)>,
    pub stats: Stats,
    pub funcs: BTreeSet<u32>,
    pub op_limit: u64,
    pub path_ops: u64,
    /// values made concrete on this path so far
    pub path_conc: u32,
    pub dec_ms: u64,
    pub bound: i64,
    pub divzero: u64,
    /// Fp mode: number of symbolic operations after which this path goes on with one concrete value (0: never)
    pub fp_cap: u64,
    /// size of the coordinates: tolerances are relative to it
    pub unit: f64,
    pub fp_ops: u64,
    pub fp_memo: HashMap<u64, f64>,
    /// scouting: paths end at the first matrix factorisation or assertion, only their models are wanted
    pub scout: bool,
    /// inputs and choices that have fixed values in this exploration
    pub fixed: HashMap<String, f64>,
}

static mut ST: Option<St> = None;

#[allow(static_mut_refs)]
pub fn st() -> &'static mut St {
    unsafe {
        if ST.is_none() {
            ST = Some(St::new());
        }
        ST.as_mut().unwrap()
    }
}

#[inline]
pub fn boxed(x: f64) -> Option<u32> {
    let b = x.to_bits();
    if b & TAGMASK == TAG {
        Some((b & 0xFFFF_FFFF) as u32)
    } else {
        None
    }
}
pub fn mkbox(i: u32) -> f64 {
    f64::from_bits(TAG | i as u64)
}

fn mask_smt(p: &str, mask: u8) -> String {
    match mask {
        NEG => format!("(< {} 0.0)", p),
        POS => format!("(> {} 0.0)", p),
        ZERO => format!("(= {} 0.0)", p),
        3 => format!("(<= {} 0.0)", p),
        6 => format!("(>= {} 0.0)", p),
        5 => format!("(not (= {} 0.0))", p),
        7 => "true".into(),
        _ => "false".into(),
    }
}
fn mask_rob(p: &str, mask: u8) -> String {
    match mask {
        NEG => format!("(<= {} (- @D@))", p),
        POS => format!("(>= {} @D@)", p),
        ZERO => format!("(= {} 0.0)", p),
        3 => format!("(or (= {} 0.0) (<= {} (- @D@)))", p, p),
        6 => format!("(or (= {} 0.0) (>= {} @D@))", p, p),
        5 => format!("(or (<= {} (- @D@)) (>= {} @D@))", p, p),
        7 => "true".into(),
        _ => "false".into(),
    }
}
fn flip(mask: u8) -> u8 {
    (mask & ZERO) | if mask & NEG != 0 { POS } else { 0 } | if mask & POS != 0 { NEG } else { 0 }
}

impl St {
    pub fn new() -> St {
        St {
            mode: Mode::Native,
            terms: Terms::new(),
            vals: vec![],
            vmap: HashMap::new(),
            log: vec![],
            pos: 0,
            signs: HashMap::new(),
            fcache: HashMap::new(),
            solver: None,
            dead: false,
            vars: vec![],
            aux: vec![],
            checks: vec![],
            obs: vec![],
            stats: Stats::default(),
            funcs: BTreeSet::new(),
            op_limit: 200_000_000,
            path_ops: 0,
            path_conc: 0,
            dec_ms: 3000,
            bound: 0,
            divzero: 0,
            fp_cap: 0,
            unit: 1.0,
            fp_ops: 0,
            fp_memo: HashMap::new(),
            scout: false,
            fixed: HashMap::new(),
        }
    }
    pub fn sol(&mut self) -> &mut Solver {
        if self.solver.is_none() {
            self.solver = Some(Solver::new());
        }
        self.solver.as_mut().unwrap()
    }
    pub fn reset_path(&mut self) {
        self.pos = 0;
        self.signs.clear();
        self.fcache.clear();
        self.dead = false;
        self.vars.clear();
        self.aux.clear();
        self.checks.clear();
        self.obs.clear();
        self.path_ops = 0;
        self.path_conc = 0;
        self.divzero = 0;
        self.fp_cap = 0;
        self.unit = 1.0;
        self.fp_ops = 0;
        self.fp_memo.clear();
    }
    pub fn put(&mut self, v: SV) -> f64 {
        let v = match v {
            SV::R { num, den } if num.is_const() && den.is_empty() => {
                let f = num.c0.to_f64();
                if self.mode == Mode::Hybrid || (f.is_finite() && Rat::from_f64(f) == num.c0) {
                    return f;
                }
                SV::R { num, den }
            }
            v => v,
        };
        if let Some(&i) = self.vmap.get(&v) {
            return mkbox(i);
        }
        let i = self.vals.len() as u32;
        self.vals.push(v.clone());
        self.vmap.insert(v, i);
        mkbox(i)
    }
    pub fn sv(&mut self, x: f64) -> SV {
        match boxed(x) {
            Some(i) => self.vals[i as usize].clone(),
            None => {
                if self.mode == Mode::Fp {
                    let n = self.terms.fintern(FNode::Const(x.to_bits()));
                    SV::F(n)
                } else {
                    SV::R { num: Poly::konst(Rat::from_f64(x)), den: vec![] }
                }
            }
        }
    }
    fn define_poly(&mut self, p: &Poly) -> String {
        let mut d = vec![];
        let s = self.terms.poly_smt(p, &mut d);
        self.sol().define(d);
        s
    }
    // ---- log ----
    fn replaying(&self) -> bool {
        self.pos < self.log.len()
    }
    fn diverged(&self, what: &str) -> ! {
        eprintln!("symrt: non-deterministic execution at log entry {}: {}", self.pos, what);
        std::process::exit(2);
    }
    /// two-way decision; (outcome, forced)
    pub fn decide(&mut self, t: String, f: String, rt: String, rf: String) -> bool {
        if self.dead {
            return false;
        }
        if self.replaying() {
            let e = &self.log[self.pos];
            if e.kind != Kind::Dec || e.t != t {
                let m = format!("expected {} got {}", e.t, t);
                self.diverged(&m);
            }
            let o = e.outcome;
            self.pos += 1;
            return o;
        }
        self.stats.decisions += 1;
        let ms = self.dec_ms;
        let level = self.sol().stack.len();
        let af = self.sol().query(&f, ms);
        let (outcome, forced, alt);
        if af == Ans::Unsat {
            // t is implied unless the path itself is infeasible, which is checked at assumptions
            outcome = true;
            forced = true;
            alt = false;
        } else {
            if af == Ans::Unknown {
                self.stats.unknown_dec += 1;
            }
            self.sol().push(&t);
            let at = self.sol().check(ms);
            if at == Ans::Unsat {
                self.sol().pop_to(level);
                outcome = false;
                forced = af == Ans::Sat;
                alt = false;
                if !forced {
                    self.sol().push(&f);
                }
            } else {
                if at == Ans::Unknown {
                    self.stats.unknown_dec += 1;
                }
                outcome = true;
                forced = false;
                alt = true;
            }
        }
        if forced {
            self.stats.forced += 1;
        }
        self.log.push(Entry { kind: Kind::Dec, t, f, rt, rf, outcome, forced, alt, data: 0, n: 0, level });
        self.pos += 1;
        outcome
    }
    /// add an assertion; marks the path dead when infeasible
    pub fn assume(&mut self, t: String, rt: String, check: bool) {
        if self.dead {
            return;
        }
        if self.replaying() {
            let e = &self.log[self.pos];
            if e.kind != Kind::Assume || e.t != t {
                let m = format!("expected {} got {}", e.t, t);
                self.diverged(&m);
            }
            self.pos += 1;
            return;
        }
        let level = self.sol().stack.len();
        self.sol().push(&t);
        if check {
            let ms = self.dec_ms;
            if self.sol().check(ms) == Ans::Unsat {
                self.dead = true;
            }
        }
        self.log.push(Entry {
            kind: Kind::Assume,
            t,
            f: String::new(),
            rt,
            rf: String::new(),
            outcome: true,
            forced: false,
            alt: false,
            data: 0,
            n: 0,
            level,
        });
        self.pos += 1;
    }
    fn info(&mut self, compute: impl FnOnce(&mut St) -> i64) -> i64 {
        if self.dead {
            return 0;
        }
        if self.replaying() {
            let e = &self.log[self.pos];
            if e.kind != Kind::Info {
                self.diverged("info");
            }
            let d = e.data;
            self.pos += 1;
            return d;
        }
        let d = compute(self);
        let level = self.sol().stack.len();
        self.log.push(Entry {
            kind: Kind::Info,
            t: String::new(),
            f: String::new(),
            rt: String::new(),
            rf: String::new(),
            outcome: true,
            forced: true,
            alt: false,
            data: d,
            n: 0,
            level,
        });
        self.pos += 1;
        d
    }
    pub fn choice(&mut self, n: usize) -> usize {
        if self.dead || n <= 1 {
            return 0;
        }
        if self.replaying() {
            let e = &self.log[self.pos];
            if e.kind != Kind::Choice {
                self.diverged("choice");
            }
            let d = e.data;
            self.pos += 1;
            return d as usize;
        }
        let level = self.sol().stack.len();
        self.log.push(Entry {
            kind: Kind::Choice,
            t: String::new(),
            f: String::new(),
            rt: String::new(),
            rf: String::new(),
            outcome: true,
            forced: true,
            alt: true,
            data: 0,
            n: n as i64,
            level,
        });
        self.pos += 1;
        0
    }
    /// prepare the next path; false when exploration is complete
    pub fn backtrack(&mut self) -> bool {
        while let Some(e) = self.log.last_mut() {
            if e.alt {
                let level = e.level;
                match e.kind {
                    Kind::Choice => {
                        e.data += 1;
                        e.alt = e.data + 1 < e.n;
                        self.sol().pop_to(level);
                    }
                    _ => {
                        e.alt = false;
                        e.outcome = false;
                        let f = e.f.clone();
                        self.sol().pop_to(level);
                        self.sol().push(&f);
                    }
                }
                return true;
            }
            let level = e.level;
            self.log.pop();
            self.sol().pop_to(level);
        }
        false
    }
    pub fn clear_log(&mut self) {
        self.log.clear();
        if self.solver.is_some() {
            self.sol().pop_to(0);
        }
    }
    // ---- signs ----
    fn resolve_sign(&mut self, n: N) -> u8 {
        let cur = *self.signs.get(&n).unwrap_or(&7);
        if cur == NEG || cur == POS || cur == ZERO {
            return cur;
        }
        let mut d = vec![];
        self.terms.define(n, &mut d);
        self.sol().define(d);
        let p = Poly { c0: Rat::zero(), t: vec![(n, Rat::one())] };
        let s = self.define_poly(&p);
        let r = self.info(|st| {
            let ms = st.dec_ms;
            let mut m = cur;
            for b in [NEG, POS, ZERO] {
                if m & b != 0 && st.sol().query(&mask_smt(&s, b), ms) == Ans::Unsat {
                    m &= !b;
                }
            }
            m as i64
        }) as u8;
        let r = if self.dead { cur } else { r };
        self.signs.insert(n, r);
        r
    }
    /// polynomial with the same sign as the value (up to the returned flip), and its factorisation
    fn sign_poly(&mut self, v: &SV, mask: u8) -> (Poly, u8) {
        let (num, den) = match v {
            SV::R { num, den } => (num.clone(), den.clone()),
            _ => unreachable!(),
        };
        let mut p = num;
        let mut mask = mask;
        if mask != ZERO && mask != (NEG | POS) {
            for (n, e) in den {
                if e % 2 == 0 {
                    continue;
                }
                match self.resolve_sign(n) {
                    POS => {}
                    NEG => mask = flip(mask),
                    _ => {
                        let q = self.terms.from_factors(Rat::one(), vec![(n, 1)]);
                        p = self.terms.mulp(&p, &q);
                    }
                }
            }
        }
        (p, mask)
    }
    pub fn sign_in(&mut self, v: &SV, mask: u8) -> bool {
        let (p, mask) = self.sign_poly(v, mask);
        self.poly_sign_in(&p, mask)
    }
    fn poly_sign_in(&mut self, p: &Poly, mask: u8) -> bool {
        if p.is_const() {
            let b = match p.c0.sign() {
                -1 => NEG,
                0 => ZERO,
                _ => POS,
            };
            return b & mask != 0;
        }
        let (c, f) = self.terms.factor(p);
        let mut mask = if c.sign() < 0 { flip(mask) } else { mask };
        // all factor signs known?
        let mut known = true;
        let mut sgn = 1i32;
        let mut rest: Vec<(N, u32)> = vec![];
        for (n, e) in &f {
            match *self.signs.get(n).unwrap_or(&7) {
                ZERO => return mask & ZERO != 0,
                POS => {}
                NEG => {
                    if e % 2 == 1 {
                        sgn = -sgn
                    }
                }
                _ => {
                    known = false;
                    rest.push((*n, *e));
                }
            }
        }
        if sgn < 0 {
            mask = flip(mask);
        }
        if known {
            return mask & POS != 0;
        }
        let p = self.terms.from_factors(Rat::one(), rest.clone());
        let single = if rest.len() == 1 && rest[0].1 % 2 == 1 { Some(rest[0].0) } else { None };
        if let Some(n) = single {
            let cur = *self.signs.get(&n).unwrap_or(&7);
            if cur & mask == 0 {
                return false;
            }
            if cur & !mask & 7 == 0 {
                return true;
            }
            let s = {
                let mut d = vec![];
                let q = self.terms.from_factors(Rat::one(), vec![(n, 1)]);
                let s = self.terms.poly_smt(&q, &mut d);
                self.sol().define(d);
                s
            };
            let t = mask & cur;
            let e = cur & !mask & 7;
            let o = self.decide(mask_smt(&s, t), mask_smt(&s, e), mask_rob(&s, t), mask_rob(&s, e));
            let nm = if o { t } else { e };
            self.signs.insert(n, nm);
            return o;
        }
        let s = self.define_poly(&p);
        let e = !mask & 7;
        self.decide(mask_smt(&s, mask), mask_smt(&s, e), mask_rob(&s, mask), mask_rob(&s, e))
    }
    /// formula "value has sign in mask" without forking (den signs are resolved or multiplied in)
    pub fn sign_formula(&mut self, v: &SV, mask: u8) -> (String, String) {
        let (p, m) = self.sign_poly(v, mask);
        let s = self.define_poly(&p);
        (mask_smt(&s, m), mask_rob(&s, m))
    }
    pub fn parts(&mut self, v: &SV) -> (String, String) {
        if let SV::R { num, den } = v {
            let d = self.terms.from_factors(Rat::one(), den.clone());
            (self.define_poly(num), self.define_poly(&d))
        } else {
            unreachable!()
        }
    }
    pub fn sub(&mut self, a: f64, b: f64) -> SV {
        let x = self.sv(a);
        let y = self.sv(b);
        match (&x, &y) {
            (SV::R { num: n1, den: d1 }, SV::R { num: n2, den: d2 }) => {
                let m = self.terms.neg((n2, d2));
                if let SV::R { num: n3, den: d3 } = &m {
                    self.terms.add((n1, d1), (n3, d3))
                } else {
                    unreachable!()
                }
            }
            _ => unreachable!(),
        }
    }
    // ---- FP ----
    fn fnode(&mut self, x: f64) -> u32 {
        match self.sv(x) {
            SV::F(n) => n,
            _ => unreachable!(),
        }
    }
    fn fop(&mut self, op: &'static str, a: &[f64]) -> f64 {
        self.fp_ops += 1;
        if self.fp_cap > 0 && self.fp_ops > self.fp_cap {
            let v: Vec<f64> = a.iter().map(|x| self.fp_pin(*x)).collect();
            return match op {
                "fp.add RNE" => v[0] + v[1],
                "fp.sub RNE" => v[0] - v[1],
                "fp.mul RNE" => v[0] * v[1],
                "fp.div RNE" => v[0] / v[1],
                "fp.neg" => -v[0],
                "fp.sqrt RNE" => v[0].sqrt(),
                "fp.abs" => v[0].abs(),
                "fp.fma RNE" => v[0].mul_add(v[1], v[2]),
                "fp.roundToIntegral RTN" => v[0].floor(),
                "fp.roundToIntegral RTP" => v[0].ceil(),
                "fp.roundToIntegral RTZ" => v[0].trunc(),
                "fp.roundToIntegral RNA" => v[0].round(),
                _ => v[0].round_ties_even(),
            };
        }
        let v: Vec<u32> = a.iter().map(|x| self.fnode(*x)).collect();
        let n = self.terms.fintern(FNode::Op(op, v));
        self.put(SV::F(n))
    }
    fn fp_pin(&mut self, x: f64) -> f64 {
        if boxed(x).is_none() {
            return x;
        }
        if let Some(v) = self.fp_memo.get(&x.to_bits()) {
            return *v;
        }
        let v = self.concretise(x);
        self.fp_memo.insert(x.to_bits(), v);
        v
    }
    pub fn fname(&mut self, x: f64) -> String {
        let n = self.fnode(x);
        let mut d = vec![];
        self.terms.fdefine(n, &mut d);
        self.sol().define(d);
        self.terms.fname(n)
    }
    pub fn fdecide(&mut self, t: String) -> bool {
        if let Some(b) = self.fcache.get(&t) {
            return *b;
        }
        let f = format!("(not {})", t);
        let o = self.decide(t.clone(), f.clone(), t.clone(), f);
        self.fcache.insert(t, o);
        o
    }
    // ---- concretisation ----
    fn model_value(&mut self, x: f64) -> f64 {
        let ms = self.dec_ms;
        if self.sol().check(ms) != Ans::Sat {
            return f64::NAN;
        }
        self.current_value(x)
    }
    fn current_value(&mut self, x: f64) -> f64 {
        let mut names: Vec<String> = self.vars.iter().map(|v| v.0.clone()).collect();
        names.extend(self.aux.iter().cloned());
        let vals = self.sol().values(&names);
        if self.mode == Mode::Fp {
            let n = self.fname(x);
            let m = self.sol().values(&[n.clone()]);
            return fp_value(&m[&n]).unwrap_or(f64::NAN);
        }
        let v = self.sv(x);
        let get = |n: &str| vals.get(n).and_then(|s| real_value(s)).unwrap_or(0.0);
        let mut memo = HashMap::new();
        self.terms.eval_sv(&v, &get, &mut memo)
    }
    /// pin a symbolic value to one model value (loses completeness; recorded)
    pub fn concretise(&mut self, x: f64) -> f64 {
        self.stats.concretised += 1;
        self.path_conc += 1;
        // a few different values for the first ones, where they are possible
        if self.mode != Mode::Fp && self.path_conc <= 3 {
            for t in [0.3125, 0.703125, 0.09375, 0.9453125] {
                let d = self.sub(x, t);
                if self.sign_in(&d, ZERO) {
                    return t;
                }
                if self.dead {
                    return 0.0;
                }
            }
        }
        let bits = self.info(|st| st.model_value(x).to_bits() as i64) as u64;
        let v = f64::from_bits(bits);
        if self.dead {
            return 0.0;
        }
        if self.mode == Mode::Fp {
            if v.is_nan() && self.fp_cap > 0 {
                // no value found: give the path up
                self.dead = true;
                return 0.0;
            }
            let a = self.fname(x);
            let b = self.fname(v);
            let t = format!("(= {} {})", a, b);
            self.assume(t.clone(), t, false);
        } else if v.is_finite() {
            let d = self.sub(x, v);
            let (t, r) = self.sign_formula(&d, ZERO);
            self.assume(t, r, true);
        }
        v
    }
    /// integer part (towards minus infinity) of a symbolic real, by forking over the possible values
    pub fn floor_int(&mut self, x: f64) -> i64 {
        for _ in 0..64 {
            let k = self.info(|st| {
                let v = st.model_value(x);
                v.floor() as i64
            });
            if self.dead {
                return 0;
            }
            let d = self.sub(x, k as f64);
            let e = self.sub(x, (k + 1) as f64);
            if self.sign_in(&d, ZERO | POS) && self.sign_in(&e, NEG) {
                return k;
            }
        }
        self.dead = true;
        0
    }
}

#[cold]
fn limit() -> ! {
    crate::api::on_hang();
}

#[inline]
fn tick(s: &mut St) {
    s.path_ops += 1;
    s.stats.ops += 1;
    if s.path_ops > s.op_limit {
        limit();
    }
}

fn real_op(s: &mut St, op: u8, a: f64, b: f64) -> f64 {
    // non-finite concrete operands
    let ca = boxed(a).is_none();
    let cb = boxed(b).is_none();
    if ca && !a.is_finite() || cb && !b.is_finite() {
        return nonfinite(s, op, a, b);
    }
    // cheap identities
    match op {
        0 | 1 if cb && b == 0.0 => return a,
        0 if ca && a == 0.0 => return b,
        2 | 3 if cb && b == 1.0 => return a,
        2 if ca && a == 1.0 => return b,
        _ => {}
    }
    let x = s.sv(a);
    let y = s.sv(b);
    let (n1, d1, n2, d2) = match (&x, &y) {
        (SV::R { num: n1, den: d1 }, SV::R { num: n2, den: d2 }) => (n1, d1, n2, d2),
        _ => unreachable!(),
    };
    let r = match op {
        0 => s.terms.add((n1, d1), (n2, d2)),
        1 => {
            let m = s.terms.neg((n2, d2));
            match &m {
                SV::R { num, den } => s.terms.add((n1, d1), (num, den)),
                _ => unreachable!(),
            }
        }
        2 => s.terms.mul((n1, d1), (n2, d2)),
        _ => {
            if s.sign_in(&y, ZERO) {
                // division by an exact zero
                s.divzero += 1;
                if s.sign_in(&x, ZERO) {
                    return f64::NAN;
                }
                return if s.sign_in(&x, POS) { f64::INFINITY } else { f64::NEG_INFINITY };
            }
            s.terms.div((n1, d1), (n2, d2))
        }
    };
    s.put(r)
}
fn sgn(s: &mut St, x: f64) -> f64 {
    if boxed(x).is_none() {
        return x;
    }
    let v = s.sv(x);
    if s.sign_in(&v, ZERO) {
        0.0
    } else if s.sign_in(&v, POS) {
        1.0
    } else {
        -1.0
    }
}
fn nonfinite(s: &mut St, op: u8, a: f64, b: f64) -> f64 {
    // a symbolic operand is finite: only its sign matters for * and /
    let (x, y) = match op {
        0 | 1 => (
            if boxed(a).is_some() { 0.0 } else { a },
            if boxed(b).is_some() { 0.0 } else { b },
        ),
        _ => (
            if a.is_nan() && boxed(a).is_none() || b.is_nan() && boxed(b).is_none() {
                return f64::NAN;
            } else {
                sgn(s, a)
            },
            sgn(s, b),
        ),
    };
    match op {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        _ => x / y,
    }
}

fn concrete(s: &mut St, op: u8, a: f64, b: f64) -> f64 {
    let r = match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        _ => a / b,
    };
    if s.mode != Mode::Real || !r.is_finite() {
        return r;
    }
    let exact = match op {
        0 => two_sum_exact(a, b, r),
        1 => two_sum_exact(a, -b, r),
        2 => a.mul_add(b, -r) == 0.0 && (r != 0.0 || a == 0.0 || b == 0.0),
        _ => r.mul_add(b, -a) == 0.0 && (r != 0.0 || a == 0.0),
    };
    if exact {
        return r;
    }
    let (x, y) = (Rat::from_f64(a), Rat::from_f64(b));
    let q = match op {
        0 => x.add(&y),
        1 => x.sub(&y),
        2 => x.mul(&y),
        _ => x.div(&y),
    };
    s.put(SV::R { num: Poly::konst(q), den: vec![] })
}
fn two_sum_exact(a: f64, b: f64, s: f64) -> bool {
    let bb = s - a;
    let e = (a - (s - bb)) + (b - bb);
    e == 0.0
}

fn bin(op: u8, a: f64, b: f64) -> f64 {
    let s = st();
    tick(s);
    if s.mode == Mode::Native {
        return match op {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            _ => a / b,
        };
    }
    if boxed(a).is_none() && boxed(b).is_none() {
        return concrete(s, op, a, b);
    }
    if s.mode == Mode::Fp {
        let o = ["fp.add RNE", "fp.sub RNE", "fp.mul RNE", "fp.div RNE"][op as usize];
        return s.fop(o, &[a, b]);
    }
    real_op(s, op, a, b)
}

#[no_mangle]
pub extern "C" fn sx_fadd(a: f64, b: f64) -> f64 {
    bin(0, a, b)
}
#[no_mangle]
pub extern "C" fn sx_fsub(a: f64, b: f64) -> f64 {
    bin(1, a, b)
}
#[no_mangle]
pub extern "C" fn sx_fmul(a: f64, b: f64) -> f64 {
    bin(2, a, b)
}
#[no_mangle]
pub extern "C" fn sx_fdiv(a: f64, b: f64) -> f64 {
    bin(3, a, b)
}
#[no_mangle]
pub extern "C" fn sx_frem(a: f64, b: f64) -> f64 {
    let a = sx_guard(a);
    let b = sx_guard(b);
    a % b
}
#[no_mangle]
pub extern "C" fn sx_fneg(a: f64) -> f64 {
    if boxed(a).is_none() {
        return -a;
    }
    let s = st();
    if s.mode == Mode::Fp {
        return s.fop("fp.neg", &[a]);
    }
    bin(2, a, -1.0)
}
fn cmp_native(pred: i32, a: f64, b: f64) -> bool {
    let un = a.is_nan() || b.is_nan();
    match pred {
        0 => false,
        1 => a == b,
        2 => a > b,
        3 => a >= b,
        4 => a < b,
        5 => a <= b,
        6 => !un && a != b,
        7 => !un,
        8 => un || a == b,
        9 => un || a > b,
        10 => un || a >= b,
        11 => un || a < b,
        12 => un || a <= b,
        13 => a != b,
        14 => un,
        _ => true,
    }
}
#[no_mangle]
pub extern "C" fn sx_fcmp(pred: i32, a: f64, b: f64) -> bool {
    let s = st();
    tick(s);
    let ca = boxed(a).is_none();
    let cb = boxed(b).is_none();
    if (ca && cb) || s.mode == Mode::Native {
        return cmp_native(pred, a, b);
    }
    if pred == 0 {
        return false;
    }
    if pred == 15 {
        return true;
    }
    if s.mode == Mode::Fp {
        if s.fp_cap > 0 && s.fp_ops > s.fp_cap {
            let (x, y) = (s.fp_pin(a), s.fp_pin(b));
            return cmp_native(pred, x, y);
        }
        let (x, y) = (s.fname(a), s.fname(b));
        let nan = format!("(or (fp.isNaN {}) (fp.isNaN {}))", x, y);
        let base = |p: i32| match p {
            1 => format!("(fp.eq {} {})", x, y),
            2 => format!("(fp.gt {} {})", x, y),
            3 => format!("(fp.geq {} {})", x, y),
            4 => format!("(fp.lt {} {})", x, y),
            _ => format!("(fp.leq {} {})", x, y),
        };
        let t = match pred {
            1..=5 => base(pred),
            6 => format!("(and (not {}) (not {}))", nan, base(1)),
            7 => format!("(not {})", nan),
            8..=12 => format!("(or {} {})", nan, base(pred - 7)),
            13 => format!("(not {})", base(1)),
            _ => nan,
        };
        return s.fdecide(t);
    }
    // real: a symbolic value is an ordinary finite number
    if ca && !a.is_finite() {
        return cmp_native(pred, a, 0.0);
    }
    if cb && !b.is_finite() {
        return cmp_native(pred, 0.0, b);
    }
    let mask = match pred {
        1 | 8 => ZERO,
        2 | 9 => POS,
        3 | 10 => POS | ZERO,
        4 | 11 => NEG,
        5 | 12 => NEG | ZERO,
        6 | 13 => NEG | POS,
        7 => return true,
        _ => return false,
    };
    let d = s.sub(a, b);
    s.sign_in(&d, mask)
}
/// r with r*r = v when v is visibly a square
fn perfect_root(s: &mut St, v: &SV) -> Option<f64> {
    let (num, den) = match v {
        SV::R { num, den } => (num.clone(), den.clone()),
        _ => return None,
    };
    let (c, f) = s.terms.factor(&num);
    if f.iter().chain(den.iter()).any(|(_, e)| e % 2 == 1) || c.sign() <= 0 {
        return None;
    }
    let root = |b: &Big| -> Option<i64> {
        let x: u64 = b.abs_str().parse().ok()?;
        let r = (x as f64).sqrt().round() as u64;
        if r < 1 << 31 && r * r == x {
            Some(r as i64)
        } else {
            None
        }
    };
    let c = Rat::frac(root(&c.n)?, root(&c.d)?);
    let half = |f: Vec<(N, u32)>| f.into_iter().map(|(n, e)| (n, e / 2)).collect::<Vec<_>>();
    let p = s.terms.from_factors(c, half(f));
    Some(s.put(SV::R { num: p, den: half(den) }))
}
#[no_mangle]
pub extern "C" fn sx_sqrt(a: f64) -> f64 {
    let s = st();
    tick(s);
    if boxed(a).is_none() {
        let r = a.sqrt();
        if s.mode != Mode::Real || !r.is_finite() || r.mul_add(r, -a) == 0.0 {
            return r;
        }
    }
    if s.mode == Mode::Fp {
        return s.fop("fp.sqrt RNE", &[a]);
    }
    let v = s.sv(a);
    if s.mode == Mode::Hybrid {
        let c = s.concretise(a);
        return c.sqrt();
    }
    if let Some(r) = perfect_root(s, &v) {
        let x = s.sv(r);
        return if s.sign_in(&x, NEG) { bin(2, r, -1.0) } else { r };
    }
    if s.sign_in(&v, NEG) {
        return f64::NAN;
    }
    if s.sign_in(&v, ZERO) {
        return 0.0;
    }
    // auxiliary variable r > 0 with r*r = a
    let idx = match &v {
        SV::R { .. } => {
            let f = s.put(v.clone());
            boxed(f).unwrap()
        }
        _ => unreachable!(),
    };
    let name = format!("sq{}", idx);
    let p = s.terms.var(&name);
    let n = p.t[0].0;
    if !s.aux.contains(&name) {
        s.aux.push(name.clone());
        s.signs.insert(n, POS);
        let rr = s.terms.mulp(&p, &p);
        let d = {
            let x = s.put(SV::R { num: rr, den: vec![] });
            s.sub(x, a)
        };
        let mut defs = vec![];
        s.terms.define(n, &mut defs);
        s.sol().define(defs);
        let (t, r) = s.sign_formula(&d, ZERO);
        s.assume(format!("(> {} 0.0)", name), format!("(> {} 0.0)", name), false);
        s.assume(t, r, false);
    }
    s.put(SV::R { num: p, den: vec![] })
}
#[no_mangle]
pub extern "C" fn sx_fabs(a: f64) -> f64 {
    let s = st();
    if boxed(a).is_none() {
        return a.abs();
    }
    if s.mode == Mode::Fp {
        return s.fop("fp.abs", &[a]);
    }
    let v = s.sv(a);
    if s.sign_in(&v, NEG) {
        sx_fneg(a)
    } else {
        a
    }
}
#[no_mangle]
pub extern "C" fn sx_copysign(a: f64, b: f64) -> f64 {
    if boxed(a).is_none() && boxed(b).is_none() {
        return a.copysign(b);
    }
    let s = st();
    let neg = if boxed(b).is_none() {
        b.is_sign_negative()
    } else if s.mode == Mode::Fp {
        let x = s.fname(b);
        s.fdecide(format!("(fp.isNegative {})", x))
    } else {
        let v = s.sv(b);
        s.sign_in(&v, NEG)
    };
    let m = sx_fabs(a);
    if neg {
        sx_fneg(m)
    } else {
        m
    }
}
#[no_mangle]
pub extern "C" fn sx_fma(a: f64, b: f64, c: f64) -> f64 {
    let s = st();
    if boxed(a).is_none() && boxed(b).is_none() && boxed(c).is_none() && s.mode != Mode::Real {
        return a.mul_add(b, c);
    }
    if s.mode == Mode::Fp {
        return s.fop("fp.fma RNE", &[a, b, c]);
    }
    bin(0, bin(2, a, b), c)
}
#[no_mangle]
pub extern "C" fn sx_min(a: f64, b: f64) -> f64 {
    if boxed(a).is_none() && a.is_nan() {
        return b;
    }
    if boxed(b).is_none() && b.is_nan() {
        return a;
    }
    if st().mode == Mode::Fp && sx_fcmp(14, a, b) {
        return if sx_fcmp(14, a, a) { b } else { a };
    }
    if sx_fcmp(4, b, a) {
        b
    } else {
        a
    }
}
#[no_mangle]
pub extern "C" fn sx_max(a: f64, b: f64) -> f64 {
    if boxed(a).is_none() && a.is_nan() {
        return b;
    }
    if boxed(b).is_none() && b.is_nan() {
        return a;
    }
    if st().mode == Mode::Fp && sx_fcmp(14, a, b) {
        return if sx_fcmp(14, a, a) { b } else { a };
    }
    if sx_fcmp(4, a, b) {
        b
    } else {
        a
    }
}
#[no_mangle]
pub extern "C" fn sx_floor(a: f64) -> f64 {
    if boxed(a).is_none() {
        return a.floor();
    }
    let s = st();
    if s.mode == Mode::Fp {
        return s.fop("fp.roundToIntegral RTN", &[a]);
    }
    s.floor_int(a) as f64
}
#[no_mangle]
pub extern "C" fn sx_ceil(a: f64) -> f64 {
    if boxed(a).is_none() {
        return a.ceil();
    }
    let s = st();
    if s.mode == Mode::Fp {
        return s.fop("fp.roundToIntegral RTP", &[a]);
    }
    let k = s.floor_int(a);
    let d = s.sub(a, k as f64);
    if s.sign_in(&d, ZERO) {
        k as f64
    } else {
        (k + 1) as f64
    }
}
#[no_mangle]
pub extern "C" fn sx_trunc(a: f64) -> f64 {
    if boxed(a).is_none() {
        return a.trunc();
    }
    let s = st();
    if s.mode == Mode::Fp {
        return s.fop("fp.roundToIntegral RTZ", &[a]);
    }
    let v = s.sv(a);
    if s.sign_in(&v, NEG) {
        sx_ceil(a)
    } else {
        sx_floor(a)
    }
}
#[no_mangle]
pub extern "C" fn sx_round(a: f64) -> f64 {
    if boxed(a).is_none() {
        return a.round();
    }
    let s = st();
    if s.mode == Mode::Fp {
        return s.fop("fp.roundToIntegral RNA", &[a]);
    }
    let v = s.sv(a);
    if s.sign_in(&v, NEG) {
        sx_ceil(bin(1, a, 0.5))
    } else {
        sx_floor(bin(0, a, 0.5))
    }
}
#[no_mangle]
pub extern "C" fn sx_rint(a: f64) -> f64 {
    if boxed(a).is_none() {
        return a.round_ties_even();
    }
    let s = st();
    if s.mode == Mode::Fp {
        return s.fop("fp.roundToIntegral RNE", &[a]);
    }
    let k = s.floor_int(a);
    let d = s.sub(a, k as f64 + 0.5);
    if s.sign_in(&d, NEG) {
        k as f64
    } else if s.sign_in(&d, ZERO) {
        if k % 2 == 0 {
            k as f64
        } else {
            (k + 1) as f64
        }
    } else {
        (k + 1) as f64
    }
}
#[no_mangle]
pub extern "C" fn sx_pow(a: f64, b: f64) -> f64 {
    if boxed(a).is_none() && boxed(b).is_none() {
        return a.powf(b);
    }
    let b = sx_guard(b);
    if b == b.trunc() && b.abs() < 64.0 {
        return sx_powi(a, b as i32);
    }
    if b == 0.5 {
        return sx_sqrt(a);
    }
    sx_guard(a).powf(b)
}
#[no_mangle]
pub extern "C" fn sx_powi(a: f64, n: i32) -> f64 {
    if boxed(a).is_none() && st().mode != Mode::Real {
        return a.powi(n);
    }
    let mut r = 1.0;
    for _ in 0..n.unsigned_abs() {
        r = bin(2, r, a);
    }
    if n < 0 {
        bin(3, 1.0, r)
    } else {
        r
    }
}
#[no_mangle]
pub extern "C" fn sx_fpclass(a: f64, mask: i32) -> bool {
    let s = st();
    let cls = |x: f64| -> i32 {
        if x.is_nan() {
            return 0x3;
        }
        let neg = x.is_sign_negative();
        if x.is_infinite() {
            if neg {
                0x4
            } else {
                0x200
            }
        } else if x == 0.0 {
            if neg {
                0x20
            } else {
                0x40
            }
        } else if x.is_subnormal() {
            if neg {
                0x10
            } else {
                0x80
            }
        } else if neg {
            0x8
        } else {
            0x100
        }
    };
    if boxed(a).is_none() {
        return cls(a) & mask != 0;
    }
    if s.mode == Mode::Fp {
        let x = s.fname(a);
        let mut alts = vec![];
        if mask & 3 != 0 {
            alts.push(format!("(fp.isNaN {})", x));
        }
        for (bit, p, neg) in [
            (0x4, "fp.isInfinite", true),
            (0x8, "fp.isNormal", true),
            (0x10, "fp.isSubnormal", true),
            (0x20, "fp.isZero", true),
            (0x40, "fp.isZero", false),
            (0x80, "fp.isSubnormal", false),
            (0x100, "fp.isNormal", false),
            (0x200, "fp.isInfinite", false),
        ] {
            if mask & bit != 0 {
                alts.push(format!("(and ({} {}) ({} {}))", p, x, if neg { "fp.isNegative" } else { "fp.isPositive" }, x));
            }
        }
        if alts.is_empty() {
            return false;
        }
        return s.fdecide(format!("(or {} false)", alts.join(" ")));
    }
    let fin = mask & 0x1f8;
    if fin == 0 {
        return false;
    }
    if fin == 0x1f8 {
        return true;
    }
    let v = s.sv(a);
    let c = if s.sign_in(&v, NEG) {
        0x8
    } else if s.sign_in(&v, ZERO) {
        0x40
    } else {
        0x100
    };
    c & mask != 0
}
#[no_mangle]
pub extern "C" fn sx_bits(a: f64) -> i64 {
    sx_guard(a).to_bits() as i64
}
/// bit pattern of a double about to be taken apart: a symbolic one becomes concrete
#[no_mangle]
pub extern "C" fn sx_ibits(a: i64) -> i64 {
    sx_bits(f64::from_bits(a as u64))
}
/// key of f64::total_cmp; a symbolic double is its own key (see sx_keycmp)
#[no_mangle]
pub extern "C" fn sx_key3(a: i64, _unused: i64) -> i64 {
    if boxed(f64::from_bits(a as u64)).is_some() {
        return a;
    }
    a ^ (((a >> 63) as u64) >> 1) as i64
}
/// comparison of two keys of f64::total_cmp: eq ne slt sle sgt sge
#[no_mangle]
pub extern "C" fn sx_keycmp(pred: i32, a: i64, b: i64) -> bool {
    let tagged = |k: i64| boxed(f64::from_bits(k as u64)).is_some();
    if !tagged(a) && !tagged(b) {
        return match pred {
            0 => a == b,
            1 => a != b,
            2 => a < b,
            3 => a <= b,
            4 => a > b,
            _ => a >= b,
        };
    }
    let val = |k: i64| if tagged(k) { f64::from_bits(k as u64) } else { f64::from_bits(sx_key3(k, 0) as u64) };
    let (x, y) = (val(a), val(b));
    // NaNs (of positive sign) come last; zeros of either sign count as equal
    let (nx, ny) = (sx_fcmp(14, x, x), sx_fcmp(14, y, y));
    if nx || ny {
        let (i, j) = (nx as i64, ny as i64);
        return match pred {
            0 => i == j,
            1 => i != j,
            2 => i < j,
            3 => i <= j,
            4 => i > j,
            _ => i >= j,
        };
    }
    sx_fcmp([1, 13, 4, 5, 2, 3][pred as usize], x, y)
}
/// sign bit
#[no_mangle]
pub extern "C" fn sx_signbit(a: i64) -> bool {
    let x = f64::from_bits(a as u64);
    if boxed(x).is_none() {
        return a < 0;
    }
    let s = st();
    if s.mode == Mode::Fp {
        if s.fp_cap > 0 && s.fp_ops > s.fp_cap {
            return s.fp_pin(x).is_sign_negative();
        }
        let n = s.fname(x);
        return s.fdecide(format!("(fp.isNegative {})", n));
    }
    let v = s.sv(x);
    s.sign_in(&v, NEG)
}
/// equality of two bit patterns
#[no_mangle]
pub extern "C" fn sx_biteq(pred: i32, a: i64, b: i64) -> bool {
    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
    let eq = if a == b {
        true
    } else if boxed(x).is_none() && boxed(y).is_none() {
        false
    } else {
        sx_fcmp(1, x, y)
    };
    eq == (pred == 0)
}
#[no_mangle]
pub extern "C" fn sx_toint(a: f64, w: i32) -> i64 {
    let s = st();
    let x = if boxed(a).is_some() {
        if s.mode == Mode::Fp {
            s.concretise(a)
        } else {
            let t = sx_trunc(a);
            sx_guard(t)
        }
    } else {
        a
    };
    match w {
        64 => x as i64,
        -64 => x as u64 as i64,
        32 => x as i32 as i64,
        -32 => x as u32 as i64,
        16 => x as i16 as i64,
        -16 => x as u16 as i64,
        8 => x as i8 as i64,
        -8 => x as u8 as i64,
        _ => x as i64,
    }
}
#[no_mangle]
pub extern "C" fn sx_guard(a: f64) -> f64 {
    if boxed(a).is_none() {
        return a;
    }
    st().concretise(a)
}
/// entry of a matrix factorisation (or of a large matrix product)
#[no_mangle]
pub extern "C-unwind" fn sx_factor() {
    if st().scout {
        crate::api::end_scouting();
    }
}
#[no_mangle]
pub extern "C" fn sx_enter(id: i32) {
    st().funcs.insert(id as u32);
}

/// mutable statics of the crate under test: (address, size, initial bytes)
static mut STATICS: Vec<(usize, usize, Vec<u8>)> = Vec::new();
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn sx_static(p: *mut u8, n: u64) {
    unsafe {
        let bytes = std::slice::from_raw_parts(p, n as usize).to_vec();
        STATICS.push((p as usize, n as usize, bytes));
    }
}
/// put every mutable static of the crate back to its initial bytes (what it owned is leaked)
#[allow(static_mut_refs)]
pub fn fresh_statics() {
    unsafe {
        for (p, n, b) in STATICS.iter() {
            std::ptr::copy_nonoverlapping(b.as_ptr(), *p as *mut u8, *n);
        }
    }
}

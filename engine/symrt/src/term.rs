//! Symbolic values.  Real mode: quotients of polynomials kept as a hash-consed, factored DAG with exact
//! rational coefficients.  FP mode: bit-exact IEEE-754 double terms.
use crate::big::Rat;
use std::collections::HashMap;

pub type N = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub c0: Rat,
    pub t: Vec<(N, Rat)>, // sorted by node id, coefficients non-zero
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(String),
    Lin(Poly),             // normalised (leading coefficient 1), never a single bare term
    Prod(Vec<(N, u32)>),   // sorted; factors are Var or Lin
}

pub type Den = Vec<(N, u32)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SV {
    R { num: Poly, den: Den },
    F(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FNode {
    Var(String),
    Const(u64),
    Op(&'static str, Vec<u32>),
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub map: HashMap<Node, N>,
    pub defined: Vec<bool>,
    pub fnodes: Vec<FNode>,
    pub fmap: HashMap<FNode, u32>,
    pub fdefined: Vec<bool>,
    pub round: bool, // hybrid mode: coefficients are rounded to doubles
}

impl Poly {
    pub fn konst(c: Rat) -> Poly {
        Poly { c0: c, t: vec![] }
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty() && self.c0.is_zero()
    }
}

fn merge_factors(a: &[(N, u32)], b: &[(N, u32)], f: impl Fn(u32, u32) -> u32) -> Vec<(N, u32)> {
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            let e = f(a[i].1, 0);
            if e > 0 {
                out.push((a[i].0, e));
            }
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            let e = f(0, b[j].1);
            if e > 0 {
                out.push((b[j].0, e));
            }
            j += 1;
        } else {
            let e = f(a[i].1, b[j].1);
            if e > 0 {
                out.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    out
}

impl Terms {
    pub fn new() -> Self {
        Terms {
            nodes: vec![],
            map: HashMap::new(),
            defined: vec![],
            fnodes: vec![],
            fmap: HashMap::new(),
            fdefined: vec![],
            round: false,
        }
    }
    fn rnd(&self, r: Rat) -> Rat {
        if self.round {
            Rat::from_f64(r.to_f64())
        } else {
            r
        }
    }
    pub fn intern(&mut self, n: Node) -> N {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as N;
        self.nodes.push(n.clone());
        self.defined.push(false);
        self.map.insert(n, i);
        i
    }
    pub fn fintern(&mut self, n: FNode) -> u32 {
        if let Some(&i) = self.fmap.get(&n) {
            return i;
        }
        let i = self.fnodes.len() as u32;
        self.fnodes.push(n.clone());
        self.fdefined.push(false);
        self.fmap.insert(n, i);
        i
    }
    pub fn var(&mut self, name: &str) -> Poly {
        let n = self.intern(Node::Var(name.to_string()));
        Poly { c0: Rat::zero(), t: vec![(n, Rat::one())] }
    }
    pub fn scale(&self, p: &Poly, c: &Rat) -> Poly {
        if c.is_zero() {
            return Poly::konst(Rat::zero());
        }
        if c.is_one() {
            return p.clone();
        }
        Poly {
            c0: self.rnd(p.c0.mul(c)),
            t: p.t.iter().map(|(n, k)| (*n, self.rnd(k.mul(c)))).filter(|x| !x.1.is_zero()).collect(),
        }
    }
    pub fn addp(&self, a: &Poly, b: &Poly) -> Poly {
        let mut t = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                t.push(a.t[i].clone());
                i += 1;
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                t.push(b.t[j].clone());
                j += 1;
            } else {
                let c = self.rnd(a.t[i].1.add(&b.t[j].1));
                if !c.is_zero() {
                    t.push((a.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Poly { c0: self.rnd(a.c0.add(&b.c0)), t }
    }
    fn node_factors(&self, n: N) -> Vec<(N, u32)> {
        match &self.nodes[n as usize] {
            Node::Prod(f) => f.clone(),
            _ => vec![(n, 1)],
        }
    }
    /// p = coefficient * product of factors
    pub fn factor(&mut self, p: &Poly) -> (Rat, Vec<(N, u32)>) {
        if p.t.is_empty() {
            return (p.c0.clone(), vec![]);
        }
        if p.c0.is_zero() && p.t.len() == 1 {
            return (p.t[0].1.clone(), self.node_factors(p.t[0].0));
        }
        let mut common: Vec<(N, u32)> = vec![];
        if p.c0.is_zero() && !self.round {
            common = self.node_factors(p.t[0].0);
            for (n, _) in &p.t[1..] {
                if common.is_empty() {
                    break;
                }
                let f = self.node_factors(*n);
                common = merge_factors(&common, &f, |x, y| x.min(y));
            }
        }
        let rest = if common.is_empty() {
            p.clone()
        } else {
            let mut q = Poly::konst(Rat::zero());
            for (n, c) in &p.t {
                let f = self.node_factors(*n);
                let r = merge_factors(&f, &common, |x, y| x - y);
                let m = self.from_factors(c.clone(), r);
                q = self.addp(&q, &m);
            }
            q
        };
        if rest.is_const() {
            return (rest.c0, common);
        }
        if !common.is_empty() {
            let (c, f) = self.factor(&rest);
            return (c, merge_factors(&f, &common, |x, y| x + y));
        }
        let lead = rest.t[0].1.clone();
        let norm = if lead.is_one() {
            rest
        } else {
            let inv = lead.inv();
            Poly { c0: rest.c0.mul(&inv), t: rest.t.iter().map(|(n, k)| (*n, k.mul(&inv))).collect() }
        };
        let n = self.intern(Node::Lin(norm));
        (lead, vec![(n, 1)])
    }
    pub fn from_factors(&mut self, c: Rat, f: Vec<(N, u32)>) -> Poly {
        if c.is_zero() || f.is_empty() {
            return Poly::konst(c);
        }
        if f.len() == 1 && f[0].1 == 1 {
            if let Node::Lin(p) = &self.nodes[f[0].0 as usize] {
                let p = p.clone();
                return self.scale(&p, &c);
            }
            return Poly { c0: Rat::zero(), t: vec![(f[0].0, c)] };
        }
        let n = self.intern(Node::Prod(f));
        Poly { c0: Rat::zero(), t: vec![(n, c)] }
    }
    pub fn mulp(&mut self, a: &Poly, b: &Poly) -> Poly {
        if a.is_const() {
            return self.scale(b, &a.c0);
        }
        if b.is_const() {
            return self.scale(a, &b.c0);
        }
        let (ca, fa) = self.factor(a);
        let (cb, fb) = self.factor(b);
        let f = merge_factors(&fa, &fb, |x, y| x + y);
        let c = self.rnd(ca.mul(&cb));
        self.from_factors(c, f)
    }
    fn mk(&mut self, num: Poly, den: Den) -> SV {
        if num.is_zero() {
            return SV::R { num, den: vec![] };
        }
        if den.is_empty() {
            return SV::R { num, den };
        }
        let (c, f) = self.factor(&num);
        let common = merge_factors(&f, &den, |x, y| x.min(y));
        if common.is_empty() {
            return SV::R { num, den };
        }
        let nf = merge_factors(&f, &common, |x, y| x - y);
        let nd = merge_factors(&den, &common, |x, y| x - y);
        SV::R { num: self.from_factors(c, nf), den: nd }
    }
    pub fn add(&mut self, a: (&Poly, &Den), b: (&Poly, &Den)) -> SV {
        if a.1 == b.1 {
            let n = self.addp(a.0, b.0);
            return self.mk(n, a.1.clone());
        }
        let l = merge_factors(a.1, b.1, |x, y| x.max(y));
        let ma = merge_factors(&l, a.1, |x, y| x - y);
        let mb = merge_factors(&l, b.1, |x, y| x - y);
        let fa = self.from_factors(Rat::one(), ma);
        let fb = self.from_factors(Rat::one(), mb);
        let x = self.mulp(a.0, &fa);
        let y = self.mulp(b.0, &fb);
        let n = self.addp(&x, &y);
        self.mk(n, l)
    }
    pub fn neg(&mut self, a: (&Poly, &Den)) -> SV {
        SV::R { num: self.scale(a.0, &Rat::int(-1)), den: a.1.clone() }
    }
    pub fn mul(&mut self, a: (&Poly, &Den), b: (&Poly, &Den)) -> SV {
        let n = self.mulp(a.0, b.0);
        let d = merge_factors(a.1, b.1, |x, y| x + y);
        self.mk(n, d)
    }
    /// a / b with b != 0 known
    pub fn div(&mut self, a: (&Poly, &Den), b: (&Poly, &Den)) -> SV {
        let (cb, fb) = self.factor(b.0);
        let inv = self.rnd(cb.inv());
        let bd = self.from_factors(inv, b.1.clone());
        let n = self.mulp(a.0, &bd);
        let d = merge_factors(a.1, &fb, |x, y| x + y);
        self.mk(n, d)
    }

    // ---- SMT text ----
    fn name(&self, n: N) -> String {
        match &self.nodes[n as usize] {
            Node::Var(s) => s.clone(),
            _ => format!("n{}", n),
        }
    }
    fn body(&self, p: &Poly) -> String {
        let mut parts = vec![];
        if !p.c0.is_zero() || p.t.is_empty() {
            parts.push(p.c0.smt());
        }
        for (n, c) in &p.t {
            if c.is_one() {
                parts.push(self.name(*n));
            } else {
                parts.push(format!("(* {} {})", c.smt(), self.name(*n)));
            }
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
    /// collect the definitions needed for node n
    pub fn define(&mut self, n: N, out: &mut Vec<String>) {
        if self.defined[n as usize] {
            return;
        }
        self.defined[n as usize] = true;
        match self.nodes[n as usize].clone() {
            Node::Var(s) => out.push(format!("(declare-const {} Real)", s)),
            Node::Lin(p) => {
                for (m, _) in &p.t {
                    self.define(*m, out);
                }
                out.push(format!("(define-fun n{} () Real {})", n, self.body(&p)));
            }
            Node::Prod(f) => {
                let mut xs = vec![];
                for (m, e) in &f {
                    self.define(*m, out);
                    for _ in 0..*e {
                        xs.push(self.name(*m));
                    }
                }
                out.push(format!("(define-fun n{} () Real (* {}))", n, xs.join(" ")));
            }
        }
    }
    pub fn poly_smt(&mut self, p: &Poly, out: &mut Vec<String>) -> String {
        for (m, _) in &p.t {
            self.define(*m, out);
        }
        self.body(p)
    }
    pub fn fdefine(&mut self, n: u32, out: &mut Vec<String>) {
        if self.fdefined[n as usize] {
            return;
        }
        self.fdefined[n as usize] = true;
        match self.fnodes[n as usize].clone() {
            FNode::Var(s) => out.push(format!("(declare-const {} (_ FloatingPoint 11 53))", s)),
            FNode::Const(b) => out.push(format!(
                "(define-fun f{} () (_ FloatingPoint 11 53) ((_ to_fp 11 53) #x{:016x}))",
                n, b
            )),
            FNode::Op(o, a) => {
                for x in &a {
                    self.fdefine(*x, out);
                }
                let s: Vec<String> = a.iter().map(|x| self.fname(*x)).collect();
                out.push(format!("(define-fun f{} () (_ FloatingPoint 11 53) ({} {}))", n, o, s.join(" ")));
            }
        }
    }
    pub fn fname(&self, n: u32) -> String {
        match &self.fnodes[n as usize] {
            FNode::Var(s) => s.clone(),
            _ => format!("f{}", n),
        }
    }
    // ---- evaluation under a model ----
    pub fn eval(&self, p: &Poly, m: &dyn Fn(&str) -> f64, memo: &mut HashMap<N, f64>) -> f64 {
        let mut s = p.c0.to_f64();
        for (n, c) in &p.t {
            s += c.to_f64() * self.eval_node(*n, m, memo);
        }
        s
    }
    pub fn eval_node(&self, n: N, m: &dyn Fn(&str) -> f64, memo: &mut HashMap<N, f64>) -> f64 {
        if let Some(x) = memo.get(&n) {
            return *x;
        }
        let v = match &self.nodes[n as usize] {
            Node::Var(s) => m(s),
            Node::Lin(p) => self.eval(p, m, memo),
            Node::Prod(f) => {
                let mut r = 1.0;
                for (x, e) in f {
                    r *= self.eval_node(*x, m, memo).powi(*e as i32);
                }
                r
            }
        };
        memo.insert(n, v);
        v
    }
    pub fn eval_sv(&self, v: &SV, m: &dyn Fn(&str) -> f64, memo: &mut HashMap<N, f64>) -> f64 {
        match v {
            SV::R { num, den } => {
                let mut d = 1.0;
                for (x, e) in den {
                    d *= self.eval_node(*x, m, memo).powi(*e as i32);
                }
                self.eval(num, m, memo) / d
            }
            SV::F(_) => f64::NAN,
        }
    }
}

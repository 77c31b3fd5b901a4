//! An incremental SMT solver process (z3), plus one-shot fall-backs (z3 nlsat tactic, cvc5).
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub defs: Vec<String>,
    pub stack: Vec<String>,
    pub queries: u64,
    pub secs: f64,
    pub unknown: u64,
    pub fallbacks: u64,
    pub cross_s: f64,
    timeout: u64,
    prog: String,
}

fn prog() -> String {
    std::env::var("SX_Z3").unwrap_or_else(|_| "z3-new".into())
}

impl Solver {
    pub fn new() -> Solver {
        let p = prog();
        let mut child = Command::new(&p)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {}: {}", p, e));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            child,
            inp,
            out,
            defs: vec![],
            stack: vec![],
            queries: 0,
            secs: 0.0,
            unknown: 0,
            fallbacks: 0,
            cross_s: 0.0,
            timeout: 0,
            prog: p,
        };
        s.send("(set-option :global-declarations true)");
        s
    }
    pub fn send(&mut self, t: &str) {
        if self.inp.write_all(t.as_bytes()).is_err() || self.inp.write_all(b"\n").is_err() {
            eprintln!("symrt: solver died");
            std::process::exit(2);
        }
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        self.inp.flush().ok();
        match self.out.read_line(&mut l) {
            Ok(0) | Err(_) => {
                eprintln!("symrt: solver died");
                std::process::exit(2);
            }
            _ => l.trim().to_string(),
        }
    }
    pub fn define(&mut self, d: Vec<String>) {
        for x in d {
            self.send(&x);
            self.defs.push(x);
        }
    }
    pub fn push(&mut self, f: &str) {
        self.send("(push)");
        self.send(&format!("(assert {})", f));
        self.stack.push(f.to_string());
    }
    pub fn pop_to(&mut self, n: usize) {
        let k = self.stack.len() - n;
        if k > 0 {
            self.send(&format!("(pop {})", k));
            self.stack.truncate(n);
        }
    }
    pub fn check(&mut self, ms: u64) -> Ans {
        if ms != self.timeout {
            self.send(&format!("(set-option :timeout {})", ms));
            self.timeout = ms;
        }
        let t = Instant::now();
        self.send("(check-sat)");
        self.queries += 1;
        let r = loop {
            let l = self.line();
            match l.as_str() {
                "sat" => break Ans::Sat,
                "unsat" => break Ans::Unsat,
                "unknown" => break Ans::Unknown,
                "timeout" => break Ans::Unknown,
                "" => continue,
                _ => {
                    eprintln!("symrt: solver said: {}", l);
                    if l.contains("error") && !l.contains("canceled") {
                        std::process::exit(2);
                    }
                }
            }
        };
        self.secs += t.elapsed().as_secs_f64();
        if r == Ans::Unknown {
            self.unknown += 1;
        }
        r
    }
    /// check the current stack plus one formula
    pub fn query(&mut self, f: &str, ms: u64) -> Ans {
        let n = self.stack.len();
        self.push(f);
        let r = self.check(ms);
        self.pop_to(n);
        r
    }
    fn sexp(&mut self) -> String {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.line();
            for c in l.chars() {
                if c == '(' {
                    depth += 1
                }
                if c == ')' {
                    depth -= 1
                }
            }
            s.push_str(&l);
            s.push(' ');
            if depth <= 0 && !s.trim().is_empty() {
                return s;
            }
        }
    }
    /// after Sat: the values of the named constants as SMT-LIB text
    pub fn values(&mut self, names: &[String]) -> HashMap<String, String> {
        let mut m = HashMap::new();
        for n in names {
            self.send(&format!("(get-value ({}))", n));
            let mut s = self.sexp();
            if s.contains("root-obj") {
                self.send("(set-option :pp.decimal true)");
                self.send(&format!("(get-value ({}))", n));
                s = self.sexp();
                self.send("(set-option :pp.decimal false)");
            }
            let s = s.trim();
            // ((name value))
            let inner = &s[2..s.len() - 2];
            let v = inner[n.len()..].trim().to_string();
            m.insert(n.clone(), v);
        }
        m
    }
    /// the definitions that the given formulas depend on, in order
    fn relevant(&self, fs: &[&str]) -> String {
        let mut need: std::collections::HashSet<&str> = std::collections::HashSet::new();
        fn idents<'a>(t: &'a str, out: &mut std::collections::HashSet<&'a str>) {
            for w in t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                if w.as_bytes().first().map_or(false, |c| c.is_ascii_alphabetic()) {
                    out.insert(w);
                }
            }
        }
        for f in fs {
            idents(f, &mut need);
        }
        let mut keep = vec![];
        for d in self.defs.iter().rev() {
            let mut it = d.split(|c: char| c == ' ' || c == '(');
            let name = it.find(|w| !w.is_empty() && *w != "declare-const" && *w != "define-fun").unwrap_or("");
            if need.contains(name) {
                keep.push(d.as_str());
                let body = &d[d.find(name).unwrap() + name.len()..];
                idents(body, &mut need);
            }
        }
        let mut o = String::new();
        for d in keep.iter().rev() {
            o.push_str(d);
            o.push('\n');
        }
        o
    }
    fn script(&self, f: &str) -> String {
        let mut fs: Vec<&str> = self.stack.iter().map(|x| x.as_str()).collect();
        fs.push(f);
        let mut base = self.relevant(&fs);
        for a in &fs {
            base.push_str(&format!("(assert {})\n", a));
        }
        base
    }
    fn run_script(&mut self, prog: &str, args: &[String], text: &str) -> Ans {
        use std::sync::atomic::{AtomicU64, Ordering};
        static K: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::var("SX_TMP").unwrap_or_else(|_| "/tmp".into());
        let p1 = format!("{}/sxq{}_{}.smt2", dir, std::process::id(), K.fetch_add(1, Ordering::Relaxed));
        std::fs::write(&p1, text).ok();
        let o = Command::new(prog).args(args).arg(&p1).output();
        std::fs::remove_file(&p1).ok();
        if let Ok(o) = o {
            let s = String::from_utf8_lossy(&o.stdout);
            if s.contains("error") {
                eprintln!("symrt: {} said: {}", prog, s.lines().take(3).collect::<Vec<_>>().join(" "));
                return Ans::Unknown;
            }
            if s.lines().any(|l| l.trim() == "unsat") {
                return Ans::Unsat;
            }
            if s.lines().any(|l| l.trim() == "sat") {
                return Ans::Sat;
            }
        }
        Ans::Unknown
    }
    /// non-incremental check of the current stack plus `f`
    pub fn oneshot(&mut self, f: &str, secs: u64) -> Ans {
        let t = Instant::now();
        self.queries += 1;
        let base = self.script(f);
        if let Ok(d) = std::env::var("SX_DUMP") {
            std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), self.queries), format!("{}(check-sat)\n", base)).ok();
        }
        let p = self.prog.clone();
        let r = self.run_script(&p, &[format!("-T:{}", secs), "-smt2".into()], &format!("{}(check-sat)\n", base));
        self.secs += t.elapsed().as_secs_f64();
        r
    }
    /// one-shot attempts with other engines: the current stack plus `f`
    pub fn fallback(&mut self, f: &str, secs: u64, fp: bool) -> Ans {
        self.fallbacks += 1;
        let t = Instant::now();
        let base = self.script(f);
        let mut res = Ans::Unknown;
        if !fp {
            let p = self.prog.clone();
            res = self.run_script(
                &p,
                &[format!("-T:{}", secs), "-smt2".into()],
                &format!("{}(check-sat-using (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat))\n", base),
            );
        }
        if res == Ans::Unknown {
            let logic = if fp { "(set-logic QF_FPLRA)\n" } else { "(set-logic QF_NRA)\n" };
            res = self.run_script("cvc5", &[format!("--tlimit={}", secs * 1000)], &format!("{}{}(check-sat)\n", logic, base));
        }
        self.secs += t.elapsed().as_secs_f64();
        res
    }
    /// a second opinion on an unsat answer, from an independent solver
    pub fn cross_check(&mut self, f: &str, secs: u64, fp: bool) -> Ans {
        let t = Instant::now();
        let logic = if fp { "(set-logic QF_FPLRA)\n" } else { "(set-logic QF_NRA)\n" };
        let text = format!("{}{}(check-sat)\n", logic, self.script(f));
        let r = self.run_script("cvc5", &[format!("--tlimit={}", secs * 1000)], &text);
        self.cross_s += t.elapsed().as_secs_f64();
        r
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}

/// SMT-LIB real literal -> f64 (and exactness is not needed)
pub fn real_value(s: &str) -> Option<f64> {
    let toks = tokens(s);
    let mut i = 0;
    let r = parse_real(&toks, &mut i)?;
    Some(r)
}
fn tokens(s: &str) -> Vec<String> {
    s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect()
}
fn parse_real(t: &[String], i: &mut usize) -> Option<f64> {
    parse_rat(t, i).map(|r| r.to_f64())
}
fn parse_rat(t: &[String], i: &mut usize) -> Option<crate::big::Rat> {
    use crate::big::Rat;
    let k = t.get(*i)?;
    *i += 1;
    if k == "(" {
        let op = t.get(*i)?.clone();
        *i += 1;
        let mut args = vec![];
        while t.get(*i)? != ")" {
            args.push(parse_rat(t, i)?);
        }
        *i += 1;
        return match (op.as_str(), args.len()) {
            ("-", 1) => Some(args[0].neg()),
            ("-", 2) => Some(args[0].sub(&args[1])),
            ("/", 2) => Some(args[0].div(&args[1])),
            _ => None,
        };
    }
    Rat::parse(k.trim_end_matches('?'))
}
/// SMT-LIB floating point literal -> f64
pub fn fp_value(s: &str) -> Option<f64> {
    let s = s.trim();
    if s.contains("NaN") {
        return Some(f64::NAN);
    }
    if s.contains("+oo") {
        return Some(f64::INFINITY);
    }
    if s.contains("-oo") {
        return Some(f64::NEG_INFINITY);
    }
    if s.contains("+zero") {
        return Some(0.0);
    }
    if s.contains("-zero") {
        return Some(-0.0);
    }
    let t = tokens(s);
    // ( fp #b0 #b... #x... )
    if t.len() == 6 && t[1] == "fp" {
        let mut bits = 0u64;
        for (k, w) in [(2usize, 1u32), (3, 11), (4, 52)] {
            let x = &t[k];
            let v = if let Some(b) = x.strip_prefix("#b") {
                u64::from_str_radix(b, 2).ok()?
            } else {
                u64::from_str_radix(x.strip_prefix("#x")?, 16).ok()?
            };
            bits = (bits << w) | v;
        }
        return Some(f64::from_bits(bits));
    }
    None
}

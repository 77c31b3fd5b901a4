//! Small exact rational arithmetic (no external crate is available offline).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big {
    neg: bool,
    mag: Vec<u32>, // little endian, no trailing zeros; empty = 0
}

fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut out = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        out.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        out.push(c as u32);
    }
    out
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if d < 0 {
            d += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        out.push(d as u32);
    }
    trim(&mut out);
    out
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut out = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + out[i + j] as u64 + c;
            out[i + j] = t as u32;
            c = t >> 32;
        }
        out[i + b.len()] = c as u32;
    }
    trim(&mut out);
    out
}
fn divrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut out = vec![0u32; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let t = (r << 32) | a[i] as u64;
        out[i] = (t / d as u64) as u32;
        r = t % d as u64;
    }
    trim(&mut out);
    (out, r as u32)
}
fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let w = n / 32;
    let b = n % 32;
    let mut out = vec![0u32; w];
    if b == 0 {
        out.extend_from_slice(a);
    } else {
        let mut c = 0u32;
        for &x in a {
            out.push((x << b) | c);
            c = x >> (32 - b);
        }
        if c > 0 {
            out.push(c);
        }
    }
    out
}
fn shr_mag(a: &[u32], n: usize) -> Vec<u32> {
    let w = n / 32;
    let b = n % 32;
    if w >= a.len() {
        return vec![];
    }
    let mut out = Vec::with_capacity(a.len() - w);
    for i in w..a.len() {
        let lo = a[i] >> b;
        let hi = if b > 0 && i + 1 < a.len() { a[i + 1] << (32 - b) } else { 0 };
        out.push(lo | hi);
    }
    trim(&mut out);
    out
}
fn bits_mag(a: &[u32]) -> usize {
    match a.last() {
        None => 0,
        Some(x) => a.len() * 32 - x.leading_zeros() as usize,
    }
}
// Knuth D
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "division by zero");
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = divrem_small(a, b[0]);
        return (q, if r == 0 { vec![] } else { vec![r] });
    }
    let s = b.last().unwrap().leading_zeros() as usize;
    let v = shl_mag(b, s);
    let mut u = shl_mag(a, s);
    if u.len() == a.len() {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut br = 0i64;
        let mut c = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + c;
            c = p >> 32;
            let t = u[i + j] as i64 - br - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            br = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - br - c as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let s = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = s as u32;
                c = s >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    let mut r = u[..n].to_vec();
    trim(&mut r);
    (q, shr_mag(&r, s))
}
fn gcd_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut a = a.to_vec();
    let mut b = b.to_vec();
    while !b.is_empty() {
        if a.len() <= 2 && b.len() <= 2 {
            let mut x = a.iter().rev().fold(0u64, |s, &d| (s << 32) | d as u64);
            let mut y = b.iter().rev().fold(0u64, |s, &d| (s << 32) | d as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            let mut v = vec![x as u32, (x >> 32) as u32];
            trim(&mut v);
            return v;
        }
        let r = divrem_mag(&a, &b).1;
        a = b;
        b = r;
    }
    a
}

impl Big {
    pub fn zero() -> Self {
        Big { neg: false, mag: vec![] }
    }
    pub fn from_i64(x: i64) -> Self {
        let m = x.unsigned_abs();
        let mut mag = vec![m as u32, (m >> 32) as u32];
        trim(&mut mag);
        Big { neg: x < 0, mag }
    }
    fn mk(neg: bool, mag: Vec<u32>) -> Self {
        Big { neg: neg && !mag.is_empty(), mag }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_one(&self) -> bool {
        !self.neg && self.mag == [1]
    }
    pub fn neg(&self) -> Self {
        Big::mk(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::mk(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big::mk(self.neg, sub_mag(&self.mag, &o.mag)),
            Ordering::Less => Big::mk(o.neg, sub_mag(&o.mag, &self.mag)),
        }
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::mk(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    pub fn div_exact(&self, d: &[u32]) -> Big {
        Big::mk(self.neg, divrem_mag(&self.mag, d).0)
    }
    pub fn pow2(n: usize) -> Big {
        Big::mk(false, shl_mag(&[1], n))
    }
    pub fn parse(s: &str) -> Big {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let mut m: Vec<u32> = vec![];
        for ch in d.bytes() {
            let mut c = (ch - b'0') as u64;
            for x in m.iter_mut() {
                let t = *x as u64 * 10 + c;
                *x = t as u32;
                c = t >> 32;
            }
            if c > 0 {
                m.push(c as u32);
            }
        }
        trim(&mut m);
        Big::mk(neg, m)
    }
    pub fn abs_str(&self) -> String {
        if self.mag.is_empty() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = divrem_small(&m, 1_000_000_000);
            parts.push(r);
            m = q;
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s.push_str(&format!("{:09}", p));
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: Big,
    pub d: Big, // > 0
}

impl Rat {
    pub fn new(n: Big, d: Big) -> Rat {
        assert!(!d.is_zero());
        let (n, d) = if d.neg { (n.neg(), d.neg()) } else { (n, d) };
        if d.is_one() {
            return Rat { n, d };
        }
        if n.is_zero() {
            return Rat::zero();
        }
        let g = gcd_mag(&n.mag, &d.mag);
        if g == [1] {
            return Rat { n, d };
        }
        Rat { n: n.div_exact(&g), d: d.div_exact(&g) }
    }
    pub fn zero() -> Rat {
        Rat { n: Big::zero(), d: Big::from_i64(1) }
    }
    pub fn one() -> Rat {
        Rat::int(1)
    }
    pub fn int(x: i64) -> Rat {
        Rat { n: Big::from_i64(x), d: Big::from_i64(1) }
    }
    pub fn frac(a: i64, b: i64) -> Rat {
        Rat::new(Big::from_i64(a), Big::from_i64(b))
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.n.is_one() && self.d.is_one()
    }
    pub fn sign(&self) -> i32 {
        if self.n.is_zero() {
            0
        } else if self.n.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if self.d == o.d {
            return Rat::new(self.n.add(&o.n), self.d.clone());
        }
        Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if self.is_one() {
            return o.clone();
        }
        if o.is_one() {
            return self.clone();
        }
        Rat::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn inv(&self) -> Rat {
        Rat::new(self.d.clone(), self.n.clone())
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        self.sub(o).sign().cmp(&0)
    }
    pub fn from_f64(x: f64) -> Rat {
        assert!(x.is_finite());
        if x == 0.0 {
            return Rat::zero();
        }
        let b = x.to_bits();
        let neg = (b >> 63) != 0;
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let tz = m.trailing_zeros() as i64;
        let (m, e) = (m >> tz, e + tz);
        let mut n = Big::from_i64(m as i64);
        if neg {
            n = n.neg();
        }
        if e >= 0 {
            Rat { n: n.mul(&Big::pow2(e as usize)), d: Big::from_i64(1) }
        } else {
            Rat { n, d: Big::pow2((-e) as usize) }
        }
    }
    /// nearest double (ties may be rounded either way)
    pub fn to_f64(&self) -> f64 {
        if self.n.is_zero() {
            return 0.0;
        }
        let nb = bits_mag(&self.n.mag) as i64;
        let db = bits_mag(&self.d.mag) as i64;
        // want quotient with 64+ bits
        let sh = 66 - (nb - db);
        let (q, _) = if sh >= 0 {
            divrem_mag(&shl_mag(&self.n.mag, sh as usize), &self.d.mag)
        } else {
            divrem_mag(&self.n.mag, &shl_mag(&self.d.mag, (-sh) as usize))
        };
        // q has 66 or 67 bits: take the top 64
        let qb = bits_mag(&q);
        let drop = qb.saturating_sub(64);
        let t = shr_mag(&q, drop);
        let mut v = 0u64;
        for &x in t.iter().rev() {
            v = (v << 32) | x as u64;
        }
        // exact halving so that rounding happens once
        let mut f = v as f64;
        let mut e = drop as i64 - sh;
        while e > 0 {
            let s = e.min(1000);
            f *= 2f64.powi(s as i32);
            e -= s;
        }
        while e < 0 {
            let s = (-e).min(1000);
            f /= 2f64.powi(s as i32);
            e += s;
        }
        if self.n.neg {
            -f
        } else {
            f
        }
    }
    pub fn smt(&self) -> String {
        let body = if self.d.is_one() {
            format!("{}.0", self.n.abs_str())
        } else {
            format!("(/ {}.0 {}.0)", self.n.abs_str(), self.d.abs_str())
        };
        if self.n.neg {
            format!("(- {})", body)
        } else {
            body
        }
    }
    pub fn text(&self) -> String {
        let s = if self.n.neg { "-" } else { "" };
        if self.d.is_one() {
            format!("{}{}", s, self.n.abs_str())
        } else {
            format!("{}{}/{}", s, self.n.abs_str(), self.d.abs_str())
        }
    }
    pub fn parse(s: &str) -> Option<Rat> {
        let ok = |t: &str| !t.is_empty() && t.trim_start_matches('-').bytes().all(|c| c.is_ascii_digit());
        if let Some((a, b)) = s.split_once('/') {
            if ok(a) && ok(b) {
                return Some(Rat::new(Big::parse(a), Big::parse(b)));
            }
            return None;
        }
        if let Some((a, b)) = s.split_once('.') {
            let neg = a.starts_with('-');
            let digits = format!("{}{}", a.trim_start_matches('-'), b);
            if !ok(&digits) {
                return None;
            }
            let mut d = Big::from_i64(1);
            for _ in 0..b.len() {
                d = d.mul(&Big::from_i64(10));
            }
            let n = Big::parse(&digits);
            return Some(Rat::new(if neg { n.neg() } else { n }, d));
        }
        if ok(s) {
            return Some(Rat::new(Big::parse(s), Big::from_i64(1)));
        }
        None
    }
    pub fn pow(&self, e: u32) -> Rat {
        let mut r = Rat::one();
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// floor as i64 (saturating is not needed for the sizes used here)
    pub fn floor_i64(&self) -> i64 {
        let (q, r) = divrem_mag(&self.n.mag, &self.d.mag);
        let mut v = 0i64;
        for &x in q.iter().rev() {
            v = v.wrapping_shl(32) | x as i64;
        }
        if self.n.neg {
            -v - if r.is_empty() { 0 } else { 1 }
        } else {
            v
        }
    }
}

//! A concrete test case, with a one-line text form used for replay files.
use crate::nat::Nat;

pub const TYPES: [&str; 8] = ["bin8", "bin16", "bin32", "bin64", "dec8", "dec16", "dec32", "dec64"];
pub const BASES: [u128; 8] = [
    1 << 8, 1 << 16, 1 << 32, 1 << 64,
    100, 10_000, 1_000_000_000, 10_000_000_000_000_000_000,
];
pub const STORAGE_BITS: [u32; 8] = [8, 16, 32, 64, 8, 16, 32, 64];

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub ty: usize,
    pub op: String,
    pub a: Vec<u64>,
    pub b: Vec<u64>,
    pub n: u64,
    pub s: String,
}

fn nums(v: &[u64]) -> String {
    // run-length form: x*k
    let mut out = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] { j += 1; }
        if !out.is_empty() { out.push(','); }
        if j - i > 1 { out += &format!("{}*{}", v[i], j - i); } else { out += &format!("{}", v[i]); }
        i = j;
    }
    out
}

fn parse_nums(s: &str) -> Option<Vec<u64>> {
    let mut v = vec![];
    if s.is_empty() { return Some(v); }
    for p in s.split(',') {
        if let Some((x, k)) = p.split_once('*') {
            let x: u64 = x.parse().ok()?;
            let k: usize = k.parse().ok()?;
            v.extend(std::iter::repeat(x).take(k));
        } else {
            v.push(p.parse().ok()?);
        }
    }
    Some(v)
}

impl Case {
    pub fn base(&self) -> u128 { BASES[self.ty] }
    pub fn is_bin(&self) -> bool { self.ty < 4 }
    pub fn na(&self) -> Nat { Nat::from_valid_digits(&self.a, self.base()) }
    pub fn nb(&self) -> Nat { Nat::from_valid_digits(&self.b, self.base()) }
    pub fn text(&self) -> String {
        let mut h = String::new();
        for b in self.s.bytes() { h += &format!("{:02x}", b); }
        format!("type={} op={} a=[{}] b=[{}] n={} s={}", TYPES[self.ty], self.op, nums(&self.a), nums(&self.b), self.n, h)
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case { ty: 0, op: String::new(), a: vec![], b: vec![], n: 0, s: String::new() };
        for w in t.split_whitespace() {
            let (k, v) = w.split_once('=')?;
            match k {
                "type" => c.ty = TYPES.iter().position(|&x| x == v)?,
                "op" => c.op = v.to_string(),
                "a" => c.a = parse_nums(v.strip_prefix('[')?.strip_suffix(']')?)?,
                "b" => c.b = parse_nums(v.strip_prefix('[')?.strip_suffix(']')?)?,
                "n" => c.n = v.parse().ok()?,
                "s" => {
                    let mut by = vec![];
                    for i in 0..v.len() / 2 { by.push(u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()?); }
                    c.s = String::from_utf8(by).ok()?;
                }
                _ => return None,
            }
        }
        Some(c)
    }
}

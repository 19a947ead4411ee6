//! Boundary-directed case generation.
use crate::case::*;
use crate::nat::Nat;
use std::cmp::Ordering;

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut sm = || { z = z.wrapping_add(0x9E3779B97F4A7C15); let mut x = z; x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB); x ^ (x >> 31) };
        let a = sm();
        let b = sm();
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        if self.0 == 0 && self.1 == 0 { self.0 = 1; }
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo + 1) as u64) as usize }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
}

pub fn gen_digit(r: &mut Rng, base: u128) -> u64 {
    let b = base;
    let d: u128 = match r.below(20) {
        0..=2 => 0,
        3..=5 => b - 1,
        6 => 1,
        7 => r.pick(&[2, 3, 4, 5, 9, 10, 16]),
        8 => b - r.pick(&[2, 3, 4, 5, 9, 10, 16]),
        9 => b / 2 + r.pick(&[0, 1, 2]),
        10 => b / 2 - r.pick(&[1, 2]),
        11 => b / 3 + r.pick(&[0, 1, 2]),
        12 => { let k = r.below(64) as u32; let x = 1u128 << k; if x < b { x + r.pick(&[0u128, 1]) - 1 + r.pick(&[0, 1]) } else { 1 } }
        13 => { let k = r.below(64) as u32; let x = 1u128 << k; if x < b { b - x } else { b - 1 } }
        _ => r.next() as u128 % b,
    };
    (d % b) as u64
}

/// lengths up to a few digits
pub fn small_len(r: &mut Rng) -> usize {
    match r.below(10) { 0 => 0, 1..=3 => 1, 4..=6 => 2, 7 | 8 => 3, _ => r.range(4, 9) }
}
pub fn mid_len(r: &mut Rng) -> usize {
    match r.below(10) { 0..=3 => small_len(r), 4..=7 => r.range(3, 24), 8 => r.range(17, 45), _ => r.range(30, 70) }
}
/// lengths that reach every multiplication algorithm
pub fn mul_len(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=24 => small_len(r),
        25..=39 => r.range(3, 19),
        40..=64 => r.range(18, 42),
        65..=74 => r.range(38, 90),
        75..=90 => r.range(126, 140),
        91..=95 => r.range(140, 300),
        96..=98 => r.range(376, 396),
        _ => r.range(300, 460),
    }
}
pub fn toom_len(r: &mut Rng) -> usize {
    match r.below(40) { 0..=27 => r.range(128, 140), 28..=35 => r.range(128, 260), 36..=38 => r.range(376, 400), _ => r.range(400, 1400) }
}
pub fn kara_len(r: &mut Rng) -> usize {
    match r.below(10) { 0..=4 => r.range(20, 26), 5..=7 => r.range(20, 50), 8 => r.range(38, 90), _ => r.range(90, 127) }
}
pub fn div_len(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=19 => 2,
        20..=29 => 1,
        30..=54 => r.range(3, 6),
        55..=66 => r.range(7, 19),
        67..=86 => r.range(19, 42),
        87..=94 => r.range(40, 85),
        _ => r.range(80, 170),
    }
}

pub fn trim(mut v: Vec<u64>) -> Vec<u64> { while v.last() == Some(&0) { v.pop(); } v }

/// n digits in one of several shapes; the top digit is nonzero when n > 0
pub fn gen_digits(r: &mut Rng, base: u128, n: usize) -> Vec<u64> {
    let mx = (base - 1) as u64;
    let mut v: Vec<u64> = match r.below(12) {
        0 => vec![mx; n],
        1 => vec![0; n],
        2 => (0..n).map(|_| (r.next() as u128 % base) as u64).collect(),
        3 => { let d = gen_digit(r, base); vec![d; n] }
        4 | 5 | 6 => {
            // runs
            let mut v = vec![];
            while v.len() < n {
                let d = match r.below(5) { 0 | 1 => 0, 2 | 3 => mx, _ => gen_digit(r, base) };
                let k = match r.below(4) { 0 => 1, 1 => 2, 2 => r.range(1, 12), _ => r.range(1, n.max(1)) };
                for _ in 0..k { if v.len() < n { v.push(d); } }
            }
            v
        }
        7 => { let mut v = vec![0; n]; for _ in 0..r.range(1, 3) { if n > 0 { let i = r.below(n as u64) as usize; v[i] = gen_digit(r, base); } } v }
        8 => { let mut v = vec![mx; n]; for _ in 0..r.range(1, 3) { if n > 0 { let i = r.below(n as u64) as usize; v[i] = gen_digit(r, base); } } v }
        _ => (0..n).map(|_| gen_digit(r, base)).collect(),
    };
    if n > 0 {
        if r.chance(30) { v[n - 1] = r.pick(&[1, 1, 2, mx, (base / 2) as u64, (base / 2) as u64 - 1, (base / 2) as u64 + 1]); }
        if r.chance(15) { v[0] = r.pick(&[0, 1, mx]); }
        if v[n - 1] == 0 { v[n - 1] = 1 + (r.next() as u128 % (base - 1)) as u64; }
    }
    v
}

pub fn gen_num(r: &mut Rng, base: u128, len: fn(&mut Rng) -> usize) -> Vec<u64> {
    let n = len(r);
    gen_digits(r, base, n)
}

/// A number related to a: equal, off by a little, a prefix, shifted, complement ...
pub fn related(r: &mut Rng, base: u128, a: &[u64]) -> Vec<u64> {
    let mx = (base - 1) as u64;
    let mut v = a.to_vec();
    match r.below(9) {
        0 => {}
        1 => { let na = Nat::from_valid_digits(a, base); v = na.add(&Nat::from_u128(r.below(3) as u128)).to_digits(base); }
        2 => { let na = Nat::from_valid_digits(a, base); let d = Nat::from_u128(r.below(3) as u128); if na.cmp(&d) != Ordering::Less { v = na.sub(&d).to_digits(base); } }
        3 => { if !v.is_empty() { let i = r.below(v.len() as u64) as usize; v[i] = gen_digit(r, base); } }
        4 => { if !v.is_empty() { let k = r.below(v.len() as u64) as usize; v.drain(..k); } }
        5 => { let k = r.below(v.len() as u64 + 1) as usize; v.truncate(k); }
        6 => { for x in v.iter_mut() { *x = mx - *x; } }
        7 => {
            // same high part, different low part
            let k = r.below(v.len() as u64 + 1) as usize;
            for i in 0..k { v[i] = gen_digit(r, base); }
        }
        _ => {
            // same low part, another high part
            let k = r.below(v.len() as u64 + 1) as usize;
            for i in k..v.len() { v[i] = gen_digit(r, base); }
        }
    }
    trim(v)
}

/// Dividend / divisor pairs that provoke quotient-digit corrections
pub fn gen_div(r: &mut Rng, base: u128) -> (Vec<u64>, Vec<u64>) {
    let mx = (base - 1) as u64;
    let nb = div_len(r);
    let mut b = gen_digits(r, base, nb);
    if r.chance(40) {
        let h = (base / 2) as u64;
        b[nb - 1] = r.pick(&[1, 2, 3, h, h, h + 1, h.wrapping_sub(1).max(1), mx, (base / 3) as u64, (base / 8) as u64 + 1, (base / 5) as u64]).max(1).min(mx);
        if r.chance(50) && nb > 1 { b[nb - 2] = r.pick(&[0, mx, 1, h, mx - 1]); }
    }
    let den = Nat::from_valid_digits(&b, base);
    let a = match r.below(10) {
        0 | 1 => {
            let extra = r.pick(&[0, 0, 1, 1, 2, 3, nb, nb + 1, 2 * nb, 2 * nb + 1]);
            let n = if r.chance(20) { nb + r.range(0, 40) } else { nb + extra };
            gen_digits(r, base, n)
        }
        2 | 3 | 4 | 5 => {
            // a = q*b + rem with a special quotient and remainder
            let nq = match r.below(6) { 0 => 1, 1 => 2, 2 => 3, 3 => nb, 4 => r.range(1, nb + 3), _ => r.range(1, 2 * nb + 4).min(60) };
            let q = Nat::from_valid_digits(&gen_digits(r, base, nq), base);
            let mut a = q.mul(&den);
            let one = Nat::from_u128(1);
            match r.below(6) {
                0 => {}
                1 => a = a.add(&den.sub(&one)),
                2 => a = a.add(&one),
                3 => if !a.is_zero() { a = a.sub(&one) },
                4 => { let d = gen_digits(r, base, nb); let d = Nat::from_valid_digits(&d, base); a = a.add(&d); }
                _ => { let k = r.below(nb as u64) as usize; let d = Nat::from_valid_digits(&b[k..], base); a = a.add(&d); }
            }
            a.to_digits(base)
        }
        6 | 7 => {
            // the high part of a equals (or almost equals) the high part of b: quotient digits at the limit
            let extra = match r.below(4) { 0 => 1, 1 => nb, 2 => r.range(1, 4), _ => r.range(0, 2 * nb + 2).min(70) };
            let mut v = gen_digits(r, base, extra);
            v.extend_from_slice(&b);
            let k = extra + r.below(nb as u64) as usize;
            if r.chance(60) {
                for i in 0..k { if r.chance(70) || i + 1 == k { v[i] = r.pick(&[0, mx, 1, mx - 1]); } }
            } else if v[k] > 0 { v[k] -= 1; for i in 0..k { if r.chance(50) { v[i] = mx; } } }
            trim(v)
        }
        8 => related(r, base, &b),
        _ => { let n = r.range(0, 2 * nb + 6); gen_digits(r, base, n) }
    };
    (a, b)
}

fn rand_text(r: &mut Rng, ty: usize) -> String {
    let hex = r.chance(45);
    let len = match r.below(8) { 0 => 0, 1 => 1, 2 => r.range(1, 5), 3 => r.range(1, 25), 4 => r.pick(&[1, 2, 3, 4, 7, 8, 9, 10, 14, 15, 16, 18, 19, 20, 36, 38, 40]), 5 => r.range(30, 80), 6 => r.range(80, 400), _ => r.range(1, 45) };
    let mut s = String::new();
    if hex { s += "0x"; }
    let style = r.below(6);
    for i in 0..len {
        let d = match style { 0 => 0, 1 => 9, 2 => if i < len / 2 { 0 } else { r.below(16) }, 3 => if hex { 15 } else { 9 }, _ => r.below(16) };
        let c = if hex { let c = std::char::from_digit(d as u32, 16).unwrap(); if r.chance(40) { c.to_ascii_uppercase() } else { c } } else { std::char::from_digit((d % 10) as u32, 10).unwrap() };
        s.push(c);
    }
    // malformations
    match r.below(12) {
        0 => { let bad = r.pick(&['+', '-', ' ', '_', '.', 'g', 'x', 'X', '/', ':', '@', '`', 'G', '\n', '\u{e9}', '\u{660}', '\0', 'a', 'F', ',']); let mut p = r.below(s.len() as u64 + 1) as usize; while !s.is_char_boundary(p) { p -= 1; } s.insert(p, bad); }
        1 => s.insert(0, '+'),
        2 => s.insert(0, r.pick(&['-', ' ', '0', 'x', '+', '_'])),
        3 => s.push(r.pick(&[' ', 'x', '+', '-', '\n', 'L', 'u'])),
        4 => {
            // at a chunk border
            let pl = [2usize, 4, 8, 16, 2, 4, 9, 19, 1, 3, 7, 15];
            let k = r.pick(&pl) * r.range(1, 3);
            if k <= s.len() { let p = s.len() - k; if s.is_char_boundary(p) { s.insert(p, r.pick(&['+', '-', ' ', '_'])); } }
        }
        5 => { if hex && r.chance(50) { s = s.replacen("0x", r.pick(&["0X", "x", "00x", "0x0x", "+0x", "0x+"]), 1); } }
        _ => {}
    }
    let _ = ty;
    s
}

pub fn gen(r: &mut Rng, op: &str) -> Case {
    // small bases reach coincidences between digits far more often
    let ty = r.pick(&[0, 0, 0, 1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 6, 7, 7]);
    let base = BASES[ty];
    let sbits = STORAGE_BITS[ty];
    let smax: u64 = if sbits == 64 { u64::MAX } else { (1u64 << sbits) - 1 };
    let mut c = Case { ty, op: op.to_string(), a: vec![], b: vec![], n: 0, s: String::new() };
    let int = |r: &mut Rng| -> u64 { match r.below(4) { 0 => gen_digit(r, smax as u128 + 1), 1 => gen_digit(r, base), 2 => { let k = r.below(5); let x = base as u64; if base <= smax as u128 { x.wrapping_add(k).wrapping_sub(2).min(smax) } else { smax - k } } _ => r.next() & smax } };
    let plain = op.strip_prefix("x_").unwrap_or(op);
    match plain {
        "add" | "cmp" => {
            c.a = gen_num(r, base, mid_len);
            c.b = if r.chance(35) { related(r, base, &c.a) } else { gen_num(r, base, mid_len) };
            if r.chance(50) { std::mem::swap(&mut c.a, &mut c.b); }
        }
        "sub" => {
            c.b = gen_num(r, base, mid_len);
            c.a = if r.chance(30) { related(r, base, &c.b) } else if r.chance(50) {
                // a = b + d: differences of every shape, cancelling high digits
                let d = gen_num(r, base, mid_len);
                Nat::from_valid_digits(&c.b, base).add(&Nat::from_valid_digits(&d, base)).to_digits(base)
            } else { gen_num(r, base, mid_len) };
            if r.chance(85) && c.na().cmp(&c.nb()) == Ordering::Less { std::mem::swap(&mut c.a, &mut c.b); }
        }
        "add_digit" | "mul_digit" | "sub_digit" | "div_digit" | "rem_digit" => {
            c.a = gen_num(r, base, mid_len);
            c.n = gen_digit(r, base);
            if plain == "sub_digit" && r.chance(25) { c.a = Nat::from_u128(c.n as u128).add(&Nat::from_u128(r.below(2) as u128)).to_digits(base); }
            if plain == "div_digit" || plain == "rem_digit" { c.n = c.n.max(1); }
        }
        "add_int" | "mul_int" | "sub_int" | "div_int" | "rem_int" => {
            c.a = gen_num(r, base, mid_len);
            c.n = int(r);
            if plain == "sub_int" && r.chance(25) { c.a = Nat::from_u128(c.n as u128 + r.below(3) as u128).to_digits(base); }
            if plain == "div_int" || plain == "rem_int" {
                c.n = c.n.max(1);
                if r.chance(40) {
                    let q = gen_num(r, base, small_len);
                    let m = Nat::from_valid_digits(&q, base).mul(&Nat::from_u128(c.n as u128));
                    c.a = match r.below(4) { 0 => m, 1 => m.add(&Nat::from_u128(c.n as u128 - 1)), 2 => m.add(&Nat::from_u128(1)), _ => if m.is_zero() { m } else { m.sub(&Nat::from_u128(1)) } }.to_digits(base);
                }
            }
        }
        "mul" => {
            let prof = r.below(10);
            let (f, g): (fn(&mut Rng) -> usize, fn(&mut Rng) -> usize) = match prof { 0..=3 => (mul_len, mul_len), 4..=6 => (kara_len, kara_len), 7 | 8 => (toom_len, toom_len), _ => (small_len, mul_len) };
            c.a = gen_num(r, base, f);
            c.b = match r.below(4) { 0 => { let n = c.a.len(); gen_digits(r, base, n) } 1 => related(r, base, &c.a), _ => gen_num(r, base, g) };
            if r.chance(50) { std::mem::swap(&mut c.a, &mut c.b); }
        }
        "square" => {
            let f: fn(&mut Rng) -> usize = match r.below(10) { 0..=3 => mul_len, 4..=6 => kara_len, _ => toom_len };
            c.a = gen_num(r, base, f);
        }
        "pow" => {
            c.a = gen_num(r, base, small_len);
            c.n = match r.below(4) { 0 => r.below(4), 1 => r.below(12), 2 => r.below(33), _ => if c.a.len() <= 1 { r.below(140) } else { r.below(20) } };
            if r.chance(8) {
                // 0 and 1 have powers with any exponent
                c.a = if r.chance(50) { vec![] } else { vec![1] };
                c.n = huge(r);
            }
        }
        "div" | "rem" => {
            let (a, b) = gen_div(r, base);
            c.a = a;
            c.b = b;
        }
        "divzero" => { c.a = gen_num(r, base, mid_len); }
        "shl" | "shr" => {
            c.a = gen_num(r, base, mid_len);
            let w = sbits as u64;
            c.n = match r.below(8) {
                0 => r.below(4), 1 => r.below(w + 2), 2 => w * r.below(6), 3 => w * (1 + r.below(5)) - 1, 4 => w * r.below(5) + 1,
                5 => { let t = c.na().bits() as u64; (t + r.below(5)).saturating_sub(2) }
                6 => r.below(200), _ => r.below(700),
            };
            if plain == "shr" && r.chance(10) { c.n = if r.chance(50) { c.n * 10 + 1000 } else { huge(r) }; }
            // zero can be shifted any distance
            if plain == "shl" && r.chance(4) { c.a = vec![]; c.n = huge(r); }
        }
        "new" => {
            c.a = if r.chance(2) { let n = r.range(200, 700); gen_digits(r, base, n) } else { gen_num(r, base, mid_len) };
            if r.chance(60) { for _ in 0..r.range(1, 5) { c.a.push(0); } }
        }
        "from" => {
            c.n = int(r);
            if r.chance(30) && base <= smax as u128 { let b = base as u64; c.n = (b * r.below(smax / b + 1)).wrapping_add(r.below(3)).wrapping_sub(1).min(smax); }
        }
        "consts" => {}
        "parse" => { c.s = rand_text(r, ty); }
        "fmt" => {
            c.a = match r.below(5) { 0 => gen_num(r, base, small_len), 1..=3 => gen_num(r, base, mid_len), _ => gen_num(r, base, div_len) };
            c.n = match r.below(3) { 0 => 0, 1 => r.below(50), _ => r.below(400) };
        }
        "to_decimal" => {
            c.ty = r.pick(&[0, 0, 1, 2, 2, 3]);
            let base = BASES[c.ty];
            c.a = match r.below(5) {
                0 => gen_num(r, base, mid_len),
                1 => { let n = r.range(14, 40); gen_digits(r, base, n) }
                2 => { let n = r.range(30, 140); gen_digits(r, base, n) }
                _ => {
                    // near multiples of powers of the decimal radix
                    let k = r.range(1, 90);
                    let p = Nat::from_u128(BASES[c.ty + 4]).pow(k);
                    let m = gen_num(r, base, small_len);
                    let v = Nat::from_valid_digits(&m, base).mul(&p);
                    let low = gen_num(r, base, mid_len);
                    let v = match r.below(3) { 0 => v, 1 => v.add(&Nat::from_valid_digits(&low, base)), _ => if v.is_zero() { v } else { v.sub(&Nat::from_u128(1)) } };
                    v.to_digits(base)
                }
            };
        }
        "hist" => { c.a = gen_num(r, base, small_len); c.n = r.next() >> 16; }
        _ => panic!("unknown op {}", op),
    }
    if op.starts_with("x_") {
        // operands must be representable as arguments in every type
        if plain == "to_decimal" { /* keep */ }
    }
    c
}

/// counts up to and including the largest `usize`, favouring the neighbourhood of powers of two
fn huge(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => u64::MAX - r.below(3),
        1 => r.next() >> r.below(64),
        2 => (1u64 << r.below(64)).wrapping_add(r.below(5)).wrapping_sub(2),
        _ => (r.below(1 << 20) << 32) + r.below(100),
    }
}

/// property id -> (operation, weight)
pub fn plan(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "C01" => vec![("add", 6), ("add_digit", 2), ("add_int", 3)],
        "C02" => vec![("sub", 6), ("sub_digit", 2), ("sub_int", 3)],
        "C03" => vec![("mul", 10), ("mul_digit", 2), ("mul_int", 3)],
        "C04" => vec![("square", 8), ("pow", 3)],
        "C05" => vec![("div", 6), ("rem", 6), ("div_digit", 1), ("rem_digit", 1), ("div_int", 2), ("rem_int", 2)],
        "C06" => vec![("divzero", 1)],
        "C07" => vec![("shl", 1)],
        "C08" => vec![("shr", 1)],
        "C09" => vec![("cmp", 1)],
        "C10" => vec![("hist", 4), ("add", 1), ("add_digit", 1), ("add_int", 1), ("sub", 3), ("sub_digit", 1), ("sub_int", 2), ("mul", 2), ("mul_digit", 1), ("mul_int", 1), ("square", 1), ("pow", 1),
            ("div", 3), ("rem", 3), ("div_digit", 1), ("rem_digit", 1), ("div_int", 1), ("rem_int", 1), ("shl", 1), ("shr", 1), ("new", 1), ("from", 1), ("consts", 1), ("parse", 1), ("to_decimal", 1)],
        "C11" => vec![("parse", 1)],
        "C12" => vec![("fmt", 1)],
        "C13" => vec![("to_decimal", 1)],
        "C14" => vec![("new", 2), ("from", 2), ("consts", 1)],
        "C15" => vec![("add", 2), ("add_digit", 1), ("add_int", 1), ("sub", 2), ("sub_digit", 1), ("sub_int", 1), ("mul", 2), ("mul_digit", 1), ("mul_int", 1), ("square", 1), ("pow", 1),
            ("div", 2), ("rem", 2), ("div_digit", 1), ("rem_digit", 1), ("div_int", 1), ("rem_int", 1), ("shl", 1), ("shr", 1), ("cmp", 1), ("to_decimal", 1)],
        "C16" => vec![("x_add", 1), ("x_sub", 1), ("x_mul", 3), ("x_square", 1), ("x_div", 3), ("x_rem", 3), ("x_shl", 1), ("x_shr", 1), ("x_pow", 1), ("x_parse", 1)],
        "C17" => vec![("hist", 2), ("add", 1), ("add_digit", 1), ("add_int", 1), ("sub", 2), ("sub_digit", 1), ("sub_int", 1), ("mul", 4), ("mul_digit", 1), ("mul_int", 1), ("square", 2), ("pow", 1),
            ("div", 4), ("rem", 4), ("div_digit", 1), ("rem_digit", 1), ("div_int", 1), ("rem_int", 1), ("shl", 1), ("shr", 1), ("new", 1), ("from", 1), ("cmp", 1), ("parse", 1), ("fmt", 1), ("to_decimal", 1)],
        _ => vec![],
    }
}

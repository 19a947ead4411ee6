//! Independent reference arithmetic on natural numbers (little-endian u64 limbs, no leading zero).
//! Nothing here is shared with the code under test.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Nat(pub Vec<u64>);

impl Nat {
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn from_u128(x: u128) -> Nat {
        let mut r = Nat(vec![x as u64, (x >> 64) as u64]);
        r.trim();
        r
    }
    fn trim(&mut self) { while let Some(&0) = self.0.last() { self.0.pop(); } }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn bits(&self) -> usize {
        match self.0.last() { None => 0, Some(t) => self.0.len() * 64 - t.leading_zeros() as usize }
    }
    pub fn mul_add_small(&mut self, m: u128, add: u64) {
        // m <= 2^64
        let mut carry: u128 = add as u128;
        if m == 1u128 << 64 {
            self.0.insert(0, add);
            self.trim();
            return;
        }
        for l in self.0.iter_mut() {
            let t = *l as u128 * m + carry;
            *l = t as u64;
            carry = t >> 64;
        }
        if carry > 0 { self.0.push(carry as u64); }
    }
    /// Divide by small m (1 <= m <= 2^64), return remainder
    pub fn divmod_small(&mut self, m: u128) -> u64 {
        if m == 1u128 << 64 {
            if self.0.is_empty() { return 0; }
            return self.0.remove(0);
        }
        let mut rem: u128 = 0;
        for l in self.0.iter_mut().rev() {
            let t = (rem << 64) | *l as u128;
            *l = (t / m) as u64;
            rem = t % m;
        }
        self.trim();
        rem as u64
    }
    pub fn from_digits(d: &[u64], base: u128) -> Nat {
        let mut r = Nat::zero();
        for &x in d.iter().rev() { r.mul_add_small(base, 0); r = r.add(&Nat::from_u128(x as u128)); }
        r
    }
    /// Fast path for digits that are all < base
    pub fn from_valid_digits(d: &[u64], base: u128) -> Nat {
        if base == 1u128 << 64 { let mut r = Nat(d.to_vec()); r.trim(); return r; }
        let mut r = Nat::zero();
        for &x in d.iter().rev() { r.mul_add_small(base, x); }
        r.trim();
        r
    }
    pub fn to_digits(&self, base: u128) -> Vec<u64> {
        let mut n = self.clone();
        let mut v = vec![];
        while !n.is_zero() { v.push(n.divmod_small(base)); }
        v
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            let t = *self.0.get(i).unwrap_or(&0) as u128 + *o.0.get(i).unwrap_or(&0) as u128 + c;
            r.push(t as u64);
            c = t >> 64;
        }
        if c > 0 { r.push(c as u64); }
        let mut r = Nat(r);
        r.trim();
        r
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Nat) -> Nat {
        let mut r = self.0.clone();
        let mut b = false;
        for i in 0..r.len() {
            let (x, b0) = r[i].overflowing_sub(*o.0.get(i).unwrap_or(&0));
            let (x, b1) = x.overflowing_sub(b as u64);
            r[i] = x;
            b = b0 || b1;
        }
        assert!(!b && o.0.len() <= self.0.len());
        let mut r = Nat(r);
        r.trim();
        r
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u128 * b as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        let mut r = Nat(r);
        r.trim();
        r
    }
    pub fn pow(&self, n: usize) -> Nat {
        let mut r = Nat::from_u128(1);
        for i in (0..usize::BITS).rev() {
            r = r.mul(&r);
            if n >> i & 1 == 1 { r = r.mul(self); }
        }
        r
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() { return Nat::zero(); }
        let mut r = vec![0u64; n / 64];
        let s = n % 64;
        let mut c = 0;
        for &l in &self.0 {
            r.push(l << s | c);
            c = if s == 0 { 0 } else { l >> (64 - s) };
        }
        r.push(c);
        let mut r = Nat(r);
        r.trim();
        r
    }
    pub fn shr(&self, n: usize) -> Nat {
        let (h, s) = (n / 64, n % 64);
        if h >= self.0.len() { return Nat::zero(); }
        let mut r = vec![];
        for i in h..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0);
            r.push(self.0[i] >> s | if s == 0 { 0 } else { hi << (64 - s) });
        }
        let mut r = Nat(r);
        r.trim();
        r
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() {
                if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
            }
            Ordering::Equal
        })
    }
    pub fn to_radix(&self, radix: u128) -> String {
        if self.is_zero() { return "0".into(); }
        let (chunk, k) = if radix == 10 { (10_000_000_000_000_000_000u128, 19) } else { (1u128 << 64, 16) };
        let mut n = self.clone();
        let mut parts = vec![];
        while !n.is_zero() { parts.push(n.divmod_small(chunk)); }
        let mut s = String::new();
        for (i, p) in parts.iter().rev().enumerate() {
            if i == 0 {
                s += &(if radix == 10 { format!("{}", p) } else { format!("{:x}", p) });
            } else {
                s += &(if radix == 10 { format!("{:0w$}", p, w = k) } else { format!("{:0w$x}", p, w = k) });
            }
        }
        s
    }
    pub fn parse(s: &[u8], radix: u32) -> Nat {
        let mut r = Nat::zero();
        for &c in s {
            r.mul_add_small(radix as u128, (c as char).to_digit(radix).unwrap() as u64);
        }
        r.trim();
        r
    }
}

//! Runs one case against the real crate and compares with the reference arithmetic.
use crate::case::*;
use crate::nat::Nat;
use babs::{BinaryDigit, DecimalDigit, UBig};
use num_traits::{One, Pow, Zero};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// wrong numeric value (or wrong text, or wrong error)
    Value,
    /// result has a leading zero digit or a digit outside the radix
    Canon,
    /// panicked on operands for which a result is defined
    Panic,
    /// returned although no result is defined
    NoPanic,
    /// different operator forms disagree
    Form,
    /// an operand that should stay intact was changed
    Mutated,
    /// did not finish
    Hang,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: Kind,
    pub msg: String,
}

/// What one operator form did: None = panicked
pub struct Form {
    pub name: &'static str,
    pub out: Option<Vec<u64>>,
    pub intact: bool,
}

pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn show(v: &[u64]) -> String {
    if v.len() > 40 { format!("[{} digits: {:?} ..]", v.len(), &v[..40]) } else { format!("{:?}", v) }
}

fn canonical(v: &[u64], base: u128) -> bool {
    v.last() != Some(&0) && v.iter().all(|&d| (d as u128) < base)
}

/// Judge the outcomes of all forms of one operation. `expect`: the value, or None if it must panic.
pub fn judge(out: &mut Vec<Finding>, forms: &[Form], expect: Option<&Nat>, base: u128) {
    let mut vals: Vec<(&str, Option<&Vec<u64>>)> = vec![];
    for f in forms {
        match (&f.out, expect) {
            (Some(r), Some(e)) => {
                let v = Nat::from_digits_any(r, base);
                if &v != e {
                    out.push(Finding { kind: Kind::Value, msg: format!("{}: wrong value, got digits {} expected {}", f.name, show(r), show(&e.to_digits(base))) });
                }
                if !canonical(r, base) {
                    out.push(Finding { kind: Kind::Canon, msg: format!("{}: result not canonical: {}", f.name, show(r)) });
                }
                vals.push((f.name, Some(r)));
            }
            (None, Some(e)) => {
                out.push(Finding { kind: Kind::Panic, msg: format!("{}: panicked, expected {}", f.name, show(&e.to_digits(base))) });
                vals.push((f.name, None));
            }
            (Some(r), None) => {
                out.push(Finding { kind: Kind::NoPanic, msg: format!("{}: returned {} where no result is defined", f.name, show(r)) });
                vals.push((f.name, Some(r)));
            }
            (None, None) => vals.push((f.name, None)),
        }
        if !f.intact {
            out.push(Finding { kind: Kind::Mutated, msg: format!("{}: an operand was changed", f.name) });
        }
    }
    for v in vals.iter().skip(1) {
        if v.1 != vals[0].1 {
            out.push(Finding { kind: Kind::Form, msg: format!("{} and {} disagree", vals[0].0, v.0) });
        }
    }
}

impl Nat {
    pub fn from_digits_any(d: &[u64], base: u128) -> Nat {
        if d.iter().all(|&x| (x as u128) < base) { Nat::from_valid_digits(d, base) } else { Nat::from_digits(d, base) }
    }
}

/// Formats like the standard library formats integers, from reference digits
struct RefFmt { dec: String, hex: String }
impl std::fmt::Display for RefFmt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(true, "", &self.dec) }
}
impl std::fmt::LowerHex for RefFmt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(true, "0x", &self.hex) }
}
impl std::fmt::UpperHex for RefFmt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(true, "0x", &self.hex.to_uppercase()) }
}

/// The grammar of the text form: Some(value) or None when malformed
pub fn ref_parse(s: &str) -> Option<Nat> {
    let by = s.as_bytes();
    if let Some(h) = by.strip_prefix(b"0x") {
        if h.is_empty() || !h.iter().all(|c| c.is_ascii_hexdigit()) { return None; }
        Some(Nat::parse(h, 16))
    } else {
        let d = by.strip_prefix(b"+").unwrap_or(by);
        if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) { return None; }
        Some(Nat::parse(d, 10))
    }
}

macro_rules! two_forms {
    // all forms of a binary operator with a big right-hand side
    ($a:expr, $b:expr, $mk:ident, $ds:ident, $o:tt, $oa:tt, $name:literal) => {{
        let (a, b): (&[u64], &[u64]) = ($a, $b);
        let mut v = vec![];
        let mut intact = true;
        let r = attempt(|| { let (x, y) = ($mk(a), $mk(b)); let r = &x $o &y; intact = $ds(&x) == a && $ds(&y) == b; $ds(&r) });
        v.push(Form { name: concat!("&a ", $name, " &b"), out: r, intact });
        let mut intact = true;
        let r = attempt(|| { let (x, y) = ($mk(a), $mk(b)); let r = &x $o y; intact = $ds(&x) == a; $ds(&r) });
        v.push(Form { name: concat!("&a ", $name, " b"), out: r, intact });
        let mut intact = true;
        let r = attempt(|| { let (x, y) = ($mk(a), $mk(b)); let r = x $o &y; intact = $ds(&y) == b; $ds(&r) });
        v.push(Form { name: concat!("a ", $name, " &b"), out: r, intact });
        let r = attempt(|| { let (x, y) = ($mk(a), $mk(b)); let r = x $o y; $ds(&r) });
        v.push(Form { name: concat!("a ", $name, " b"), out: r, intact: true });
        let mut intact = true;
        let r = attempt(|| { let (mut x, y) = ($mk(a), $mk(b)); x $oa &y; intact = $ds(&y) == b; $ds(&x) });
        v.push(Form { name: concat!("a ", $name, "= &b"), out: r, intact });
        let r = attempt(|| { let (mut x, y) = ($mk(a), $mk(b)); x $oa y; $ds(&x) });
        v.push(Form { name: concat!("a ", $name, "= b"), out: r, intact: true });
        v
    }};
}

macro_rules! one_forms {
    // all forms of an operator with a scalar right-hand side of type $st
    ($a:expr, $n:expr, $st:ty, $mk:ident, $ds:ident, $o:tt, $oa:tt, $name:literal) => {{
        let a: &[u64] = $a;
        let mut v = vec![];
        let mut intact = true;
        let r = attempt(|| { let x = $mk(a); let y: $st = $n; let r = &x $o y; intact = $ds(&x) == a; $ds(&r) });
        v.push(Form { name: concat!("&a ", $name, " n"), out: r, intact });
        let r = attempt(|| { let x = $mk(a); let y: $st = $n; let r = x $o y; $ds(&r) });
        v.push(Form { name: concat!("a ", $name, " n"), out: r, intact: true });
        let r = attempt(|| { let mut x = $mk(a); let y: $st = $n; x $oa y; $ds(&x) });
        v.push(Form { name: concat!("a ", $name, "= n"), out: r, intact: true });
        v
    }};
}

macro_rules! keep {
    ($n:literal, $c:ident, $z:ident, $mk:ident, $ds:ident, $out:ident, $x:ident, $e:expr) => {{
        let mut $x = $mk(&$c.a);
        let _ = attempt(|| $e);
        if $ds(&$x) != $c.a { $out.push(Finding { kind: Kind::Mutated, msg: format!("{} changed the dividend to {}", $n, show(&$ds(&$x))) }); }
        if $ds(&$z) != Vec::<u64>::new() { $out.push(Finding { kind: Kind::Mutated, msg: "divisor changed".into() }); }
    }}
}

macro_rules! cmpf {
    ($r:ident, $x:ident, $w:ident, $bad:ident, $out:ident; $($f:literal),*) => { $(
        let e = format!(concat!($f, "{e:.w$}"), $r, w = $w, e = "");
        match attempt(|| format!(concat!($f, "{e:.w$}"), $x, w = $w, e = "")) {
            None => $out.push(Finding { kind: Kind::Panic, msg: format!("formatting with {} panicked", stringify!($f)) }),
            Some(g) if g != e => $bad.push((stringify!($f), g, e)),
            _ => {}
        }
    )* }
}

macro_rules! def_type {
    ($m:ident, $d:ident, $s:ty, $idx:expr, $kind:ident) => {
        pub mod $m {
            use super::*;
            pub type D = $d<$s>;
            pub type B = UBig<D>;
            pub const BASE: u128 = BASES[$idx];

            pub fn mk(d: &[u64]) -> B { UBig::new(d.iter().map(|&x| $d(x as $s)).collect()) }
            pub fn ds(b: &B) -> Vec<u64> { b.digits().iter().map(|x| x.0 as u64).collect() }

            pub fn forms(c: &Case) -> Option<Vec<Form>> {
                let (a, b): (&[u64], &[u64]) = (&c.a, &c.b);
                let dg = $d(c.n as $s);
                let st = c.n as $s;
                let un = c.n as usize;
                Some(match c.op.as_str() {
                    "add" => two_forms!(a, b, mk, ds, +, +=, "+"),
                    "sub" => two_forms!(a, b, mk, ds, -, -=, "-"),
                    "mul" => two_forms!(a, b, mk, ds, *, *=, "*"),
                    "div" => {
                        let mut v = two_forms!(a, b, mk, ds, /, /=, "/");
                        let mut intact = true;
                        let r = attempt(|| { let (mut x, y) = (mk(a), mk(b)); let ok = x.div_assign_big(&y).is_ok(); intact = ds(&y) == b; if !ok { panic!() } ds(&x) });
                        v.push(Form { name: "div_assign_big quotient", out: r, intact });
                        v
                    }
                    "rem" => {
                        let mut v = two_forms!(a, b, mk, ds, %, %=, "%");
                        let mut intact = true;
                        let r = attempt(|| { let (mut x, y) = (mk(a), mk(b)); let r = x.div_assign_big(&y).ok().unwrap(); intact = ds(&y) == b; ds(&r) });
                        v.push(Form { name: "div_assign_big remainder", out: r, intact });
                        let mut intact = true;
                        let r = attempt(|| { let (mut x, y) = (mk(a), mk(b)); let ok = x.rem_assign_big(&y).is_ok(); intact = ds(&y) == b; if !ok { panic!() } ds(&x) });
                        v.push(Form { name: "rem_assign_big", out: r, intact });
                        v
                    }
                    "add_digit" => one_forms!(a, dg, D, mk, ds, +, +=, "+"),
                    "sub_digit" => one_forms!(a, dg, D, mk, ds, -, -=, "-"),
                    "mul_digit" => one_forms!(a, dg, D, mk, ds, *, *=, "*"),
                    "div_digit" => one_forms!(a, dg, D, mk, ds, /, /=, "/"),
                    "rem_digit" => one_forms!(a, dg, D, mk, ds, %, %=, "%"),
                    "add_int" => one_forms!(a, st, $s, mk, ds, +, +=, "+"),
                    "sub_int" => one_forms!(a, st, $s, mk, ds, -, -=, "-"),
                    "mul_int" => one_forms!(a, st, $s, mk, ds, *, *=, "*"),
                    "div_int" => one_forms!(a, st, $s, mk, ds, /, /=, "/"),
                    "rem_int" => one_forms!(a, st, $s, mk, ds, %, %=, "%"),
                    "shl" => one_forms!(a, un, usize, mk, ds, <<, <<=, "<<"),
                    "shr" => one_forms!(a, un, usize, mk, ds, >>, >>=, ">>"),
                    "square" => {
                        let mut intact = true;
                        let r = attempt(|| { let x = mk(a); let r = x.square(); intact = ds(&x) == a; ds(&r) });
                        vec![Form { name: "square", out: r, intact }]
                    }
                    "pow" => {
                        let mut intact = true;
                        let r = attempt(|| { let x = mk(a); let r = (&x).pow(un); intact = ds(&x) == a; ds(&r) });
                        let r1 = attempt(|| { let x = mk(a); ds(&x.pow(un)) });
                        vec![Form { name: "(&a).pow", out: r, intact }, Form { name: "a.pow", out: r1, intact: true }]
                    }
                    "new" => {
                        // here a may have leading zeros
                        let r = attempt(|| { let x = mk(a); if x.nr_digits() != x.digits().len() { panic!() } ds(&x) });
                        vec![Form { name: "new", out: r, intact: true }]
                    }
                    "from" => {
                        let r = attempt(|| ds(&B::from(st)));
                        vec![Form { name: "from", out: r, intact: true }]
                    }
                    "to_decimal" => def_type!(@todec $kind, c, a, mk, ds),
                    "parse" => {
                        let r = attempt(|| match c.s.parse::<B>() { Ok(x) => Some(ds(&x)), Err(_) => None });
                        match r {
                            // an error is represented as a panic-free refusal: handled by the caller through out = None
                            Some(x) => vec![Form { name: "parse", out: x, intact: true }],
                            None => vec![Form { name: "parse (panicked)", out: Some(vec![u64::MAX; 3]), intact: false }],
                        }
                    }
                    _ => return None,
                })
            }

            pub fn check(c: &Case) -> Vec<Finding> {
                let mut out = vec![];
                let (na, nb) = (c.na(), c.nb());
                let nn = Nat::from_u128(c.n as u128);
                let mut base = BASE;
                match c.op.as_str() {
                    "add" | "add_digit" | "add_int" | "sub" | "sub_digit" | "sub_int" | "mul" | "mul_digit" | "mul_int"
                    | "shl" | "shr" | "square" | "pow" | "new" | "from" | "to_decimal" => {
                        let e = match c.op.as_str() {
                            "add" => Some(na.add(&nb)),
                            "add_digit" | "add_int" => Some(na.add(&nn)),
                            "sub" => if na.cmp(&nb) == Ordering::Less { None } else { Some(na.sub(&nb)) },
                            "sub_digit" | "sub_int" => if na.cmp(&nn) == Ordering::Less { None } else { Some(na.sub(&nn)) },
                            "mul" => Some(na.mul(&nb)),
                            "mul_digit" | "mul_int" => Some(na.mul(&nn)),
                            "shl" => Some(na.shl(c.n as usize)),
                            "shr" => Some(na.shr(c.n as usize)),
                            "square" => Some(na.mul(&na)),
                            "pow" => Some(na.pow(c.n as usize)),
                            "new" => Some(na.clone()),
                            "from" => Some(nn.clone()),
                            _ => { if c.is_bin() { base = BASES[$idx % 4 + 4]; } Some(na.clone()) }
                        };
                        judge(&mut out, &forms(c).unwrap(), e.as_ref(), base);
                    }
                    // division: checked through the Euclid identity
                    "div" | "div_digit" | "div_int" => {
                        let d = if c.op == "div" { &nb } else { &nn };
                        if d.is_zero() { judge(&mut out, &forms(c).unwrap(), None, BASE); }
                        else {
                            let f = forms(c).unwrap();
                            // expected quotient: take the first form's quotient if it satisfies q*d <= a < (q+1)*d, otherwise long division
                            let e = f[0].out.as_ref().map(|r| Nat::from_digits_any(r, BASE)).filter(|q| {
                                let p = q.mul(d);
                                p.cmp(&na) != Ordering::Greater && na.cmp(&p.add(d)) == Ordering::Less
                            }).unwrap_or_else(|| slow_div(&na, d).0);
                            judge(&mut out, &f, Some(&e), BASE);
                        }
                    }
                    "rem" | "rem_digit" | "rem_int" => {
                        let d = if c.op == "rem" { &nb } else { &nn };
                        if d.is_zero() { judge(&mut out, &forms(c).unwrap(), None, BASE); }
                        else {
                            let f = forms(c).unwrap();
                            let e = slow_div(&na, d).1;
                            judge(&mut out, &f, Some(&e), BASE);
                        }
                    }
                    "divzero" => {
                        for (op, b, n) in [("div", vec![], 0), ("rem", vec![], 0), ("div_digit", vec![], 0), ("rem_digit", vec![], 0), ("div_int", vec![], 0), ("rem_int", vec![], 0)] {
                            let c2 = Case { ty: c.ty, op: op.into(), a: c.a.clone(), b, n, s: String::new() };
                            judge(&mut out, &forms(&c2).unwrap(), None, BASE);
                        }
                        out.retain(|f| f.kind != Kind::Mutated);
                        // operands stay as they were, and the error says so
                        let z = mk(&[]);
                        let mut x = mk(&c.a);
                        match attempt(|| x.div_assign_big(&z).map_err(|e| e.to_string())) {
                            Some(Err(e)) if e == "Division by zero" => {}
                            o => out.push(Finding { kind: Kind::Value, msg: format!("div_assign_big by zero gave {:?}", o.map(|r| r.map(|u| ds(&u)))) }),
                        }
                        if ds(&x) != c.a { out.push(Finding { kind: Kind::Mutated, msg: format!("div_assign_big by zero changed the dividend to {}", show(&ds(&x))) }); }
                        let mut x = mk(&c.a);
                        match attempt(|| x.rem_assign_big(&z).map_err(|e| e.to_string())) {
                            Some(Err(e)) if e == "Division by zero" => {}
                            o => out.push(Finding { kind: Kind::Value, msg: format!("rem_assign_big by zero gave {:?}", o) }),
                        }
                        if ds(&x) != c.a { out.push(Finding { kind: Kind::Mutated, msg: format!("rem_assign_big by zero changed the dividend to {}", show(&ds(&x))) }); }
                        let _ = &z;
                        keep!("a /= &0", c, z, mk, ds, out, x, x /= &z);
                        keep!("a /= 0", c, z, mk, ds, out, x, x /= mk(&[]));
                        keep!("a %= &0", c, z, mk, ds, out, x, x %= &z);
                        keep!("a /= digit 0", c, z, mk, ds, out, x, x /= $d(0 as $s));
                        keep!("a %= digit 0", c, z, mk, ds, out, x, x %= $d(0 as $s));
                        keep!("a /= int 0", c, z, mk, ds, out, x, x /= 0 as $s);
                        keep!("a %= int 0", c, z, mk, ds, out, x, x %= 0 as $s);
                        
                        
                    }
                    "cmp" => {
                        let (x, y) = (mk(&c.a), mk(&c.b));
                        let e = na.cmp(&nb);
                        let r = attempt(|| {
                            let mut bad = vec![];
                            if x.cmp(&y) != e { bad.push("cmp"); }
                            if x.partial_cmp(&y) != Some(e) { bad.push("partial_cmp"); }
                            if (x < y) != (e == Ordering::Less) { bad.push("<"); }
                            if (x <= y) != (e != Ordering::Greater) { bad.push("<="); }
                            if (x > y) != (e == Ordering::Greater) { bad.push(">"); }
                            if (x >= y) != (e != Ordering::Less) { bad.push(">="); }
                            if (x == y) != (e == Ordering::Equal) { bad.push("=="); }
                            if (x != y) != (e != Ordering::Equal) { bad.push("!="); }
                            if x.clone().max(y.clone()) != (if e == Ordering::Greater { x.clone() } else { y.clone() }) { bad.push("max"); }
                            if x.clone().min(y.clone()) != (if e == Ordering::Greater { y.clone() } else { x.clone() }) { bad.push("min"); }
                            if x.is_zero() != na.is_zero() { bad.push("is_zero"); }
                            if x.is_one() != (na == Nat::from_u128(1)) { bad.push("is_one"); }
                            bad
                        });
                        match r {
                            None => out.push(Finding { kind: Kind::Panic, msg: "comparison panicked".into() }),
                            Some(b) if !b.is_empty() => out.push(Finding { kind: Kind::Value, msg: format!("{:?} wrong, expected {:?}", b, e) }),
                            _ => {}
                        }
                        if ds(&x) != c.a || ds(&y) != c.b { out.push(Finding { kind: Kind::Mutated, msg: "comparison changed an operand".into() }); }
                    }
                    "consts" => {
                        let f = vec![Form { name: "zero", out: attempt(|| ds(&B::zero())), intact: true }];
                        judge(&mut out, &f, Some(&Nat::zero()), BASE);
                        let f = vec![Form { name: "one", out: attempt(|| ds(&B::one())), intact: true }];
                        judge(&mut out, &f, Some(&Nat::from_u128(1)), BASE);
                    }
                    "parse" => {
                        let f = forms(c).unwrap();
                        let e = ref_parse(&c.s);
                        if !f[0].intact { out.push(Finding { kind: Kind::Panic, msg: "parse panicked".into() }); }
                        else { match (&f[0].out, &e) {
                            (None, None) => {
                                let e = attempt(|| c.s.parse::<B>().err().unwrap().to_string());
                                if e.as_deref() != Some("Invalid number") { out.push(Finding { kind: Kind::Value, msg: format!("parse error is {:?}", e) }); }
                            }
                            (Some(r), None) => out.push(Finding { kind: Kind::Value, msg: format!("parse accepted malformed text as {}", show(r)) }),
                            (None, Some(e)) => out.push(Finding { kind: Kind::Value, msg: format!("parse refused, expected {}", show(&e.to_digits(BASE))) }),
                            (Some(_), Some(e)) => judge(&mut out, &f, Some(e), BASE),
                        }}
                    }
                    "fmt" => {
                        let x = mk(&c.a);
                        let r = RefFmt { dec: na.to_radix(10), hex: na.to_radix(16) };
                        let w = c.n as usize % 400;
                        let mut bad = vec![];
                        cmpf!(r, x, w, bad, out; "{:>w$}", "{:<w$}", "{:^w$}", "{:0w$}", "{:+0w$}", "{:+}", "{:#}", "{:-w$}", "{:*<+w$}", "{:.3}", "{:w$.2}", "{:+#0w$.1}");
                        if format!("{}", r) != attempt(|| x.to_string()).unwrap_or_default() { bad.push(("to_string", attempt(|| x.to_string()).unwrap_or_default(), r.to_string())); }
                        def_type!(@hexfmt $kind, r, x, w, bad, out);
                        // round trip
                        match attempt(|| x.to_string().parse::<B>().ok().map(|y| ds(&y))) {
                            Some(Some(y)) if y == c.a => {}
                            o => out.push(Finding { kind: Kind::Value, msg: format!("decimal round trip gave {:?}", o) }),
                        }
                        def_type!(@hexround $kind, x, c, out);
                        for (f, g, e) in bad { out.push(Finding { kind: Kind::Value, msg: format!("format {} gave {:?}, expected {:?}", f, g, e) }); }
                        if ds(&x) != c.a { out.push(Finding { kind: Kind::Mutated, msg: "formatting changed the number".into() }); }
                    }
                    "hist" => {
                        let mut rng = crate::gen::Rng::new(c.n);
                        let mut x = match attempt(|| mk(&c.a)) { Some(x) => x, None => return out };
                        let mut v = na.clone();
                        for step in 0..12 {
                            let k = rng.below(14);
                            let other = crate::gen::gen_num(&mut rng, BASE, crate::gen::small_len);
                            let on = Nat::from_valid_digits(&other, BASE);
                            let o = mk(&other);
                            let sh = rng.below(80) as usize;
                            let (name, nv): (&str, Option<Nat>) = match k {
                                0 | 1 => ("+=", Some(v.add(&on))),
                                2 | 3 => ("-=", if v.cmp(&on) == Ordering::Less { None } else { Some(v.sub(&on)) }),
                                4 | 5 => ("*=", Some(v.mul(&on))),
                                6 => ("/=", if on.is_zero() { None } else { Some(slow_div(&v, &on).0) }),
                                7 => ("%=", if on.is_zero() { None } else { Some(slow_div(&v, &on).1) }),
                                8 => ("<<=", Some(v.shl(sh))),
                                9 => (">>=", Some(v.shr(sh))),
                                10 => ("self -= self", Some(Nat::zero())),
                                11 => ("square", Some(v.mul(&v))),
                                12 => ("x - (x-1)", if v.is_zero() { None } else { Some(Nat::from_u128(1)) }),
                                _ => ("low part", if on.is_zero() { None } else { Some(slow_div(&v, &on).1) }),
                            };
                            let nv = match nv { Some(n) => n, None => continue };
                            let y = x.clone();
                            let r = attempt(move || { let mut x = y; match k {
                                0 => x += &o, 1 => x += o,
                                2 => x -= &o, 3 => x -= o,
                                4 => x *= &o, 5 => x *= o,
                                6 => x /= &o, 7 => x %= &o,
                                8 => x <<= sh, 9 => x >>= sh,
                                10 => { let z = x.clone(); x -= &z; }
                                11 => x = x.square(),
                                12 => { let z = &x - $d(1 as $s); x -= &z; }
                                _ => { x = x.div_assign_big(&o).ok().unwrap(); }
                            } x });
                            match r {
                                None => { out.push(Finding { kind: Kind::Panic, msg: format!("step {} ({}) panicked on {}", step, name, show(&ds(&x))) }); return out; }
                                Some(y) => {
                                    let d = ds(&y);
                                    if !canonical(&d, BASE) { out.push(Finding { kind: Kind::Canon, msg: format!("step {} ({}): {} became non-canonical {}", step, name, show(&ds(&x)), show(&d)) }); return out; }
                                    let w = Nat::from_digits_any(&d, BASE);
                                    if w != nv { out.push(Finding { kind: Kind::Value, msg: format!("step {} ({}): {} became {}", step, name, show(&ds(&x)), show(&d)) }); return out; }
                                    if w.is_zero() != y.is_zero() { out.push(Finding { kind: Kind::Canon, msg: format!("step {}: is_zero wrong", step) }); return out; }
                                    x = y;
                                    v = nv;
                                    if v.bits() > 6000 { x = mk(&c.a); v = na.clone(); }
                                }
                            }
                        }
                    }
                    _ => out.push(Finding { kind: Kind::Hang, msg: format!("unknown op {}", c.op) }),
                }
                out
            }
        }
    };
    (@todec bin, $c:ident, $a:ident, $mk:ident, $ds:ident) => {{
        let mut intact = true;
        let r = attempt(|| { let x = $mk($a); let r = x.to_decimal(); intact = $ds(&x) == $a; r.digits().iter().map(|x| x.0 as u64).collect() });
        vec![Form { name: "to_decimal", out: r, intact }]
    }};
    (@todec dec, $c:ident, $a:ident, $mk:ident, $ds:ident) => {{ vec![] }};
    (@hexfmt bin, $r:ident, $x:ident, $w:ident, $bad:ident, $out:ident) => { cmpf!($r, $x, $w, $bad, $out; "{:w$x}", "{:#w$x}", "{:0w$x}", "{:#0w$x}", "{:w$X}", "{:#w$X}", "{:0w$X}",
        "{:+x}", "{:#x}", "{:+#x}", "{:.2x}", "{:<w$x}", "{:_^+w$x}", "{:*>#w$x}", "{:+#0w$x}", "{:+0w$.1x}",
        "{:+X}", "{:#X}", "{:+#X}", "{:.2X}", "{:<w$X}", "{:_^+w$X}", "{:*>#w$X}", "{:+#0w$X}", "{:+0w$.1X}", "{:#0w$X}") };
    (@hexfmt dec, $r:ident, $x:ident, $w:ident, $bad:ident, $out:ident) => { };
    (@hexround bin, $x:ident, $c:ident, $out:ident) => {
        match attempt(|| (format!("{:#x}", $x).parse::<B>().ok().map(|y| ds(&y)), format!("0x{:X}", $x).parse::<B>().ok().map(|y| ds(&y)))) {
            Some((Some(y), Some(z))) if y == $c.a && z == $c.a => {}
            o => $out.push(Finding { kind: Kind::Value, msg: format!("hexadecimal round trip gave {:?}", o) }),
        }
    };
    (@hexround dec, $x:ident, $c:ident, $out:ident) => { };
}

def_type!(bin8, BinaryDigit, u8, 0, bin);
def_type!(bin16, BinaryDigit, u16, 1, bin);
def_type!(bin32, BinaryDigit, u32, 2, bin);
def_type!(bin64, BinaryDigit, u64, 3, bin);
def_type!(dec8, DecimalDigit, u8, 4, dec);
def_type!(dec16, DecimalDigit, u16, 5, dec);
def_type!(dec32, DecimalDigit, u32, 6, dec);
def_type!(dec64, DecimalDigit, u64, 7, dec);

pub fn forms(c: &Case) -> Option<Vec<Form>> {
    match c.ty {
        0 => bin8::forms(c), 1 => bin16::forms(c), 2 => bin32::forms(c), 3 => bin64::forms(c),
        4 => dec8::forms(c), 5 => dec16::forms(c), 6 => dec32::forms(c), _ => dec64::forms(c),
    }
}

fn check_type(c: &Case) -> Vec<Finding> {
    match c.ty {
        0 => bin8::check(c), 1 => bin16::check(c), 2 => bin32::check(c), 3 => bin64::check(c),
        4 => dec8::check(c), 5 => dec16::check(c), 6 => dec32::check(c), _ => dec64::check(c),
    }
}

/// One computation carried out in all eight representations
fn check_xrep(c: &Case) -> Vec<Finding> {
    let mut out = vec![];
    let (na, nb) = (c.na(), c.nb());
    let mut first: Option<(usize, Option<Nat>)> = None;
    for ty in 0..8 {
        let op = &c.op["x_".len()..];
        if op == "to_decimal" && ty >= 4 { continue; }
        let c2 = Case { ty, op: op.into(), a: na.to_digits(BASES[ty]), b: nb.to_digits(BASES[ty]), n: c.n, s: c.s.clone() };
        let f = forms(&c2).unwrap();
        let base = if op == "to_decimal" { BASES[ty + 4] } else { BASES[ty] };
        let v = f[0].out.as_ref().map(|r| Nat::from_digits_any(r, base));
        match &first {
            None => first = Some((ty, v)),
            Some((t0, v0)) => if *v0 != v {
                out.push(Finding { kind: Kind::Value, msg: format!("{} gives {} in {} but {} in {}", op,
                    v0.as_ref().map(|x| x.to_radix(10)).unwrap_or("no result".into()), TYPES[*t0],
                    v.as_ref().map(|x| x.to_radix(10)).unwrap_or("no result".into()), TYPES[ty]) });
                return out;
            }
        }
    }
    out
}

pub fn check(c: &Case) -> Vec<Finding> {
    if c.op.starts_with("x_") { check_xrep(c) } else { check_type(c) }
}

/// Exact long division on the reference numbers (normalised, base 2^32)
pub fn slow_div(a: &Nat, d: &Nat) -> (Nat, Nat) {
    assert!(!d.is_zero());
    if a.cmp(d) == Ordering::Less { return (Nat::zero(), a.clone()); }
    let lim = |n: &Nat| -> Vec<u64> { let mut v: Vec<u64> = n.0.iter().flat_map(|&l| [l & 0xffff_ffff, l >> 32]).collect(); while v.last() == Some(&0) { v.pop(); } v };
    let back = |v: &[u64]| -> Nat { Nat::from_valid_digits(v, 1 << 32) };
    let mut den = lim(d);
    let mut num = lim(a);
    if den.len() == 1 {
        let mut q = a.clone();
        let r = q.divmod_small(den[0] as u128);
        return (q, Nat::from_u128(r as u128));
    }
    let s = (*den.last().unwrap() as u32).leading_zeros();
    let sh = |v: &mut Vec<u64>| { let mut c = 0; for x in v.iter_mut() { let t = *x << s | c; *x = t & 0xffff_ffff; c = t >> 32; } v.push(c); };
    sh(&mut den);
    assert_eq!(den.pop(), Some(0));
    sh(&mut num);
    let n = den.len();
    let m = num.len() - n;
    let mut q = vec![0u64; m];
    for j in (0..m).rev() {
        let top = (num[j + n] as u128) << 32 | num[j + n - 1] as u128;
        let mut qh = top / den[n - 1] as u128;
        let mut rh = top % den[n - 1] as u128;
        while qh >= 1 << 32 || qh * den[n - 2] as u128 > (rh << 32 | num[j + n - 2] as u128) {
            qh -= 1;
            rh += den[n - 1] as u128;
            if rh >= 1 << 32 { break; }
        }
        let mut borrow: i128 = 0;
        for i in 0..n {
            let t = num[i + j] as i128 - borrow - ((qh * den[i] as u128) & 0xffff_ffff) as i128;
            num[i + j] = (t & 0xffff_ffff) as u64;
            borrow = ((qh * den[i] as u128) >> 32) as i128 - (t >> 32);
        }
        let t = num[j + n] as i128 - borrow;
        num[j + n] = (t & 0xffff_ffff) as u64;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = num[i + j] + den[i] + c;
                num[i + j] = t & 0xffff_ffff;
                c = t >> 32;
            }
            num[j + n] = (num[j + n] + c) & 0xffff_ffff;
        }
        q[j] = qh as u64;
    }
    let mut r = back(&num[..n]);
    r = r.shr(s as usize);
    let q = back(&q);
    assert!(q.mul(d).add(&r) == *a && r.cmp(d) == Ordering::Less);
    (q, r)
}

/// Standard library operations named by the extraction; their contracts are assumptions.
pub mod shim {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    use crate::spec::*;
    use crate::num_traits::*;

    pub fn assertion_failed() requires false { }
    #[verifier::external_body]
    pub fn panicked() -> ! requires false { panic!() }
    /// slice range check: start <= end <= len
    pub fn chk_range(lo: usize, hi: usize, len: usize) requires lo <= hi <= len { }
    pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == imin(a as int, b as int) { if a <= b { a } else { b } }
    pub fn sub_or_zero(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { 0int }) { if a >= b { a - b } else { 0 } }

    #[verifier::external_body]
    pub fn strip_prefix_str<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
        ensures match r { Some(t) => p@.is_prefix_of(s@) && t@ == s@.skip(p@.len() as int), None => !p@.is_prefix_of(s@) } { s.strip_prefix(p) }
    #[verifier::external_body]
    pub fn strip_prefix_char<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
        ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.skip(1), None => !(s@.len() > 0 && s@[0] == c) } { s.strip_prefix(c) }
    #[verifier::external_body]
    pub fn nr_chars(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
    #[verifier::external_body]
    pub fn char_at(s: &str, i: usize) -> (r: char) requires i < s@.len() ensures r == s@[i as int] { s.chars().nth(i).unwrap() }
    pub fn nr_chunks(p: &[u8], k: usize) -> (r: usize) requires k > 0 ensures r == crate::text::nchunks(p@.len() as int, k as int)
    {
        proof {
            let (n, k) = (p@.len() as int, k as int); let q = n / k;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, k);
            let m = n % k;
            assert(0 <= q <= n) by (nonlinear_arith) requires n == k * q + m, k > 0, n >= 0, 0 <= m < k;
            if m > 0 { assert(q < n) by (nonlinear_arith) requires n == k * q + m, k > 0, m > 0, q >= 0; }
            let (q2, r2) = (if m > 0 { q + 1 } else { q }, if m > 0 { m - 1 } else { k - 1 });
            assert(n + k - 1 == q2 * k + r2) by (nonlinear_arith) requires n == k * q + m, q2 == (if m > 0 { q + 1 } else { q }), r2 == (if m > 0 { m - 1 } else { k - 1 }), 0 <= m;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + k - 1, k, q2, r2);
        }
        if p.len() % k == 0 { p.len() / k } else { p.len() / k + 1 }
    }
    /// piece j, counted from the end
    pub fn rchunk(p: &[u8], k: usize, j: usize) -> (r: &[u8]) requires k > 0, j < crate::text::nchunks(p@.len() as int, k as int)
        ensures r@ == p@.subrange(crate::text::cut_lo(p@.len() as int, k as int, j + 1), crate::text::cut_lo(p@.len() as int, k as int, j as int))
    {
        proof { crate::text::chunk_bounds(p@.len() as int, k as int, j as int); assert((j + 1) * k == j * k + k) by (nonlinear_arith); }
        let hi = p.len() - j * k;
        let lo = if hi > k { hi - k } else { 0 };
        &p[lo..hi]
    }

    /// `x |= e`, both operands evaluated
    pub trait Bor: Sized { spec fn bor_spec(a: Self, b: Self) -> Self; fn bor(a: Self, b: Self) -> (r: Self) ensures r == Self::bor_spec(a, b); }
    impl Bor for bool { open spec fn bor_spec(a: bool, b: bool) -> bool { a || b } fn bor(a: bool, b: bool) -> bool { a || b } }
    impl Bor for u8 { open spec fn bor_spec(a: u8, b: u8) -> u8 { a | b } fn bor(a: u8, b: u8) -> u8 { a | b } }
    impl Bor for u64 { open spec fn bor_spec(a: u64, b: u64) -> u64 { a | b } fn bor(a: u64, b: u64) -> u64 { a | b } }
    impl Bor for usize { open spec fn bor_spec(a: usize, b: usize) -> usize { a | b } fn bor(a: usize, b: usize) -> usize { a | b } }

    #[verifier::external_body]
    pub fn iter_rev_cmp<T: Ord>(a: &[T], b: &[T]) -> (r: Ordering)
        ensures T::obeys_cmp_spec() && a@.len() == b@.len() ==> r == rlex(a@, b@, a@.len() as int)
    { a.iter().rev().cmp(b.iter().rev()) }
    #[verifier::external_body]
    pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
    #[verifier::external_body]
    pub fn vec_of1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { vec![x] }
    #[verifier::external_body]
    pub fn vec_of2<T>(x: T, y: T) -> (r: Vec<T>) ensures r@ == seq![x, y] { vec![x, y] }
    #[verifier::external_body]
    pub fn vec_extend_repeat<T: Copy>(v: &mut Vec<T>, x: T, n: usize) ensures final(v)@ == old(v)@ + Seq::new(n as nat, |i: int| x) { v.extend(std::iter::repeat(x).take(n)); }
    #[verifier::external_body]
    pub fn vec_prepend_repeat<T: Copy>(v: &mut Vec<T>, x: T, n: usize) ensures final(v)@ == Seq::new(n as nat, |i: int| x) + old(v)@ { v.splice(..0, std::iter::repeat(x).take(n)); }
    #[verifier::external_body]
    pub fn vec_drop_front<T>(v: &mut Vec<T>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int) { v.drain(..n); }
    #[verifier::external_body]
    pub fn slice_fill<T: Copy>(s: &mut [T], x: T) ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| x) { s.fill(x); }
    #[verifier::external_body]
    pub fn slice_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
    /// digits are plain data: a clone is a copy
    #[verifier::external_body]
    pub fn vec_clone<T: Clone>(s: &Vec<T>) -> (r: Vec<T>) ensures r@ == s@ { s.clone() }
    #[verifier::external_body]
    pub fn vec_extend_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s); }
    #[verifier::external_body]
    pub fn vec_eq<T: PartialEq>(a: &Vec<T>, b: &Vec<T>) -> (r: bool)
        ensures T::obeys_eq_spec() ==> r == (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).eq_spec(&b@[i])) { a == b }
}

pub assume_specification [u8::max_value] () -> (r: u8) ensures r == u8::MAX;
pub assume_specification [u16::max_value] () -> (r: u16) ensures r == u16::MAX;
pub assume_specification [u32::max_value] () -> (r: u32) ensures r == u32::MAX;
pub assume_specification [u64::max_value] () -> (r: u64) ensures r == u64::MAX;
pub assume_specification [u8::overflowing_add] (a: u8, b: u8) -> (r: (u8, bool)) ensures r.1 == (a + b > u8::MAX), r.0 == (if r.1 { a + b - u8::MAX - 1 } else { a + b });
pub assume_specification [u16::overflowing_add] (a: u16, b: u16) -> (r: (u16, bool)) ensures r.1 == (a + b > u16::MAX), r.0 == (if r.1 { a + b - u16::MAX - 1 } else { a + b });
pub assume_specification [u32::overflowing_add] (a: u32, b: u32) -> (r: (u32, bool)) ensures r.1 == (a + b > u32::MAX), r.0 == (if r.1 { a + b - u32::MAX - 1 } else { a + b });
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a + b > u64::MAX), r.0 == (if r.1 { a + b - u64::MAX - 1 } else { a + b });
pub assume_specification [u8::overflowing_sub] (a: u8, b: u8) -> (r: (u8, bool)) ensures r.1 == (a < b), r.0 == (if r.1 { a - b + u8::MAX + 1 } else { a - b });
pub assume_specification [u16::overflowing_sub] (a: u16, b: u16) -> (r: (u16, bool)) ensures r.1 == (a < b), r.0 == (if r.1 { a - b + u16::MAX + 1 } else { a - b });
pub assume_specification [u32::overflowing_sub] (a: u32, b: u32) -> (r: (u32, bool)) ensures r.1 == (a < b), r.0 == (if r.1 { a - b + u32::MAX + 1 } else { a - b });
pub assume_specification [u64::overflowing_sub] (a: u64, b: u64) -> (r: (u64, bool)) ensures r.1 == (a < b), r.0 == (if r.1 { a - b + u64::MAX + 1 } else { a - b });

pub assume_specification<T> [core::mem::replace::<T>] (dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
pub assume_specification [usize::leading_zeros] (a: usize) -> (r: u32) ensures
    a == 0 ==> r == usize::BITS, a != 0 ==> r < usize::BITS && vstd::arithmetic::power2::pow2((usize::BITS - 1 - r) as nat) <= a < vstd::arithmetic::power2::pow2((usize::BITS - r) as nat);

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
pub assume_specification [core::str::from_utf8] (v: &[u8]) -> (r: Result<&str, core::str::Utf8Error>)
    ensures (forall|i: int| 0 <= i < v@.len() ==> v@[i] < 128) ==> r is Ok && r.unwrap()@ == crate::text::chars_of(v@);
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == (crate::text::cval(c) < radix);
pub assume_specification [u8::from_str_radix] (s: &str, radix: u32) -> (r: Result<u8, core::num::ParseIntError>)
    requires 2 <= radix <= 36 ensures s@.len() > 0 && crate::text::digs(s@, radix as nat) ==> if crate::text::sval(s@, radix as nat) <= u8::MAX { r is Ok && r.unwrap() == crate::text::sval(s@, radix as nat) } else { r is Err };
pub assume_specification [u16::from_str_radix] (s: &str, radix: u32) -> (r: Result<u16, core::num::ParseIntError>)
    requires 2 <= radix <= 36 ensures s@.len() > 0 && crate::text::digs(s@, radix as nat) ==> if crate::text::sval(s@, radix as nat) <= u16::MAX { r is Ok && r.unwrap() == crate::text::sval(s@, radix as nat) } else { r is Err };
pub assume_specification [u32::from_str_radix] (s: &str, radix: u32) -> (r: Result<u32, core::num::ParseIntError>)
    requires 2 <= radix <= 36 ensures s@.len() > 0 && crate::text::digs(s@, radix as nat) ==> if crate::text::sval(s@, radix as nat) <= u32::MAX { r is Ok && r.unwrap() == crate::text::sval(s@, radix as nat) } else { r is Err };
pub assume_specification [u64::from_str_radix] (s: &str, radix: u32) -> (r: Result<u64, core::num::ParseIntError>)
    requires 2 <= radix <= 36 ensures s@.len() > 0 && crate::text::digs(s@, radix as nat) ==> if crate::text::sval(s@, radix as nat) <= u64::MAX { r is Ok && r.unwrap() == crate::text::sval(s@, radix as nat) } else { r is Err };

global size_of usize == 8;
// ---------------------------------------------------------------------------
// Stand-ins for the num_traits items the crate uses (same signatures, with contracts).
pub mod num_traits {
    use vstd::prelude::*;
    use crate::spec::*;
    pub trait Zero: NumVal {
        fn zero() -> (r: Self) ensures r.nwf(), r.nv() == 0;
        fn is_zero(&self) -> (r: bool) requires self.nwf() ensures r == (self.nv() == 0);
    }
    pub trait One: NumVal {
        fn one() -> (r: Self) ensures r.nwf(), r.nv() == 1;
    }
    pub trait Pow<E> {
        type Output;
        spec fn pow_req(self, e: E) -> bool;
        spec fn pow_ens(self, e: E, r: Self::Output) -> bool;
        fn pow(self, e: E) -> (r: Self::Output) where Self: Sized requires self.pow_req(e) ensures self.pow_ens(e, r);
    }
}

pub mod spec {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    use crate::digit::Digit;
    pub use core::cmp::Ordering;

    /// Ghost view of anything that stands for a natural number.
    pub trait NumVal: Sized {
        /// the number
        spec fn nv(&self) -> nat;
        /// well-formedness
        spec fn nwf(&self) -> bool;
        /// number of values of the storage type
        spec fn nbase() -> nat;
        /// decimal radix of the storage type
        spec fn ndec() -> nat;
        /// width of the storage type
        spec fn nbits() -> nat;
        spec fn is_prim() -> bool;
        /// the storage type of a digit is a primitive integer
        spec fn st_prim() -> bool;
        /// a binary digit: every bit pattern is valid
        spec fn is_bin() -> bool;
        proof fn ax_prim() ensures Self::is_prim() ==> Self::nbits() == 8 * vstd::layout::size_of::<Self>() && Self::nbase() == vstd::arithmetic::power2::pow2(Self::nbits())
            && 8 <= Self::nbits() <= 64 && vstd::arithmetic::power2::pow2((Self::nbits() - 4) as nat) < Self::ndec() && 100 <= Self::ndec() < Self::nbase() && Self::nbase() <= Self::ndec() * Self::ndec()
            && vstd::arithmetic::power::pow(10, (Self::nbits() * 4004 / 13301) as nat) == Self::ndec()
            && 0 < vstd::arithmetic::power::pow(10, (Self::nbits() / 8 * 643 / 267) as nat) < Self::nbase(),
            Self::ndec() >= 2;
    }

    pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
    pub open spec fn cmpn(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
    pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

    /// comparison of equally long digit sequences, most significant digit first
    pub open spec fn rlex<T: Ord>(a: Seq<T>, b: Seq<T>, n: int) -> Ordering decreases n {
        if n <= 0 { Ordering::Equal } else { match a[n - 1].cmp_spec(&b[n - 1]) { Ordering::Equal => rlex(a, b, n - 1), o => o } }
    }

    /// all digits valid
    pub open spec fn dok<T: NumVal>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nwf() }
    /// no leading zero
    pub open spec fn dnorm<T: NumVal>(s: Seq<T>) -> bool { s.len() > 0 ==> s[s.len() - 1].nv() != 0 }
    /// base to the power k
    #[verifier::opaque]
    pub open spec fn bp<T: Digit>(k: int) -> nat decreases k { if k <= 0 { 1 } else { T::dbase() * bp::<T>(k - 1) } }
    /// a carry out of n digits
    pub open spec fn cb<T: Digit>(c: bool, n: int) -> nat { if c { bp::<T>(n) } else { 0 } }
    /// value of the first n digits
    #[verifier::opaque]
    pub open spec fn pv<T: Digit>(s: Seq<T>, n: int) -> nat decreases n { if n <= 0 { 0 } else { pv(s, n - 1) + s[n - 1].nv() * bp::<T>(n - 1) } }
    /// value of all digits
    pub open spec fn vl<T: Digit>(s: Seq<T>) -> nat { pv(s, s.len() as int) }
    /// value of the digits in [k, n)
    pub open spec fn sv<T: Digit>(s: Seq<T>, k: int, n: int) -> nat { vl(s.subrange(k, n)) }
    /// m is the length of s without leading zeros
    pub open spec fn nlen<T: NumVal>(s: Seq<T>, m: int) -> bool { 0 <= m <= s.len() && (m > 0 ==> s[m - 1].nv() != 0) && forall|i: int| m <= i < s.len() ==> (#[trigger] s[i]).nv() == 0 }
}

== super digit::DigitStorage + std::ops::Add<Output=Self>
== drop result::<Error as Display>
== block mod digit
use vstd::std_specs::cmp::*;
use vstd::arithmetic::power2::*;
use vstd::std_specs::ops::*;
impl<T: NumVal> NumVal for BinaryDigit<T> {
    open spec fn nv(&self) -> nat { self.0.nv() }
    open spec fn nwf(&self) -> bool { self.0.nwf() }
    open spec fn nbase() -> nat { T::nbase() }
    open spec fn ndec() -> nat { 2 }
    open spec fn nbits() -> nat { 0 }
    open spec fn is_prim() -> bool { false }
    open spec fn st_prim() -> bool { T::is_prim() }
    open spec fn is_bin() -> bool { true }
    proof fn ax_prim() { }
}
impl<T: NumVal> NumVal for DecimalDigit<T> {
    open spec fn nv(&self) -> nat { self.0.nv() }
    open spec fn nwf(&self) -> bool { self.0.nwf() && self.0.nv() < T::ndec() }
    open spec fn nbase() -> nat { T::ndec() }
    open spec fn ndec() -> nat { 2 }
    open spec fn nbits() -> nat { 0 }
    open spec fn is_prim() -> bool { false }
    open spec fn st_prim() -> bool { T::is_prim() }
    open spec fn is_bin() -> bool { false }
    proof fn ax_prim() { }
}
impl<T: PartialEq> PartialEqSpecImpl for BinaryDigit<T> { open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() } open spec fn eq_spec(&self, o: &Self) -> bool { self.0.eq_spec(&o.0) } }
impl<T: PartialOrd> PartialOrdSpecImpl for BinaryDigit<T> { open spec fn obeys_partial_cmp_spec() -> bool { T::obeys_partial_cmp_spec() } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { self.0.partial_cmp_spec(&o.0) } }
impl<T: Ord> OrdSpecImpl for BinaryDigit<T> { open spec fn obeys_cmp_spec() -> bool { T::obeys_cmp_spec() } open spec fn cmp_spec(&self, o: &Self) -> Ordering { self.0.cmp_spec(&o.0) } }
impl<T: PartialEq> PartialEqSpecImpl for DecimalDigit<T> { open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() } open spec fn eq_spec(&self, o: &Self) -> bool { self.0.eq_spec(&o.0) } }
impl<T: PartialOrd> PartialOrdSpecImpl for DecimalDigit<T> { open spec fn obeys_partial_cmp_spec() -> bool { T::obeys_partial_cmp_spec() } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { self.0.partial_cmp_spec(&o.0) } }
impl<T: Ord> OrdSpecImpl for DecimalDigit<T> { open spec fn obeys_cmp_spec() -> bool { T::obeys_cmp_spec() } open spec fn cmp_spec(&self, o: &Self) -> Ordering { self.0.cmp_spec(&o.0) } }
== each p=u8 n=8 b=0x100 d=100 ; p=u16 n=16 b=0x1_0000 d=10_000 ; p=u32 n=32 b=0x1_0000_0000 d=1_000_000_000 ; p=u64 n=64 b=0x1_0000_0000_0000_0000 d=10_000_000_000_000_000_000
impl NumVal for %p% {
    open spec fn nv(&self) -> nat { *self as nat }
    open spec fn nwf(&self) -> bool { true }
    open spec fn nbase() -> nat { %b% }
    open spec fn ndec() -> nat { %d% }
    open spec fn nbits() -> nat { %n% }
    open spec fn is_prim() -> bool { true }
    open spec fn st_prim() -> bool { false }
    open spec fn is_bin() -> bool { false }
    proof fn ax_prim() { broadcast use vstd::layout::layout_of_primitives; lemma2_to64(); lemma2_to64_rest(); reveal_with_fuel(vstd::arithmetic::power::pow, 20); }
}
impl crate::num_traits::Zero for %p% { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
impl crate::num_traits::One for %p% { fn one() -> Self { 1 } }
impl crate::num_traits::Pow<usize> for %p% {
    type Output = %p%;
    open spec fn pow_req(self, e: usize) -> bool { vstd::arithmetic::power::pow(self as int, e as nat) < %b% }
    open spec fn pow_ens(self, e: usize, r: %p%) -> bool { r == vstd::arithmetic::power::pow(self as int, e as nat) }
    #[verifier::external_body] fn pow(self, e: usize) -> %p% { unimplemented!() }
}
== endeach
== end
== block digit::<BinaryDigit<u8> as Digit>
open spec fn dbase() -> nat { 0x100 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::<BinaryDigit<u16> as Digit>
open spec fn dbase() -> nat { 0x1_0000 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::<BinaryDigit<u32> as Digit>
open spec fn dbase() -> nat { 0x1_0000_0000 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::<BinaryDigit<u64> as Digit>
open spec fn dbase() -> nat { 0x1_0000_0000_0000_0000 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::<DecimalDigit<u8> as Digit>
open spec fn dbase() -> nat { 100 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::<DecimalDigit<u16> as Digit>
open spec fn dbase() -> nat { 10_000 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::<DecimalDigit<u32> as Digit>
open spec fn dbase() -> nat { 1_000_000_000 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::<DecimalDigit<u64> as Digit>
open spec fn dbase() -> nat { 10_000_000_000_000_000_000 }
proof fn ax_digit() { }
proof fn ax_nv(x: Self) { }
== block digit::Digit
/// the base of the number system
spec fn dbase() -> nat;
proof fn ax_digit() ensures Self::st_prim(), Self::is_bin() ==> (forall|a: Self| #[trigger] a.nwf()), Self::dbase() >= 100, Self::dbase() == Self::nbase(), Self::dbase() % 2 == 0,
    Self::obeys_eq_spec(), Self::obeys_partial_cmp_spec(), Self::obeys_cmp_spec(),
    forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) == (a.nv() == b.nv()),
    forall|a: Self, b: Self| #[trigger] a.cmp_spec(&b) == cmpn(a.nv() as int, b.nv() as int),
    forall|a: Self, b: Self| #[trigger] a.partial_cmp_spec(&b) == Some(cmpn(a.nv() as int, b.nv() as int)),
    forall|a: Self, b: Self| #[trigger] a.nv() == #[trigger] b.nv() ==> a == b;
proof fn ax_nv(x: Self) ensures x.nwf() ==> x.nv() < Self::dbase();
== end
== fn digit::Digit::MAX
-- spec
ensures r.nwf(), r.nv() == Self::dbase() - 1
== fn digit::Digit::from_bit
-- spec
ensures r.nwf(), r.nv() == b2n(bit)
== fn digit::Digit::from_base_str
-- spec
requires 2 <= base <= 36
ensures match r { Ok(d) => d.nwf(), Err(e) => e is InvalidNumber },
    s@.len() > 0 && crate::text::digs(s@, base as nat) ==> if crate::text::sval(s@, base as nat) < Self::dbase() { r is Ok && r.unwrap().nv() == crate::text::sval(s@, base as nat) } else { r is Err }
== fn digit::Digit::from_hexadecimal_str
-- spec
ensures match r { Ok(d) => d.nwf(), Err(e) => e is InvalidNumber },
    s@.len() > 0 && crate::text::digs(s@, 16) ==> if crate::text::sval(s@, 16) < Self::dbase() { r is Ok && r.unwrap().nv() == crate::text::sval(s@, 16) } else { r is Err }
== fn digit::Digit::from_decimal_str
-- spec
ensures match r { Ok(d) => d.nwf(), Err(e) => e is InvalidNumber },
    s@.len() > 0 && crate::text::digs(s@, 10) ==> if crate::text::sval(s@, 10) < Self::dbase() { r is Ok && r.unwrap().nv() == crate::text::sval(s@, 10) } else { r is Err }
== fn digit::Digit::max_shift
-- spec
requires self.nwf(), self.nv() != 0
ensures r < 64, self.nv() * pow2(r as nat) < Self::dbase() <= self.nv() * pow2((r + 1) as nat)
== fn digit::Digit::inc
-- spec
requires old(self).nwf()
ensures final(self).nwf(), final(self).nv() + (if r { Self::dbase() } else { 0 }) == old(self).nv() + 1
== fn digit::Digit::dec
-- spec
requires old(self).nwf()
ensures final(self).nwf(), final(self).nv() + 1 == old(self).nv() + (if r { Self::dbase() } else { 0 })
== fn digit::Digit::add_carry_assign
-- spec
requires old(self).nwf(), other.nwf()
ensures final(self).nwf(), final(self).nv() + (if r { Self::dbase() } else { 0 }) == old(self).nv() + other.nv() + b2n(carry)
== fn digit::Digit::sub_carry_assign
-- spec
requires old(self).nwf(), other.nwf()
ensures final(self).nwf(), final(self).nv() + other.nv() + b2n(carry) == old(self).nv() + (if r { Self::dbase() } else { 0 })
== fn digit::Digit::shl_carry_assign
-- spec
requires old(self).nwf(), carry.nwf(), shift > 0, carry.nv() < pow2(shift as nat) < Self::dbase()
ensures final(self).nwf(), r.nwf(), r.nv() < pow2(shift as nat), final(self).nv() + r.nv() * Self::dbase() == old(self).nv() * pow2(shift as nat) + carry.nv()
== fn digit::Digit::shr_carry_assign
-- spec
requires old(self).nwf(), carry.nwf(), shift > 0, carry.nv() < pow2(shift as nat) < Self::dbase()
ensures final(self).nwf(), r.nwf(), r.nv() < pow2(shift as nat), final(self).nv() * pow2(shift as nat) + r.nv() == old(self).nv() + carry.nv() * Self::dbase()
== fn digit::Digit::double_carry_assign
-- spec
requires old(self).nwf()
ensures final(self).nwf(), final(self).nv() + (if r { Self::dbase() } else { 0 }) == 2 * old(self).nv() + b2n(carry)
== fn digit::Digit::mul_carry_assign
-- spec
requires old(self).nwf(), fac.nwf(), carry.nwf()
ensures final(self).nwf(), r.nwf(), final(self).nv() + r.nv() * Self::dbase() == old(self).nv() * fac.nv() + carry.nv()
== fn digit::Digit::rem_carry
-- spec
requires self.nwf(), fac.nwf(), carry.nwf(), carry.nv() < fac.nv()
ensures r.nwf(), r.nv() == (self.nv() + carry.nv() * Self::dbase()) % fac.nv()
== fn digit::Digit::div_carry_assign
-- spec
requires old(self).nwf(), fac.nwf(), carry.nwf(), carry.nv() < fac.nv()
ensures final(self).nwf(), r.nwf(), r.nv() < fac.nv(), final(self).nv() * fac.nv() + r.nv() == old(self).nv() + carry.nv() * Self::dbase()
== fn digit::Digit::div3_carry_assign
-- spec
requires old(self).nwf(), carry < 3
ensures final(self).nwf(), r < 3, final(self).nv() * 3 + r == old(self).nv() + carry * Self::dbase()
== fn digit::Digit::add_prod_carry_assign
-- spec
requires old(self).nwf(), fac0.nwf(), fac1.nwf(), carry.nwf()
ensures final(self).nwf(), r.nwf(), final(self).nv() + r.nv() * Self::dbase() == old(self).nv() + fac0.nv() * fac1.nv() + carry.nv()
== fn digit::Digit::sub_prod_carry_assign
-- spec
requires old(self).nwf(), fac0.nwf(), fac1.nwf(), carry.nwf()
ensures final(self).nwf(), r.nwf(), final(self).nv() + fac0.nv() * fac1.nv() + carry.nv() == old(self).nv() + r.nv() * Self::dbase()
== fn digit::<BinaryDigit<T>>::NR_BITS
-- spec
requires T::is_prim()
ensures r == T::nbits()
-- body start
proof { T::ax_prim(); }
== fn digit::<BinaryDigit<T>>::NR_HEX_PLACES
-- spec
requires T::is_prim()
ensures r * 4 == T::nbits()
-- body start
proof { T::ax_prim(); }

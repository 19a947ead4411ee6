== block ubig::<UBig<BinaryDigit<T>> as LowerHex>
open spec fn lhex_wf(&self) -> bool { self.digits@.len() <= 0x80_0000_0000_0000 && (self.digits@.len() > 0 ==> self.digits@[self.digits@.len() - 1].nv() != 0) }
open spec fn lhex_val(&self) -> nat { lvs(self.digits@, T::nbase(), 0) }
== block ubig::<UBig<BinaryDigit<T>> as UpperHex>
open spec fn uhex_wf(&self) -> bool { self.digits@.len() <= 0x80_0000_0000_0000 && (self.digits@.len() > 0 ==> self.digits@[self.digits@.len() - 1].nv() != 0) }
open spec fn uhex_val(&self) -> nat { lvs(self.digits@, T::nbase(), 0) }
== block ubig::<UBig<BinaryDigit<T>> as Display>
open spec fn disp_wf(&self) -> bool { self.nwf() && self.digits@.len() <= 0x8000_0000_0000 }
open spec fn disp_val(&self) -> nat { lvs(self.digits@, T::nbase(), 0) }
== block ubig::<UBig<DecimalDigit<T>> as Display>
open spec fn disp_wf(&self) -> bool { self.digits@.len() <= 0x80_0000_0000_0000 && (self.digits@.len() > 0 ==> self.digits@[self.digits@.len() - 1].nv() != 0) && forall|i: int| 0 <= i < self.digits@.len() ==> (#[trigger] self.digits@[i]).nwf() }
open spec fn disp_val(&self) -> nat { lvs(self.digits@, T::ndec(), 0) }
== fn ubig::<UBig<BinaryDigit<T>> as LowerHex>::fmt
-- body start
proof { st_facts::<T>(); empty_lvs(self.digits@, T::nbase()); }
-- before `T::zero()`
proof { assert forall|z: T| z.nv() == 0 implies #[trigger] z.lhex_wf() by { T::ax_lhex(&z); } assert forall|z: T| z.nv() == 0 implies #[trigger] z.lhex_val() == 0 by { T::ax_lhex(&z); } assert(self.lhex_val() == 0); }
-- before `self.digits[0]`
proof { T::ax_lhex(&self.digits@[0].0); one_lvs(self.digits@, T::nbase()); }
-- before `let mut s`
proof { let n = self.digits@.len() as int; T::ax_lhex(&self.digits@[n - 1].0); last_lvs(self.digits@, T::nbase()); let m = (T::nbits() / 4) as int; assert(0 <= n * m <= 0x80_0000_0000_0000 * 20) by (nonlinear_arith) requires 0 <= n <= 0x80_0000_0000_0000, 0 <= m <= 20; }
-- loop 0
invariant $i0 <= $n0, $n0 + 1 == self.digits@.len(), s@ == numeral(lvs(self.digits@, T::nbase(), self.digits@.len() - 1 - $i0), 16, false)
decreases $n0 - $i0
-- in loop 0 start
proof { let i = self.digits@.len() - 2 - $j0; T::ax_lhex(&self.digits@[i].0); more(self.digits@, T::nbase(), 16, false, (T::nbits() / 4) as nat, i); }
-- attr #[verifier::spinoff_prover]
-- before `f.pad_integral`
proof { assert(s@ == numeral(self.lhex_val(), 16, false)); }
== fn ubig::<UBig<BinaryDigit<T>> as UpperHex>::fmt
-- body start
proof { st_facts::<T>(); empty_lvs(self.digits@, T::nbase()); }
-- before `T::zero()`
proof { assert forall|z: T| z.nv() == 0 implies #[trigger] z.uhex_wf() by { T::ax_uhex(&z); } assert forall|z: T| z.nv() == 0 implies #[trigger] z.uhex_val() == 0 by { T::ax_uhex(&z); } assert(self.uhex_val() == 0); }
-- before `self.digits[0]`
proof { T::ax_uhex(&self.digits@[0].0); one_lvs(self.digits@, T::nbase()); }
-- before `let mut s`
proof { let n = self.digits@.len() as int; T::ax_uhex(&self.digits@[n - 1].0); last_lvs(self.digits@, T::nbase()); let m = (T::nbits() / 4) as int; assert(0 <= n * m <= 0x80_0000_0000_0000 * 20) by (nonlinear_arith) requires 0 <= n <= 0x80_0000_0000_0000, 0 <= m <= 20; }
-- loop 0
invariant $i0 <= $n0, $n0 + 1 == self.digits@.len(), s@ == numeral(lvs(self.digits@, T::nbase(), self.digits@.len() - 1 - $i0), 16, true)
decreases $n0 - $i0
-- in loop 0 start
proof { let i = self.digits@.len() - 2 - $j0; T::ax_uhex(&self.digits@[i].0); more(self.digits@, T::nbase(), 16, true, (T::nbits() / 4) as nat, i); }
-- attr #[verifier::spinoff_prover]
-- before `f.pad_integral`
proof { assert(s@ == numeral(self.uhex_val(), 16, true)); }
== fn ubig::<UBig<DecimalDigit<T>> as Display>::fmt
-- body start
proof { st_facts::<T>(); empty_lvs(self.digits@, T::ndec()); }
-- before `T::zero()`
proof { assert forall|z: T| z.nv() == 0 implies #[trigger] z.disp_wf() by { T::ax_disp(&z); } assert forall|z: T| z.nv() == 0 implies #[trigger] z.disp_val() == 0 by { T::ax_disp(&z); } assert(self.disp_val() == 0); }
-- before `self.digits[0]`
proof { T::ax_disp(&self.digits@[0].0); one_lvs(self.digits@, T::ndec()); }
-- before `let mut s`
proof { let n = self.digits@.len() as int; T::ax_disp(&self.digits@[n - 1].0); last_lvs(self.digits@, T::ndec()); let m = (T::nbits() * 4004 / 13301) as int; assert(0 <= n * m <= 0x80_0000_0000_0000 * 20) by (nonlinear_arith) requires 0 <= n <= 0x80_0000_0000_0000, 0 <= m <= 20; }
-- loop 0
invariant $i0 <= $n0, $n0 + 1 == self.digits@.len(), s@ == numeral(lvs(self.digits@, T::ndec(), self.digits@.len() - 1 - $i0), 10, false)
decreases $n0 - $i0
-- in loop 0 start
proof { let i = self.digits@.len() - 2 - $j0; T::ax_disp(&self.digits@[i].0); more(self.digits@, T::ndec(), 10, false, (T::nbits() * 4004 / 13301) as nat, i); }
-- attr #[verifier::spinoff_prover]
-- before `f.pad_integral`
proof { assert(s@ == numeral(self.disp_val(), 10, false)); }
== fn ubig::<UBig<BinaryDigit<T>> as Display>::fmt
-- body start
proof { lvs_vl(self.digits@, 0); BinaryDigit::<T>::ax_digit(); DecimalDigit::<T>::ax_digit(); assert forall|s: Seq<DecimalDigit<T>>| #[trigger] vl(s) == lvs(s, T::ndec(), 0) by { lvs_vl(s, 0); } assert forall|v: UBig<DecimalDigit<T>>| #[trigger] v.nwf() implies v.digits@.len() <= 0x80_0000_0000_0000 by { ax_memv(&v.digits); } }
== block mod ubig
proof fn empty_lvs<T: NumVal>(s: Seq<T>, b: nat) ensures s.len() == 0 ==> lvs(s, b, 0) == 0 { }
proof fn one_lvs<T: NumVal>(s: Seq<T>, b: nat) requires s.len() == 1 ensures lvs(s, b, 0) == s[0].nv() { reveal_with_fuel(lvs, 3); assert(0 * b == 0); }
proof fn last_lvs<T: NumVal>(s: Seq<T>, b: nat) requires s.len() >= 1 ensures lvs(s, b, s.len() - 1) == s[s.len() - 1].nv() { reveal_with_fuel(lvs, 3); assert(0 * b == 0); }
== end

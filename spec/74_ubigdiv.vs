== block mod ubig
use crate::lemdiv::*;
== fn ubig::<UBig<T>>::div_assign_digit
-- spec
requires old(self).nwf(), fac.nwf()
ensures match r {
    Ok(m) => final(self).nwf() && fac.nv() > 0 && final(self).nv() == old(self).nv() / fac.nv() && m.nwf() && m.nv() == old(self).nv() % fac.nv() as nat,
    Err(e) => e == Error::DivisionByZero && fac.nv() == 0 && final(self).digits@ == old(self).digits@ }
-- body start
let ghost d0 = self.digits@;
-- before `if nquot < self.nr_digits()`
proof { let z = self.digits@; nlen_vl(z, nquot as int); div_floor(vl(d0) as int, vl(z) as int, fac.nv() as int, rem.nv() as int); if nquot == z.len() { assert(z.subrange(0, nquot as int) =~= z); } }
== fn ubig::<UBig<T>>::div_assign_digit_pair
-- spec
requires old(self).nwf(), fac_low.nwf(), fac_high.nwf()
ensures match r {
    Ok((lo, hi)) => final(self).nwf() && fac_low.nv() + T::dbase() * fac_high.nv() > 0 && final(self).nv() == old(self).nv() / (fac_low.nv() + T::dbase() * fac_high.nv()) as nat && lo.nwf() && hi.nwf() && lo.nv() + T::dbase() * hi.nv() == old(self).nv() % (fac_low.nv() + T::dbase() * fac_high.nv()) as nat,
    Err(e) => e == Error::DivisionByZero && fac_low.nv() + T::dbase() * fac_high.nv() == 0 && final(self).digits@ == old(self).digits@ }
-- body start
let ghost d0 = self.digits@;
-- before `if nquot < self.nr_digits()`
proof { let z = self.digits@; nlen_vl(z, nquot as int); div_floor(vl(d0) as int, vl(z) as int, (fac_low.nv() + T::dbase() * fac_high.nv()) as int, (rem_low.nv() + T::dbase() * rem_high.nv()) as int); if nquot == z.len() { assert(z.subrange(0, nquot as int) =~= z); } }
== fn ubig::<UBig<T>>::rem_digit
-- spec
requires self.nwf(), fac.nwf()
ensures match r { Ok(m) => fac.nv() > 0 && m.nwf() && m.nv() == self.nv() % fac.nv() as nat, Err(e) => e == Error::DivisionByZero && fac.nv() == 0 }
== fn ubig::<UBig<T>>::div_assign_big
-- spec
requires old(self).nwf(), other.nwf()
ensures match r {
    Ok(m) => final(self).nwf() && other.nv() > 0 && final(self).nv() == old(self).nv() / other.nv() && m.nwf() && m.nv() == old(self).nv() % other.nv(),
    Err(e) => e == Error::DivisionByZero && other.nv() == 0 && final(self).digits@ == old(self).digits@ }
-- body start
let ghost (d0, od) = (self.digits@, other.digits@);
let ghost (v, d) = (vl(d0) as int, vl(od) as int);
proof { pv_init::<T>(); ax_memv(&self.digits); ax_memv(&other.digits); if od.len() > 0 { norm_low(od); bp_pos::<T>(od.len() - 1); } if d0.len() < od.len() { len_lt(d0, od); div_floor(v, 0, d, v); assert(0 * d == 0); } }
-- before `Ok(Self::new(rem))` #0
proof { assert(v % d == v); assert(v / d == 0); assert(d > 0); vl_zero(self.digits@); assert(rem@ == d0); }
-- before `self.digits.truncate(nquot)`
proof {
    let (z, y) = (self.digits@, rem@);
    pv_split(z, nquot as int, nquot as int); pv_split(y, nrem as int, nrem as int); div_floor(v, pv(z, nquot as int) as int, d, pv(y, nrem as int) as int);
}
== fn ubig::<UBig<T>>::rem_assign_big
-- spec
requires old(self).nwf(), other.nwf()
ensures match r {
    Ok(_) => final(self).nwf() && other.nv() > 0 && final(self).nv() == old(self).nv() % other.nv(),
    Err(e) => e == Error::DivisionByZero && other.nv() == 0 && final(self).digits@ == old(self).digits@ }
-- body start
let ghost (d0, od) = (self.digits@, other.digits@);
let ghost (v, d) = (vl(d0) as int, vl(od) as int);
proof { pv_init::<T>(); ax_memv(&self.digits); ax_memv(&other.digits); if od.len() > 0 { norm_low(od); bp_pos::<T>(od.len() - 1); } if d0.len() < od.len() { len_lt(d0, od); div_floor(v, 0, d, v); assert(0 * d == 0); } }
-- after `let mut quot`
let ghost oq = quot@;
-- before `self.digits.truncate(nrem)`
proof {
    let y = self.digits@;
    let nq = choose|nq: int| #[trigger] divres(v, d, oq, quot@, nq, y, nrem as int);
    pv_split(y, nrem as int, nrem as int); div_floor(v, pv(quot@, nq) as int, d, pv(y, nrem as int) as int);
}
== fn ubig::ops::<UBig<DecimalDigit<T>> as DivAssign<T>>::div_assign
-- before `crate::shim::panicked()`
proof { assert(self.digits@ == old(self).digits@); }
-- body start
proof { pv_init::<DecimalDigit<T>>(); T::ax_storage(); T::ax_prim(); DecimalDigit::<T>::ax_digit(); }
-- after `let (high, low)`
proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n.nv() as int, T::ndec() as int); }
== fn ubig::ops::<UBig<T> as RemAssign<T>>::rem_assign
-- before `crate::shim::panicked()`
proof { assert(self.digits@ == old(self).digits@); }
-- after `self.digits.clear()`
proof { pv_init::<T>(); vl_zero(self.digits@); push_val(self.digits@, rem); assert(rem.nv() * 1 == rem.nv()); }
== fn ubig::ops::<UBig<DecimalDigit<T>> as RemAssign<T>>::rem_assign
-- before `crate::shim::panicked()`
proof { assert(self.digits@ == old(self).digits@); }
-- body start
proof { pv_init::<DecimalDigit<T>>(); T::ax_storage(); T::ax_prim(); DecimalDigit::<T>::ax_digit(); }
-- after `let (high, low)`
proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n.nv() as int, T::ndec() as int); }
-- after `self.digits.clear()`
proof { let e = self.digits@; vl_zero(e); push_val(e, rem_low); push_val(e.push(rem_low), rem_high); assert(rem_low.nv() * 1 == rem_low.nv()); let b = T::ndec() as int; assert(rem_high.nv() * b == b * rem_high.nv()) by (nonlinear_arith); assert(b * 0 == 0); }
== fn ubig::ops::<&UBig<T> as Rem<T>>::rem
-- body start
proof { pv_init::<T>(); assert forall|x: T| vl(#[trigger] Seq::<T>::empty().push(x)) == x.nv() by { let e = Seq::<T>::empty(); push_val(e, x); assert(x.nv() * 1 == x.nv()); } }
== fn ubig::ops::<UBig<T> as DivAssign<T>>::div_assign
-- before `crate::shim::panicked()`
proof { assert(self.digits@ == old(self).digits@); }
== fn ubig::ops::<UBig<T> as DivAssign<&UBig<T>>>::div_assign
-- before `crate::shim::panicked()`
proof { assert(self.digits@ == old(self).digits@); }
== fn ubig::ops::<UBig<T> as RemAssign<&UBig<T>>>::rem_assign
-- before `crate::shim::panicked()`
proof { assert(self.digits@ == old(self).digits@); }
== end

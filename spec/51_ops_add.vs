== fn ubig::ops::<UBig<T> as AddAssign<T>>::add_assign
-- body start
let ghost d_old = self.digits@;
proof { pv_init::<T>(); }
-- before `self.digits.push(carry)`
proof { push_val(self.digits@, carry); }
-- after `if let Some(carry)`
proof { if self.digits@.len() == d_old.len() && d_old.len() > 0 { norm_low(d_old); top_nz(self.digits@); } }
== fn ubig::ops::<UBig<DecimalDigit<T>> as AddAssign<T>>::add_assign
-- body start
proof { pv_init::<DecimalDigit<T>>(); T::ax_storage(); T::ax_prim(); DecimalDigit::<T>::ax_digit(); }
-- before `if self.digits.is_empty()`
let ghost v1 = vl(self.digits@);
-- before `if let Some(carry)`
let ghost d_old = self.digits@;
proof {
    if d_old.len() == 1 { pv1(d_old); }
    let t = d_old.subrange(1, d_old.len() as int);
    vl_split(d_old, 1);
    assert(n.nv() == high.nv() * T::ndec() + low.nv()) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n.nv() as int, T::ndec() as int); assert(high.nv() * T::ndec() == T::ndec() * high.nv()) by (nonlinear_arith); if high.nv() == 0 { assert(T::ndec() * 0 == 0); vstd::arithmetic::div_mod::lemma_mod_bound(n.nv() as int, T::ndec() as int); } }
    assert(n.nv() >= T::ndec() && high.nv() > 0) by { if high.nv() == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n.nv() as int, T::ndec() as int); assert(T::ndec() * 0 == 0); vstd::arithmetic::div_mod::lemma_mod_bound(n.nv() as int, T::ndec() as int); } }
}
-- before `self.digits.push(carry)`
proof { seg(self.digits@, d_old, 1, carry.nv() as int, high.nv() as int); push_val(self.digits@, carry); dok_at(self.digits@, d_old, 1); }
-- after `if let Some(carry)`
proof { if self.digits@.len() == d_old.len() { add_at(self.digits@, d_old, 1, high.nv() as int); } }
== fn ubig::ops::<UBig<T> as AddAssign<&UBig<T>>>::add_assign
-- body start
proof { pv_init::<T>(); assert(other.nv() * 1 == other.nv()); }
== end

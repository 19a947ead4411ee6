== fn ubig::<UBig<T>>::mul_add_assign_digit
-- spec
requires old(self).nwf(), fac.nwf(), offset.nwf()
ensures final(self).nwf(), final(self).nv() == old(self).nv() * fac.nv() + offset.nv()
-- body start
let ghost d_old = self.digits@;
proof { pv_init::<T>(); }
-- after `let carry`
let ghost dn = self.digits@;
proof {
    let (v, f, o) = (vl(d_old) as int, fac.nv() as int, offset.nv() as int);
    if f == 0 { assert(v * 0 == 0); bp_unfold::<T>(0); } 
    let p = bp::<T>(dn.len() as int) as int;
    assert(o * 1 == o);
    assert(vl(dn) + carry.nv() * p == v * f + o);
    assert(0 * p == 0);
    push_val(dn, carry);
    if f > 0 && dn.len() > 0 { norm_low(d_old); assert(v * f >= v) by (nonlinear_arith) requires f >= 1, v >= 0; if carry.nv() == 0 { top_nz(dn); } }
}
== fn ubig::<UBig<T>>::mul_pair_add_assign_digit
-- spec
requires old(self).nwf(), fac_low.nwf(), fac_high.nwf(), offset.nwf()
ensures final(self).nwf(), final(self).nv() == old(self).nv() * (fac_low.nv() + T::dbase() * fac_high.nv()) + offset.nv()
-- body start
proof { pv_init::<T>(); }
-- after `let (carry0, carry1)`
let ghost dn = self.digits@;
proof {
    let n = dn.len() as int;
    let (p, c0, c1, b) = (bp::<T>(n) as int, carry0.nv() as int, carry1.nv() as int, T::dbase() as int);
    push_val(dn, carry0); push_val(dn.push(carry0), carry1); bp_unfold::<T>(n);
    assert((c0 + c1 * b) * p == c0 * p + c1 * (b * p)) by (nonlinear_arith);
    assert(0 * p == 0); assert(0 * (b * p) == 0);
}
-- before `self.drop_leading_zeros()`
let ghost dp = self.digits@;
-- after `self.drop_leading_zeros()`
proof { vl_drop(dp, self.digits@.len() as int); }
== fn ubig::<UBig<T>>::mul_big
-- spec
requires self.nwf(), other.nwf()
ensures r.nwf(), r.nv() == self.nv() * other.nv()
-- body start
proof { pv_init::<T>(); assert(0 * other.nv() == 0); assert(self.nv() * 0 == 0); ax_memv(&self.digits); ax_memv(&other.digits); }
-- after `let n =`
proof { let s = digits@; pv_split(s, n as int, s.len() as int); }
== fn ubig::<UBig<T>>::square
-- spec
requires self.nwf()
ensures r.nwf(), r.nv() == self.nv() * self.nv()
-- body start
proof { pv_init::<T>(); assert(0 * self.nv() == 0); ax_memv(&self.digits); }
-- after `let n =`
proof { let s = digits@; pv_split(s, n as int, s.len() as int); }
== fn ubig::ops::<UBig<DecimalDigit<T>> as MulAssign<T>>::mul_assign
-- body start
proof { pv_init::<DecimalDigit<T>>(); T::ax_storage(); T::ax_prim(); DecimalDigit::<T>::ax_digit(); }
-- before `self.mul_pair_add_assign_digit(low, high, DecimalDigit::zero())`
proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n.nv() as int, T::ndec() as int); }

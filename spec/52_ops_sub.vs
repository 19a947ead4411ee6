== fn ubig::<UBig<T>>::sub_assign_big_at_offset
-- spec
requires old(self).nwf(), other.nwf(), offset == 0
ensures match r { Ok(x) => other.nv() <= old(self).nv() && x.nwf() && x.nv() == old(self).nv() - other.nv() && *final(self) == *final(x), Err(e) => e == Error::Underflow && old(self).nv() < other.nv() }
-- body start
let ghost d_old = self.digits@;
proof { pv_init::<T>(); assert(d_old.subrange(0, d_old.len() as int) =~= d_old); if d_old.len() < other.digits@.len() { len_lt(d_old, other.digits@); } }
-- before `self.digits.truncate(n0)`
proof { let s = self.digits@; assert(s.subrange(0, s.len() as int) =~= s); nlen_vl(s, n0 as int); }
== fn ubig::ops::<UBig<T> as SubAssign<T>>::sub_assign
-- before `self.digits.truncate(nd)`
proof { nlen_vl(self.digits@, nd as int); }
== fn ubig::ops::<UBig<DecimalDigit<T>> as SubAssign<T>>::sub_assign
-- body start
proof { pv_init::<DecimalDigit<T>>(); T::ax_storage(); T::ax_prim(); DecimalDigit::<T>::ax_digit(); }
-- before `*self -= low`
let ghost v0 = self.nv();
let ghost b = T::ndec() as int;
proof {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n.nv() as int, T::ndec() as int); vstd::arithmetic::div_mod::lemma_mod_bound(n.nv() as int, T::ndec() as int);
    assert(b * high.nv() == high.nv() * b) by (nonlinear_arith);
    assert(n.nv() == high.nv() * b + low.nv());
    if high.nv() == 0 { assert(b * 0 == 0); }
    assert(high.nv() > 0);
    assert(high.nv() * b >= b) by (nonlinear_arith) requires high.nv() > 0, b > 0;
}
-- after `*self -= low`
let ghost d1 = self.digits@;
proof {
    // enough is left for the high digit
    if d1.len() == 1 { pv1(d1); }
    if d1.len() > 0 { vl_split(d1, 1); pv_split(d1, 1, 1); pv1(d1); assert(b * vl(d1.subrange(1, d1.len() as int)) == vl(d1.subrange(1, d1.len() as int)) * b) by (nonlinear_arith); DecimalDigit::<T>::ax_nv(d1[0]);
        let hh = vl(d1.subrange(1, d1.len() as int)) as int; let d0 = d1[0].nv() as int; let hi = high.nv() as int;
        if v0 >= n.nv() { assert(hh >= hi) by (nonlinear_arith) requires hh * b + d0 >= hi * b, d0 < b, b > 0; } else { assert(hh < hi) by (nonlinear_arith) requires hh * b + d0 < hi * b, d0 >= 0, b > 0; }
    }
    assert(v0 >= n.nv() ==> d1.len() > 0);
    assert(d1.len() > 0 ==> d1.subrange(1, d1.len() as int).len() == d1.len() - 1);
}
-- before `self.digits.truncate(1 + nd)`
let ghost d2 = self.digits@;
proof { 
    assert(self.digits.len() == d2.len());
    assert(d2.len() == d1.len());
    let hi = high.nv() as int;
    assert((-hi) * b == -(hi * b) && 0 * bp::<DecimalDigit<T>>(d2.len() as int) == 0) by (nonlinear_arith);
    assert(d2.subrange(1, d2.len() as int).len() == d1.len() - 1);
    assert(nd < d1.len());
    seg(d2, d1, 1, 0, -(high.nv() as int)); dok_at(d2, d1, 1);
    let t = d2.subrange(1, d2.len() as int);
    assert forall|i: int| 1 + nd <= i < d2.len() implies (#[trigger] d2[i]).nv() == 0 by { assert(t[i - 1] == d2[i]); }
    vl_drop(d2, 1 + nd); vl_split(d2, 1 + nd);
}
-- after `self.drop_leading_zeros()`
proof { vl_drop(d2.subrange(0, 1 + nd), self.digits@.len() as int); }
== end

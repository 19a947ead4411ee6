== fn ubig::<UBig<T> as PartialEq>::eq
== fn ubig::<UBig<T> as Clone>::clone
-- spec
ensures r.digits@ == self.digits@
== fn ubig::<UBig<T>>::new
-- spec
requires dok(digits@)
ensures dok(r.digits@), dnorm(r.digits@), r.digits@.len() <= digits@.len(), r.digits@ == digits@.subrange(0, r.digits@.len() as int), forall|i: int| r.digits@.len() <= i < digits@.len() ==> (#[trigger] digits@[i]).nv() == 0, dnorm(digits@) ==> r.digits@ == digits@
== fn ubig::<UBig<T>>::nr_digits
-- spec
ensures r == self.digits@.len()
== fn ubig::<UBig<T>>::digits
-- spec
ensures r@ == self.digits@
== fn ubig::<UBig<T>>::drop_leading_zeros
-- spec
requires dok(old(self).digits@)
ensures dok(final(self).digits@), dnorm(final(self).digits@), final(self).digits@.len() <= old(self).digits@.len(), final(self).digits@ == old(self).digits@.subrange(0, final(self).digits@.len() as int), forall|i: int| final(self).digits@.len() <= i < old(self).digits@.len() ==> (#[trigger] old(self).digits@[i]).nv() == 0
== fn ubig::<UBig<T> as Zero>::zero
-- body start
proof { pv_init::<T>(); }
== fn ubig::<UBig<T> as Zero>::is_zero
-- body start
proof { pv_init::<T>(); if self.digits@.len() > 0 { pv_low(self.digits@, self.digits@.len() as int); bp_pos::<T>(self.digits@.len() - 1); } }
== fn ubig::<UBig<T> as One>::one
-- tail
proof { pv1(tail__.digits@); }
== fn ubig::<UBig<BinaryDigit<T>> as From<T>>::from
-- spec
ensures r.nwf(), r.nv() == n.nv()
-- body start
proof { BinaryDigit::<T>::ax_digit(); assert(BinaryDigit(n).nwf()); }
-- tail
proof { pv_init::<BinaryDigit<T>>(); if tail__.digits@.len() > 0 { pv1(tail__.digits@); } }
== fn ubig::<UBig<DecimalDigit<T>> as From<T>>::from
-- spec
ensures r.nwf(), r.nv() == n.nv()
-- body start
proof { T::ax_storage(); T::ax_prim(); DecimalDigit::<T>::ax_digit(); pv_init::<DecimalDigit<T>>(); }
-- tail
proof {
    assert(n.nwf());
    let d = tail__.digits@;
    if d.len() == 1 { pv1(d); }
    if d.len() == 2 {
        pv1(d); pvn(d, 1); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n.nv() as int, T::ndec() as int);
        if d[1].nv() == 0 { assert(T::ndec() * 0 == 0); assert(n.nv() == n.nv() % T::ndec()); vstd::arithmetic::div_mod::lemma_mod_bound(n.nv() as int, T::ndec() as int); }
        assert(d[1].nv() * T::ndec() == T::ndec() * d[1].nv()) by (nonlinear_arith);
    }
}
== fn ubig::<UBig<T>>::add_assign_big_at_offset
-- spec
requires dok(old(self).digits@), other.nwf()
ensures *final(self) == *final(r), dok(r.digits@), vl(r.digits@) == vl(old(self).digits@) + vl(other.digits@) * bp::<T>(offset as int), old(self).nwf() && (other.nv() > 0 || offset <= old(self).digits@.len()) ==> r.nwf()
-- body start
let ghost d_old = self.digits@;
let ghost d_oth = other.digits@;
proof { pv_init::<T>(); }
-- after `crate::shim::vec_extend_slice(&mut self.digits, &other.digits)`
proof {
    let k = offset as int;
    vl_split(self.digits@, k);
    assert(self.digits@.subrange(k, self.digits@.len() as int) =~= d_oth);
    let lo = self.digits@.subrange(0, k);
    assert(lo.subrange(0, n0 as int) =~= d_old);
    assert(vl(d_old) == vl(lo)) by { vl_drop(lo, n0 as int); }
    assert(dok(self.digits@));
    assert(bp::<T>(k) * vl(d_oth) == vl(d_oth) * bp::<T>(k)) by (nonlinear_arith);
}
-- block start `if add::add_assign_big(&mut self.digits.as_mut_slice()[offset..], &other.digits)`
proof { push_one(self.digits@, d_old, offset as int, vl(d_oth) as int); }
-- after `if add::add_assign_big(&mut self.digits.as_mut_slice()[offset..], &other.digits)`
proof { if self.digits@.len() == d_old.len() { add_at(self.digits@, d_old, offset as int, vl(d_oth) as int); } }
-- after `crate::shim::vec_extend_slice(&mut self.digits, &other.digits.as_slice()[n0-offset..])`
let ghost d_ext = self.digits@;
proof {
    vl_split(d_oth, n0 - offset);
    vl_split(d_ext, n0 as int);
    assert(d_ext.subrange(0, n0 as int) =~= d_old);
    assert(d_ext.subrange(n0 as int, d_ext.len() as int) =~= d_oth.subrange(n0 - offset, n1 as int));
    bp_add::<T>(offset as int, n0 - offset);
    let (p, q, h, l) = (bp::<T>(offset as int) as int, bp::<T>(n0 - offset) as int, vl(d_oth.subrange(n0 - offset, n1 as int)) as int, vl(d_oth.subrange(0, n0 - offset)) as int);
    assert((l + q * h) * p == (p * q) * h + l * p) by (nonlinear_arith);
    if dnorm(d_oth) { norm_low(d_ext); }
}
-- block start `if add::add_assign_big(&mut self.digits.as_mut_slice()[offset..], &other.digits.as_slice()[..n0-offset])`
proof { push_one(self.digits@, d_ext, offset as int, vl(d_oth.subrange(0, n0 - offset)) as int); }
-- after `if add::add_assign_big(&mut self.digits.as_mut_slice()[offset..], &other.digits.as_slice()[..n0-offset])`
proof { if self.digits@.len() == d_ext.len() { add_at(self.digits@, d_ext, offset as int, vl(d_oth.subrange(0, n0 - offset)) as int); } }
== end

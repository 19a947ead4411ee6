== fn ubig::ops::<UBig<BinaryDigit<T>> as ShlAssign<usize>>::shl_assign
-- body start
let ghost d_old = self.digits@;
let ghost w = T::nbits();
proof { pv_init::<BinaryDigit<T>>(); BinaryDigit::<T>::ax_digit(); T::ax_prim(); lemma2_to64(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, w as int); vstd::arithmetic::div_mod::lemma_mod_bound(n as int, w as int); }
-- before `if low != 0`
proof {
    if low != 0 { lemma_pow2_strictly_increases(low as nat, w); } 
    lemma_pow2_pos(low as nat);
    bp_pow2::<BinaryDigit<T>>(w, high as int);
    lemma_pow2_adds(low as nat, (w * high) as nat);
    assert(vl(d_old) * 1 == vl(d_old));
    assert(0 * bp::<BinaryDigit<T>>(d_old.len() as int) == 0);
    assert(vl(d_old) * pow2(low as nat) >= vl(d_old)) by (nonlinear_arith) requires pow2(low as nat) >= 1;
    assert(w * 0 == 0);
    assert((vl(d_old) * pow2(low as nat)) * pow2((w * high) as nat) == vl(d_old) * (pow2(low as nat) * pow2((w * high) as nat))) by (nonlinear_arith);
    assert(0 * pow2(low as nat) == 0);
    assert(0 * pow2(n as nat) == 0);
}
-- before `self.digits.push(carry)`
proof { push_val(self.digits@, carry); }
-- before `if high != 0`
let ghost d1 = self.digits@;
proof {
    if d_old.len() > 0 && low != 0 { norm_low(d_old); if d1.len() == d_old.len() { top_nz(d1); } }
    assert(vl(d1) == vl(d_old) * pow2(low as nat));
    if d_old.len() == 0 && d1.len() > 0 { norm_low(d1); bp_pos::<BinaryDigit<T>>(d1.len() - 1); }
}
-- after `crate::shim::vec_prepend_repeat`
proof { vl_shift(d1, self.digits@, high as int); }
== fn ubig::ops::<UBig<BinaryDigit<T>> as ShrAssign<usize>>::shr_assign
-- body start
let ghost d_old = self.digits@;
let ghost w = T::nbits();
proof { pv_init::<BinaryDigit<T>>(); BinaryDigit::<T>::ax_digit(); T::ax_prim(); lemma2_to64(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, w as int); vstd::arithmetic::div_mod::lemma_mod_bound(n as int, w as int); }
-- before `if high != 0`
proof {
    if low != 0 { lemma_pow2_strictly_increases(low as nat, w); } 
    lemma_pow2_pos(low as nat);
    bp_pow2::<BinaryDigit<T>>(w, high as int);
    lemma_pow2_adds((w * high) as nat, low as nat);
    assert(w * 0 == 0);
}
-- before `if low != 0`
let ghost d1 = self.digits@;
proof {
    if high == 0 { assert(vl(d1) == vl(d_old) / bp::<BinaryDigit<T>>(0)); }
    else { drop_div(d_old, imin(high as int, d_old.len() as int), high as int); }
    assert(vl(d1) == vl(d_old) / bp::<BinaryDigit<T>>(high as int));
    bp_pos::<BinaryDigit<T>>(high as int);
    vstd::arithmetic::div_mod::lemma_div_denominator(vl(d_old) as int, bp::<BinaryDigit<T>>(high as int) as int, pow2(low as nat) as int);
    assert(vl(d1) / pow2(low as nat) == vl(d_old) / pow2(n as nat));
}
-- before `if nd < self.nr_digits()`
proof { div_floor(vl(d1) as int, vl(self.digits@) as int, pow2(low as nat) as int, vl(d1) - vl(self.digits@) * pow2(low as nat)); nlen_vl(self.digits@, nd as int); assert(self.digits@.subrange(0, self.digits@.len() as int) =~= self.digits@); 
   assert(0 * bp::<BinaryDigit<T>>(d1.len() as int) == 0); }
== fn ubig::ops::<UBig<DecimalDigit<T>> as ShrAssign<usize>>::shr_assign
-- body start
let ghost v_old = self.nv();
proof { pv_init::<DecimalDigit<T>>(); T::ax_storage(); DecimalDigit::<T>::ax_digit(); T::ax_prim(); lemma2_to64(); assert(v_old / 1 == v_old); }
-- loop 0
invariant self.nwf(), nleft <= n, self.nv() == v_old / pow2((n - nleft) as nat)
decreases nleft
-- in loop 0 top
let ghost d1 = self.digits@;
let ghost nl = nleft;
-- before `let (nd, _)`
proof {
    let m = (T::nbits() - 4) as nat;
    if shift < m { lemma_pow2_strictly_increases(shift as nat, m); }
    lemma_pow2_pos(shift as nat); lemma_pow2_pos((n - nl) as nat);
}
-- before `if nd < self.nr_digits()`
proof {
    assert(0 * bp::<DecimalDigit<T>>(d1.len() as int) == 0);
    div_floor(vl(d1) as int, vl(self.digits@) as int, pow2(shift as nat) as int, vl(d1) - vl(self.digits@) * pow2(shift as nat)); nlen_vl(self.digits@, nd as int); assert(self.digits@.subrange(0, self.digits@.len() as int) =~= self.digits@); 
    vstd::arithmetic::div_mod::lemma_div_denominator(v_old as int, pow2((n - nl) as nat) as int, pow2(shift as nat) as int);
    lemma_pow2_adds((n - nl) as nat, shift as nat);
}
-- in loop 0 after
proof {
    if nleft > 0 {
       lemma_pow2_pos((n - nleft) as nat); lemma_pow2_pos(nleft as nat);
       vstd::arithmetic::div_mod::lemma_div_denominator(v_old as int, pow2((n - nleft) as nat) as int, pow2(nleft as nat) as int);
       lemma_pow2_adds((n - nleft) as nat, nleft as nat);
       assert(0int / (pow2(nleft as nat) as int) == 0) by (nonlinear_arith) requires pow2(nleft as nat) > 0;
    }
}
== end
== fn ubig::ops::<UBig<DecimalDigit<T>> as ShlAssign<usize>>::shl_assign
-- body start
let ghost d_old = self.digits@;
proof { pv_init::<DecimalDigit<T>>(); T::ax_storage(); DecimalDigit::<T>::ax_digit(); T::ax_prim(); lemma2_to64(); lemma_pow2_pos(n as nat); assert(0 * pow2(n as nat) == 0); assert(0 * bp::<DecimalDigit<T>>(d_old.len() as int) == 0);
    let m = (T::nbits() - 4) as nat;
    if n < m { lemma_pow2_strictly_increases(n as nat, m); }
}
-- before `self.digits.push(carry)`
proof { push_val(self.digits@, carry); }
-- after `if !carry.is_zero()`
proof {
    assert(vl(self.digits@) == vl(d_old) * pow2(n as nat));
    assert(vl(d_old) * pow2(n as nat) >= vl(d_old)) by (nonlinear_arith) requires pow2(n as nat) >= 1;
    if d_old.len() > 0 && self.digits@.len() == d_old.len() { norm_low(d_old); top_nz(self.digits@); }
}
-- before `*self *= scale`
proof { lemma_pow2(n as nat); }
== fn ubig::ops::<UBig<T> as Pow<usize>>::pow
-- body start
let ghost v0 = self.nv() as int;
let ghost e0 = exp as nat;
proof { lemma_pow0(v0); lemma_pow1(v0); lemma_pow_adds(v0, 1, 1); }
-- in loop 0 before
proof {
    lemma_pow_adds(v0, 1, 1); lemma_pow_multiplies(v0, 2, (exp / 2) as nat); 
    if exp % 2 == 1 { lemma_pow_adds(v0, 1, (2 * (exp / 2)) as nat); } else { assert(1 * pow(v0, e0) == pow(v0, e0)); }
}
-- loop 0
invariant result.nwf(), power.nwf(), result.nv() * pow((power.nv() * power.nv()) as int, n as nat) == pow(v0, e0)
decreases n
-- in loop 0 top
let ghost n0 = n;
let ghost r0 = result.nv() as int;
-- before `n >>= 1`
proof {
    assert(n0 >> 1 == n0 / 2) by (bit_vector);
    let p = power.nv() as int; let m = (n0 / 2) as nat;
    lemma_pow1(p); lemma_pow_adds(p, 1, 1); lemma_pow_multiplies(p, 2, m);
    if n0 % 2 != 0 { lemma_pow_adds(p, 1, (2 * m) as nat); assert(r0 * (p * pow(p, (2 * m) as nat)) == (r0 * p) * pow(p, (2 * m) as nat)) by (nonlinear_arith); }
}
-- in loop 0 after
proof { lemma_pow0((power.nv() * power.nv()) as int); }
== fn ubig::ops::<&UBig<T> as Pow<usize>>::pow
== end

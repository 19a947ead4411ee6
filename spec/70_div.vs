== block mod ubig::div
use crate::lem::*;
use crate::lemmul::*;
use crate::lemdiv::*;
use vstd::arithmetic::power2::*;
== fn ubig::div::rem_digit
-- spec
requires dok(nr@), fac.nwf()
ensures match r { Ok(m) => fac.nv() > 0 && m.nwf() && m.nv() == vl(nr@) % fac.nv() as nat, Err(e) => e == Error::DivisionByZero && fac.nv() == 0 }
-- body start
let ghost n = nr@.len() as int;
let ghost mut gq = 0int;
proof { pv_init::<T>(); sv_full(nr@); assert(0 * fac.nv() == 0); }
-- loop 0
invariant nr@.len() == $n0 == n, $i0 <= $n0, dok(nr@), fac.nwf(), fac.nv() > 0, $acc0.nwf(), $acc0.nv() < fac.nv(), gq * fac.nv() + $acc0.nv() == sv(nr@, n - $i0, n), gq >= 0
decreases $n0 - $i0
-- in loop 0 top
let ghost c_prev = $acc0;
-- in loop 0 end
proof {
    let k = n - 1 - $j0;
    let (x, f, b) = ((nr@[k].nv() + c_prev.nv() * T::dbase()) as int, fac.nv() as int, T::dbase() as int);
    let q = x / f;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, f); vstd::arithmetic::div_mod::lemma_mod_bound(x, f); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, f);
    assert(q * f == f * q && c_prev.nv() * b == b * c_prev.nv()) by (nonlinear_arith);
    remstep(nr@, k, n, f, q, $acc0.nv() as int, c_prev.nv() as int, gq);
    assert(b * gq >= 0) by (nonlinear_arith) requires b >= 0, gq >= 0;
    gq = q + b * gq;
}
-- in loop 0 after
proof { divmod(vl(nr@) as int, fac.nv() as int, gq, $acc0.nv() as int); }
== fn ubig::div::div3_carry_assign
-- spec
requires dok(old(nr)@), carry < 3
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), r.1 < 3, nlen(final(nr)@, r.0 as int), vl(final(nr)@) * 3 + r.1 == vl(old(nr)@) + carry * bp::<T>(old(nr)@.len() as int)
-- body start
let ghost nr_old = nr@;
let ghost n = nr@.len() as int;
let ghost c0 = carry as int;
proof { pv_init::<T>(); sv_full(nr@); bp_unfold::<T>(0); assert(c0 * 1 == c0); }
-- loop 0
invariant nr@.len() == nr_old.len() == $n0 == n, $i0 <= $n0, dok(nr@), $acc0 < 3, sv(nr@, n - $i0, n) * 3 + $acc0 == sv(nr_old, n - $i0, n) + c0 * bp::<T>($i0 as int),
    forall|k: int| 0 <= k < n - $i0 ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost c_prev = $acc0;
-- in loop 0 end
proof { let k = n - 1 - $j0; assert(c_prev * T::dbase() == T::dbase() * c_prev) by (nonlinear_arith); divstep(nr@, nr_prev, nr_old, k, n, 3, $acc0 as int, c_prev as int, c0); }
-- in loop 0 after
proof { sv_full(nr@); assert(nr@.subrange(0, nr@.len() as int) =~= nr@); }
== fn ubig::div::div_assign_digit
-- spec
requires dok(old(nr)@), fac.nwf()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), match r {
    Ok((m, c)) => fac.nv() > 0 && c.nwf() && c.nv() < fac.nv() && nlen(final(nr)@, m as int) && vl(final(nr)@) * fac.nv() + c.nv() == vl(old(nr)@),
    Err(e) => e == Error::DivisionByZero && fac.nv() == 0 && final(nr)@ == old(nr)@ }
-- body start
let ghost nr_old = nr@;
let ghost n = nr@.len() as int;
proof { pv_init::<T>(); sv_full(nr@); assert(0 * fac.nv() == 0); }
-- loop 0
invariant nr@.len() == nr_old.len() == $n0 == n, $i0 <= $n0, dok(nr@), fac.nwf(), fac.nv() > 0, $acc0.nwf(), $acc0.nv() < fac.nv(), sv(nr@, n - $i0, n) * fac.nv() + $acc0.nv() == sv(nr_old, n - $i0, n),
    forall|k: int| 0 <= k < n - $i0 ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost c_prev = $acc0;
-- in loop 0 end
proof { let k = n - 1 - $j0; assert(c_prev.nv() * T::dbase() == T::dbase() * c_prev.nv()) by (nonlinear_arith); assert(0 * bp::<T>(n - k - 1) == 0 && 0 * bp::<T>(n - k) == 0); divstep(nr@, nr_prev, nr_old, k, n, fac.nv() as int, $acc0.nv() as int, c_prev.nv() as int, 0); }
-- in loop 0 after
proof { sv_full(nr@); assert(nr@.subrange(0, nr@.len() as int) =~= nr@); }

== fn ubig::div::div_assign_digit_pair
-- attr #[verifier::spinoff_prover]
-- spec
requires dok(old(nr)@), fac_low.nwf(), fac_high.nwf()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), match r {
    Ok((m, lo, hi)) => fac_low.nv() + T::dbase() * fac_high.nv() > 0 && lo.nwf() && hi.nwf() && lo.nv() + T::dbase() * hi.nv() < fac_low.nv() + T::dbase() * fac_high.nv() && nlen(final(nr)@, m as int)
        && vl(final(nr)@) * (fac_low.nv() + T::dbase() * fac_high.nv()) + (lo.nv() + T::dbase() * hi.nv()) == vl(old(nr)@),
    Err(e) => e == Error::DivisionByZero && fac_low.nv() + T::dbase() * fac_high.nv() == 0 && final(nr)@ == old(nr)@ }
-- body start
let ghost s0 = nr@;
let ghost bb = T::dbase() as int;
let ghost dd = fac_low.nv() + bb * fac_high.nv();
proof { pv_init::<T>(); ax_dcmp::<T>(); T::ax_nv(fac_low); T::ax_nv(fac_high); assert(bb * 0 == 0); lemma2_to64(); assert(0 * dd == 0);
    if fac_high.nv() > 0 { assert(dd >= bb) by (nonlinear_arith) requires dd == fac_low.nv() + bb * fac_high.nv(), fac_high.nv() >= 1, bb > 0; }
    if nr@.len() == 1 { pv1(nr@); T::ax_nv(nr@[0]); } }
-- after `nr[0] = T::zero()`
proof { pv1(nr@); assert(nr@.subrange(0, nr@.len() as int) =~= nr@); }
-- before `let shift = `
let ghost fac = seq![fac_low, fac_high];
proof { pvn(fac, 0); pvn(fac, 1); assert(fac_low.nv() * 1 == fac_low.nv() && fac_high.nv() * bb == bb * fac_high.nv()) by (nonlinear_arith); assert(vl(fac) == dd); vl_bound(fac); bp_unfold::<T>(1); }
-- before `let (mut den_low, mut den_high)`
let ghost p2 = pow2(shift as nat) as int;
let ghost mut c0 = 0int;
let ghost mut nr_s = nr@;
proof { lemma_pow2_pos(shift as nat); assert(dd * 1 == dd); assert(vl(s0) * 1 == vl(s0)); }
-- before `den_high.shl_carry_assign(shift, carry)`
let ghost gc = carry.nv() as int;
proof {
    T::ax_nv(den_low); assert(bp::<T>(2) == bb * bb); assert(0 * T::dbase() == 0);
    shl2(fac_low.nv() as int, fac_high.nv() as int, den_low.nv() as int, gc, p2, bb);
}
-- after `den_high.shl_carry_assign(shift, carry)`
proof { fits::<T>(den_high.nv() as int, fac_high.nv() * p2 + gc); }
-- after `rem_high = crate::ubig::shl::shl_carry_assign_within_digit`
proof { c0 = rem_high.nv() as int; nr_s = nr@; }
-- before `let mut rem_low = `
let ghost dn = den_low.nv() + bb * den_high.nv();
proof {
    assert(dn == dd * p2);
    assert(vl(nr_s) + c0 * bp::<T>(n as int) == vl(s0) * p2);
    let fac2 = seq![den_low, den_high];
    pvn(fac2, 0); pvn(fac2, 1); assert(den_low.nv() * 1 == den_low.nv() && den_high.nv() * bb == bb * den_high.nv()) by (nonlinear_arith);
    half_top(fac2);
    sv_full(nr_s); sv_step(nr_s, n - 1, n as int); pv_init::<T>();
    T::ax_nv(nr_s[n - 1]); T::ax_nv(den_low); T::ax_nv(den_high);
    assert(dd * p2 >= bb * p2) by (nonlinear_arith) requires dd >= bb, p2 > 0;
    assert(bb * c0 + bb <= bb * p2) by (nonlinear_arith) requires c0 + 1 <= p2, bb > 0;
    assert(bb * c0 == c0 * bb) by (nonlinear_arith);
}
-- after `let mut rem_low = `
proof {
    sv_step(nr@, n - 1, n as int); assert(0 * dn == 0); 
}
-- loop 0
invariant nr@.len() == n == nr_s.len(), n >= 2, $n0 == n - 1, $i0 <= $n0, dok(nr@), dok(nr_s), den_low.nwf(), den_high.nwf(), rem_low.nwf(), rem_high.nwf(), dn == den_low.nv() + bb * den_high.nv(), bb == T::dbase(), bb <= 2 * den_high.nv(),
    rem_low.nv() + bb * rem_high.nv() < dn, forall|k: int| 0 <= k < n - 1 - $i0 ==> #[trigger] nr@[k] == nr_s[k],
    sv(nr@, n - 1 - $i0, n as int) * dn + (rem_low.nv() + bb * rem_high.nv()) == sv(nr_s, n - 1 - $i0, n as int) + c0 * bp::<T>($i0 + 1)
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost k = n - 2 - $i0;
let ghost (x0, x1, x2) = (nr@[k].nv() as int, rem_low.nv() as int, rem_high.nv() as int);
let ghost (lo, hi) = (den_low.nv() as int, den_high.nv() as int);
let ghost mut gr = 0int;
proof { T::ax_nv(nr@[k]); T::ax_nv(rem_low); T::ax_nv(rem_high); T::ax_nv(den_low); T::ax_nv(den_high); pv_init::<T>(); }
-- after `quot.div_carry_assign(den_high, rem_high)`
proof { assert(x2 * bb == bb * x2) by (nonlinear_arith); gr = x1 + bb * x2 - quot.nv() * hi; }
-- before `let mut d1 = den_low`
let ghost q0 = quot.nv() as int;
proof { T::ax_nv(quot); est(x0, x1, x2, lo, hi, q0, gr, bb); }
-- after `let mut d3 = `
let ghost mut e3 = d3.nv() as int;
proof {
    T::ax_nv(d1); T::ax_nv(d2);
    gt3(d3.nv() as int, d2.nv() as int, d1.nv() as int, x2, x1, x0, bb);
    mul3(d1.nv() as int, c1.nv() as int, d2.nv() as int, d3.nv() as int, lo, hi, q0, bb);
}
-- before `quot.dec()` #0
let ghost (f1, f2, f3) = (d1.nv() as int, d2.nv() as int, d3.nv() as int);
let ghost (y0, y1, y2) = (quot.nv() as int, digit.nv() as int, 0int);
-- after `d2.sub_carry_assign(den_high, carry)` #0
proof {
    T::ax_nv(d1); T::ax_nv(d2); T::ax_nv(quot);
    let c2 = if d2.nv() + hi + b2n(carry) == f2 { 0int } else { 1int };
    sub3(f1, f2, f3, d1.nv() as int, d2.nv() as int, lo, hi, b2n(carry) as int, c2, bb);
    T::ax_nv(d3); assert(d3.nv() == f3 - c2);
    e3 = d3.nv() as int;
    gt3(d3.nv() as int, d2.nv() as int, d1.nv() as int, x2, x1, x0, bb);
}
-- before `quot.dec()` #1
let ghost (g1, g2, g3) = (d1.nv() as int, d2.nv() as int, d3.nv() as int);
-- after `d2.sub_carry_assign(den_high, carry)` #1
proof {
    T::ax_nv(d1); T::ax_nv(d2); T::ax_nv(quot);
    let c2 = if d2.nv() + hi + b2n(carry) == g2 { 0int } else { 1int };
    sub3(g1, g2, g3, d1.nv() as int, d2.nv() as int, lo, hi, b2n(carry) as int, c2, bb);
    e3 = g3 - c2;
}
-- before `let carry = digit.sub_carry_assign(d1, false)`
let ghost q = quot.nv() as int;
let ghost (h1, h2) = (d1.nv() as int, d2.nv() as int);
proof {
    assert(n3(h1, h2, e3, bb) == q * dn);
    assert(q * dn <= n3(x0, x1, x2, bb) < (q + 1) * dn) by { assert((q + 1) * dn == q * dn + dn) by (nonlinear_arith); }
    rem2(n3(x0, x1, x2, bb), dn, q, bb, lo, hi);
}
-- after `rem_low.sub_carry_assign(d2, carry)`
proof {
    T::ax_nv(*digit); T::ax_nv(rem_low); 
    let c2 = if rem_low.nv() + h2 + b2n(carry) == x1 { 0int } else { 1int };
    dif3(x0, x1, x2, h1, h2, e3, digit.nv() as int, rem_low.nv() as int, b2n(carry) as int, c2, bb, dn);
}
-- in loop 0 end
proof {
    assert(n3(x0, x1, x2, bb) == x0 + bb * (x1 + bb * x2)) by { reveal(n3); }
    divstep(nr@, nr_prev, nr_s, k, n as int, dn, rem_low.nv() + bb * rem_high.nv(), x1 + bb * x2, c0);
}
-- in loop 0 after
let ghost (l2, h2) = (rem_low.nv() as int, rem_high.nv() as int);
let ghost v = vl(s0) - vl(nr@) * dd;
proof {
    sv_full(nr@); sv_full(nr_s); assert(dn >= 0);
    unscale(vl(s0) as int, vl(nr@) as int, dd, p2, l2 + bb * h2);
    assert(v * 1 == v);
}
-- after `rem_low.shr_carry_assign(shift, carry)`
proof {
    let c = h2 - rem_high.nv() * p2;
    assert(0 * T::dbase() == 0);
    shr2(l2, h2, rem_low.nv() as int, rem_high.nv() as int, c, l2 + c * bb - rem_low.nv() * p2, p2, bb, v);
}
-- before `let nquot = drop_leading_zeros(nr, n)`
proof { assert(nr@.subrange(0, n as int) =~= nr@); }
== end

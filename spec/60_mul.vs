== block mod ubig::mul
use crate::lem::*;
use crate::lemmul::*;
== block mod ubig::mul::long
use crate::lem::*;
use crate::lemmul::*;
== fn ubig::mul::double_carry_assign
-- spec
requires dok(old(nr)@)
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), vl(final(nr)@) + cb::<T>(r, old(nr)@.len() as int) == 2 * vl(old(nr)@) + b2n(carry)
-- body start
let ghost nr_old = nr@;
let ghost c0 = carry;
proof { pv_init::<T>(); }
-- loop 0
invariant nr@.len() == nr_old.len() == $n0, $i0 <= $n0, dok(nr@), pv(nr@, $i0 as int) + cb::<T>($acc0, $i0 as int) == 2 * pv(nr_old, $i0 as int) + b2n(c0),
    forall|k: int| $i0 <= k < nr_old.len() ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost c_prev = $acc0;
-- in loop 0 end
proof { pvn(nr_old, $j0 as int); updb(nr@, nr_prev, $j0 as int, $acc0, 2 * nr_old[$j0 as int].nv() as int, c_prev, 2 * pv(nr_old, $j0 as int) + b2n(c0) as int); assoc(2, nr_old[$j0 as int].nv() as int, bp::<T>($j0 as int) as int); }
== fn ubig::mul::mul_add_assign_digit
-- spec
requires dok(old(nr)@), fac.nwf(), off.nwf()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), r.nwf(), vl(final(nr)@) + r.nv() * bp::<T>(old(nr)@.len() as int) == vl(old(nr)@) * fac.nv() + off.nv()
-- body start
let ghost nr_old = nr@;
let ghost (f, o) = (fac.nv() as int, off.nv() as int);
proof { pv_init::<T>(); assert(0 * f == 0); assert(o * 1 == o); }
-- loop 0
invariant nr@.len() == nr_old.len() == $n0, $i0 <= $n0, dok(nr@), fac.nwf(), fac.nv() == f, $acc0.nwf(), pv(nr@, $i0 as int) + $acc0.nv() * bp::<T>($i0 as int) == pv(nr_old, $i0 as int) * f + o,
    forall|k: int| $i0 <= k < nr_old.len() ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost c_prev = $acc0;
-- in loop 0 end
proof { muldig(nr@, nr_prev, nr_old, $j0 as int, f, $acc0.nv() as int, c_prev.nv() as int, o); }
== fn ubig::mul::mul_digit_into
-- spec
requires dok(nr@), fac.nwf(), dok(old(product)@), old(product)@.len() > nr@.len()
ensures final(product)@.len() == old(product)@.len(), dok(final(product)@), pv(final(product)@, nr@.len() as int + 1) == vl(nr@) * fac.nv(), forall|i: int| nr@.len() < i < final(product)@.len() ==> #[trigger] final(product)@[i] == old(product)@[i]
-- body start
let ghost p_old = product@;
let ghost f = fac.nv() as int;
proof { pv_init::<T>(); assert(0 * f == 0); }
-- loop 0
invariant product@.len() == p_old.len() > $n0, nr@.len() == $n0 == nd, $i0 <= $n0, dok(nr@), dok(product@), fac.nwf(), fac.nv() == f, $acc0.nwf(), pv(product@, $i0 as int) + $acc0.nv() * bp::<T>($i0 as int) == pv(nr@, $i0 as int) * f,
    forall|k: int| $i0 <= k < p_old.len() ==> #[trigger] product@[k] == p_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost p_prev = product@;
let ghost c_prev = $acc0;
-- in loop 0 end
proof { muldig(product@, p_prev, nr@, $j0 as int, f, $acc0.nv() as int, c_prev.nv() as int, 0); }
-- in loop 0 after
proof {
    let m = product@;
    assert forall|x: T| pv(#[trigger] m.update(nd as int, x), nd + 1) == pv(m, nd as int) + x.nv() * bp::<T>(nd as int) by { let u = m.update(nd as int, x); pvn(u, nd as int); pv_eq(u, m, nd as int); }
}
== fn ubig::mul::mul_pair_add_assign_digit
-- spec
requires dok(old(nr)@), fac_low.nwf(), fac_high.nwf(), offset.nwf()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), r.0.nwf(), r.1.nwf(),
    vl(final(nr)@) + (r.0.nv() + r.1.nv() * T::dbase()) * bp::<T>(old(nr)@.len() as int) == vl(old(nr)@) * (fac_low.nv() + T::dbase() * fac_high.nv()) + offset.nv()
-- body start
let ghost nr_old = nr@;
let ghost (f, g, o) = (fac_low.nv() as int, fac_high.nv() as int, offset.nv() as int);
let ghost bb = T::dbase() as int;
proof { pv_init::<T>(); assert(0 * (f + bb * g) == 0); assert((o + 0 * bb) * 1 == o); T::ax_nv(fac_low); T::ax_nv(fac_high); T::ax_nv(offset); if nr@.len() > 0 { T::ax_nv(nr@[0]); } }
-- after `let mut carry0`
proof { T::ax_nv(carry0); T::ax_nv(nr@[0]); pv1(nr@); pv1(nr_old); pairstep0(pv(nr@, 1) as int, carry0.nv() as int, nr_old[0].nv() as int, f, g, o, bb); assert(bp::<T>(1) == bb); }
-- loop 0
invariant nr@.len() == nr_old.len() >= 1, $n0 == nr_old.len() - 1, $i0 <= $n0, dok(nr@), fac_low.nwf(), fac_low.nv() == f, fac_high.nwf(), fac_high.nv() == g, carry0.nwf(), prev == nr_old[$i0 as int], prev.nwf(), bb == T::dbase(), dok(nr_old),
    pv(nr@, $i0 + 1) + ((carry0.nv() + b2n(add_one) * bb) + prev.nv() * g) * bp::<T>($i0 + 1) == pv(nr_old, $i0 + 1) * (f + bb * g) + o,
    forall|k: int| $i0 < k < nr_old.len() ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost c_prev = carry0.nv() + b2n(add_one) * bb;
let ghost (c0, a0) = (carry0.nv() as int, add_one);
-- before `if add_one` #0
let ghost kk = carry0.nv() as int;
proof { T::ax_nv(carry0); }
-- before `let carry1`
let ghost cc = carry0.nv() as int;
let ghost aa = add_one;
let ghost pp = prev.nv() as int;
proof {
    T::ax_nv(carry0); if aa { assert(cc == 0); }
    let a = b2n(a0) as int; let b = b2n(aa) as int; let w = nr_old[$j0 as int].nv() * g;
    assert(cc + b * bb == kk + a);
    assert(pp + (cc + b * bb) * bb == w + (c0 + a * bb)) by (nonlinear_arith) requires cc + b * bb == kk + a, pp + kk * bb == w + c0;
}
-- in loop 0 end
proof {
    let cn = carry0.nv() + b2n(add_one) * bb;
    T::ax_nv(carry1); T::ax_nv(carry0);
    assert(cn == cc + b2n(aa) * bb + carry1.nv());
    let (x, y, k1, ca) = (nr@[$j0 + 1].nv() as int, nr_old[$j0 + 1].nv() * f, carry1.nv() as int, cc + b2n(aa) * bb);
    assert(x + (ca + k1) * bb == y + pp + ca * bb) by (nonlinear_arith) requires x + k1 * bb == y + pp;
    pairstep(nr@, nr_prev, nr_old, $j0 + 1, f, g, o, cn, c_prev);
}
-- before `carry0 = prev` #1
let ghost (c0, a0, p0) = (carry0.nv() as int, b2n(add_one) as int, prev.nv() as int);
-- before `if add_one` #1
proof {
    let (k, p1, m) = (carry0.nv() as int, prev.nv() as int, f + bb * g);
    let n = nr_old.len() as int;
    assert(p1 + (k + a0) * bb == (c0 + a0 * bb) + p0 * g) by (nonlinear_arith) requires p1 + k * bb == p0 * g + c0;
    vl_bound(nr_old);
    assert(bb * g <= bb * (bb - 1)) by (nonlinear_arith) requires g <= bb - 1, bb >= 0;
    assert(bb * (bb - 1) == bb * bb - bb) by (nonlinear_arith);
    assert(m >= 0) by (nonlinear_arith) requires f >= 0, g >= 0, bb >= 0, m == f + bb * g;
    pairend(vl(nr@) as int, bp::<T>(n) as int, vl(nr_old) as int, m, o, bb, p1 + (k + a0) * bb);
    assert(k + a0 < bb) by (nonlinear_arith) requires p1 + (k + a0) * bb < bb * bb, p1 >= 0, bb > 0;
}
== fn ubig::mul::long::mul_big_long_into
-- spec
requires dok(nr0@), dok(nr1@), dok(old(result)@), old(result)@.len() >= nr0@.len() + nr1@.len()
ensures prod(old(result)@, final(result)@, (nr0@.len() + nr1@.len()) as int, r as int, (vl(nr0@) * vl(nr1@)) as int)
-- body start
proof { ax_mem(nr0); ax_mem(nr1); pv_init::<T>(); }
let ghost r_old = result@;
-- loop 0
invariant nr0@.len() == nd0, nr1@.len() == nd1 == $n0, nd == nd0 + nd1, result@.len() == r_old.len() >= nd, $i0 <= $n0, dok(nr0@), dok(nr1@), dok(result@),
    pv(result@, nd0 + $i0) == vl(nr0@) * pv(nr1@, $i0 as int), forall|k: int| nd0 + $i0 <= k < nd ==> (#[trigger] result@[k]).nv() == 0,
    forall|k: int| nd <= k < r_old.len() ==> #[trigger] result@[k] == r_old[k]
decreases $n0 - $i0
-- in loop 0 before
proof { pv_zeros(result@, 0, nd0 as int); assert(vl(nr0@) * 0 == 0); }
-- in loop 0 start
let ghost outer = result@;
proof { assert(0 * d1.nv() == 0); assert(0 * bp::<T>(offset as int) == 0); }
-- loop 1
invariant nr0@.len() == nd0 == $n1, $i1 <= $n1, offset + nd0 < nd, result@.len() == outer.len() >= nd, dok(nr0@), dok(result@), $acc1.nwf(), d1.nwf(),
    pv(result@, offset + $i1) + $acc1.nv() * bp::<T>(offset + $i1) == pv(outer, offset + $i1) + (pv(nr0@, $i1 as int) * d1.nv()) * bp::<T>(offset as int),
    forall|k: int| offset + $i1 <= k < outer.len() ==> #[trigger] result@[k] == outer[k]
decreases $n1 - $i1
-- in loop 1 top
let ghost r_prev = result@;
let ghost c_prev = $acc1;
-- in loop 1 end
proof { addmul(result@, r_prev, outer, nr0@, offset as int, $j1 as int, d1.nv() as int, $acc1.nv() as int, c_prev.nv() as int); }
-- before `result[offset+nd0] = carry`
let ghost mid = result@;
-- in loop 0 end
proof {
    pvn(result@, offset + nd0); pv_eq(result@, mid, offset + nd0); pvn(nr1@, offset as int);
    let (a, b, v, p) = (pv(nr1@, offset as int) as int, d1.nv() as int, vl(nr0@) as int, bp::<T>(offset as int) as int);
    assert(v * (a + b * p) == v * a + (v * b) * p) by (nonlinear_arith);
}
-- tail
proof { pv_zeros(result@, tail__ as int, nd as int); }
== fn ubig::mul::long::square_long_into
-- spec
requires dok(nr0@), dok(old(square)@), old(square)@.len() >= 2 * nr0@.len()
ensures prod(old(square)@, final(square)@, 2 * nr0@.len() as int, r as int, (vl(nr0@) * vl(nr0@)) as int)
-- body start
proof { ax_mem(nr0); pv_init::<T>(); }
let ghost r_old = square@;
-- loop 0
invariant nr0@.len() == nd0, nd == 2 * nd0, $n0 == imax(nd0 - 1, 0), square@.len() == r_old.len() >= nd, $i0 <= $n0, dok(nr0@), dok(square@),
    nd0 > 0 ==> 2 * pv(square@, 2 * $i0 + 1) + sqs(nr0@, $i0 + 1) == pv(nr0@, $i0 + 1) * pv(nr0@, $i0 + 1), 
    forall|k: int| 2 * $i0 + 1 <= k < nd ==> (#[trigger] square@[k]).nv() == 0,
    forall|k: int| nd <= k < r_old.len() ==> #[trigger] square@[k] == r_old[k]
decreases $n0 - $i0
-- in loop 0 before
proof { if nd0 > 0 { pv_zeros(square@, 0, 1); pvn(nr0@, 0); reveal_with_fuel(sqs, 3); let d = nr0@[0].nv() as int; assert(d * 1 == d); assert(d * d * 1 == d * d); } }
-- in loop 0 start
let ghost outer = square@;
proof { assert(0 * d1.nv() == 0); assert(0 * bp::<T>(n1 as int) == 0); pv_zeros(outer, 2 * n1 - 1, 2 * n1 as int); }
-- loop 1
invariant nr0@.len() == nd0, $n1 == n1 == $j0 + 1, n1 < nd0, nd == 2 * nd0, $i1 <= $n1, square@.len() == outer.len() >= nd, dok(nr0@), dok(square@), $acc1.nwf(), d1.nwf(),
    pv(square@, n1 + $i1) + $acc1.nv() * bp::<T>(n1 + $i1) == pv(outer, n1 + $i1) + (pv(nr0@, $i1 as int) * d1.nv()) * bp::<T>(n1 as int),
    forall|k: int| n1 + $i1 <= k < outer.len() ==> #[trigger] square@[k] == outer[k]
decreases $n1 - $i1
-- in loop 1 top
let ghost r_prev = square@;
let ghost c_prev = $acc1;
-- in loop 1 end
proof { addmul(square@, r_prev, outer, nr0@, n1 as int, $j1 as int, d1.nv() as int, $acc1.nv() as int, c_prev.nv() as int); }
-- before `square[2*n1] = carry`
let ghost mid = square@;
-- in loop 0 end
proof { pvn(square@, 2 * n1 as int); pv_eq(square@, mid, 2 * n1 as int); sqstep(nr0@, n1 as int, pv(outer, 2 * n1 as int) as int); }
-- before `super::double_carry_assign`
let ghost s1 = square@;
proof {
    if nd0 > 0 { pv_zeros(s1, 2 * nd0 - 1, nd as int); } else { reveal_with_fuel(sqs, 2); assert(0 * 0 == 0); }
    pv_split(s1, nd as int, nd as int);
    assert(2 * pv(s1, nd as int) + sqs(nr0@, nd0 as int) == vl(nr0@) * vl(nr0@));
    vl_bound(nr0@); bp_add::<T>(nd0 as int, nd0 as int); mul_lt(vl(nr0@) as int, vl(nr0@) as int, bp::<T>(nd0 as int) as int, bp::<T>(nd0 as int) as int);
}
-- after `super::double_carry_assign`
let ghost s2 = square@;
proof {
    pv_split(s2, nd as int, nd as int); dok_seg(s2, s1, 0, nd as int);
    assert(pv(s2, nd as int) == 2 * pv(s1, nd as int));
    reveal_with_fuel(sqs, 2);
}
-- loop 2
invariant nr0@.len() == nd0 == $n2, nd == 2 * nd0, square@.len() == s2.len() >= nd, $i2 <= $n2, dok(nr0@), dok(square@),
    pv(square@, 2 * $i2) + cb::<T>(carry, 2 * $i2) == pv(s2, 2 * $i2) + sqs(nr0@, $i2 as int),
    forall|k: int| 2 * $i2 <= k < s2.len() ==> #[trigger] square@[k] == s2[k]
decreases $n2 - $i2
-- in loop 2 top
let ghost r_prev = square@;
let ghost c_prev = carry;
-- in loop 2 end
proof {
    sqadd(square@, r_prev, s2, nr0@, $j2 as int, carry, c_prev, carry2.nv() as int);
}
-- before `if !(!carry)`
proof { pv_bound(square@, nd as int); }
-- tail
proof { pv_zeros(square@, tail__ as int, nd as int); }
== end

== block mod ubig::shl
use crate::lem::*;
use crate::lemdiv::msnorm;
use vstd::arithmetic::power2::*;
== block mod ubig::shr
use crate::lem::*;
use vstd::arithmetic::power2::*;
== fn ubig::shl::shl_carry_assign_within_digit
-- spec
requires dok(old(nr)@), carry.nwf(), carry.nv() < pow2(shift as nat) < T::dbase()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), r.nwf(), r.nv() < pow2(shift as nat), vl(final(nr)@) + r.nv() * bp::<T>(old(nr)@.len() as int) == vl(old(nr)@) * pow2(shift as nat) + carry.nv()
-- body start
let ghost nr_old = nr@;
let ghost c0 = carry.nv();
let ghost p2 = pow2(shift as nat) as int;
proof { pv_init::<T>(); lemma2_to64(); assert(vl(nr_old) * 1 == vl(nr_old)); assert(0 * bp::<T>(nr_old.len() as int) == 0); }
-- loop 0
invariant nr@.len() == nr_old.len() == $n0, $i0 <= $n0, shift > 0, p2 == pow2(shift as nat) < T::dbase(), dok(nr@), carry.nwf(), carry.nv() < p2, pv(nr@, $i0 as int) + carry.nv() * bp::<T>($i0 as int) == pv(nr_old, $i0 as int) * p2 + c0,
    forall|k: int| $i0 <= k < nr_old.len() ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 start
proof { assert(carry.nv() * 1 == carry.nv()); assert(0 * p2 == 0); }
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost c_prev = carry;
-- in loop 0 end
proof {
    let j = $j0 as int;
    pvn(nr_old, j);
    let (d, p) = (nr_old[j].nv() as int, bp::<T>(j) as int);
    upd(nr@, nr_prev, j, carry.nv() as int, d * p2, c_prev.nv() as int, pv(nr_old, j) * p2 + c0);
    assert((d * p2) * p == (d * p) * p2) by (nonlinear_arith);
    dist(pv(nr_old, j) as int, d * p, p2);
}
== fn ubig::shl::max_shift
-- spec
requires nr@.len() > 0, dok(nr@), nr@[nr@.len() - 1].nv() != 0
ensures r < 64, pow2(r as nat) < T::dbase(), vl(nr@) * pow2(r as nat) < bp::<T>(nr@.len() as int), T::dbase() <= nr@[nr@.len() - 1].nv() * pow2((r + 2) as nat), bp::<T>(nr@.len() as int) <= 2 * (vl(nr@) * pow2(r as nat))
-- body start
let ghost n = nr@.len() as int;
let ghost top = nr@[n - 1].nv() as int;
let ghost mut gv = 0int;
proof { pv_init::<T>(); T::ax_digit(); lemma2_to64(); pvn(nr@, n - 1); pv_bound(nr@, n - 1); vl_bound(nr@); bp_unfold::<T>(n - 1); }
-- before `return 0`
proof { lemma_pow2_unfold(1); lemma_pow2_unfold(2); assert(vl(nr@) * 1 == vl(nr@)); assert(top * 2 <= top * 4); assert(top * 1 == top); msnorm(top, vl(nr@) as int, 1, T::dbase() as int, bp::<T>(n - 1) as int); }
-- before `let mut carry`
let ghost p2 = pow2(shift as nat) as int;
proof {
    lemma_pow2_unfold((shift + 1) as nat); lemma_pow2_unfold((shift + 2) as nat); lemma_pow2_unfold(shift as nat); lemma_pow2_pos(shift as nat);lemma_pow2_pos((shift - 1) as nat);
    assert(top * p2 >= p2) by (nonlinear_arith) requires top >= 1, p2 > 0;
    assert(0 * p2 == 0);
}
-- loop 0
invariant $n0 == nr@.len() == n, $i0 <= $n0, 0 < shift < 64, p2 == pow2(shift as nat) < T::dbase(), dok(nr@), carry.nwf(), carry.nv() < p2, gv + carry.nv() * bp::<T>($i0 as int) == pv(nr@, $i0 as int) * p2, 0 <= gv < bp::<T>($i0 as int)
decreases $n0 - $i0
-- in loop 0 end
proof {
    let j = $j0 as int;
    let (d, p, b, s) = (nr@[j].nv() as int, bp::<T>(j) as int, T::dbase() as int, shifted.nv() as int);
    pvn(nr@, j); bp_unfold::<T>(j); T::ax_nv(shifted);
    step_up(gv, pv(nr@, j) * p2, p, b, s, carry.nv() as int, d * p2, gc_prev.nv() as int);
    assert((d * p2) * p == (d * p) * p2) by (nonlinear_arith);
    dist(pv(nr@, j) as int, d * p, p2);
    assert(0 <= s * p && gv + s * p < b * p) by (nonlinear_arith) requires 0 <= gv < p, 0 <= s, s + 1 <= b;
    gv = gv + s * p;
}
-- in loop 0 top
let ghost gc_prev = carry;
-- tail
proof {
    let (b, p, v) = (T::dbase() as int, bp::<T>(n - 1) as int, vl(nr@) as int);
    let h = pow2((shift - 1) as nat) as int;
    assert(0 * bp::<T>(n) == 0);
    assert(p2 == 2 * h);
    assert(top * p2 == 2 * (top * h)) by (nonlinear_arith) requires p2 == 2 * h;
    assert(top * h >= h) by (nonlinear_arith) requires top >= 1, h > 0;
    assert(v * h < b * p) by (nonlinear_arith) requires v < top * p + p, top * h + h < b, h > 0, p > 0;
    assert(top * (4 * p2) == 2 * (top * (2 * p2))) by (nonlinear_arith);
    assert(top * (2 * p2) == 2 * (top * p2)) by (nonlinear_arith);
    msnorm(top, v, p2, b, p);
    assert(p2 == 2 * h); assoc(v, 2, h); assoc(2, v, h);
    if carry.nv() > 0 { assert(carry.nv() * bp::<T>(n) >= bp::<T>(n)) by (nonlinear_arith) requires carry.nv() >= 1; }
    assert(pow2((shift + 1) as nat) == 2 * p2);
    assert(top * pow2((shift + 2) as nat) >= b) by (nonlinear_arith) requires pow2((shift + 2) as nat) == 4 * p2, top * (2 * p2) >= b, top >= 1, p2 >= 1;
    assert(top * pow2((shift + 1) as nat) >= b);
}
== fn ubig::shr::shr_carry_assign_within_digit
-- spec
requires dok(old(nr)@), carry.nwf(), carry.nv() < pow2(shift as nat) < T::dbase()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), r.1.nwf(), r.1.nv() < pow2(shift as nat), nlen(final(nr)@, r.0 as int), vl(final(nr)@) * pow2(shift as nat) + r.1.nv() == vl(old(nr)@) + carry.nv() * bp::<T>(old(nr)@.len() as int)
-- body start
let ghost nr_old = nr@;
let ghost c0 = carry.nv() as int;
let ghost p2 = pow2(shift as nat) as int;
let ghost n = nr_old.len() as int;
proof { pv_init::<T>(); lemma2_to64(); sv_full(nr_old); assert(vl(nr_old) * 1 == vl(nr_old)); assert(0 * bp::<T>(nr_old.len() as int) == 0); assert(0 * p2 == 0); assert(c0 * 1 == c0); }
-- loop 0
invariant nr@.len() == nr_old.len() == $n0 == n, $i0 <= $n0, shift > 0, p2 == pow2(shift as nat) < T::dbase(), dok(nr@), carry.nwf(), carry.nv() < p2,
    sv(nr@, n - $i0, n) * p2 + carry.nv() == sv(nr_old, n - $i0, n) + c0 * bp::<T>($i0 as int),
    forall|k: int| 0 <= k < n - $i0 ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
let ghost c_prev = carry;
-- in loop 0 end
proof {
    let (j, k) = ($j0 as int, n - 1 - $j0);
    sv_step(nr@, k, n); sv_step(nr_old, k, n); sv_eq(nr@, nr_prev, k + 1, n); bp_unfold::<T>(j);
    let (b, s, d) = (T::dbase() as int, sv(nr_prev, k + 1, n) as int, nr@[k].nv() as int);
    assert((d + b * s) * p2 == d * p2 + b * (s * p2)) by (nonlinear_arith);
    dist(s * p2, c_prev.nv() as int, b);
    dist(sv(nr_old, k + 1, n) as int, c0 * bp::<T>(j), b);
    assoc(b, c0, bp::<T>(j) as int);
    assert(b * c_prev.nv() == c_prev.nv() * b) by (nonlinear_arith);
}
-- in loop 0 after
proof { sv_full(nr@); }
== end

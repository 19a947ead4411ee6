== block mod ubig::sub
use crate::lem::*;
== block mod ubig::cmp
use crate::lem::*;
use vstd::std_specs::cmp::*;
== block mod ubig::rsub
use crate::lem::*;
== fn ubig::cmp::cmp
-- spec
ensures T::obeys_cmp_spec() ==> r == crate::ubig::dcmp(nr0@, nr1@)
== fn ubig::cmp::lt
-- spec
requires dok(nr0@), dok(nr1@)
ensures r == (nr0@.len() < nr1@.len() || nr0@.len() == nr1@.len() && vl(nr0@) < vl(nr1@)), dnorm(nr0@) && dnorm(nr1@) ==> r == (vl(nr0@) < vl(nr1@))
-- body start
proof {
    T::ax_digit();
    if nr0@.len() == nr1@.len() { rlex_val(nr0@, nr1@, nr0@.len() as int); }
    if dnorm(nr0@) && dnorm(nr1@) { if nr0@.len() < nr1@.len() { len_lt(nr0@, nr1@); } if nr0@.len() > nr1@.len() { len_lt(nr1@, nr0@); } }
}
== fn ubig::rsub::rsub_assign_big
-- spec
requires dok(old(nr0)@), dok(nr1@), nr1@.len() == old(nr0)@.len()
ensures final(nr0)@.len() == old(nr0)@.len(), dok(final(nr0)@), match r {
    Ok(m) => vl(final(nr0)@) + vl(old(nr0)@) == vl(nr1@) && nlen(final(nr0)@, m as int),
    Err(e) => e == Error::Underflow && vl(nr1@) < vl(old(nr0)@) && vl(final(nr0)@) + vl(old(nr0)@) == vl(nr1@) + bp::<T>(nr1@.len() as int) }
-- body start
let ghost nr_old = nr0@;
proof { pv_init::<T>(); }
-- loop 0
invariant nr0@.len() == nr_old.len() == nr1@.len() == $n0, $i0 <= $n0, dok(nr0@), dok(nr1@), pv(nr0@, $i0 as int) - cb::<T>(carry, $i0 as int) == pv(nr1@, $i0 as int) - pv(nr_old, $i0 as int),
    forall|k: int| $i0 <= k < nr_old.len() ==> #[trigger] nr0@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr0@;
let ghost c_prev = carry;
-- in loop 0 end
proof { pvn(nr_old, $j0 as int); pvn(nr1@, $j0 as int); updbs(nr0@, nr_prev, $j0 as int, carry, nr1@[$j0 as int].nv() - nr_old[$j0 as int].nv() as int, c_prev, pv(nr1@, $j0 as int) - pv(nr_old, $j0 as int) as int); dist(nr1@[$j0 as int].nv() as int, nr_old[$j0 as int].nv() as int, bp::<T>($j0 as int) as int); }
-- in loop 0 after
proof { vl_bound(nr0@); }
== fn ubig::sub::dec_assign
-- spec
requires dok(old(nr)@)
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), match r {
    Ok(m) => vl(final(nr)@) + 1 == vl(old(nr)@) && m <= old(nr)@.len() && (dnorm(old(nr)@) ==> nlen(final(nr)@, m as int)) && (forall|i: int| m <= i < final(nr)@.len() ==> (#[trigger] final(nr)@[i]).nv() == 0) && m + 1 >= old(nr)@.len(),
    Err(e) => e == Error::Underflow && vl(old(nr)@) == 0 && vl(final(nr)@) + 1 == bp::<T>(old(nr)@.len() as int) }
-- body start
let ghost nr_old = nr@;
proof { pv_init::<T>(); }
-- loop 0
invariant nr@.len() == nr_old.len(), $n0 + 1 == nr@.len(), $i0 <= $n0, dok(nr@), pv(nr@, $i0 as int) + 1int == pv(nr_old, $i0 as int) + bp::<T>($i0 as int),
    forall|k: int| $i0 <= k < nr_old.len() ==> #[trigger] nr@[k] == nr_old[k],
    forall|k: int| 0 <= k < $i0 ==> #[trigger] nr@[k].nv() == T::dbase() - 1
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
-- before `return Ok(n)`
proof { pvn(nr_old, $j0 as int); updbs(nr@, nr_prev, $j0 as int, false, nr_old[$j0 as int].nv() as int, true, pv(nr_old, $j0 as int) - 1int); pv_agree(nr@, nr_old, $j0 + 1, n as int); }
-- in loop 0 end
proof { T::ax_nv(nr@[$j0 as int]); pvn(nr_old, $j0 as int); updbs(nr@, nr_prev, $j0 as int, true, nr_old[$j0 as int].nv() as int, true, pv(nr_old, $j0 as int) - 1int); }
-- in loop 0 after
let ghost nr_mid = nr@;
proof { pvn(nr_old, n - 1); pv_bound(nr_old, n - 1); }
-- after `if nr[n-1].dec()`
proof { updbs(nr@, nr_mid, n - 1, tail__ is Err, nr_old[n - 1].nv() as int, true, pv(nr_old, n - 1) - 1int); vl_bound(nr_old); vl_bound(nr@); }
== fn ubig::sub::sub_assign_digit
-- spec
requires dok(old(nr)@), digit.nwf()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), match r {
    Ok(m) => vl(final(nr)@) + digit.nv() == vl(old(nr)@) && m <= old(nr)@.len() && (forall|i: int| m <= i < final(nr)@.len() ==> (#[trigger] final(nr)@[i]).nv() == 0) && (dnorm(old(nr)@) ==> nlen(final(nr)@, m as int)),
    Err(e) => e == Error::Underflow && vl(old(nr)@) < digit.nv() }
-- body start
let ghost nr_old = nr@;
proof { pv_init::<T>(); }
-- before `dec_assign`
let ghost nr_mid = nr@;
proof { pv1(nr_mid); pv1(nr_old); pv_agree(nr_mid, nr_old, 1, nr_old.len() as int); T::ax_nv(digit); T::ax_nv(nr_mid[0]); vl_split(nr_mid, 1); pv_split(nr_mid, 1, 1); }
-- before `return Err(err__)`
proof { assert(bp::<T>(1) * 0 == 0); }
-- after `dec_assign`
proof {
    dec_from(nr@, nr_mid, 1, false);
    let t = nr@.subrange(1, nr@.len() as int);
    assert forall|i: int| 1 + nd <= i < nr@.len() implies (#[trigger] nr@[i]).nv() == 0 by { assert(t[i - 1] == nr@[i]); }
    if dnorm(nr_old) { if nr_old.len() > 1 { assert(nr_mid.subrange(1, nr_old.len() as int)[nr_old.len() - 2] == nr_old[nr_old.len() - 1]); } if nd > 0 { assert(t[nd - 1] == nr@[nd as int]); } }
}
-- before `Ok(drop_leading_zeros(nr, nr.len()))`
proof { pv1(nr@); pv1(nr_old); pv_agree(nr@, nr_old, 1, nr_old.len() as int); }
== fn ubig::sub::sub_assign_big
-- spec
requires dok(old(nr0)@), dok(nr1@)
ensures final(nr0)@.len() == old(nr0)@.len(), dok(final(nr0)@), match r {
    Ok(m) => vl(final(nr0)@) + vl(nr1@) == vl(old(nr0)@) && nlen(final(nr0)@, m as int) && nr1@.len() <= old(nr0)@.len(),
    Err(e) => e == Error::Underflow && if old(nr0)@.len() < nr1@.len() { final(nr0)@ == old(nr0)@ } else { vl(old(nr0)@) < vl(nr1@) && vl(final(nr0)@) + vl(nr1@) == vl(old(nr0)@) + bp::<T>(old(nr0)@.len() as int) } }
-- body start
let ghost nr_old = nr0@;
proof { pv_init::<T>(); }
-- loop 0
invariant nr0@.len() == nr_old.len(), $n0 == nr1@.len() <= nr0@.len(), $i0 <= $n0, dok(nr0@), dok(nr1@), pv(nr0@, $i0 as int) - cb::<T>(carry, $i0 as int) == pv(nr_old, $i0 as int) - pv(nr1@, $i0 as int),
    forall|k: int| $i0 <= k < nr_old.len() ==> #[trigger] nr0@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr0@;
let ghost c_prev = carry;
-- in loop 0 end
proof { pvn(nr_old, $j0 as int); pvn(nr1@, $j0 as int); updbs(nr0@, nr_prev, $j0 as int, carry, nr_old[$j0 as int].nv() - nr1@[$j0 as int].nv() as int, c_prev, pv(nr_old, $j0 as int) - pv(nr1@, $j0 as int) as int); dist(nr_old[$j0 as int].nv() as int, nr1@[$j0 as int].nv() as int, bp::<T>($j0 as int) as int);  }
-- after `let carry`
let ghost nr_mid = nr0@;
proof { pv_agree(nr_mid, nr_old, n1 as int, nr_old.len() as int); vl_split(nr_mid, n1 as int); }
-- before `return Err(err__)`
proof { vl_bound(nr0@); dec_from(nr0@, nr_mid, n1 as int, true); }
-- after `if carry`
proof { if carry { dec_from(nr0@, nr_mid, n1 as int, false); } }
== fn ubig::sub::sub_big_into
-- spec
requires dok(nr0@), dok(nr1@), dok(old(diff)@)
ensures final(diff)@.len() == old(diff)@.len(), dok(final(diff)@), match r {
    Ok(m) => nr1@.len() <= nr0@.len() <= final(diff)@.len() && m <= nr0@.len() && pv(final(diff)@, nr0@.len() as int) + vl(nr1@) == vl(nr0@) && (m > 0 ==> final(diff)@[m - 1].nv() != 0) && (forall|i: int| m <= i < nr0@.len() ==> (#[trigger] final(diff)@[i]).nv() == 0) && (forall|i: int| nr0@.len() <= i < final(diff)@.len() ==> #[trigger] final(diff)@[i] == old(diff)@[i]),
    Err(e) => if old(diff)@.len() < nr0@.len() { e == Error::NoSpace } else { e == Error::Underflow && (nr0@.len() >= nr1@.len() ==> vl(nr0@) < vl(nr1@)) } }
-- body start
let ghost diff_old = diff@;
proof { pv_init::<T>(); }
-- loop 0
invariant diff@.len() == diff_old.len() >= nr0@.len(), $n0 == nr1@.len() <= nr0@.len(), $i0 <= $n0, dok(diff@), dok(nr0@), dok(nr1@), pv(diff@, $i0 as int) - cb::<T>(carry, $i0 as int) == pv(nr0@, $i0 as int) - pv(nr1@, $i0 as int),
    forall|k: int| $i0 <= k < diff_old.len() ==> #[trigger] diff@[k] == diff_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = diff@;
let ghost c_prev = carry;
-- in loop 0 end
proof { pvn(nr0@, $j0 as int); pvn(nr1@, $j0 as int); updbs(diff@, nr_prev, $j0 as int, carry, nr0@[$j0 as int].nv() - nr1@[$j0 as int].nv() as int, c_prev, pv(nr0@, $j0 as int) - pv(nr1@, $j0 as int) as int); dist(nr0@[$j0 as int].nv() as int, nr1@[$j0 as int].nv() as int, bp::<T>($j0 as int) as int);  }
-- before `diff[n1..n0].copy_from_slice`
let ghost dif_a = diff@;
-- after `diff[n1..n0].copy_from_slice`
let ghost dif_b = diff@;
proof { pv_eq(dif_b, dif_a, n1 as int); pv_agree(dif_b, nr0@, n1 as int, n0 as int); pv_split(dif_b, n1 as int, n0 as int);
    assert forall|i: int| 0 <= i < dif_b.len() implies (#[trigger] dif_b[i]).nwf() by { if n1 <= i < n0 { assert(dif_b[i] == nr0@[i]); } else { assert(dif_b[i] == dif_a[i]); } } }
-- before `return Err(err__)`
proof { dec_at(diff@, dif_b, n1 as int, n0 as int, true); pv_bound(diff@, n0 as int); dok_seg(diff@, dif_b, n1 as int, n0 as int); }
-- after `if carry`
proof { if carry { dec_at(diff@, dif_b, n1 as int, n0 as int, false); dok_seg(diff@, dif_b, n1 as int, n0 as int); } }
== fn ubig::sub::sub_assign_big_abs_sign
-- spec
requires dok(old(nr0)@), dok(nr1@), dnorm(nr1@), len0 <= old(nr0)@.len(), nr1@.len() <= old(nr0)@.len(), dnorm(old(nr0)@.subrange(0, len0 as int)), forall|i: int| len0 <= i < nr1@.len() ==> (#[trigger] old(nr0)@[i]).nv() == 0
ensures final(nr0)@.len() == old(nr0)@.len(), dok(final(nr0)@), r.0 == (pv(old(nr0)@, len0 as int) < vl(nr1@)), r.1 <= imax(len0 as int, nr1@.len() as int),
    pv(final(nr0)@, r.1 as int) == (if r.0 { vl(nr1@) - pv(old(nr0)@, len0 as int) } else { pv(old(nr0)@, len0 as int) - vl(nr1@) }),
    r.1 > 0 ==> final(nr0)@[r.1 - 1].nv() != 0,
    forall|i: int| r.1 <= i < imax(len0 as int, nr1@.len() as int) ==> (#[trigger] final(nr0)@[i]).nv() == 0,
    forall|i: int| imax(len0 as int, nr1@.len() as int) <= i < final(nr0)@.len() ==> #[trigger] final(nr0)@[i] == old(nr0)@[i],
-- body start
let ghost nr_old = nr0@;
proof {
    pv_init::<T>(); let (n0, n1) = (len0 as int, nr1@.len() as int); let t = nr_old.subrange(0, n0);
    pv_split(nr_old, n0, n0);
    if n0 <= n1 { pv_zeros(nr_old, n0, n1); pv_split(nr_old, n1, n1); }
    if n0 > n1 { len_lt(nr1@, t); } if n1 > n0 { len_lt(t, nr1@); }
}
-- before `(true, nd)`
proof { head(nr0@, nr_old, nr1@.len() as int, nd as int); }
-- before `(false, nd)`
proof { head(nr0@, nr_old, len0 as int, nd as int); }
== fn ubig::sub::sub_big_into_abs_sign
-- spec
requires dok(nr0@), dok(nr1@), dnorm(nr0@), dnorm(nr1@), dok(old(abs_diff)@), old(abs_diff)@.len() >= imax(nr0@.len() as int, nr1@.len() as int)
ensures final(abs_diff)@.len() == old(abs_diff)@.len(), dok(final(abs_diff)@), r.0 == (vl(nr0@) < vl(nr1@)), r.1 <= imax(nr0@.len() as int, nr1@.len() as int),
    pv(final(abs_diff)@, r.1 as int) == (if r.0 { vl(nr1@) - vl(nr0@) } else { vl(nr0@) - vl(nr1@) }),
    r.1 > 0 ==> final(abs_diff)@[r.1 - 1].nv() != 0,
    forall|i: int| r.1 <= i < imax(nr0@.len() as int, nr1@.len() as int) ==> (#[trigger] final(abs_diff)@[i]).nv() == 0,
    forall|i: int| imax(nr0@.len() as int, nr1@.len() as int) <= i < final(abs_diff)@.len() ==> #[trigger] final(abs_diff)@[i] == old(abs_diff)@[i],
-- body start
let ghost dif_old = abs_diff@;
proof { pv_init::<T>(); if nr0@.len() > nr1@.len() { len_lt(nr1@, nr0@); } if nr1@.len() > nr0@.len() { len_lt(nr0@, nr1@); } }
-- tail
proof { pv_zeros(abs_diff@, tail__.1 as int, imax(nr0@.len() as int, nr1@.len() as int)); }
== end

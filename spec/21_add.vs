== block mod ubig::add
use crate::lem::*;
== block mod ubig
use crate::lem::*;
use vstd::std_specs::cmp::*;
== fn ubig::add::inc_assign
-- spec
requires dok(old(nr)@)
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@), vl(final(nr)@) + cb::<T>(r, old(nr)@.len() as int) == vl(old(nr)@) + 1
-- body start
let ghost nr_old = nr@;
proof { pv_init::<T>(); }
-- loop 0
invariant nr@.len() == nr_old.len(), $n0 == nr@.len(), $i0 <= $n0, dok(nr@), pv(nr@, $i0 as int) + bp::<T>($i0 as int) == pv(nr_old, $i0 as int) + 1,
    forall|k: int| $i0 <= k < $n0 ==> #[trigger] nr@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr@;
-- before `return false`
proof { pvn(nr_old, $j0 as int); updb(nr@, nr_prev, $j0 as int, false, nr_old[$j0 as int].nv() as int, true, pv(nr_old, $j0 as int) + 1int); pv_agree(nr@, nr_old, $j0 + 1, $n0 as int); }
-- in loop 0 end
proof { pvn(nr_old, $j0 as int); updb(nr@, nr_prev, $j0 as int, true, nr_old[$j0 as int].nv() as int, true, pv(nr_old, $j0 as int) + 1int); }
== fn ubig::add::add_assign_digit
-- spec
requires dok(old(nr)@), digit.nwf()
ensures final(nr)@.len() == old(nr)@.len(), dok(final(nr)@),
    match r { None => vl(final(nr)@) == vl(old(nr)@) + digit.nv(), Some(c) => c.nwf() && c.nv() > 0 && vl(final(nr)@) + c.nv() * bp::<T>(old(nr)@.len() as int) == vl(old(nr)@) + digit.nv() }
-- body start
let ghost nr_old = nr@;
proof { pv_init::<T>(); }
-- before `inc_assign`
let ghost nr_mid = nr@;
proof { pv1(nr_mid); pv1(nr_old); pv_agree(nr_mid, nr_old, 1, nr_old.len() as int); }
-- after `inc_assign`
proof { inc_at(nr@, nr_mid, 1, nr_mid.len() as int, tail__ is Some); }
-- tail
proof {
    let n = nr_old.len() as int;
    if n == 0 { assert(vl(nr@) == 0); assert(digit.nv() * bp::<T>(0) == digit.nv()); }
    else if digit.nv() != 0 && nr@[0].nv() == nr_old[0].nv() + digit.nv() {
        pv1(nr@); pv1(nr_old); pv_agree(nr@, nr_old, 1, n);
    }
}
== fn ubig::add::add_assign_big
-- spec
requires dok(old(nr0)@), dok(nr1@), nr1@.len() <= old(nr0)@.len()
ensures final(nr0)@.len() == old(nr0)@.len(), dok(final(nr0)@), vl(final(nr0)@) + cb::<T>(r, old(nr0)@.len() as int) == vl(old(nr0)@) + vl(nr1@)
-- body start
let ghost nr_old = nr0@;
proof { pv_init::<T>(); }
-- loop 0
invariant nr0@.len() == nr_old.len(), $n0 == nr1@.len() <= nr0@.len(), $i0 <= $n0, dok(nr0@), dok(nr1@), pv(nr0@, $i0 as int) + cb::<T>(carry, $i0 as int) == pv(nr_old, $i0 as int) + pv(nr1@, $i0 as int),
    forall|k: int| $i0 <= k < nr_old.len() ==> #[trigger] nr0@[k] == nr_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost nr_prev = nr0@;
let ghost c_prev = carry;
-- in loop 0 end
proof { pvn(nr_old, $j0 as int); pvn(nr1@, $j0 as int); updb(nr0@, nr_prev, $j0 as int, carry, nr_old[$j0 as int].nv() + nr1@[$j0 as int].nv() as int, c_prev, pv(nr_old, $j0 as int) + pv(nr1@, $j0 as int) as int); dist(nr_old[$j0 as int].nv() as int, nr1@[$j0 as int].nv() as int, bp::<T>($j0 as int) as int);  }
-- in loop 0 after
let ghost nr_mid = nr0@;
proof { pv_agree(nr_mid, nr_old, nd1 as int, nr_old.len() as int); }
-- tail
proof { if carry { inc_at(nr0@, nr_mid, nd1 as int, nr_mid.len() as int, tail__); } }
== fn ubig::add::add_big_into
-- spec
requires dok(nr0@), dok(nr1@), dok(old(sum)@)
ensures final(sum)@.len() == old(sum)@.len(), dok(final(sum)@), match r {
    Err(e) => e == Error::NoSpace,
    Ok(n) => n <= final(sum)@.len() && imax(nr0@.len() as int, nr1@.len() as int) <= n <= imax(nr0@.len() as int, nr1@.len() as int) + 1 && pv(final(sum)@, n as int) == vl(nr0@) + vl(nr1@)
      && (n > imax(nr0@.len() as int, nr1@.len() as int) ==> final(sum)@[n - 1].nv() == 1) && (forall|k: int| n <= k < final(sum)@.len() ==> final(sum)@[k] == old(sum)@[k]) },
    old(sum)@.len() > imax(nr0@.len() as int, nr1@.len() as int) ==> r is Ok,
    old(sum)@.len() >= imax(nr0@.len() as int, nr1@.len() as int) && vl(nr0@) + vl(nr1@) < bp::<T>(old(sum)@.len() as int) ==> r is Ok
-- body start
let ghost sum_old = sum@;
proof { pv_init::<T>(); }
-- loop 0
invariant nr0@.len() == n0, nr1@.len() == n1, nmin == imin(n0 as int, n1 as int), nmax == imax(n0 as int, n1 as int), sum@.len() == sum_old.len() >= nmax, $n0 == nmin, $i0 <= $n0, dok(nr0@), dok(nr1@), dok(sum@), pv(sum@, $i0 as int) + cb::<T>(carry, $i0 as int) == pv(nr0@, $i0 as int) + pv(nr1@, $i0 as int),
    forall|k: int| $i0 <= k < sum_old.len() ==> #[trigger] sum@[k] == sum_old[k]
decreases $n0 - $i0
-- in loop 0 top
let ghost sum_prev = sum@;
let ghost c_prev = carry;
-- in loop 0 end
proof { pvn(nr0@, $j0 as int); pvn(nr1@, $j0 as int); updb(sum@, sum_prev, $j0 as int, carry, nr0@[$j0 as int].nv() + nr1@[$j0 as int].nv() as int, c_prev, pv(nr0@, $j0 as int) + pv(nr1@, $j0 as int) as int); dist(nr0@[$j0 as int].nv() as int, nr1@[$j0 as int].nv() as int, bp::<T>($j0 as int) as int);  }
-- before `match n0.cmp(&n1)`
let ghost sum_a = sum@;
-- after `match n0.cmp(&n1)`
let ghost sum_b = sum@;
proof {
    pv_eq(sum_b, sum_a, nmin as int);
    if n0 > n1 { pv_agree(sum_b, nr0@, nmin as int, nmax as int); } else { pv_agree(sum_b, nr1@, nmin as int, nmax as int); }
    assert(pv(sum_b, nmax as int) + cb::<T>(carry, nmin as int) == vl(nr0@) + vl(nr1@));
}
-- block start `if carry && inc_assign`
let ghost sum_c = sum@;
proof { inc_at(sum_c, sum_b, nmin as int, nmax as int, true); }
-- after `sum[nmax] =`
proof { pv_eq(sum@, sum_c, nmax as int); pvn(sum@, nmax as int); assert(1 * bp::<T>(nmax as int) == bp::<T>(nmax as int)); }
-- after `if carry && inc_assign`
proof { if tail__ == Result::<usize>::Ok(nmax) { if carry { inc_at(sum@, sum_b, nmin as int, nmax as int, false); } } }
== end

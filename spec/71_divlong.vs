== block mod ubig::div::long
use crate::lem::*;
use crate::lemmul::*;
use crate::lemdiv::*;
use vstd::arithmetic::power2::*;
== fn ubig::div::long::calc_div_long_work_size
-- spec
requires nden < usize::MAX
ensures r == nden + 1
== fn ubig::div::long::div_big_long_scaled
-- attr #[verifier::spinoff_prover]
-- spec
requires dok(old(num)@), dok(den@), dok(old(quot)@), dok(old(work)@), num_msd.nwf(), den@.len() >= 1, old(num)@.len() >= den@.len(), T::dbase() <= 2 * den@[den@.len() - 1].nv(), num_msd.nv() < den@[den@.len() - 1].nv(),
    old(work)@.len() >= den@.len() + 1, old(quot)@.len() >= old(num)@.len() - den@.len(),
    old(quot)@.len() >= old(num)@.len() - den@.len() + 1 || sv(old(num)@, old(num)@.len() - den@.len(), old(num)@.len() as int) + num_msd.nv() * bp::<T>(den@.len() as int) < vl(den@)
ensures final(num)@.len() == old(num)@.len(), final(work)@.len() == old(work)@.len(), dok(final(work)@), zeros(final(num)@, r.1 as int), r.1 <= den@.len(),
    divres((vl(old(num)@) + num_msd.nv() * bp::<T>(old(num)@.len() as int)) as int, vl(den@) as int, old(quot)@, final(quot)@, r.0 as int, final(num)@, r.1 as int)
-- body start
hide(dok); hide(nlen); hide(keep);
broadcast use crate::lem::dok_sub;
let ghost s0 = num@;
let ghost q0 = quot@;
let ghost w0 = work@;
let ghost (n, nd, m) = (num@.len() as int, den@.len() as int, num@.len() - den@.len());
let ghost (bb, dd, c0) = (T::dbase() as int, vl(den@) as int, num_msd.nv() as int);
let ghost w = s0.subrange(m, n).push(num_msd);
proof {
    ax_mem(num); pv_init::<T>(); ax_dcmp::<T>();
    assert(num@.subrange(0, n) =~= num@);
    assert(dok(w)) by { reveal(dok); }
    assert(den@[nd - 1].nwf() && num@[n - 1].nwf()) by { reveal(dok); }
    kn_first(w, den@); push_val(s0.subrange(m, n), num_msd);
    assert(w[nd - 1] == s0[n - 1]);
    vl_bound(den@);
}
-- before `if !(msd.max_shift() == 0)`
proof { lemma_pow2_unfold(1); lemma2_to64(); assert forall|k: u32| k > 0 implies #[trigger] pow2(k as nat) >= 2 by { lemma_pow2_pos((k - 1) as nat); lemma_pow2_unfold(k as nat); }
    assert forall|k: u32| msd.nv() * #[trigger] pow2(k as nat) < T::dbase() implies k == 0 by { if k > 0 { assert(msd.nv() * pow2(k as nat) >= msd.nv() * 2) by (nonlinear_arith) requires pow2(k as nat) >= 2; } } }
-- before `if !q.is_zero()` #0
let ghost gr = w[nd - 1].nv() + bb * c0 - q.nv() * msd.nv();
let ghost e0 = q.nv() as int;
proof { assert(c0 * bb == bb * c0) by (nonlinear_arith); T::ax_nv(q); kn(w, den@, e0, gr); T::ax_nv(msd);
    if e0 == 0 { assert(0 * msd.nv() == 0); assert(c0 == 0) by (nonlinear_arith) requires bb * c0 < bb, c0 >= 0, bb > 0; assert(0 * bp::<T>(nd) == 0); } }
-- after `crate::ubig::mul::mul_digit_into(den, q, qden)` #0
proof { cmpw(qden@, s0.subrange(m, n), c0); assert(num@.subrange(m, n) =~= s0.subrange(m, n)); assert(qden@.len() == nd + 1); }
-- before `q.dec()` #0
proof { T::ax_nv(q); vl_bound(qden@); }
-- after `let _ = crate::ubig::sub::sub_assign_big(qden, &den)` #0
proof { cmpw(qden@, s0.subrange(m, n), c0); assert(vl(qden@) == dd * (e0 - 1)); T::ax_nv(q); assert(q.nv() == e0 - 1); }
-- before `q.dec()` #1
proof { T::ax_nv(q); vl_bound(qden@); }
-- after `let _ = crate::ubig::sub::sub_assign_big(qden, &den)` #1
proof { assert(vl(qden@) == dd * (e0 - 2)); T::ax_nv(q); assert(q.nv() == e0 - 2); }
-- before `let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden])`
let ghost y = vl(qden@) as int;
proof {
    assert(y == dd * q.nv()); assert(0 <= vl(w) - y < dd);
    cmpw(qden@, s0.subrange(m, n), c0);
    vl_bound(num@.subrange(m, n));
}
-- after `let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden])`
proof {
    let p = bp::<T>(nd) as int;
    vl_bound(num@.subrange(m, n));
    first_rem(sv(num@, m, n) as int, vl(qden@.subrange(0, nd)) as int, sv(s0, m, n) as int, c0, qden@[nd].nv() as int, p, vl(w) as int, y);
    dok_at(num@, s0, m);
    assert(sv(num@, m, n) == vl(w) - dd * q.nv());
}
-- before `if q.is_zero()`
let ghost t = q.nv() as int;
proof {
    assert(t * dd == dd * t) by (nonlinear_arith);
    assert(s0.subrange(m, n).len() == nd);
    assert(vl(w) == sv(s0, m, n) + c0 * bp::<T>(nd));
    if e0 == 0 { assert(num@ == s0 && t == 0); assert(dd * t == 0); assert(sv(num@, m, n) == vl(w) - dd * t); }
    assert(sv(num@, m, n) == vl(w) - dd * t);
    assert(t * dd + sv(num@, m, n) == vl(w));
    assert(sv(num@, m, n) < dd);
    longinit(quot@, m, t, dd);
    if t > 0 { assert(t * dd >= dd) by (nonlinear_arith) requires t >= 1, dd >= 0; }
}
-- after `quot[nquot-1] = q`
proof { assert(dok(quot@)) by { reveal(dok); } longinit(quot@, m, t, dd); }
-- loop 0
invariant num@.len() == n == s0.len(), den@.len() == nd, qden@.len() == nd + 1, m == n - nd, $n0 == m, $i0 <= $n0, nd >= 1, dok(num@), dok(den@), dok(quot@), dok(qden@), dok(s0), vl(den@) == dd, bb == T::dbase(), bb <= 2 * den@[nd - 1].nv(), msd == den@[nd - 1],
    quot@.len() == q0.len() >= m, nquot == m && t == 0 || nquot == m + 1 && m < q0.len() && quot@[m].nv() == t && t > 0, forall|i: int| nquot <= i < q0.len() ==> #[trigger] quot@[i] == q0[i],
    forall|i: int| 0 <= i < m - $i0 ==> #[trigger] num@[i] == s0[i], zeros(num@, n - $i0), sv(num@, m - $i0, n - $i0) < dd,
    qv(quot@, m - $i0, m, t) * dd + sv(num@, m - $i0, n - $i0) == sv(s0, m - $i0, n) + c0 * bp::<T>(nd + $i0)
decreases $n0 - $i0
-- in loop 0 top
let ghost k = m - 1 - $i0;
let ghost nump = num@;
let ghost quotp = quot@;
let ghost wk = num@.subrange(k, k + nd + 1);
let ghost r1 = sv(num@, k + 1, k + 1 + nd) as int;
proof {
    assert(num@[k].nwf() && num@[k + nd].nwf() && num@[k + nd - 1].nwf()) by { reveal(dok); }
    sv_step(num@, k, k + nd + 1); assert(num@[k] == s0[k]); 
    T::ax_nv(num@[k]); T::ax_nv(msd);
    assert(wk[nd] == num@[k + nd] && wk[nd - 1] == num@[k + nd - 1]);
    kn_next(vl(wk) as int, s0[k].nv() as int, r1, dd, bb);
    assert(wk[nd].nv() * bb == bb * wk[nd].nv()) by (nonlinear_arith);
}
-- before `if !q.is_zero()` #1
let ghost e = q.nv() as int;
proof { T::ax_nv(q); kn(wk, den@, e, wk[nd - 1].nv() + bb * wk[nd].nv() - e * msd.nv()); }
-- after `let _ = crate::ubig::sub::sub_assign_big(qden, &den)` #2
proof { assert(vl(qden@) == dd * (e - 1)); T::ax_nv(q); assert(q.nv() == e - 1); }
-- after `let _ = crate::ubig::sub::sub_assign_big(qden, &den)` #3
proof { assert(vl(qden@) == dd * (e - 2)); T::ax_nv(q); assert(q.nv() == e - 2); }
-- before `q.dec()` #2
proof { T::ax_nv(q); vl_bound(qden@); }
-- before `q.dec()` #3
proof { T::ax_nv(q); vl_bound(qden@); }
-- before `let _ = crate::ubig::sub::sub_assign_big(&mut num[iq..iq+nden+1], qden)`
let ghost y = vl(qden@) as int;
proof { assert(y == dd * q.nv()); assert(0 <= vl(wk) - y < dd); }
-- after `let _ = crate::ubig::sub::sub_assign_big(&mut num[iq..iq+nden+1], qden)`
proof { dok_seg(num@, nump, k, k + nd + 1); }
-- before `quot[iq] = q`
let ghost g = q.nv() as int;
proof {
    assert(g * dd == dd * g) by (nonlinear_arith);
    assert(num@.subrange(k, k + nd + 1).len() == nd + 1);
    assert(g * dd + vl(num@.subrange(k, k + nd + 1)) == vl(wk));
    short(num@.subrange(k, k + nd + 1), den@, num@, k);
}
-- in loop 0 end
proof {
    assert(dok(quot@)) by { reveal(dok); }
    longstep(quot@, quotp, s0, k, m, n, t, c0, dd, sv(num@, k, k + nd) as int, r1);
}
-- in loop 0 after
proof {
    longend(quot@, m, t, nquot as int);
    pv_init::<T>(); pv_split(num@, nd, nd);
    assert(dok(quot@.subrange(0, nquot as int)) && dok(num@.subrange(0, nd)));
    assert(s0.subrange(0, n) =~= s0);
}
let ghost nq0 = nquot as int;
-- tail
proof {
    dropped(quot@, nquot as int, nq0); dropped(num@, nrem as int, nd);
    reveal(keep); dok_seg(work@, w0, 0, nd + 1);
}
== fn ubig::div::long::div_big_long
-- spec
requires dok(old(num)@), dok(den@), dnorm(den@), dok(old(quot)@), dok(old(work)@), den@.len() > 2, old(num)@.len() >= den@.len(),
    old(work)@.len() >= den@.len() + 1, old(quot)@.len() >= old(num)@.len() - den@.len(),
    old(quot)@.len() >= old(num)@.len() - den@.len() + 1 || sv(old(num)@, old(num)@.len() - den@.len(), old(num)@.len() as int) < vl(den@)
ensures final(num)@.len() == old(num)@.len(), final(work)@.len() == old(work)@.len(), dok(final(work)@), zeros(final(num)@, r.1 as int), r.1 <= den@.len(),
    divres(vl(old(num)@) as int, vl(den@) as int, old(quot)@, final(quot)@, r.0 as int, final(num)@, r.1 as int)
-- body start
hide(dok); hide(nlen); hide(keep);
broadcast use crate::lem::dok_sub;
let ghost s0 = num@;
let ghost w0 = work@;
let ghost q0 = quot@;
let ghost (n, nd, m) = (num@.len() as int, den@.len() as int, num@.len() - den@.len());
let ghost dd = vl(den@) as int;
proof {
    ax_mem(num); ax_mem(quot); ax_mem(work); pv_init::<T>(); lemma2_to64(); vl_bound(den@); norm_low(den@);
    assert(num@.subrange(0, n) =~= num@);
}
-- before `if shift == 0`
let ghost p2 = pow2(shift as nat) as int;
proof { lemma_pow2_pos(shift as nat); assert(vl(den@) * 1 == vl(den@)); if shift == 0 { half_top(den@); assert(0 * bp::<T>(nd) == 0 && 0 * bp::<T>(n) == 0); } }
-- before `let num_msd`
proof {
    bp_pos::<T>(nd);
    let x = vl(scaled_den@) as int;
    assert(0 * 1 == 0);
    assert(x == dd * p2) by { full_scale::<T>(x, vl(den@) * pow2(shift as nat) as int, bp::<T>(nd) as int); }
    half_top(scaled_den@);
    assert(dd * p2 >= p2 * bp::<T>(nd - 1)) by (nonlinear_arith) requires dd >= bp::<T>(nd - 1), p2 > 0;
    scale_top(scaled_den@, p2);
}
-- before `let (nquot, nrem) = div_big_long_scaled`
let ghost c0 = num_msd.nv() as int;
let ghost z0 = num@;
proof {
    assert(vl(z0) + c0 * bp::<T>(n) == vl(s0) * p2);
    if quot@.len() < m + 1 { scale_lt(s0, z0, m, c0, dd, p2); }
}
-- after `let (nquot, nrem) = div_big_long_scaled`
let ghost z1 = num@;
let ghost rr = vl(s0) - pv(quot@, nquot as int) * dd;
proof {
    unscale(vl(s0) as int, pv(quot@, nquot as int) as int, dd, p2, pv(num@, nrem as int) as int);
    pv_split(num@, nrem as int, nrem as int);
}
let ghost nr1 = nrem as int;
-- after `let (nrem, _) = `
proof {
    let a = num@.subrange(0, nr1);
    head(num@, z1, nr1, nrem as int);
    unscale2(vl(a) as int, rr, p2, pv(z1, nr1) - vl(a) * p2);
    reveal(zeros);
    dok_seg(work@, w0, 0, nd + 1);
}
== end

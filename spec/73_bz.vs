== fn ubig::div::bz::div_big_bz_3n_2n
-- attr #[verifier::spinoff_prover]
-- spec
requires dok(old(num)@), dok(den@), dok(old(quot)@), dok(old(work)@), den@.len() >= BZ_CUTOFF as int, den@.len() % 2 == 0, bzok(den@.len() as int / 2), old(quot)@.len() == den@.len() / 2, old(num)@.len() == den@.len() + old(quot)@.len(),
    T::dbase() <= 2 * den@[den@.len() - 1].nv(), zeros(old(quot)@, 0), vl(old(num)@) < vl(den@) * bp::<T>(old(quot)@.len() as int), old(work)@.len() >= bzw(den@.len() as int)
ensures final(num)@.len() == old(num)@.len(), final(work)@.len() == old(work)@.len(), final(quot)@.len() == old(quot)@.len(), dok(final(work)@), dok(final(num)@), dok(final(quot)@),
    vl(final(quot)@) * vl(den@) + vl(final(num)@) == vl(old(num)@), vl(final(num)@) < vl(den@)
decreases den@.len() as int, 0int
-- body start
hide(dok); hide(nlen); hide(prod0); hide(prod); hide(keep); hide(bzok);
broadcast use crate::lem::dok_sub;
let ghost s0 = num@;
let ghost q0 = quot@;
let ghost w0 = work@;
let ghost (dd, nn) = (vl(den@) as int, den@.len() / 2);
let ghost p = bp::<T>(nn as int) as int;
proof {
    ax_mem(num); ax_mem(work); pv_init::<T>(); lemma2_to64(); bp_pos::<T>(nn as int); ax_dcmp::<T>();
    assert(den@[den@.len() - 1].nwf()) by { reveal(dok); } scaled_full(den@[den@.len() - 1]);
    bzw_sub(den@.len() as int); vl_bound(den@);
}
-- after `let (b2, b1)`
let ghost (b1v, b2v) = (vl(b1@) as int, vl(b2@) as int);
let ghost (a3, a12v) = (sv(s0, 0, n as int) as int, sv(s0, n as int, 3 * n) as int);
proof {
    assert(den@ =~= b2@ + b1@); vl_concat(b2@, b1@); vl_split(s0, n as int);
    assert(b1@ =~= den@.subrange(n as int, 2 * n)); assert(b2@ =~= den@.subrange(0, n as int));
    assert(b1@[n - 1] == den@[2 * n - 1]); top_half(b1@); vl_bound(b2@); vl_bound(b1@); vl_bound(s0.subrange(0, n as int));
    assert(dd == b2v + p * b1v); assert(vl(s0) == a3 + p * a12v);
}
-- before `let (mut nquot, _)`
proof {
    assert(a12@ =~= s0.subrange(n as int, 3 * n));
    let h = a12@.subrange(n as int, 2 * n);
    vl_split(a12@, n as int); vl_bound(a12@.subrange(0, n as int)); vl_bound(h);
    assert(a12v == vl(a12@.subrange(0, n as int)) + p * vl(h));
    if vl(h) < b1v { fit_lt(a12@, b1v, n as int); } else { bztop(vl(s0) as int, a3, a12v, vl(a12@.subrange(0, n as int)) as int, vl(h) as int, p, b1v, b2v); }
}
-- after `crate::shim::slice_fill`
let ghost lo12 = vl(a12@.subrange(0, n as int)) as int;
let ghost x0 = a12@;
proof {
    assert(dok(quot@)) by { reveal(dok); } let mx = quot@[0]; T::ax_nv(mx);
    allmax(quot@, n as int); assert(quot@.subrange(0, n as int) =~= quot@); pv_split(quot@, n as int, n as int);
    assert(nlen(quot@, n as int)) by { reveal(nlen); }
}
-- before `crate::ubig::add::add_assign_big(a12, b1)`
proof {
    dok_at(a12@, x0, n as int); vl_split(a12@, n as int); assert(a12@.subrange(0, n as int) =~= x0.subrange(0, n as int));
    assert(vl(a12@.subrange(n as int, 2 * n)) == 0); assert(p * 0 == 0); assert(vl(a12@) == lo12);
    bp_add::<T>(nn as int, nn as int); assert(p * p >= 2 * p) by (nonlinear_arith) requires p >= 2; bp_mono::<T>(1, nn as int);
    vl_bound(x0.subrange(0, n as int));
    assert((p - 1) * b1v + b1v == p * b1v) by (nonlinear_arith);
}
-- after `crate::ubig::add::add_assign_big(a12, b1)`
proof { vl_bound(a12@); assert(vl(a12@) == lo12 + b1v); assert(a12@.subrange(0, a12@.len() as int) =~= a12@); }
-- after `let (mut nquot, _)`
let ghost qq = vl(quot@) as int;
let ghost rr = sv(num@, n as int, 3 * n) as int;
let ghost z = num@;
proof {
    assert(qq * b1v + rr == a12v); dok_at(z, s0, n as int); assert(num@.subrange(0, 3 * n) =~= num@);
    assert(num@.subrange(0, n as int) =~= s0.subrange(0, n as int)); vl_split(num@, n as int);
    assert(vl(num@) == a3 + p * rr);
    vl_bound(quot@);
    bz3(vl(s0) as int, a3, a12v, p, qq, b1v, b2v, rr, dd, vl(z) as int);
}
-- after `let nb2`
proof { vl_drop(b2@, nb2 as int); nlen_vl(quot@, nquot as int); assert(nquot <= n) by { reveal(nlen); } crate::ubig::mul::ws_mono(nquot as int, nb2 as int, n as int); }
let ghost w1 = work@;
-- before `let nqden`
let ghost o = qden@;
-- after `let nqden`
proof { prod_any(o, qden@, nquot as int, nb2 as int, nqden as int, qq * b2v); }
-- after `let nnum` #0
let ghost n0q = nquot as int;
let ghost q1g = quot@;
let ghost x = qq * b2v;
let ghost w = vl(z) as int;
proof {
    assert(vl(qden@) == x); assert(num@ == z); vl_drop(num@, nnum as int);
    bp_add::<T>(nn as int, nn as int); bp_add::<T>(2 * nn as int, nn as int); bp_mono::<T>(1, nn as int);
    assert(2 * (p * p) <= (p * p) * p) by (nonlinear_arith) requires p >= 2;
}
-- before `crate::ubig::add::add_assign_big(num, den)` #0
proof { assert(w < x); assert(qq >= 1); }
-- after `nquot = crate::ubig::sub::dec_assign(&mut quot[..nquot]).unwrap()` #0
let ghost y1 = quot@;
let ghost n1q = nquot as int;
proof { crate::lemkara::put(quot@, q1g, n0q, n0q); assert(nlen(quot@, nquot as int)); nlen_vl(quot@, nquot as int); assert(vl(num@) == w + dd); assert(vl(quot@) == qq - 1); }
-- after `let nnum` #1
proof { vl_drop(num@, nnum as int); }
-- after `nquot = crate::ubig::sub::dec_assign(&mut quot[..nquot]).unwrap()` #1
proof { crate::lemkara::put(quot@, y1, n1q, n1q); assert(nlen(quot@, nquot as int)); assert(vl(num@) == w + 2 * dd); assert(vl(quot@) == qq - 2); }
-- before `let nrem`
proof {
    assert((qq - 1) * dd == qq * dd - dd && (qq - 2) * dd == qq * dd - 2 * dd) by (nonlinear_arith);
    assert(x <= vl(num@) < x + dd); assert(vl(quot@) * dd + vl(num@) == qq * dd + w); assert(dok(num@) && dok(quot@));
    nlen_vl(quot@, nquot as int);
}
-- tail
proof { assert(dok(work@)) by { reveal(dok); } }
== fn ubig::div::bz::div_big_bz_2n_n
-- spec
requires dok(old(num)@), dok(den@), dok(old(quot)@), dok(old(work)@), den@.len() >= 1, bzok(den@.len() as int), old(quot)@.len() == den@.len(), old(num)@.len() == 2 * den@.len(),
    T::dbase() <= 2 * den@[den@.len() - 1].nv(), zeros(old(quot)@, 0), vl(old(num)@) < vl(den@) * bp::<T>(den@.len() as int), old(work)@.len() >= bzw(den@.len() as int)
ensures final(num)@.len() == old(num)@.len(), final(work)@.len() == old(work)@.len(), final(quot)@.len() == old(quot)@.len(), dok(final(work)@), dok(final(num)@), dok(final(quot)@), nlen(final(quot)@, r.0 as int),
    vl(final(quot)@) * vl(den@) + vl(final(num)@) == vl(old(num)@), vl(final(num)@) < vl(den@)
decreases den@.len() as int, 1int
-- body start
hide(dok); hide(nlen); hide(bzw);
broadcast use crate::lem::dok_sub;
let ghost s0 = num@;
let ghost q0 = quot@;
let ghost (dd, nn) = (vl(den@) as int, den@.len() as int);
let ghost mut g = 0int;
proof {
    ax_mem(num); ax_mem(work); pv_init::<T>(); 
    assert(den@[nn - 1].nwf()) by { reveal(dok); } scaled_full(den@[nn - 1]); vl_bound(den@);
    if nn < BZ_CUTOFF as int { reveal(bzw); } else { bzw_sub(nn); reveal(bzok); }
}
-- before `super::div_big_with_work`
proof {
    g = nnum as int;
    vl_drop(s0, nnum as int);
    assert(dnorm(den@));
    if nnum == 2 * nn { assert(num@.subrange(0, nnum as int) =~= s0); vl_split(s0, nn); vl_bound(s0.subrange(0, nn)); bp_pos::<T>(nn);
        let (h, p) = (sv(s0, nn, 2 * nn) as int, bp::<T>(nn) as int); assert(h < dd) by (nonlinear_arith) requires p * h < dd * p, p > 0; }
}
-- before `div_big_bz_3n_2n` #0
let ghost p = bp::<T>(hn as int) as int;
let ghost (lo, hi) = (sv(s0, 0, hn as int) as int, sv(s0, hn as int, 2 * nn) as int);
proof {
    vl_split(s0, hn as int); vl_bound(s0.subrange(0, hn as int)); bp_pos::<T>(hn as int); bp_add::<T>(hn as int, hn as int);
    bzhalf(vl(s0) as int, lo, hi, dd, p, bp::<T>(nn) as int);
}
-- after `div_big_bz_3n_2n` #0
let ghost f1 = num@.subrange(hn as int, 2 * nn);
let ghost (q1, r1) = (sv(quot@, hn as int, nn) as int, vl(f1) as int);
let ghost z1 = num@;
proof {
    above(f1, nn); dok_at(num@, s0, hn as int);
    assert(num@.subrange(0, hn as int) =~= s0.subrange(0, hn as int));
    let y = num@.subrange(0, 3 * hn); vl_split(y, hn as int);
    assert(y.subrange(0, hn as int) =~= s0.subrange(0, hn as int)); assert(y.subrange(hn as int, 3 * hn) =~= f1.subrange(0, nn));
    le_mul(r1, dd, lo, p);
    assert(quot@.subrange(0, hn as int) =~= q0.subrange(0, hn as int));
}
-- after `div_big_bz_3n_2n` #1
proof {
    vl_split(quot@, hn as int); assert(quot@.subrange(hn as int, nn).len() == hn);
    assert(sv(quot@, hn as int, nn) == q1);
    assert forall|i: int| 3 * hn <= i < num@.len() implies (#[trigger] num@[i]).nv() == 0 by { assert(num@[i] == z1[i]); assert(z1[i] == f1[i - hn]); }
    vl_drop(num@, 3 * hn);
    bzjoin(vl(s0) as int, lo, hi, p, q1, sv(quot@, 0, hn as int) as int, r1, vl(num@) as int, dd);
    assert(dok(num@) && dok(quot@)) by { reveal(dok); }
    reveal(nlen);
}
-- tail
proof {
    if nn < BZ_CUTOFF as int { bzbase(q0, quot@, tail__.0 as int, s0, num@, g, tail__.1 as int, dd); }
}
== end

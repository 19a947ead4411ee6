== block mod ubig::mul
/// work space for Karatsuba multiplication
pub open spec fn kws(n: int) -> int decreases n { if n < KARATSUBA_CUTOFF as int { 0 } else { 2 * ((n + 1) / 2) + kws((n + 1) / 2) } }
/// work space for Toom-Cook multiplication
pub open spec fn tws(n: int) -> int decreases n { if n < TOOM3_CUTOFF as int { kws(n) } else { 6 * ((n + 2) / 3) + 10 + tws((n + 2) / 3 + 2) } }
/// work space the chosen algorithm needs
pub open spec fn ws(n0: int, n1: int) -> int {
    if n0 >= TOOM3_CUTOFF as int && n1 >= TOOM3_CUTOFF as int { tws(imax(n0, n1)) } else if n0 >= KARATSUBA_CUTOFF as int && n1 >= KARATSUBA_CUTOFF as int { kws(imax(n0, n1)) } else { 0 }
}
pub proof fn kws_bound(n: int) ensures 0 <= kws(n) <= 4 * imax(n, 0), 3 * kws(n) <= 7 * imax(n, 0), n >= KARATSUBA_CUTOFF as int ==> kws(n) >= n decreases n
{ if n >= KARATSUBA_CUTOFF as int { kws_bound((n + 1) / 2); } }
pub proof fn kws_mono(a: int, b: int) requires a <= b ensures kws(a) <= kws(b) decreases b
{ kws_bound(b); if a >= KARATSUBA_CUTOFF as int { kws_mono((a + 1) / 2, (b + 1) / 2); } }
pub proof fn tws_bound(n: int) ensures 0 <= tws(n) <= 4 * imax(n, 0) + 40, 3 * tws(n) + 40 >= 7 * n || n < TOOM3_CUTOFF as int, kws(n) <= tws(n), n >= KARATSUBA_CUTOFF as int ==> tws(n) >= n decreases n
{ kws_bound(n); if n >= TOOM3_CUTOFF as int { tws_bound((n + 2) / 3 + 2); } }
pub proof fn tws_mono(a: int, b: int) requires a <= b ensures tws(a) <= tws(b) decreases b
{ tws_bound(b); kws_mono(a, b); if a >= TOOM3_CUTOFF as int { tws_mono((a + 2) / 3 + 2, (b + 2) / 3 + 2); } }
/// the work space needed for operands of at most n digits
pub proof fn ws_kara(n0: int, n1: int, n: int) requires n0 <= n, n1 <= n, n0 < TOOM3_CUTOFF as int || n1 < TOOM3_CUTOFF as int ensures ws(n0, n1) <= kws(n) { kws_mono(imax(n0, n1), n); kws_bound(n); }
pub proof fn ws_toom(n0: int, n1: int, n: int) requires n0 <= n, n1 <= n ensures ws(n0, n1) <= tws(n) { tws_mono(imax(n0, n1), n); tws_bound(imax(n0, n1)); tws_bound(n); }
pub proof fn ws_mono(a: int, b: int, n: int) requires a <= n, b <= n ensures 0 <= ws(a, b) <= ws(n, n) { tws_mono(imax(a, b), n); kws_mono(imax(a, b), n); kws_bound(imax(a, b)); tws_bound(imax(a, b)); tws_bound(n); kws_bound(n); }
pub proof fn ws_sym(n0: int, n1: int) ensures ws(n0, n1) == ws(n1, n0) { }
== block mod ubig::mul::karatsuba
use crate::lem::*;
use crate::lemmul::*;
use crate::lemkara::*;
use crate::ubig::mul::*;
== block mod ubig::mul::toom3
use crate::lem::*;
use crate::lemmul::*;
use crate::lemkara::*;
use crate::ubig::mul::*;
== fn ubig::mul::karatsuba::calc_karatsuba_work_size
-- spec
requires n <= 0x1000_0000_0000_0000
ensures r == kws(n as int)
-- body start
proof { kws_bound(n as int); }
-- loop 0
invariant work_size + kws(nn as int) == kws(n as int), 0 <= nn <= n <= 0x1000_0000_0000_0000, kws(n as int) <= 4 * n
decreases nn
-- in loop 0 start
proof { kws_bound(nn as int); kws_bound((nn + 1) / 2); }
== fn ubig::mul::toom3::calc_toom3_work_size
-- spec
requires n <= 0x1000_0000_0000_0000
ensures r == tws(n as int)
-- body start
proof { tws_bound(n as int); }
-- loop 0
invariant work_size + tws(nn as int) == tws(n as int), 0 <= nn <= n <= 0x1000_0000_0000_0000, tws(n as int) <= 4 * n + 40
decreases nn
-- in loop 0 start
proof { tws_bound(nn as int); tws_bound((nn + 2) / 3 + 2); }
-- in loop 0 after
proof { kws_bound(nn as int); }
== fn ubig::mul::calc_mul_work_size
-- spec
requires n <= 0x1000_0000_0000_0000
ensures r == ws(n as int, n as int)
== fn ubig::mul::mul_big_into
-- spec
requires dok(nr0@), dok(nr1@), dnorm(nr0@), dnorm(nr1@), dok(old(product)@), nr0@.len() > 0 && nr1@.len() > 0 ==> old(product)@.len() >= nr0@.len() + nr1@.len()
ensures prod0(old(product)@, final(product)@, nr0@.len() as int, nr1@.len() as int, r as int, (vl(nr0@) * vl(nr1@)) as int)
-- body start
proof { pv_init::<T>(); ax_mem(nr0); ax_mem(nr1); if nr0@.len() == 0 { assert(0 * vl(nr1@) == 0); } if nr1@.len() == 0 { assert(vl(nr0@) * 0 == 0); } }
== fn ubig::mul::mul_big_into_with_work
-- spec
requires dok(nr0@), dok(nr1@), dnorm(nr0@), dnorm(nr1@), dok(old(product)@), nr0@.len() > 0 && nr1@.len() > 0 ==> old(product)@.len() >= nr0@.len() + nr1@.len(), dok(old(work)@), old(work)@.len() >= ws(nr0@.len() as int, nr1@.len() as int)
ensures prod0(old(product)@, final(product)@, nr0@.len() as int, nr1@.len() as int, r as int, (vl(nr0@) * vl(nr1@)) as int), final(work)@.len() == old(work)@.len(), dok(final(work)@)
decreases imax(nr0@.len() as int, nr1@.len() as int), 1int
-- body start
proof { pv_init::<T>(); ax_mem(nr0); ax_mem(nr1); if nr0@.len() == 0 { assert(0 * vl(nr1@) == 0); } if nr1@.len() == 0 { assert(vl(nr0@) * 0 == 0); } }
== fn ubig::mul::square_into
-- spec
requires dok(nr0@), dnorm(nr0@), dok(old(square)@), old(square)@.len() >= 2 * nr0@.len()
ensures prod0(old(square)@, final(square)@, nr0@.len() as int, nr0@.len() as int, r as int, (vl(nr0@) * vl(nr0@)) as int)
-- body start
proof { pv_init::<T>(); ax_mem(nr0); if nr0@.len() == 0 { assert(0 * vl(nr0@) == 0); } }
== fn ubig::mul::square_into_with_work
-- spec
requires dok(nr0@), dnorm(nr0@), dok(old(square)@), old(square)@.len() >= 2 * nr0@.len(), dok(old(work)@), old(work)@.len() >= ws(nr0@.len() as int, nr0@.len() as int)
ensures prod0(old(square)@, final(square)@, nr0@.len() as int, nr0@.len() as int, r as int, (vl(nr0@) * vl(nr0@)) as int), final(work)@.len() == old(work)@.len(), dok(final(work)@)
decreases nr0@.len(), 1int
-- body start
proof { pv_init::<T>(); ax_mem(nr0); if nr0@.len() == 0 { assert(0 * vl(nr0@) == 0); } }
== fn ubig::mul::toom3::mul_big_toom3_into
-- spec
requires dok(nr0@), dok(nr1@), dnorm(nr0@), dnorm(nr1@), dok(old(result)@), old(result)@.len() >= nr0@.len() + nr1@.len(), dok(old(work)@), old(work)@.len() >= tws(imax(nr0@.len() as int, nr1@.len() as int)),
    nr0@.len() >= super::TOOM3_CUTOFF as int, nr1@.len() >= super::TOOM3_CUTOFF as int
ensures prod(old(result)@, final(result)@, (nr0@.len() + nr1@.len()) as int, r as int, (vl(nr0@) * vl(nr1@)) as int), final(work)@.len() == old(work)@.len(), dok(final(work)@)
decreases imax(nr0@.len() as int, nr1@.len() as int), 0int
== fn ubig::mul::toom3::square_toom3_into
-- spec
requires dok(nr0@), dnorm(nr0@), dok(old(result)@), old(result)@.len() >= 2 * nr0@.len(), dok(old(work)@), old(work)@.len() >= tws(nr0@.len() as int), nr0@.len() >= super::TOOM3_CUTOFF as int
ensures prod(old(result)@, final(result)@, 2 * nr0@.len() as int, r as int, (vl(nr0@) * vl(nr0@)) as int), final(work)@.len() == old(work)@.len(), dok(final(work)@)
decreases nr0@.len(), 0int
== fn ubig::mul::karatsuba::mul_big_karatsuba_into
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires dok(nr0@), dok(nr1@), dnorm(nr0@), dnorm(nr1@), dok(old(result)@), old(result)@.len() >= nr0@.len() + nr1@.len(), dok(old(work)@), old(work)@.len() >= kws(imax(nr0@.len() as int, nr1@.len() as int)),
    nr0@.len() >= super::KARATSUBA_CUTOFF as int, nr1@.len() >= super::KARATSUBA_CUTOFF as int, nr0@.len() < super::TOOM3_CUTOFF as int || nr1@.len() < super::TOOM3_CUTOFF as int
ensures prod(old(result)@, final(result)@, (nr0@.len() + nr1@.len()) as int, r as int, (vl(nr0@) * vl(nr1@)) as int), final(work)@.len() == old(work)@.len(), dok(final(work)@)
decreases imax(nr0@.len() as int, nr1@.len() as int), 0int
-- body start
hide(dok); hide(nlen); hide(prod0); hide(prod); hide(keep);
broadcast use crate::lem::dok_sub;
proof { ax_mem(nr0); ax_mem(nr1); pv_init::<T>(); assert(nr0@.subrange(0, nr0@.len() as int) =~= nr0@); assert(nr1@.subrange(0, nr1@.len() as int) =~= nr1@); assert(result@.subrange(0, result@.len() as int) =~= result@); }
let ghost r_old = result@;
-- after `let nlow1`
let ghost bb = bp::<T>(split as int) as int;
let ghost nn = (n0 + n1) as int;
let ghost (l0, h0, l1, h1) = (vl(low0@) as int, vl(high0@) as int, vl(low1@) as int, vl(high1@) as int);
proof {
    assert(nr0@ =~= low0@ + high0@); assert(nr1@ =~= low1@ + high1@);
    halves(nr0@, low0@, high0@, nlow0 as int, split as int); halves(nr1@, low1@, high1@, nlow1 as int, split as int); bp_pos::<T>(split as int);
}
-- after `let (sign1, ndiff1)`
let ghost gd1 = diff1@;
let ghost (d0, d1) = (pv(diff0@, ndiff0 as int) as int, pv(diff1@, ndiff1 as int) as int);
let ghost (pp, mm, z0v, z1v, z2v) = (vl(nr0@) * vl(nr1@), kmid(l0, h0, l1, h1), l0 * l1, d0 * d1, h0 * h1);
proof {
    pv_split(diff0@, ndiff0 as int, diff0@.len() as int); pv_split(diff1@, ndiff1 as int, diff1@.len() as int);
    kara(l0, h0, l1, h1, bb, sign0, d0, sign1, d1);
    kws_bound(split as int); assert(kws(nmax as int) == 2 * split + kws(split as int));
    ws_kara(ndiff0 as int, ndiff1 as int, split as int); ws_kara(nlow0 as int, nlow1 as int, split as int); ws_kara(high0@.len() as int, high1@.len() as int, split as int);
    vl_bound(nr0@); vl_bound(nr1@); bp_add::<T>(n0 as int, n1 as int); mul_lt(vl(nr0@) as int, vl(nr1@) as int, bp::<T>(n0 as int) as int, bp::<T>(n1 as int) as int);
}
-- before `let mut nz1`
let ghost z1f = z1@;
proof { assert(dok(z1@)) by { reveal(dok); } }
-- after `let mut nz1`
proof { prod_zero(z1f, z1@, ndiff0 as int, ndiff1 as int, nz1 as int, z1v); }
-- before `let nz0`
let ghost (z0f, z2f) = (z0@, z2@);
proof { assert(dok(z0@) && dok(z2@)) by { reveal(dok); } assert forall|k: int| nn - 2 * split <= k < z2f.len() implies #[trigger] z2f[k] == r_old[k + 2 * split] by { assert(gd1[k + split] == r_old[k + 2 * split]); } }
-- after `let nz2`
let ghost (gz0, gz1, gz2) = (z0@, z1@, z2@);
let ghost rr = gz0 + gz2;
let ghost m1 = nz1 as int;
proof {
    prod_zero(z0f, gz0, nlow0 as int, nlow1 as int, nz0 as int, z0v);
    prod_low(z2f, gz2, high0@.len() as int, high1@.len() as int, nn - 2 * split, nz2 as int, z2v);
    cut(gz0, nz0 as int, nz0 as int); cut(gz1, nz1 as int, nz1 as int);
    cut_low(gz2, nz2 as int, z2v);
    kjoin(r_old, gz0, z2f, gz2, split as int, nn, z0v, z2v);
}
-- after `nz1 = nz1.max(nz0).max(nz2)`
let ghost m = nz1 as int;
proof { cut(gz1, m1, m); fit_norm::<T>(m, split as int, nn, if m == m1 { z1v } else if m == nz0 { z0v } else { z2v }, mm, pp as int); }
-- after `let carry0`
let ghost w0 = vl(z1@.subrange(0, m));
-- after `let carry2`
let ghost w = vl(z1@.subrange(0, m));
proof {
    assert(gz0.subrange(0, nz0 as int) =~= z0@.subrange(0, nz0 as int));
    assert(w0 + cb::<T>(carry0, m) == z1v + z0v);
    assert(w + cb::<T>(carry2, m) == w0 + z2v);
    fit_carry::<T>(carry0, m, split as int, nn, mm, pp as int); fit_carry::<T>(carry2, m, split as int, nn, mm, pp as int);
}
-- after `if carry0` #0
let ghost r1 = result@;
proof {
    bp_add::<T>(split as int, m); let q = bp::<T>(split + m) as int;
    let x = bp::<T>(m) as int; dist(b2n(carry0) as int, b2n(carry2) as int, x); assert(b2n(carry0) * x == cb::<T>(carry0, m) && b2n(carry2) * x == cb::<T>(carry2, m)) by { assert(0 * x == 0 && 1 * x == x); }
    kcarry(bb, bp::<T>(m) as int, w as int, b2n(carry0) as int, b2n(carry2) as int, mm);
    if carry0 { assert(1 * q == q); addin(r1, rr, split + m, nn, 1); keep_trans(r_old, rr, r1, nn); } else { assert(r1 =~= rr); }
    assert(pv(r1, nn) == pv(rr, nn) + b2n(carry0) * q);
}
-- after `if carry2` #0
proof {
    let q = bp::<T>(split + m) as int;
    if carry2 { assert(1 * q == q); addin(result@, r1, split + m, nn, 1); keep_trans(r_old, r1, result@, nn); }
    assert(pv(result@, nn) == pv(r1, nn) + b2n(carry2) * q);
    assert(pv(result@, nn) + bb * w == pp);
}
-- before `nz1 = crate::ubig::rsub::rsub_assign_big(&mut z1[..nz0], &z0[..nz0]).unwrap().max(nz2)`
proof { if nz1 > nz0 { bp_mono::<T>(nz0 as int, nz1 - 1); } cut(gz1, m1, nz0 as int); }
-- after `nz1 = crate::ubig::rsub::rsub_assign_big(&mut z1[..nz0], &z0[..nz0]).unwrap().max(nz2)`
let ghost m = nz1 as int;
proof {
    let t = z1@.subrange(0, nz0 as int);
    let q = choose|q: int| #[trigger] nlen(t, q) && m == imax(q, nz2 as int);
    assert(nlen(t, q)); assert(0 <= q <= nz0) by { reveal(nlen); }
    put(z1@, gz1, m1, nz0 as int); assert(nlen(z1@, q)); cut(z1@, q, m); 
    assert(z1v + vl(z1@) == z0v);
    fit_norm::<T>(m, split as int, nn, if m == q { z0v - z1v } else { z2v }, mm, pp as int);
}
-- block start `if crate::ubig::add::add_assign_big(&mut z1[..nz1], &z2[..nz2])`
proof { fit::<T>(m, split as int, nn, mm, pp as int); assert(result@ =~= rr); }
-- after `if crate::ubig::add::add_assign_big(&mut z1[..nz1], &z2[..nz2])`
proof {
    let w = vl(z1@.subrange(0, m)) as int; let c = w != mm;
    bp_add::<T>(split as int, m); let q = bp::<T>(split + m) as int;
    bp_pos::<T>(m);
    assert(w + cb::<T>(c, m) == mm);
    assert((b2n(c) + 0) * bp::<T>(m) == cb::<T>(c, m)) by { let x = bp::<T>(m); assert(0 * x == 0 && 1 * x == x); }
    kcarry(bb, bp::<T>(m) as int, w, b2n(c) as int, 0, mm);
    assert(0 * (bb * bp::<T>(m)) == 0);
    if c { assert(1 * q == q); addin(result@, rr, split + m, nn, 1); keep_trans(r_old, rr, result@, nn); } else { assert(result@ =~= rr); }
    assert(pv(result@, nn) == pv(rr, nn) + b2n(c) * q);
    assert(pv(result@, nn) + bb * w == pp);
}
-- after `nz1 = crate::ubig::sub::sub_assign_big(&mut z1[..nz1], &z0[..nz0]).unwrap()`
proof {
    put(z1@, gz1, m1, m1); assert(nz1 <= m1) by { reveal(nlen); } cut(z1@, nz1 as int, nz1 as int);
    assert(vl(z1@) == z1v - z0v);
    if nz1 > nz2 { bp_mono::<T>(nz2 as int, nz1 - 1); }
    cut(z1@, nz1 as int, nz2 as int);
}
let ghost (hz1, m2) = (z1@, nz1 as int);
-- after `nz1 = crate::ubig::rsub::rsub_assign_big(&mut z1[..nz2], &z2[..nz2]).unwrap()`
proof {
    put(z1@, hz1, m2, nz2 as int); assert(nz1 <= nz2) by { reveal(nlen); } cut(z1@, nz1 as int, nz1 as int);
    assert(vl(z1@) == mm);
    fit_norm::<T>(nz1 as int, split as int, nn, mm, mm, pp as int);
    assert(result@ =~= rr);
    assert(pv(result@, nn) + bb * vl(z1@.subrange(0, nz1 as int)) == pp);
}
-- before `let carry =`
let ghost r2 = result@;
proof { assert(dok(r2) && keep(r_old, r2, nn) && r2.len() == r_old.len()); }
let ghost wz = vl(z1@.subrange(0, nz1 as int)) as int;
-- after `let carry =`
proof { assert(wz * bb == bb * wz) by (nonlinear_arith); addin(result@, r2, split as int, nn, wz); assert(pv(result@, nn) == pp); keep_trans(r_old, r2, result@, nn); }
-- tail
proof { ptail(r_old, result@, nn, tail__ as int, pp as int); assert(dok(work@)) by { reveal(dok); } }
== fn ubig::mul::karatsuba::square_karatsuba_into
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires dok(nr0@), dnorm(nr0@), dok(old(result)@), old(result)@.len() >= 2 * nr0@.len(), dok(old(work)@), old(work)@.len() >= kws(nr0@.len() as int),
    super::KARATSUBA_CUTOFF as int <= nr0@.len() < super::TOOM3_CUTOFF as int
ensures prod(old(result)@, final(result)@, 2 * nr0@.len() as int, r as int, (vl(nr0@) * vl(nr0@)) as int), final(work)@.len() == old(work)@.len(), dok(final(work)@)
decreases nr0@.len(), 0int
-- body start
hide(dok); hide(nlen); hide(prod0); hide(prod); hide(keep);
broadcast use crate::lem::dok_sub;
proof { ax_mem(nr0); pv_init::<T>(); assert(nr0@.subrange(0, nr0@.len() as int) =~= nr0@); assert(result@.subrange(0, result@.len() as int) =~= result@); }
let ghost r_old = result@;
-- after `let nlow0`
let ghost bb = bp::<T>(split as int) as int;
let ghost nn = 2 * n0 as int;
let ghost (low, high) = (nr0@.subrange(0, split as int), nr0@.subrange(split as int, n0 as int));
let ghost (l0, h0) = (vl(low) as int, vl(high) as int);
proof {
    assert(nr0@ =~= low + high);
    halves(nr0@, low, high, nlow0 as int, split as int); bp_pos::<T>(split as int);
    assert(low.subrange(0, nlow0 as int) =~= nr0@.subrange(0, nlow0 as int));
}
-- after `let (_, ndiff0)`
let ghost gd = diff0@;
let ghost d0 = pv(gd, ndiff0 as int) as int;
let ghost (pp, mm, z0v, z1v, z2v) = (vl(nr0@) * vl(nr0@), kmid(l0, h0, l0, h0), l0 * l0, d0 * d0, h0 * h0);
proof {
    pv_split(gd, ndiff0 as int, gd.len() as int);
    kara(l0, h0, l0, h0, bb, l0 < h0, d0, l0 < h0, d0);
    kws_bound(split as int); assert(kws(n0 as int) == 2 * split + kws(split as int));
    ws_kara(ndiff0 as int, ndiff0 as int, split as int); ws_kara(nlow0 as int, nlow0 as int, split as int); ws_kara(high.len() as int, high.len() as int, split as int);
    vl_bound(nr0@); bp_add::<T>(n0 as int, n0 as int); mul_lt(vl(nr0@) as int, vl(nr0@) as int, bp::<T>(n0 as int) as int, bp::<T>(n0 as int) as int);
}
-- before `let mut nz1`
let ghost z1f = z1@;
proof { assert(dok(z1@)) by { reveal(dok); } }
-- after `let mut nz1`
proof { prod_zero(z1f, z1@, ndiff0 as int, ndiff0 as int, nz1 as int, z1v); }
-- before `let nz0`
let ghost (z0f, z2f) = (z0@, z2@);
proof { assert(dok(z0@) && dok(z2@)) by { reveal(dok); } assert forall|k: int| nn - 2 * split <= k < z2f.len() implies #[trigger] z2f[k] == r_old[k + 2 * split] by { assert(gd[k + 2 * split] == r_old[k + 2 * split]); } }
-- after `let nz2`
let ghost (gz0, gz1, gz2) = (z0@, z1@, z2@);
let ghost rr = gz0 + gz2;
let ghost m1 = nz1 as int;
proof {
    prod_zero(z0f, gz0, nlow0 as int, nlow0 as int, nz0 as int, z0v);
    prod_low(z2f, gz2, high.len() as int, high.len() as int, nn - 2 * split, nz2 as int, z2v);
    cut(gz0, nz0 as int, nz0 as int); cut(gz1, nz1 as int, nz1 as int);
    cut_low(gz2, nz2 as int, z2v);
    kjoin(r_old, gz0, z2f, gz2, split as int, nn, z0v, z2v);
}
-- before `nz1 = crate::ubig::rsub::rsub_assign_big(&mut z1[..nz0], &z0[..nz0]).unwrap().max(nz2)`
proof { if nz1 > nz0 { bp_mono::<T>(nz0 as int, nz1 - 1); } cut(gz1, m1, nz0 as int); }
-- after `nz1 = crate::ubig::rsub::rsub_assign_big(&mut z1[..nz0], &z0[..nz0]).unwrap().max(nz2)`
let ghost m = nz1 as int;
proof {
    let t = z1@.subrange(0, nz0 as int);
    let q = choose|q: int| #[trigger] nlen(t, q) && m == imax(q, nz2 as int);
    assert(nlen(t, q)); assert(0 <= q <= nz0) by { reveal(nlen); }
    put(z1@, gz1, m1, nz0 as int); assert(nlen(z1@, q)); cut(z1@, q, m); 
    assert(z1v + vl(z1@) == z0v);
    fit_norm::<T>(m, split as int, nn, if m == q { z0v - z1v } else { z2v }, mm, pp as int);
}
-- block start `if crate::ubig::add::add_assign_big(&mut z1[..nz1], &z2[..nz2])`
proof { fit::<T>(m, split as int, nn, mm, pp as int); assert(result@ =~= rr); }
-- after `if crate::ubig::add::add_assign_big(&mut z1[..nz1], &z2[..nz2])`
proof {
    let w = vl(z1@.subrange(0, m)) as int; let c = w != mm;
    bp_add::<T>(split as int, m); let q = bp::<T>(split + m) as int;
    bp_pos::<T>(m);
    assert(w + cb::<T>(c, m) == mm);
    assert((b2n(c) + 0) * bp::<T>(m) == cb::<T>(c, m)) by { let x = bp::<T>(m); assert(0 * x == 0 && 1 * x == x); }
    kcarry(bb, bp::<T>(m) as int, w, b2n(c) as int, 0, mm);
    assert(0 * (bb * bp::<T>(m)) == 0);
    if c { assert(1 * q == q); addin(result@, rr, split + m, nn, 1); keep_trans(r_old, rr, result@, nn); } else { assert(result@ =~= rr); }
    assert(pv(result@, nn) == pv(rr, nn) + b2n(c) * q);
    assert(pv(result@, nn) + bb * w == pp);
}
-- after `nz1 = crate::ubig::sub::sub_assign_big(&mut z1[..nz1], &z0[..nz0]).unwrap()`
proof {
    put(z1@, gz1, m1, m1); assert(nz1 <= m1) by { reveal(nlen); } cut(z1@, nz1 as int, nz1 as int);
    assert(vl(z1@) == z1v - z0v);
    if nz1 > nz2 { bp_mono::<T>(nz2 as int, nz1 - 1); }
    cut(z1@, nz1 as int, nz2 as int);
}
let ghost (hz1, m2) = (z1@, nz1 as int);
-- after `nz1 = crate::ubig::rsub::rsub_assign_big(&mut z1[..nz2], &z2[..nz2]).unwrap()`
proof {
    put(z1@, hz1, m2, nz2 as int); assert(nz1 <= nz2) by { reveal(nlen); } cut(z1@, nz1 as int, nz1 as int);
    assert(vl(z1@) == mm);
    fit_norm::<T>(nz1 as int, split as int, nn, mm, mm, pp as int);
    assert(result@ =~= rr);
    assert(pv(result@, nn) + bb * vl(z1@.subrange(0, nz1 as int)) == pp);
}
-- before `let carry =`
let ghost r2 = result@;
proof { assert(dok(r2) && keep(r_old, r2, nn) && r2.len() == r_old.len()); }
let ghost wz = vl(z1@.subrange(0, nz1 as int)) as int;
-- after `let carry =`
proof { assert(wz * bb == bb * wz) by (nonlinear_arith); addin(result@, r2, split as int, nn, wz); assert(pv(result@, nn) == pp); keep_trans(r_old, r2, result@, nn); }
-- tail
proof { ptail(r_old, result@, nn, tail__ as int, pp as int); assert(dok(work@)) by { reveal(dok); } }

== block mod ubig::div
/// sizes that can be halved until they are less than the cut-off
pub open spec fn bzok(n: int) -> bool decreases n { n >= 1 && (n < BZ_CUTOFF as int || n % 2 == 0 && bzok(n / 2)) }
/// work space for recursive division by a divisor of n digits
pub open spec fn bzw(n: int) -> int { if n < BZ_CUTOFF as int { n + 1 } else { 3 * (n / 2) + 1 + crate::ubig::mul::ws(n / 2, n / 2) } }
/// least power of two greater than x
pub open spec fn bm(x: int) -> int decreases x { if x <= 0 { 1 } else { 2 * bm(x / 2) } }
/// the divisor is extended to this size
pub open spec fn blk(nd: int) -> int { let m = bm((nd - 1) / (BZ_CUTOFF as int)); ((nd + m - 1) / m) * m }
pub open spec fn bzws(nd: int) -> int { let n = blk(nd); 3 * n / 2 + 1 + crate::ubig::mul::ws(n / 2, n / 2) }
/// the numerator is less than the denominator
pub open spec fn less<T: Digit>(num: Seq<T>, den: Seq<T>) -> bool { num.len() < den.len() || num.len() == den.len() && vl(num) < vl(den) }
/// the quotient may have one digit more than there is room for
pub open spec fn nospace<T: Digit>(num: Seq<T>, den: Seq<T>, nq: int) -> bool {
    nq < num.len() - den.len() + 1 && (nq < num.len() - den.len() || sv(num, num.len() - den.len(), num.len() as int) >= vl(den))
}
== block mod ubig::div::bz
use crate::lem::*;
use crate::lemmul::*;
use crate::lemdiv::*;
use crate::ubig::div::*;
use vstd::arithmetic::power2::*;
== fn ubig::div::div_big
-- spec
requires dok(old(num)@), dok(den@), dok(old(quot)@), dnorm(old(num)@), dnorm(den@), den@.len() >= BZ_CUTOFF as int && !less(old(num)@, den@) ==> old(quot)@.len() >= old(num)@.len() - den@.len() + 1
ensures final(num)@.len() == old(num)@.len(), match r {
    Ok((nq, nr)) => den@.len() > 0 && divres(vl(old(num)@) as int, vl(den@) as int, old(quot)@, final(quot)@, nq as int, final(num)@, nr as int) && nr <= den@.len()
        && (den@.len() < BZ_CUTOFF as int ==> zeros(final(num)@, nr as int)),
    Err(e) => final(num)@ == old(num)@ && final(quot)@ == old(quot)@ && (e == Error::DivisionByZero && den@.len() == 0 || e == Error::NoSpace && den@.len() > 0 && !less(old(num)@, den@) && nospace(old(num)@, den@, old(quot)@.len() as int)) }
-- body start
proof { ax_mem(num); ax_mem(den); }
== fn ubig::div::div_big_with_work
-- spec
requires dok(old(num)@), dok(den@), dok(old(quot)@), dok(old(work)@), dnorm(old(num)@), dnorm(den@),
    den@.len() > 2 && !less(old(num)@, den@) ==> (if den@.len() < BZ_CUTOFF as int { old(work)@.len() >= den@.len() + 1 } else { old(quot)@.len() >= old(num)@.len() - den@.len() + 1 && old(work)@.len() >= bzws(den@.len() as int) })
ensures final(num)@.len() == old(num)@.len(), final(work)@.len() == old(work)@.len(), dok(final(work)@), match r {
    Ok((nq, nr)) => den@.len() > 0 && divres(vl(old(num)@) as int, vl(den@) as int, old(quot)@, final(quot)@, nq as int, final(num)@, nr as int) && nr <= den@.len()
        && (den@.len() < BZ_CUTOFF as int ==> zeros(final(num)@, nr as int)),
    Err(e) => final(num)@ == old(num)@ && final(quot)@ == old(quot)@ && (e == Error::DivisionByZero && den@.len() == 0 || e == Error::NoSpace && den@.len() > 0 && !less(old(num)@, den@) && nospace(old(num)@, den@, old(quot)@.len() as int)) }
decreases if den@.len() < BZ_CUTOFF as int { 0int } else { 4 * den@.len() as int }, 2int
-- body start
hide(dok); hide(nlen); hide(keep);
broadcast use crate::lem::dok_sub;
let ghost s0 = num@;
let ghost q0 = quot@;
let ghost (n, nd) = (num@.len() as int, den@.len() as int);
let ghost dd = vl(den@) as int;
proof { ax_mem(num); ax_mem(den); ax_mem(quot); pv_init::<T>(); vl_bound(den@); vl_bound(num@); reveal(keep); if nd > 0 { norm_low(den@); } assert(0 * dd == 0);
    assert forall|i: int| 0 <= i < nd implies (#[trigger] den@[i]).nwf() by { reveal(dok); }
    assert(dok(den@.subrange(0, nd))); if n < nd { len_lt(num@, den@); }
    if nd == 1 { pv1(den@); } if nd == 2 { pv1(den@); pvn(den@, 1); assert(den@[1].nv() * T::dbase() == T::dbase() * den@[1].nv()) by (nonlinear_arith); }
}
-- before `let (nquot, rem) = `
let ghost k = quot@.len() as int;
proof { if k >= n - nd + 1 { fit_q::<T>(vl(s0) as int, dd, n, nd, k); } else { assert(num@.subrange(n - nd, n) == s0.subrange(n - nd, n)); fit_lt(s0, dd, k); } }
-- after `let (nquot, rem) = `
let ghost z = num@;
let ghost gm = if rem.nv() != 0 { 1int } else { 0int };
proof { reveal(nlen); nlen_vl(num@, nquot as int); qlen(num@, nquot as int, dd, vl(s0) as int, k); }
-- after `quot[..nquot].copy_from_slice(&num[..nquot])` #0
proof {
    copied(q0, quot@, z, nquot as int);
}
-- before `let (nquot, rem_low, rem_high) = `
let ghost k = quot@.len() as int;
proof { if k >= n - nd + 1 { fit_q::<T>(vl(s0) as int, dd, n, nd, k); } else { assert(num@.subrange(n - nd, n) == s0.subrange(n - nd, n)); fit_lt(s0, dd, k); } }
-- after `let (nquot, rem_low, rem_high) = `
let ghost z = num@;
proof { reveal(nlen); nlen_vl(num@, nquot as int); qlen(num@, nquot as int, dd, vl(s0) as int, k); }
-- after `quot[..nquot].copy_from_slice(&num[..nquot])` #1
proof { copied(q0, quot@, z, nquot as int); }
-- before `Ok((nquot, 0))` #0
proof { small(num@, rem.nv() as int, 0, 0); assert(T::dbase() * 0 == 0); }
-- before `Ok((nquot, 1))` #0
proof { small(num@, rem.nv() as int, 0, 1); assert(T::dbase() * 0 == 0); }
-- before `Ok((nquot, 0))` #1
proof { small(num@, rem_low.nv() as int, rem_high.nv() as int, 0); }
-- before `Ok((nquot, 1))` #1
proof { small(num@, rem_low.nv() as int, rem_high.nv() as int, 1); }
-- before `Ok((nquot, 2))` #0
proof { small(num@, rem_low.nv() as int, rem_high.nv() as int, 2); }
== block mod ubig::div::bz
/// the size that is used
proof fn bm_bound(x: int) requires x >= 0 ensures bm(x) > x, bm(x) <= 2 * x + 1, bm(x) >= 1 decreases x { if x > 0 { bm_bound(x / 2); } }
proof fn bm_pow2(x: int, k: nat) requires x >= 1, k >= 1, pow2((k - 1) as nat) <= x < pow2(k) ensures bm(x) == pow2(k) decreases k
{
    lemma_pow2_unfold(k); lemma2_to64();
    if k == 1 { assert(x == 1); assert(bm(0) == 1); assert(bm(1) == 2 * bm(1int / 2)); assert(bm(1) == 2); } else { lemma_pow2_unfold((k - 1) as nat); bm_pow2(x / 2, (k - 1) as nat); }
}
proof fn bzok_mul(j: int, x: int) requires 1 <= j <= BZ_CUTOFF as int, x >= 0 ensures bzok(j * bm(x)) decreases x
{
    if x <= 0 { assert(j * bm(x) == j); if j == BZ_CUTOFF as int { assert(j % 2 == 0); assert(bzok(j / 2)); } }
    else {
        bzok_mul(j, x / 2); let y = j * bm(x / 2);
        assert(j * bm(x) == 2 * y) by (nonlinear_arith) requires bm(x) == 2 * bm(x / 2), y == j * bm(x / 2);
        assert((2 * y) / 2 == y && (2 * y) % 2 == 0);
    }
}
proof fn blk_ok(nd: int) requires nd >= 1 ensures blk(nd) >= nd, blk(nd) <= 2 * nd, bzok(blk(nd)), ({ let m = bm((nd - 1) / (BZ_CUTOFF as int)); 1 <= m <= nd && 1 <= (nd + m - 1) / m <= BZ_CUTOFF as int })
{
    let c = BZ_CUTOFF as int;
    let x = (nd - 1) / c; bm_bound(x);
    let m = bm(x);
    let j = (nd + m - 1) / m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(nd - 1, c); vstd::arithmetic::div_mod::lemma_mod_bound(nd - 1, c);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(nd + m - 1, m); vstd::arithmetic::div_mod::lemma_mod_bound(nd + m - 1, m);
    let e = (nd + m - 1) % m;
    assert(j * m == m * j) by (nonlinear_arith);
    assert(m * j == nd + m - 1 - e);
    assert(c >= 3);
    assert(c * x <= nd - 1);
    assert(m <= nd) by { if x >= 1 { assert(c * x >= 3 * x) by (nonlinear_arith) requires c >= 3, x >= 0; } }
    assert(j >= 1) by (nonlinear_arith) requires m * j >= nd, nd >= 1, m >= 1;
    assert(nd - 1 < c * x + c);
    assert(c * x + c <= c * m) by (nonlinear_arith) requires x + 1 <= m, c >= 1;
    assert(j <= c) by (nonlinear_arith) requires m * j < nd + m, nd <= c * m, m >= 1;
    bzok_mul(j, x);
}
pub proof fn bzw_sub(n: int) requires n >= BZ_CUTOFF as int ensures bzw(n) >= 3 * (n / 2) + 1 + crate::ubig::mul::ws(n / 2, n / 2), crate::ubig::mul::ws(n / 2, n / 2) >= 0, bzw(n) >= bzw(n / 2) { crate::ubig::mul::ws_mono(n / 2 / 2, n / 2 / 2, n / 2); crate::ubig::mul::ws_mono(n / 2, n / 2, n / 2); }
proof fn bzws_bzw(nd: int) requires nd >= 1 ensures bzws(nd) >= bzw(blk(nd)), blk(nd) >= nd, bzok(blk(nd)), blk(nd) <= 2 * nd
{ blk_ok(nd); let n = blk(nd); crate::ubig::mul::ws_mono(n / 2, n / 2, n / 2); assert(bzok(n)); }
== fn ubig::div::bz::block_size
-- spec
requires 1 <= nden <= 0x80_0000_0000_0000
ensures r == blk(nden as int), nden <= r <= 2 * nden, bzok(r as int)
-- body start
proof { blk_ok(nden as int); bm_bound((nden - 1) / (super::BZ_CUTOFF as int)); lemma2_to64(); }
-- after `let mshift`
proof {
    let x = (nden - 1) / (super::BZ_CUTOFF as int);
    if x >= 1 { bm_pow2(x, mshift as nat); } else { assert(bm(0) == 1); }
    if mshift >= 56 { if mshift > 56 { lemma_pow2_strictly_increases(56, mshift as nat); } }
    vstd::bits::lemma_usize_shl_is_mul(1, mshift as usize);
}
== fn ubig::div::bz::calc_div_bz_work_size
-- spec
requires 1 <= nden <= 0x80_0000_0000_0000
ensures r == bzws(nden as int), r <= 0x10_0000_0000_0000_00
-- body start
proof { blk_ok(nden as int); let h = blk(nden as int) / 2; crate::ubig::mul::tws_bound(h); crate::ubig::mul::kws_bound(h); }
== fn ubig::div::bz::div_big_bz
-- attr #[verifier::spinoff_prover]
-- spec
requires dok(old(num)@), dok(den@), dok(old(quot)@), dok(old(work)@), dnorm(old(num)@), dnorm(den@), den@.len() > 2, !less(old(num)@, den@), old(num)@.len() >= den@.len(), old(quot)@.len() >= old(num)@.len() - den@.len() + 1,
    old(work)@.len() >= bzws(den@.len() as int)
ensures final(num)@.len() == old(num)@.len(), final(work)@.len() == old(work)@.len(), dok(final(work)@), r.1 <= den@.len(),
    divres(vl(old(num)@) as int, vl(den@) as int, old(quot)@, final(quot)@, r.0 as int, final(num)@, r.1 as int)
decreases 4 * den@.len() as int, 1int
-- body start
hide(dok); hide(nlen); hide(keep); hide(bzok); hide(bzw); hide(bzws); hide(blk);
broadcast use crate::lem::dok_sub;
let ghost v0 = num@;
let ghost q0 = quot@;
let ghost (nn, nd, vv, dd) = (num@.len() as int, den@.len() as int, vl(num@) as int, vl(den@) as int);
proof { ax_mem(num); ax_mem(den); ax_mem(quot); ax_mem(work); pv_init::<T>(); lemma2_to64(); vl_bound(num@); vl_bound(den@); norm_low(den@); }
-- after `let n = block_size`
let ghost e = n - nd;
proof { bzws_bzw(nd); }
-- before `crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift, T::zero())`
let ghost d1 = sden@;
let ghost p2 = pow2(shift as nat) as int;
proof { 
    lemma_pow2_pos(shift as nat);
    assert forall|i: int| 0 <= i < e implies (#[trigger] d1[i]).nv() == 0 && d1[i].nwf() by { }
    vl_shift(den@, d1, e); bp_add::<T>(nd, e); bp_pos::<T>(e); bp_pos::<T>(n as int);
    scale_at(dd, p2, bp::<T>(nd) as int, bp::<T>(e) as int);
}
-- after `crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift, T::zero())`
let ghost ds = dd * p2 * bp::<T>(e);
proof { vl_bound(sden@); full_scale::<T>(vl(sden@) as int, ds, bp::<T>(n as int) as int); half_top(sden@); }
-- before `let t`
let ghost xx = (nn - nd) / (n as int);
proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(nn - nd, n as int); vstd::arithmetic::div_mod::lemma_mod_bound(nn - nd, n as int); assert((2 + xx) * n == 2 * n + n * xx && (1 + xx) * n == n + n * xx) by (nonlinear_arith); }
-- before `crate::ubig::shl::shl_carry_assign_within_digit(&mut snum`
let ghost s1 = snum@;
proof {
    let y = s1.subrange(e, e + nn + 1);
    assert(y =~= v0.push(y[nn])); assert(y[nn].nv() == 0 && y[nn].nwf()); push_val(v0, y[nn]); assert(0 * bp::<T>(nn) == 0);
    assert(dok(y)) by { reveal(dok); }
    bp_unfold::<T>(nn); bp_pos::<T>(nn);
    assert(vv * p2 < T::dbase() * bp::<T>(nn)) by (nonlinear_arith) requires vv < bp::<T>(nn), p2 < T::dbase(), vv >= 0, p2 > 0;
}
-- after `crate::ubig::shl::shl_carry_assign_within_digit(&mut snum`
let ghost ss = snum@;
let ghost m = (t - 1) * n;
proof {
    let y = ss.subrange(e, e + nn + 1);
    vl_bound(y); assert(vv * p2 >= 0) by (nonlinear_arith) requires vv >= 0, p2 > 0;
    full_scale::<T>(vl(y) as int, vv * p2, bp::<T>(nn + 1) as int);
    let w = ss.subrange(0, e + nn + 1);
    assert forall|i: int| 0 <= i < e implies (#[trigger] w[i]).nv() == 0 && w[i].nwf() by { assert(w[i] == s1[i]); }
    vl_shift(y, w, e); vl_drop(ss, e + nn + 1);
    assert(dok(ss)) by { reveal(dok); assert forall|i: int| 0 <= i < ss.len() implies (#[trigger] ss[i]).nwf() by { if i < e + nn + 1 { assert(w[i] == ss[i]); } else { assert(ss[i] == s1[i]); } } }
    bzfirst(ss, vv, dd, p2, e, nd, nn, n as int, m, ds);
}
-- loop 0
invariant $n0 == t - 1, $i0 <= $n0, t == 2 + xx, m == (t - 1) * n, m + n == t * n, n >= nd >= 3, n <= 2 * nd, e == n - nd, snum@.len() == ss.len() == m + n, q@.len() == m, sden@.len() == n, m <= 0x200_0000_0000_0000, work@.len() >= bzws(nd), work@.len() == work0.len(), bzws(nd) >= bzw(n as int), bzok(n as int),
    dok(work@), dok(snum@), dok(q@), dok(sden@), dok(ss), vl(sden@) == ds, T::dbase() <= 2 * sden@[n - 1].nv(), ds < bp::<T>(n as int), k == (t - 1 - $i0) * n, $i0 == $n0 ==> k == 0, 0 <= k <= m,
    sv(q@, k, m) * ds + sv(snum@, k, k + n) == sv(ss, k, m + n), sv(snum@, k, k + n) < ds, forall|i: int| 0 <= i < k ==> #[trigger] snum@[i] == ss[i], forall|i: int| k + n <= i < m + n ==> (#[trigger] snum@[i]).nv() == 0, forall|i: int| 0 <= i < k ==> (#[trigger] q@[i]).nv() == 0
decreases $n0 - $i0
-- before `let mut q`
let ghost mut k = m;
-- in loop 0 before
let ghost work0 = work@;
proof { assert(q@.subrange(m, m) =~= Seq::<T>::empty()); assert(dok(q@)) by { reveal(dok); } assert(vl(Seq::<T>::empty()) == 0); assert(0 * ds == 0); assert((t - 1) * n + n == t * n) by (nonlinear_arith); }
-- in loop 0 top
let ghost kk = k - n;
let ghost sp = snum@;
let ghost qp = q@;
-- before `div_big_bz_2n_n(&mut snum`
proof {
    assert(i == t - 2 - $j0);
    assert(i * n == kk && (i + 2) * n == kk + 2 * n && (i + 1) * n == kk + n && kk >= 0) by (nonlinear_arith) requires i >= 0, i == t - 2 - $j0, k == (t - 1 - $j0) * n, kk == k - n;
    bzblk_pre(sp, kk, n as int, ds);
    assert(zeros(q@.subrange(kk, kk + n), 0));
}
-- in loop 0 end
proof {
    assert(sv(sp, kk, kk + 2 * n) == vl(sp.subrange(kk, kk + 2 * n)));
    bzblock(q@, qp, snum@, sp, ss, kk, n as int, m, ds);
    dok_seg(q@, qp, kk, kk + n);
    k = kk; assert(0 * n == 0);
}
-- in loop 0 after
let ghost y = vv - sv(q@, 0, m) * dd;
let ghost s2 = snum@;
proof {
    assert(k == 0); assert(q@.subrange(0, m) =~= q@); assert(ss.subrange(0, m + n) =~= ss);
    let f = p2 * bp::<T>(e);
    assoc(dd, p2, bp::<T>(e) as int); assoc(vv, p2, bp::<T>(e) as int);
    assert(f > 0) by (nonlinear_arith) requires p2 > 0, bp::<T>(e) > 0, f == p2 * bp::<T>(e);
    unscale(vv, vl(q@) as int, dd, f, sv(s2, 0, n as int) as int); assoc(y, p2, bp::<T>(e) as int);
    let r = s2.subrange(0, n as int);
    bzlast(r, e, y * p2); assert(r.subrange(e, n as int) =~= s2.subrange(e, n as int));
}
-- after `let (nrem, _) = `
proof {
    let z = snum@.subrange(e, n as int);
    unscale2(vl(z) as int, y, p2, y * p2 - vl(z) * p2);
}
-- after `let nquot`
proof {
    pv_zeros(q@, nquot as int, m); pv_split(q@, m, m); assert(nlen(q@, nquot as int)) by { reveal(nlen); }
    assert(vl(q@) * dd <= vv);
    fit_q::<T>(vv, dd, nn, nd, nn - nd + 1);
    qlen(q@, nquot as int, dd, vv, nn - nd + 1);
    assert(nrem <= nd) by { reveal(nlen); }
}
-- tail
proof {
    let z = snum@.subrange(e, n as int);
    copied(q0, quot@, q@, nquot as int);
    copied(v0, num@, z, nrem as int);
}
== end

== block mod ubig
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;
/// the decimal radix to the power 2^i
pub open spec fn dscale<T: NumVal>(i: int) -> int { pow(T::ndec() as int, pow2(i as nat)) }
/// decimal places of n binary digits, as the code estimates them
pub open spec fn ndp<T: NumVal>(n: int) -> int { n * ((T::nbits() / 8) as int) * 643 / 267 }
/// the powers of the radix
pub open spec fn tbl<T: NumVal>(s: Seq<UBig<BinaryDigit<T>>>) -> bool where BinaryDigit<T>: Digit { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nwf() && s[i].nv() == dscale::<T>(i) }
/// the table of scales: enough of them for numbers of n digits
pub open spec fn scales_ok<T: NumVal>(s: Seq<UBig<BinaryDigit<T>>>, n: int) -> bool where BinaryDigit<T>: Digit {
    &&& tbl::<T>(s)
    &&& n >= 16 ==> s.len() > 0 && 3 * ((T::nbits() * 4004 / 13301) as int * pow2((s.len() - 1) as nat)) >= ndp::<T>(n)
}
proof fn dscale_step<T: NumVal>(i: int) requires i >= 0 ensures dscale::<T>(0) == T::ndec(), dscale::<T>(i + 1) == dscale::<T>(i) * dscale::<T>(i), pow2(0) == 1, pow2((i + 1) as nat) == 2 * pow2(i as nat), pow2(i as nat) >= 1
{ lemma2_to64(); lemma_pow1(T::ndec() as int); lemma_pow2_unfold((i + 1) as nat); lemma_pow2_pos(i as nat); lemma_pow_adds(T::ndec() as int, pow2(i as nat), pow2(i as nat)); }
proof fn exp64(i: nat) ensures pow2(i) <= usize::MAX ==> i < 64 { lemma2_to64(); lemma2_to64_rest(); if i > 64 { lemma_pow2_strictly_increases(64, i); } }
proof fn ndp_mono<T: NumVal>(m: int, n: int) requires 0 <= m <= n ensures 0 <= ndp::<T>(m) <= ndp::<T>(n), T::nbits() <= 64 ==> ndp::<T>(n) <= 20 * n
{
    let k = (T::nbits() / 8) as int;
    assert(0 <= m * k <= n * k) by (nonlinear_arith) requires 0 <= m <= n, k >= 0;
    if T::nbits() <= 64 { assert(n * k <= n * 8) by (nonlinear_arith) requires 0 <= n, k <= 8; }
}
proof fn bp_pow<T: Digit>(k: int) requires k >= 0 ensures bp::<T>(k) == pow(T::dbase() as int, k as nat) decreases k
{ bp_unfold::<T>(0); lemma_pow0(T::dbase() as int); if k > 0 { bp_pow::<T>(k - 1); bp_unfold::<T>(k - 1); lemma_pow_adds(T::dbase() as int, 1, (k - 1) as nat); lemma_pow1(T::dbase() as int); } }
/// the scale chosen for a number of n digits is no larger than any such number
proof fn scale_fits<T: NumVal>(s: Seq<BinaryDigit<T>>, i: int) where BinaryDigit<T>: Digit
    requires s.len() >= 16, dok(s), dnorm(s), i >= 0, T::is_prim(), i == 0 || 3 * ((T::nbits() * 4004 / 13301) as int * pow2((i - 1) as nat)) < ndp::<T>(s.len() as int)
    ensures 2 <= dscale::<T>(i) <= vl(s), pow2(i as nat) < s.len()
{
    T::ax_prim(); dscale_step::<T>(i); if i > 0 { dscale_step::<T>(i - 1); }
    BinaryDigit::<T>::ax_digit();
    let (n, k, p, nd) = (s.len() as int, (T::nbits() / 8) as int, pow2(i as nat) as int, (T::nbits() * 4004 / 13301) as int);
    assert(T::nbits() == 8 * k); assert(1 <= k <= 8); assert(nd >= 2 * k);
    if i > 0 {
        assert(6 * (nd * pow2((i - 1) as nat)) == 3 * (nd * p)) by (nonlinear_arith) requires p == 2 * pow2((i - 1) as nat);
        assert(nd * p >= 2 * (k * p)) by (nonlinear_arith) requires nd >= 2 * k, p >= 0;
        let t = n * k * 643 / 267;
        assert(6 * (k * p) < 2 * t);
        assert(1602 * (k * p) < 1286 * (n * k));
        assert(p < n - 1) by (nonlinear_arith) requires 1602 * (k * p) < 1286 * (n * k), k >= 1, n >= 16;
    }
    bp_pow::<BinaryDigit<T>>(p);
    let (a, b) = (T::ndec() as int, T::nbase() as int);
    assert(BinaryDigit::<T>::dbase() == BinaryDigit::<T>::nbase());
    pow_base(a, b, p as nat);
    bp_mono::<BinaryDigit<T>>(p, n - 1); norm_low(s);
    lemma_pow_increases(2, 1, p as nat); lemma_pow1(2); pow_base(2, a, p as nat);
}
proof fn pow_base(a: int, b: int, n: nat) requires 0 <= a <= b ensures 0 <= pow(a, n) <= pow(b, n) decreases n
{
    lemma_pow0(a); lemma_pow0(b);
    if n > 0 {
        pow_base(a, b, (n - 1) as nat); lemma_pow_adds(a, 1, (n - 1) as nat); lemma_pow_adds(b, 1, (n - 1) as nat); lemma_pow1(a); lemma_pow1(b);
        let (x, y) = (pow(a, (n - 1) as nat), pow(b, (n - 1) as nat));
        assert(0 <= a * x <= b * y) by (nonlinear_arith) requires 0 <= a <= b, 0 <= x <= y;
    }
}
== end
== fn ubig::<UBig<BinaryDigit<T>>>::to_decimal
-- spec
requires self.nwf(), self.digits@.len() <= 0x8000_0000_0000
ensures r.nwf(), r.nv() == self.nv()
-- body start
proof { T::ax_storage(); T::ax_prim(); dscale_step::<T>(0); }
-- before `while 3*nr_dec < tot_nr_dec`
let ghost nd = nr_dec as int;
proof { assert(nd * 1 == nd); ndp_mono::<T>(0, self.digits@.len() as int); }
-- loop 0
invariant scale.nwf(), scale.nv() == dscale::<T>(scales@.len() as int), tbl::<T>(scales@),
    nr_dec == nd * pow2(scales@.len()), nr_dec > 0, nr_dec <= 2 * tot_nr_dec || nr_dec == nd
decreases tot_nr_dec + nd - nr_dec
-- in loop 0 top
proof { dscale_step::<T>(scales@.len() as int); let (p, q) = (pow2(scales@.len()) as int, pow2(scales@.len() + 1) as int); assert(nd * q == 2 * (nd * p)) by (nonlinear_arith) requires q == 2 * p; }
== fn ubig::<UBig<BinaryDigit<T>>>::build_decimal
-- spec
requires old(self).nwf(), old(self).digits@.len() <= 0x8000_0000_0000, scales_ok(scales@, old(self).digits@.len() as int)
ensures r.nwf(), r.nv() == old(self).nv()
decreases old(self).nv()
-- body start
let ghost d0 = self.digits@;
proof { T::ax_storage(); T::ax_prim(); pv_init::<BinaryDigit<T>>(); dscale_step::<T>(0); BinaryDigit::<T>::ax_digit(); DecimalDigit::<T>::ax_digit(); }
-- after `let mut res = UBig::<DecimalDigit<T>>::from(self.digits[n-1].0)`
proof { pvn(d0, n - 1); let t = d0.subrange(n - 1, n as int); pv1(t);  assert(t.subrange(0, 1) =~= t); assert(res.nv() == vl(t)); }
-- loop 0
invariant res.nwf(), $i0 <= $n0, res.nv() == vl(d0.subrange(n - 1 - $i0, n as int))
decreases $n0 - $i0
-- in loop 0 top
let ghost v1 = res.nv() as int;
-- in loop 0 end
proof {
    let k = n - 2 - $j0; let t = d0.subrange(k, n as int);
    vl_split(t, 1); pv1(t.subrange(0, 1));
    assert(t.subrange(1, t.len() as int) =~= d0.subrange(k + 1, n as int));
    let h = (T::nbits() / 2) as nat;
    assert(T::nbits() == h + h); lemma_pow2_adds(h, h);
    let (a, b) = (pow2(h) as int, T::nbase() as int);
    assert(v1 * a * a == b * v1) by (nonlinear_arith) requires a * a == b;
}
-- in loop 0 after
proof { assert(d0.subrange(0, n as int) =~= d0); }
-- before `while 3*nr_dec < tot_nr_dec`
let ghost nd = nr_dec as int;
proof { assert(nd * 1 == nd); ndp_mono::<T>(0, n as int); }
-- loop 1
invariant idx < scales@.len(), nr_dec == nd * pow2(idx as nat), nr_dec > 0, nr_dec <= 2 * tot_nr_dec || nr_dec == nd, idx == 0 || 3 * (nd * pow2((idx - 1) as nat)) < tot_nr_dec
decreases tot_nr_dec + nd - nr_dec
-- in loop 1 top
proof { dscale_step::<T>(idx as int); let (p, q) = (pow2(idx as nat) as int, pow2((idx + 1) as nat) as int); assert(nd * q == 2 * (nd * p)) by (nonlinear_arith) requires q == 2 * p; assert(p <= nd * p) by (nonlinear_arith) requires nd >= 1, p >= 0; exp64(idx as nat); }
-- in loop 1 after
let ghost v0 = vl(d0) as int;
let ghost sc = dscale::<T>(idx as int);
proof { scale_fits::<T>(d0, idx as int); exp64(idx as nat); }
-- after `let mut low = `
let ghost hi = self.nv() as int;
let ghost l0 = low.nv() as int;
proof {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v0, sc); vstd::arithmetic::div_mod::lemma_mod_bound(v0, sc);
    assert(sc * hi + l0 == v0 && 0 <= l0 < sc);
    assert(0 < hi < v0) by (nonlinear_arith) requires sc * hi + l0 == v0, 0 <= l0 < sc, 2 <= sc <= v0;
    if low.digits@.len() > n { len_lt(d0, low.digits@); }
    if self.digits@.len() > n { len_lt(d0, self.digits@); }
    ndp_mono::<T>(low.digits@.len() as int, n as int); ndp_mono::<T>(self.digits@.len() as int, n as int);
}
-- before `res.add_assign_big_at_offset(`
proof {
    assert(1usize << idx == pow2(idx as nat)) by { vstd::bits::lemma_usize_shl_is_mul(1, idx as usize); }
    bp_pow::<DecimalDigit<T>>(pow2(idx as nat) as int);
    assert(hi * sc == sc * hi) by (nonlinear_arith);
}
== end

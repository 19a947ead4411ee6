== fn ubig::is_number
-- spec
ensures r == crate::text::is_num(s@)
-- body start
proof { prefix_0x(s@); }
-- in loop 0 top
proof { digs_step(digits@, base as nat, $i0 as int); }
-- loop 0
invariant acc__ == digs(digits@.take($i0 as int), base as nat), $i0 <= $n0, $n0 == digits@.len()
decreases $n0 - $i0
-- tail
proof { assert(digits@.take(digits@.len() as int) =~= digits@); assert(digits@ == body(s@)); }
== block mod ubig
use crate::text::*;
use vstd::std_specs::ops::*;
proof fn st_facts<T: DigitStorage>()
    ensures T::is_prim(), forall|a: T| #[trigger] a.nwf(), 8 <= T::nbits() <= 64, T::nbits() % 8 == 0, T::nbits() / 8 * 643 / 267 >= 2, T::nbits() * 4004 / 13301 >= 2,
        T::nbase() >= 256,
        T::nbase() == pow2(T::nbits()), pow2((T::nbits() - 4) as nat) < T::ndec(),
        pow(10, (T::nbits() * 4004 / 13301) as nat) == T::ndec(), 0 < pow(10, (T::nbits() / 8 * 643 / 267) as nat) < T::nbase(),
        pow(16, (T::nbits() / 4) as nat) == T::nbase(), pow(16, ((T::nbits() - 4) / 4) as nat) == pow2((T::nbits() - 4) as nat),
        pow2(3) == 8, pow2(1) == 2
{
    T::ax_storage(); T::ax_prim(); lemma2_to64();
    pow16((T::nbits() / 4) as nat); pow16(((T::nbits() - 4) / 4) as nat);
    if T::nbits() > 8 { lemma_pow2_strictly_increases(8, T::nbits()); }
    broadcast use vstd::layout::layout_of_primitives;
}
proof fn half(x: int, y: int) requires x >= 0, y >= 2 ensures 0 <= 2 * (x / y) <= x
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y); let q = x / y; let r = x % y; assert(0 <= 2 * q <= x) by (nonlinear_arith) requires x == y * q + r, 0 <= r < y, y >= 2, x >= 0; }
/// what a loop needs to know about piece j
proof fn piece_ok(s: Seq<char>, b: nat, k: int, j: int) requires digs(s, b), 2 <= b <= 36, k > 0, 0 <= j < nchunks(s.len() as int, k)
    ensures ({ let (lo, hi) = (cut_lo(s.len() as int, k, j + 1), cut_lo(s.len() as int, k, j)); let u = vstd::utf8::encode_utf8(s).subrange(lo, hi);
        0 <= lo < hi <= s.len() && (forall|i: int| 0 <= i < u.len() ==> u[i] < 128) && chars_of(u) == s.subrange(lo, hi) && chars_of(u).len() > 0 && digs(chars_of(u), b) && sval(chars_of(u), b) == piece(s, b, k, j) < pow(b as int, k as nat) })
{
    piece_fits(s, b, k, j); chunk_bounds(s.len() as int, k, j); bytes_of(s, b);
    let (lo, hi) = (cut_lo(s.len() as int, k, j + 1), cut_lo(s.len() as int, k, j)); let u = vstd::utf8::encode_utf8(s).subrange(lo, hi);
    assert(chars_of(u) == s.subrange(lo, hi));
}
/// bytes of a text of digits
proof fn nr_bytes(s: Seq<char>, b: nat) requires digs(s, b), b <= 36 ensures vstd::utf8::encode_utf8(s).len() == s.len() { bytes_of(s, b); }
proof fn drop_zeros<T: Digit>(s: Seq<T>) ensures forall|k: int| 0 <= k <= s.len() && (forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).nv() == 0) ==> vl(#[trigger] s.subrange(0, k)) == vl(s)
{ assert forall|k: int| 0 <= k <= s.len() && (forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).nv() == 0) implies vl(#[trigger] s.subrange(0, k)) == vl(s) by { vl_drop(s, k); } }
proof fn dig_base<D: Digit>() ensures D::dbase() == D::nbase(), D::dbase() >= 100 { D::ax_digit(); }
proof fn one_shl<T: DigitStorage>() ensures T::obeys_shl_spec(), forall|x: T, n: usize| x.nv() == 1 && n < T::nbits() ==> #[trigger] x.shl_req(n), forall|x: T, n: usize| x.nv() == 1 && n < T::nbits() ==> (#[trigger] x.shl_spec(n)).nv() == pow2(n as nat)
{
    st_facts::<T>(); T::ax_obeys_shl();
    assert forall|x: T, n: usize| x.nv() == 1 && n < T::nbits() implies #[trigger] x.shl_req(n) by { assert(1 * pow2(n as nat) == pow2(n as nat)); lemma_pow2_strictly_increases(n as nat, T::nbits()); T::ax_shl(x, n); }
    assert forall|x: T, n: usize| x.nv() == 1 && n < T::nbits() implies (#[trigger] x.shl_spec(n)).nv() == pow2(n as nat) by { assert(1 * pow2(n as nat) == pow2(n as nat)); lemma_pow2_strictly_increases(n as nat, T::nbits()); T::ax_shl(x, n); }
}
proof fn eight_two<T: DigitStorage>() ensures T::obeys_add_spec(), forall|x: T, y: T| x.nv() == 8 && y.nv() == 2 ==> #[trigger] x.add_req(y), forall|x: T, y: T| x.nv() == 8 && y.nv() == 2 ==> (#[trigger] x.add_spec(y)).nv() == 10
{
    st_facts::<T>(); T::ax_obeys_add();
    assert forall|x: T, y: T| x.nv() == 8 && y.nv() == 2 implies #[trigger] x.add_req(y) by { T::ax_add(x, y); }
    assert forall|x: T, y: T| x.nv() == 8 && y.nv() == 2 implies (#[trigger] x.add_spec(y)).nv() == 10 by { T::ax_add(x, y); }
}
proof fn ten_pow<T: DigitStorage>(ten: T) requires ten.nv() == 10 ensures forall|e: usize| pow(10, e as nat) < T::nbase() ==> #[trigger] ten.pow_req(e), forall|e: usize, r: T| pow(10, e as nat) < T::nbase() && #[trigger] ten.pow_ens(e, r) ==> r.nv() == pow(10, e as nat)
{
    assert forall|e: usize| pow(10, e as nat) < T::nbase() implies #[trigger] ten.pow_req(e) by { T::ax_pow(ten, e); }
    assert forall|e: usize, r: T| pow(10, e as nat) < T::nbase() && #[trigger] ten.pow_ens(e, r) implies r.nv() == pow(10, e as nat) by { T::ax_pow(ten, e); }
}
== end
== each D=BinaryDigit b0=16 k0=T::nbits()/4 l0=low b1=10 k1=T::nbits()/8*643/267 ; D=DecimalDigit b0=16 k0=(T::nbits()-4)/4 b1=10 k1=T::nbits()*4004/13301
== fn ubig::<UBig<%D%<T>> as FromStr>::from_str
-- spec
ensures match r { Ok(n) => is_num(s@) && n.nwf() && n.nv() == num(s@), Err(e) => e is InvalidNumber && !is_num(s@) }
== endeach
== fn ubig::<UBig<BinaryDigit<T>> as FromStr>::from_str
-- attr #[verifier::spinoff_prover]
-- body start
hide(digs); hide(nchunks); hide(cut_lo); hide(piece); hide(low); hide(high);

let ghost s0 = s@; let ghost t = body(s@);
proof {
    prefix_0x(s@); st_facts::<T>(); dig_base::<BinaryDigit<T>>(); pv_init::<BinaryDigit<T>>();
}
-- before `let mut digits`
let ghost k = (T::nbits() / 4) as int;
proof { assert(s@ == t && digs(t, 16)); nr_bytes(t, 16); ends(t, 16, k); assert forall|x: int| x >= 0 implies 0 <= 2 * #[trigger] (x / k) <= x by { half(x, k); } }
-- loop 0
invariant $i0 <= $n0, $n0 == nchunks(t.len() as int, k), digits@.len() == $i0, dok(digits@), vl(digits@) == low(t, 16, k, $i0 as int)
decreases $n0 - $i0
-- in loop 0 start
proof { piece_ok(t, 16, k, $j0 as int); }
-- before `Ok(UBig::new(digits))`
proof { drop_zeros(digits@); }
-- before `digits.push(digit)`
proof { push_val(digits@, digit); low_step(t, 16, k, $j0 as int); bp_pow::<BinaryDigit<T>>($j0 as int); }
-- before `let ten`
let ghost k = (T::nbits() / 8 * 643 / 267) as int;
proof {
    one_shl::<T>(); eight_two::<T>();
    assert(s@ == t && digs(t, 10)); nr_bytes(t, 10); ends(t, 10, k); }
-- after `let ten`
proof { ten_pow(ten); }
-- loop 1
invariant $i1 <= $n1, $n1 == nchunks(t.len() as int, k), result.nwf(), result.nv() == high(t, 10, k, $n1 - $i1)
decreases $n1 - $i1
-- in loop 1 start
proof { piece_ok(t, 10, k, $n1 - 1 - $j1); high_step(t, 10, k, $n1 - 1 - $j1); }
== fn ubig::<UBig<DecimalDigit<T>> as FromStr>::from_str
-- attr #[verifier::spinoff_prover]
-- body start
hide(digs); hide(nchunks); hide(cut_lo); hide(piece); hide(low); hide(high);

let ghost s0 = s@; let ghost t = body(s@);
proof { prefix_0x(s@); st_facts::<T>(); dig_base::<DecimalDigit<T>>(); pv_init::<DecimalDigit<T>>(); }
-- before `let mut digits`
let ghost k = (T::nbits() * 4004 / 13301) as int;
proof { assert(s@ == t && digs(t, 10)); nr_bytes(t, 10); ends(t, 10, k); assert forall|x: int| x >= 0 implies 0 <= 2 * #[trigger] (x / k) <= x by { half(x, k); } }
-- loop 1
invariant $i1 <= $n1, $n1 == nchunks(t.len() as int, k), digits@.len() == $i1, dok(digits@), vl(digits@) == low(t, 10, k, $i1 as int)
decreases $n1 - $i1
-- in loop 1 start
proof { piece_ok(t, 10, k, $j1 as int); }
-- before `Ok(UBig::new(digits))`
proof { drop_zeros(digits@); }
-- before `digits.push(digit)`
proof { push_val(digits@, digit); low_step(t, 10, k, $j1 as int); bp_pow::<DecimalDigit<T>>($j1 as int); }
-- before `let scale`
let ghost k = ((T::nbits() - 4) / 4) as int;
proof { one_shl::<T>(); assert(s@ == t && digs(t, 16)); nr_bytes(t, 16); ends(t, 16, k); }
-- loop 0
invariant $i0 <= $n0, $n0 == nchunks(t.len() as int, k), result.nwf(), result.nv() == high(t, 16, k, $n0 - $i0)
decreases $n0 - $i0
-- in loop 0 start
proof { piece_ok(t, 16, k, $n0 - 1 - $j0); high_step(t, 16, k, $n0 - 1 - $j0); }
== end

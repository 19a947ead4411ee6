== drop digit::<BinaryDigit<T> as Add>
== drop digit::<BinaryDigit<T> as Mul>
== drop digit::<DecimalDigit<T> as Add>
== drop digit::<DecimalDigit<T> as Mul>
== block digit::DigitStorage
proof fn ax_storage() ensures Self::is_prim(),
    Self::obeys_partial_cmp_spec(), forall|a: Self, b: Self| #[trigger] a.partial_cmp_spec(&b) == Some(cmpn(a.nv() as int, b.nv() as int)),
    Self::obeys_div_spec(), forall|a: Self, b: Self| b.nv() != 0 ==> #[trigger] a.div_req(b), forall|a: Self, b: Self| b.nv() != 0 ==> (#[trigger] a.div_spec(b)).nv() == a.nv() / b.nv(),
    Self::obeys_rem_spec(), forall|a: Self, b: Self| b.nv() != 0 ==> #[trigger] a.rem_req(b), forall|a: Self, b: Self| b.nv() != 0 ==> (#[trigger] a.rem_spec(b)).nv() == a.nv() % b.nv(),
    forall|a: Self| #[trigger] a.nwf(),
    forall|a: Self| #[trigger] a.nv() < Self::nbase();
proof fn ax_shl(a: Self, n: usize) requires n < Self::nbits(), a.nv() * vstd::arithmetic::power2::pow2(n as nat) < Self::nbase()
    ensures a.shl_req(n), a.shl_spec(n).nv() == a.nv() * vstd::arithmetic::power2::pow2(n as nat);
proof fn ax_lhex(a: &Self) where Self: crate::fmt::LowerHex ensures a.lhex_wf(), a.lhex_val() == a.nv() < Self::nbase();
proof fn ax_uhex(a: &Self) where Self: crate::fmt::UpperHex ensures a.uhex_wf(), a.uhex_val() == a.nv() < Self::nbase();
proof fn ax_disp(a: &Self) where Self: crate::fmt::Display ensures a.disp_wf(), a.disp_val() == a.nv();
proof fn ax_obeys_shl() ensures Self::obeys_shl_spec();
proof fn ax_obeys_add() ensures Self::obeys_add_spec();
proof fn ax_add(a: Self, b: Self) requires a.nv() + b.nv() < Self::nbase()
    ensures a.add_req(b), a.add_spec(b).nv() == a.nv() + b.nv();
proof fn ax_pow(a: Self, e: usize) requires vstd::arithmetic::power::pow(a.nv() as int, e as nat) < Self::nbase()
    ensures a.pow_req(e), forall|r: Self| #[trigger] a.pow_ens(e, r) ==> r.nv() == vstd::arithmetic::power::pow(a.nv() as int, e as nat);
== fn digit::DigitStorage::DECIMAL_RADIX
-- spec
ensures r.nv() == Self::ndec()
== each p=u8 w=u16 n=8 b=0x100 d=100 W=16 m=ff N=7 z=1 Z=2 ; p=u16 w=u32 n=16 b=0x1_0000 d=10_000 W=32 m=ffff N=15 z=2 Z=4 ; p=u32 w=u64 n=32 b=0x1_0000_0000 d=1_000_000_000 W=64 m=ffff_ffff N=31 z=2 Z=4 ; p=u64 w=u128 n=64 b=0x1_0000_0000_0000_0000 d=10_000_000_000_000_000_000 W=128 m=ffff_ffff_ffff_ffff N=63 z=0 Z=1
== block digit::<%p% as DigitStorage>
proof fn ax_storage() { }
#[verifier::external_body] proof fn ax_shl(a: Self, n: usize) { } /* the verifier's library has no contract for shifting by a usize through the trait */
#[verifier::external_body] proof fn ax_obeys_shl() { }
proof fn ax_lhex(a: &Self) { }
proof fn ax_uhex(a: &Self) { }
proof fn ax_disp(a: &Self) { }
proof fn ax_obeys_add() { }
proof fn ax_add(a: Self, b: Self) { }
proof fn ax_pow(a: Self, e: usize) { }
== block mod digit
use crate::dl_%p%::*;
== mod dl_%p%
use vstd::arithmetic::power2::*;
proof fn lemma_shl_mul_w%w%(x: %w%, s: usize) requires s < %W%, x * pow2(s as nat) < %w%::MAX + 1 ensures (x << s) == x * pow2(s as nat) decreases s
{
    lemma2_to64();
    if s == 0 { assert(x << 0usize == x) by (bit_vector); assert(x * pow2(0) == x) by (nonlinear_arith) requires pow2(0) == 1; }
    else {
        let t = (s - 1) as usize;
        lemma_pow2_unfold(s as nat); lemma_pow2_pos(t as nat);
        assert(x * pow2(s as nat) == 2 * (x * pow2(t as nat))) by (nonlinear_arith) requires pow2(s as nat) == 2 * pow2(t as nat);
        lemma_shl_mul_w%w%(x, t);
        let y = x << t;
        assert(x << s == (x << t) << 1usize) by (bit_vector) requires s < %W%, t < %W%, s == t + 1;
        assert(y << 1usize == add(y, y)) by (bit_vector);
    }
}
proof fn lemma_shr_div_w%w%(x: %w%, s: usize) requires s < %W% ensures (x >> s) == x as nat / pow2(s as nat), (x >> s) * pow2(s as nat) <= x < (x >> s) * pow2(s as nat) + pow2(s as nat) decreases s
{
    lemma2_to64();
    lemma_pow2_pos(s as nat);
    if s == 0 { assert(x >> 0usize == x) by (bit_vector); }
    else {
        let t = (s - 1) as usize;
        lemma_pow2_unfold(s as nat); lemma_pow2_pos(t as nat);
        lemma_shr_div_w%w%(x, t);
        let y = x >> t;
        assert(x >> s == (x >> t) >> 1usize) by (bit_vector) requires s < %W%, t < %W%, s == t + 1;
        assert(y >> 1usize == y / 2) by (bit_vector);
        vstd::arithmetic::div_mod::lemma_div_denominator(x as int, pow2(t as nat) as int, 2);
        assert(pow2(t as nat) * 2 == pow2(s as nat));
    }
    let p = pow2(s as nat) as int; let q = (x >> s) as int; let m = x as int % p;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, p);
    assert(q * p <= x < q * p + p) by (nonlinear_arith) requires x as int == p * q + m, 0 <= m < p;
}
/// x << s for a storage value x, in the wide type, s at most the width
proof fn lemma_wide_shl_%p%(x: %p%, s: usize) requires s <= %n% ensures (x as %w%) << s == x * pow2(s as nat), pow2(s as nat) <= %b%, s < %n% ==> pow2(s as nat) < %b%
{
    lemma2_to64(); lemma2_to64_rest();
    if s < %n% { lemma_pow2_strictly_increases(s as nat, %n%); }
    assert(x * pow2(s as nat) < %w%::MAX + 1) by (nonlinear_arith) requires x < %b%, pow2(s as nat) <= %b%;
    lemma_shl_mul_w%w%(x as %w%, s);
}
proof fn lemma_one_shl_%p%(s: usize) requires s < %n% ensures (1%p% << s) == pow2(s as nat), (1%w% << s) == pow2(s as nat), 2 * pow2(s as nat) <= %b%
{
    lemma_wide_shl_%p%(1, s);
    let a = 1%p% << s; let c = 1%w% << s;
    assert(a == c) by (bit_vector) requires a == 1%p% << s, c == 1%w% << s, s < %n%;
    lemma2_to64(); lemma2_to64_rest(); lemma_pow2_unfold(%n%);
    if s < %n% - 1 { lemma_pow2_strictly_increases(s as nat, (%n% - 1) as nat); }
}
/// a shift amount with 2^s below the base is below the width
proof fn lemma_shift_small_%p%(s: nat) requires pow2(s) < %b% ensures s < %n%
{
    lemma2_to64(); lemma2_to64_rest();
    if s > %n% { lemma_pow2_strictly_increases(%n%, s); }
}
proof fn lemma_bin_shl_%p%(x: %p%, s: usize, c: %p%) requires 0 < s, c < pow2(s as nat) < %b%
    ensures s < %n%, ((x << s) | c) + (x >> ((%n% - s) as usize)) * %b% == x * pow2(s as nat) + c, (x >> ((%n% - s) as usize)) < pow2(s as nat)
{
    lemma_shift_small_%p%(s as nat); lemma_one_shl_%p%(s); lemma_wide_shl_%p%(x, s);
    let a = (x << s) | c; let h = x >> sub(%n%usize, s); let xs = x << s; let z = x as %w%;
    assert(a as %w% == add(xs as %w%, c as %w%)) by (bit_vector) requires 0 < s < %n%, c < (1%p% << s), a == xs | c, xs == x << s;
    assert((z << s) == add(xs as %w%, (h as %w%) << %n%usize)) by (bit_vector) requires 0 < s < %n%, xs == x << s, z == x as %w%, h == x >> sub(%n%usize, s);
    assert((h as %w%) << %n%usize == mul(h as %w%, %b%%w%)) by (bit_vector);
    assert(h < (1%p% << s)) by (bit_vector) requires h == x >> sub(%n%usize, s), 0 < s < %n%;
}
proof fn lemma_bin_shr_%p%(x: %p%, s: usize, c: %p%) requires 0 < s, c < pow2(s as nat) < %b%
    ensures s < %n%, ({ let f = (c << ((%n% - s) as usize)) | (x >> s); let m = (1%p% << ((s - 1) as usize)) | sub(1%p% << ((s - 1) as usize), 1%p%); &&& f * pow2(s as nat) + (x & m) == x + c * %b% &&& (x & m) < pow2(s as nat) &&& (1%p% << ((s - 1) as usize)) >= 1 &&& f * pow2(s as nat) <= x + c * %b%})
{
    lemma_shift_small_%p%(s as nat); lemma_one_shl_%p%(s);
    let f = (c << sub(%n%usize, s)) | (x >> s); let m = (1%p% << sub(s, 1)) | sub(1%p% << sub(s, 1), 1);
    let g = (f as %w%) << s; let xm = x & m; let o = 1%p% << sub(s, 1);
    assert(add(g, xm as %w%) == add(x as %w%, (c as %w%) << %n%usize) && g <= %w%::MAX - %p%::MAX && xm < (1%p% << s) && o >= 1) by (bit_vector)
        requires 0 < s < %n%, c < (1%p% << s), f == (c << sub(%n%usize, s)) | (x >> s), m == (1%p% << sub(s, 1)) | sub(1%p% << sub(s, 1), 1), g == (f as %w%) << s, xm == x & m, o == 1%p% << sub(s, 1);
    assert((c as %w%) << %n%usize == mul(c as %w%, %b%%w%)) by (bit_vector);
    lemma_wide_shl_%p%(f, s);
}
proof fn lemma_split_%p%() ensures forall|t: %w%| #[trigger] (t & (%p%::MAX as %w%)) == t % %b%, forall|t: %w%| #[trigger] (t >> %n%usize) == t / %b%,
    forall|t: %w%| 0 <= #[trigger] (t / %b%) < %b%, forall|c: %p%, x: %p%| #[trigger] (((c as %w%) << %n%usize) | (x as %w%)) == c * %b% + x
{
    assert forall|t: %w%| #[trigger] (t & (%p%::MAX as %w%)) == t % %b% by { assert(t & 0x%m% == t % %b%) by (bit_vector); }
    assert forall|t: %w%| #[trigger] (t >> %n%usize) == t / %b% by { assert(t >> %n%usize == t / %b%) by (bit_vector); }
    assert forall|c: %p%, x: %p%| #[trigger] (((c as %w%) << %n%usize) | (x as %w%)) == c * %b% + x by {
        let a = ((c as %w%) << %n%usize) | (x as %w%);
        assert(a == add(mul(c as %w%, %b%%w%), x as %w%)) by (bit_vector) requires a == ((c as %w%) << %n%usize) | (x as %w%);
        assert(c * %b% + x <= %w%::MAX);
    }
}
proof fn lemma_lz_%p%(x: %p%) ensures x != 0 ==> ({ let l = vstd::std_specs::bits::%p%_leading_zeros(x); l < %n% && x * pow2(l as nat) < %b% <= x * pow2((l + 1) as nat) })
{
    vstd::std_specs::bits::axiom_%p%_leading_zeros(x);
    if x != 0 {
        let l = vstd::std_specs::bits::%p%_leading_zeros(x) as %p%;
        let u = (%n% - 1 - l) as %p%;
        assert((x >> u) & 1%p% != 0%p%);
        if l > 0 { let v = (%n% - l) as %p%; assert(x >> v == 0); }
        lemma_wide_shl_%p%(x, l as usize);
        lemma_wide_shl_%p%(x, (l + 1) as usize);
        let ls = l as usize; let lt = (l + 1) as usize;
        let a = (x as %w%) << ls; let c = (x as %w%) << lt;
        let v = (%n% - l) as %p%;
        assert(c >= %b%) by (bit_vector) requires l < %n%%p%, u == sub(%N%%p%, l), lt == add(ls, 1), ls == l as usize, c == (x as %w%) << lt, (x >> u) & 1%p% != 0%p%;
        assert(a < %b%) by (bit_vector) requires l < %n%%p%, v == sub(%n%%p%, l), ls == l as usize, a == (x as %w%) << ls, l == 0 || x >> v == 0;
    }
}
proof fn lemma_mul_bound_%p%(a: %p%, b: %p%) ensures 0 <= a * b <= %p%::MAX * %p%::MAX { assert(0 <= a * b <= %p%::MAX * %p%::MAX) by (nonlinear_arith) requires 0 <= a <= %p%::MAX, 0 <= b <= %p%::MAX; }
/// dividing c * base + x by f, with c < f
proof fn lemma_div_fits_%p%(t: int, f: int, base: int, c: int, x: int) requires t == c * base + x, 0 <= x < base, 0 <= c < f ensures 0 <= t / f < base, 0 <= t % f < f, (t / f) * f + t % f == t
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, f);
    let q = t / f; let r = t % f;
    assert(q * f + r == t) by (nonlinear_arith) requires t == f * q + r;
    assert(t >= 0) by (nonlinear_arith) requires t == c * base + x, 0 <= x < base, 0 <= c;
    assert(0 <= q) by (nonlinear_arith) requires q * f + r == t, t >= 0, 0 <= r < f;
    assert(t < f * base) by (nonlinear_arith) requires t == c * base + x, 0 <= x < base, 0 <= c < f;
    assert(q < base) by (nonlinear_arith) requires q * f + r == t, t < f * base, 0 <= r < f;
}
== fn digit::<BinaryDigit<%p%> as Digit>::max_shift
-- body start
proof { lemma_lz_%p%(self.0); }
== fn digit::<BinaryDigit<%p%> as Digit>::shl_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); lemma_bin_shl_%p%(self.0, shift, carry.0); }
== fn digit::<BinaryDigit<%p%> as Digit>::shr_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); lemma_bin_shr_%p%(self.0, shift, carry.0); }
== fn digit::<BinaryDigit<%p%> as Digit>::double_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); let x = self.0; let h = x & (1%p% << %N%usize);
   let y1 = (x << 1usize) | 1%p%; let y0 = (x << 1usize) | 0%p%; let k: %w% = if h != 0 { %b% } else { 0 };
   assert(add(y1 as %w%, k) == add(x as %w%, add(x as %w%, 1))) by (bit_vector) requires h == x & (1%p% << %N%usize), k == (if h != 0 { %b%%w% } else { 0 }), y1 == (x << 1usize) | 1%p%;
   assert(add(y0 as %w%, k) == add(x as %w%, x as %w%)) by (bit_vector) requires h == x & (1%p% << %N%usize), k == (if h != 0 { %b%%w% } else { 0 }), y0 == (x << 1usize) | 0%p%;
   }
== fn digit::<BinaryDigit<%p%> as Digit>::mul_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); lemma_split_%p%(); lemma_mul_bound_%p%(self.0, fac.0); }
== fn digit::<BinaryDigit<%p%> as Digit>::add_prod_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); lemma_split_%p%(); lemma_mul_bound_%p%(fac0.0, fac1.0); }
== fn digit::<BinaryDigit<%p%> as Digit>::sub_prod_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); lemma_split_%p%(); lemma_mul_bound_%p%(fac0.0, fac1.0); }
== fn digit::<BinaryDigit<%p%> as Digit>::rem_carry | digit::<BinaryDigit<%p%> as Digit>::div_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); lemma_split_%p%(); lemma_div_fits_%p%(carry.0 * %b% + self.0, fac.0 as int, %b%, carry.0 as int, self.0 as int); }
== fn digit::<BinaryDigit<%p%> as Digit>::div3_carry_assign
-- body start
proof { <%p% as NumVal>::ax_prim(); lemma_split_%p%(); }
== block mod digit
use crate::dd_%p%::*;
== mod dd_%p%
use vstd::arithmetic::power2::*;
use crate::dl_%p%::*;
proof fn lemma_mask_w%w%(x: %w%, s: usize) requires 0 < s < %n%
  ensures ({ let m = (1%w% << ((s - 1) as usize)) | sub(1%w% << ((s - 1) as usize), 1%w%); (x & m) == x - (x >> s) * pow2(s as nat) }), (1%w% << ((s - 1) as usize)) >= 1, (x & ((1%w% << ((s - 1) as usize)) | sub(1%w% << ((s - 1) as usize), 1%w%))) < pow2(s as nat)
{ 
   let o = 1%w% << sub(s, 1); let m = o | sub(o, 1%w%); let h = x >> s; let g = h << s;
   assert((x & m) == sub(x, g) && g <= x && o >= 1 ) by (bit_vector) requires 0 < s < %n%, m == o | sub(o, 1%w%), o == 1%w% << sub(s, 1), h == x >> s, g == h << s;
   lemma_shr_div_w%w%(x, s);
   lemma_shl_mul_w%w%(h, s);
}
/// the numbers occurring in shl/shr of decimal digits
proof fn lemma_dec_bounds_%p%(x: int, s: nat, c: int) requires 0 <= x < %d%, 0 <= c < pow2(s) < %d% ensures 0 <= x * pow2(s) + c < %d% * pow2(s), %d% * pow2(s) < %d% * %d%, 0 <= x * pow2(s), 0 <= c * %d% + x < %d% * pow2(s), (x * pow2(s) + c) / %d% < pow2(s)
{ 
  let p = pow2(s) as int;
  assert(0 <= x * p + c < %d% * p) by (nonlinear_arith) requires 0 <= x < %d%, 0 <= c < p;
  assert(0 <= x * p) by (nonlinear_arith) requires 0 <= x < %d%, 0 <= p;
}
proof fn lemma_lt_cancel_%p%(a: int, b: int, p: int) requires a * p < b * p, p > 0 ensures a < b { assert(a < b) by (nonlinear_arith) requires a * p < b * p, p > 0; }
proof fn lemma_decmul_%p%(a: int, b: int, c: int, e: int) requires 0 <= a < %d%, 0 <= b < %d%, 0 <= c < %d%, 0 <= e < %d% ensures 0 <= a * b <= (%d% - 1) * (%d% - 1)
{ assert(0 <= a * b <= (%d% - 1) * (%d% - 1)) by (nonlinear_arith) requires 0 <= a < %d%, 0 <= b < %d%; }
proof fn lemma_dec_max_shift_%p%(x: %p%) requires 0 < x < %d%
  ensures ({ let l = vstd::std_specs::bits::%p%_leading_zeros(x); let lm = vstd::std_specs::bits::%p%_leading_zeros((%d% - 1) as %p%); let s = (l - lm) as u32; 
     &&& lm <= l < %n% && lm < %n% &&& (x << s) == x * pow2(s as nat) &&& (s as nat) < 64
     &&& (x << s) < %d% ==> x * pow2(s as nat) < %d% <= x * pow2((s + 1) as nat)
     &&& (x << s) >= %d% ==> s > 0 && x * pow2((s - 1) as nat) < %d% <= x * pow2(s as nat) })
{
    let l = vstd::std_specs::bits::%p%_leading_zeros(x); let lm = vstd::std_specs::bits::%p%_leading_zeros((%d% - 1) as %p%);
    lemma_lz_%p%(x); lemma_lz_%p%((%d% - 1) as %p%);
    lemma2_to64();
    // leading zeros of the largest digit
    assert(pow2(%z%) == %Z% && pow2(%z% + 1) == 2 * pow2(%z%)) by { lemma2_to64(); lemma_pow2_unfold(%z% + 1); }
    if lm < %z% { if lm + 1 < %z% { lemma_pow2_strictly_increases((lm + 1) as nat, %z%); } assert(pow2((lm + 1) as nat) <= %Z%); assert(false) by (nonlinear_arith) requires %b% <= (%d% - 1) * pow2((lm + 1) as nat), pow2((lm + 1) as nat) <= %Z%; }
    if lm > %z% { if lm > %z% + 1 { lemma_pow2_strictly_increases(%z% + 1, lm as nat); } assert(false) by (nonlinear_arith) requires %b% > (%d% - 1) * pow2(lm as nat), pow2(lm as nat) >= 2 * %Z%; }
    assert(lm == %z%);
    if l < lm { if l + 1 < lm { lemma_pow2_strictly_increases((l + 1) as nat, lm as nat); } assert(false) by (nonlinear_arith) requires %b% <= x * pow2((l + 1) as nat), pow2((l + 1) as nat) <= %Z%, x < %d%; }
    let s = (l - lm) as u32; let q = pow2(s as nat);
    lemma_pow2_adds(s as nat, %z%);
    assert(pow2(l as nat) == q * %Z%);
    lemma_pow2_unfold((l + 1) as nat); lemma_pow2_unfold((s + 1) as nat);
    assert(x * q * %Z% < %b% && x * q * 2 * %Z% >= %b%) by (nonlinear_arith) requires x * (q * %Z%) < %b%, %b% <= x * (2 * (q * %Z%));
    assert(x * pow2((s + 1) as nat) == 2 * (x * q)) by (nonlinear_arith) requires pow2((s + 1) as nat) == 2 * q;
    lemma_wide_shl_%p%(x, s as usize);
    let su = s as usize; let wide = (x as %w%) << su; let nar = x << s;
    assert(nar as %w% == wide) by (bit_vector) requires wide == (x as %w%) << su, su == s as usize, s < %n%, nar == x << s, wide < %b%;
    if nar >= %d% {
        if s == 0 { assert(x * q == x) by (nonlinear_arith) requires q == 1; }
        lemma_pow2_unfold(s as nat);
        assert(2 * (x * pow2((s - 1) as nat)) == x * q) by (nonlinear_arith) requires q == 2 * pow2((s - 1) as nat);
    }
}
== fn digit::<DecimalDigit<%p%> as Digit>::max_shift
-- body start
proof { lemma_dec_max_shift_%p%(self.0); }
== fn digit::<DecimalDigit<%p%> as Digit>::shl_carry_assign
-- body start
proof { lemma_shift_small_%p%(shift as nat); lemma_wide_shl_%p%(self.0, shift); lemma_dec_bounds_%p%(self.0 as int, shift as nat, carry.0 as int); }
== fn digit::<DecimalDigit<%p%> as Digit>::shr_carry_assign
-- body start
proof { lemma_shift_small_%p%(shift as nat); lemma_dec_bounds_%p%(self.0 as int, shift as nat, carry.0 as int); 
  let t = (carry.0 * %d% + self.0) as %w%; lemma_mask_w%w%(t, shift); lemma_shr_div_w%w%(t, shift); lemma_lt_cancel_%p%((t >> shift) as int, %d%, pow2(shift as nat) as int); }
== fn digit::<DecimalDigit<%p%> as Digit>::double_carry_assign
-- body start
proof { let x = self.0; let h = x & (1%p% << %N%usize); 
   let y1 = (x << 1usize) | 1%p%; let y0 = (x << 1usize) | 0%p%; let k: %w% = if h != 0 { %b% } else { 0 };
   assert(add(y1 as %w%, k) == add(x as %w%, add(x as %w%, 1))) by (bit_vector) requires h == x & (1%p% << %N%usize), k == (if h != 0 { %b%%w% } else { 0 }), y1 == (x << 1usize) | 1%p%;
   assert(add(y0 as %w%, k) == add(x as %w%, x as %w%)) by (bit_vector) requires h == x & (1%p% << %N%usize), k == (if h != 0 { %b%%w% } else { 0 }), y0 == (x << 1usize) | 0%p%;
   }
== fn digit::<DecimalDigit<%p%> as Digit>::mul_carry_assign
-- body start
proof { lemma_decmul_%p%(self.0 as int, fac.0 as int, carry.0 as int, 0); }
== fn digit::<DecimalDigit<%p%> as Digit>::add_prod_carry_assign | digit::<DecimalDigit<%p%> as Digit>::sub_prod_carry_assign
-- body start
proof { lemma_decmul_%p%(fac0.0 as int, fac1.0 as int, carry.0 as int, self.0 as int); }
== fn digit::<DecimalDigit<%p%> as Digit>::rem_carry | digit::<DecimalDigit<%p%> as Digit>::div_carry_assign
-- body start
proof { lemma_div_fits_%p%(carry.0 * %d% + self.0, fac.0 as int, %d%, carry.0 as int, self.0 as int); }
== fn digit::<DecimalDigit<%p%> as Digit>::div3_carry_assign
-- body start
proof { lemma_mul_small(carry as int); }
== endeach
== fn digit::<DecimalDigit<u64>>::div_rem_base
-- spec
requires n < 10_000_000_000_000_000_000 * 10_000_000_000_000_000_000
ensures r.0 * 10_000_000_000_000_000_000 + r.1 == n, r.1 < 10_000_000_000_000_000_000, r.0 < 10_000_000_000_000_000_000, r.0 == n as int / 10_000_000_000_000_000_000, r.1 == n as int % 10_000_000_000_000_000_000
-- body start
proof { lemma_split_u64(); assert((n & 0xffffffffffffffff) == n % 0x1_0000_0000_0000_0000) by (bit_vector); assert(n >> 64usize == n / 0x1_0000_0000_0000_0000) by (bit_vector); 
  assert forall|t: u128| #[trigger] (t >> 64) == t / 0x1_0000_0000_0000_0000 by { assert(t >> 64 == t / 0x1_0000_0000_0000_0000) by (bit_vector); }
  lemma_div_rem_base(n as int, n as int / 0x1_0000_0000_0000_0000, n as int % 0x1_0000_0000_0000_0000);
}
== fn digit::<DecimalDigit<T>>::fits_single
-- spec
ensures r == (d.nv() < T::ndec())
-- body start
proof { T::ax_storage(); }
== fn digit::<DecimalDigit<T>>::split
-- spec
requires d.nv() >= T::ndec()
ensures r.0.nwf() , r.1.nwf(), r.0.nv() == d.nv() / T::ndec(), r.1.nv() == d.nv() % T::ndec()
-- body start
proof { T::ax_storage(); T::ax_prim(); let q = d.nv() / T::ndec(); assert(q < T::ndec()) by (nonlinear_arith) requires q == d.nv() / T::ndec(), T::ndec() > 0, d.nv() < T::nbase(), T::nbase() <= T::ndec() * T::ndec(); }
== fn digit::<DecimalDigit<T>>::NR_DECIMAL_PLACES
-- spec
requires T::is_prim()
ensures r == T::nbits() * 4004 / 13301, vstd::arithmetic::power::pow(10, r as nat) == T::ndec()
-- body start
proof { T::ax_prim(); }
== fn digit::<DecimalDigit<T>>::MAX_HEX_PLACES
-- spec
requires T::is_prim()
ensures 4 * r == T::nbits() - 4
-- body start
proof { T::ax_prim(); }
== fn digit::<BinaryDigit<u64> as Digit>::div3_carry_assign
-- body start
proof { lemma_mul_small(carry as int); }
== fn digit::<BinaryDigit<T>>::MAX_DECIMAL_PLACES
-- spec
requires T::is_prim()
ensures r == T::nbits() / 8 * 643 / 267, 0 < vstd::arithmetic::power::pow(10, r as nat) < T::nbase(), 0 < r <= 19
-- body start
proof { T::ax_prim(); }
== fn digit::<BinaryDigit<T>>::nr_decimal_places
-- spec
requires T::is_prim(), nr_digits <= 0x8000_0000_0000
ensures r == nr_digits * (T::nbits() / 8) * 643 / 267
-- body start
proof { T::ax_prim(); let k = (T::nbits() / 8) as int; assert(0 <= nr_digits * k <= 0x8000_0000_0000 * 8) by (nonlinear_arith) requires 0 <= nr_digits <= 0x8000_0000_0000, 0 <= k <= 8; }
== fn digit::<DecimalDigit<T> as Zero>::zero | digit::<DecimalDigit<T> as One>::one
-- body start
proof { T::ax_prim(); }
== block mod digit
use crate::dl_m::*;
== mod dl_m
use vstd::arithmetic::power2::*;
/// the quotient estimate of DecimalDigit<u64>::div_rem_base is exact
proof fn lemma_div_rem_base(n: int, nh: int, nl: int)
    requires n == nh * 0x1_0000_0000_0000_0000 + nl, 0 <= nl < 0x1_0000_0000_0000_0000, 0 <= n < 10_000_000_000_000_000_000 * 10_000_000_000_000_000_000, nh >= 0
    ensures ({ let t = 0x1_0000_0000_0000_0000int; let sl = 6225051964306646475int; let sh = 15581492618384294730int;
        let c1 = sl * nl / t; let c2 = (sl * nh + sh * nl + c1) / t; let c3 = (sh * nh + c2 + nl) / t; let q = c3 + nh;
        &&& 0 <= sl * nl < t * t &&& 0 <= sl * nh + sh * nl + c1 < t * t &&& 0 <= sh * nh + c2 + nl < t * t
        &&& 0 <= q * 10_000_000_000_000_000_000 <= n < q * 10_000_000_000_000_000_000 + 10_000_000_000_000_000_000
        &&& 0 <= q < 10_000_000_000_000_000_000 &&& q == n / 10_000_000_000_000_000_000 })
{
    let t = 18446744073709551616int; let sl = 6225051964306646475int; let sh = 15581492618384294730int; let r = 10000000000000000000int;
    let c1 = 6225051964306646475int * nl / 18446744073709551616int; let r1 = 6225051964306646475int * nl % 18446744073709551616int;
    let c2 = (6225051964306646475int * nh + 15581492618384294730int * nl + c1) / 18446744073709551616int; let r2 = (6225051964306646475int * nh + 15581492618384294730int * nl + c1) % 18446744073709551616int;
    let c3 = (15581492618384294730int * nh + c2 + nl) / 18446744073709551616int; let r3 = (15581492618384294730int * nh + c2 + nl) % 18446744073709551616int; let q = c3 + nh;
    assert(nh < 0x8000_0000_0000_0000);
    assert(6225051964306646475int * nl == c1 * 18446744073709551616int + r1);
    assert(6225051964306646475int * nh + 15581492618384294730int * nl + c1 == c2 * 18446744073709551616int + r2);
    assert(15581492618384294730int * nh + c2 + nl == c3 * 18446744073709551616int + r3);
    let rho = r3 * 340282366920938463463374607431768211456int + r2 * 18446744073709551616int + r1;
    assert(n * 627710173538668076383578942320766641611int == q * 6277101735386680763835789423207666416102355444464034512896int + rho);
    assert(0 <= rho < 6277101735386680763835789423207666416102355444464034512896int);
    assert(n * 6277101735386680763835789423207666416110000000000000000000int == q * 62771017353866807638357894232076664161023554444640345128960000000000000000000int + rho * 10000000000000000000int);
    assert(n * 6277101735386680763835789423207666416102355444464034512896int + n * 7644555535965487104int == q * 62771017353866807638357894232076664161023554444640345128960000000000000000000int + rho * 10000000000000000000int);
    let rem = n - q * 10000000000000000000int;
    assert(rem * 6277101735386680763835789423207666416102355444464034512896int == rho * 10000000000000000000int - n * 7644555535965487104int);
    assert(0 <= n * 7644555535965487104int < 6277101735386680763835789423207666416102355444464034512896int);
    assert(0 <= rho * 10000000000000000000int < 62771017353866807638357894232076664161023554444640345128960000000000000000000int);
    assert(0 <= rem < 10000000000000000000);
    assert(0 <= q < 10000000000000000000);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, r, q, rem);
}
proof fn lemma_mul_small(c: int) requires 0 <= c < 3 ensures forall|k: int| #[trigger] (c * k) == (if c == 0 { 0 } else if c == 1 { k } else { k + k })
{ assert forall|k: int| #[trigger] (c * k) == (if c == 0 { 0 } else if c == 1 { k } else { k + k }) by { assert(c * k == (if c == 0 { 0 } else if c == 1 { k } else { k + k })) by (nonlinear_arith) requires 0 <= c < 3; } }
== end

/// Texts: what the standard library does with them (assumed), and the numbers they denote.
pub mod text {
    use vstd::prelude::*;
    use vstd::arithmetic::power::*;

    /// value of a character as a digit
    pub open spec fn cval(c: char) -> nat {
        if '0' <= c <= '9' { (c as u32 - '0' as u32) as nat }
        else if 'a' <= c <= 'z' { (c as u32 - 'a' as u32 + 10) as nat }
        else if 'A' <= c <= 'Z' { (c as u32 - 'A' as u32 + 10) as nat }
        else { 99 }
    }
    /// all characters are digits in base b
    pub open spec fn digs(s: Seq<char>, b: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> cval(#[trigger] s[i]) < b }
    /// the number written in base b
    pub open spec fn sval(s: Seq<char>, b: nat) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sval(s.drop_last(), b) * b + cval(s.last()) } }
    pub open spec fn is_hex(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '0' && s[1] == 'x' }
    pub open spec fn body(s: Seq<char>) -> Seq<char> { if is_hex(s) { s.skip(2) } else if s.len() >= 1 && s[0] == '+' { s.skip(1) } else { s } }
    pub open spec fn radix(s: Seq<char>) -> nat { if is_hex(s) { 16 } else { 10 } }
    /// `s` denotes a number
    pub open spec fn is_num(s: Seq<char>) -> bool { body(s).len() > 0 && digs(body(s), radix(s)) }
    /// the number `s` denotes
    pub open spec fn num(s: Seq<char>) -> nat { sval(body(s), radix(s)) }
    pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }

    pub proof fn prefix_0x(s: Seq<char>) ensures "0x"@.is_prefix_of(s) == is_hex(s), "0x"@.len() == 2
    {
        reveal_strlit("0x");
        if is_hex(s) { assert(s.subrange(0, 2) =~= "0x"@); }
        if s.len() >= 2 && s.subrange(0, 2) == "0x"@ { assert(s[0] == s.subrange(0, 2)[0] && s[1] == s.subrange(0, 2)[1]); }
    }
    pub proof fn digs_step(s: Seq<char>, b: nat, i: int) requires 0 <= i < s.len() ensures digs(s.take(i + 1), b) == (digs(s.take(i), b) && cval(s[i]) < b)
    {
        let (u, v) = (s.take(i), s.take(i + 1));
        assert(v[i] == s[i]);
        if digs(v, b) { assert forall|k: int| 0 <= k < u.len() implies cval(#[trigger] u[k]) < b by { assert(u[k] == v[k]); } }
        if digs(u, b) && cval(s[i]) < b { assert forall|k: int| 0 <= k < v.len() implies cval(#[trigger] v[k]) < b by { if k < i { assert(v[k] == u[k]); } } }
    }
    pub proof fn digs_sub(s: Seq<char>, b: nat, lo: int, hi: int) requires digs(s, b), 0 <= lo <= hi <= s.len() ensures digs(s.subrange(lo, hi), b) { }
    pub proof fn digs_ascii(s: Seq<char>, b: nat) requires digs(s, b), b <= 36 ensures vstd::utf8::is_ascii_chars(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 { }
    pub proof fn sval_bound(s: Seq<char>, b: nat) requires digs(s, b), b > 0 ensures sval(s, b) < pow(b as int, s.len()) decreases s.len()
    {
        lemma_pow0(b as int);
        if s.len() > 0 {
            assert(digs(s.drop_last(), b));
            sval_bound(s.drop_last(), b); lemma_pow_adds(b as int, (s.len() - 1) as nat, 1); lemma_pow1(b as int);
            let (x, p) = (sval(s.drop_last(), b) as int, pow(b as int, (s.len() - 1) as nat));
            assert(cval(s[s.len() - 1]) < b);
            assert(x * b + b <= p * b) by (nonlinear_arith) requires x + 1 <= p, b > 0;
        }
    }
    pub proof fn sval_cat(s: Seq<char>, t: Seq<char>, b: nat) ensures sval(s + t, b) == sval(s, b) * pow(b as int, t.len()) + sval(t, b) decreases t.len()
    {
        lemma_pow0(b as int);
        if t.len() == 0 { assert(s + t == s); }
        else {
            let u = t.drop_last();
            assert((s + t).drop_last() == s + u);
            sval_cat(s, u, b); lemma_pow_adds(b as int, u.len(), 1); lemma_pow1(b as int);
            let (x, p, y) = (sval(s, b) as int, pow(b as int, u.len()), sval(u, b) as int);
            assert((x * p + y) * b == x * (p * b) + y * b) by (nonlinear_arith);
        }
    }
    /// s[lo..hi] split at m
    pub proof fn sval_split(s: Seq<char>, lo: int, m: int, hi: int, b: nat) requires 0 <= lo <= m <= hi <= s.len()
        ensures sval(s.subrange(lo, hi), b) == sval(s.subrange(lo, m), b) * pow(b as int, (hi - m) as nat) + sval(s.subrange(m, hi), b)
    { assert(s.subrange(lo, hi) == s.subrange(lo, m) + s.subrange(m, hi)); sval_cat(s.subrange(lo, m), s.subrange(m, hi), b); }
    /// where piece j (from the end) of n items begins
    pub open spec fn cut_lo(n: int, k: int, j: int) -> int { if j * k >= n { 0 } else { n - j * k } }
    pub open spec fn nchunks(n: int, k: int) -> int { (n + k - 1) / k }
    pub proof fn chunk_bounds(n: int, k: int, j: int) requires n >= 0, k > 0, 0 <= j < nchunks(n, k)
        ensures 0 <= j * k < n, cut_lo(n, k, j) == n - j * k, cut_lo(n, k, j + 1) < cut_lo(n, k, j) <= cut_lo(n, k, j + 1) + k, (j + 1) * k <= n ==> cut_lo(n, k, j) == cut_lo(n, k, j + 1) + k,
            j + 1 < nchunks(n, k) ==> (j + 1) * k < n, j + 1 == nchunks(n, k) ==> cut_lo(n, k, j + 1) == 0
    {
        let q = nchunks(n, k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + k - 1, k);
        assert(q * k <= n + k - 1 < q * k + k) by (nonlinear_arith) requires n + k - 1 == k * q + (n + k - 1) % k, 0 <= (n + k - 1) % k < k;
        assert(j * k <= (q - 1) * k && (q - 1) * k == q * k - k && 0 <= j * k && (j + 1) * k == j * k + k) by (nonlinear_arith) requires 0 <= j <= q - 1, k > 0;
        if j + 1 < q { assert((j + 1) * k <= (q - 1) * k) by (nonlinear_arith) requires j + 1 <= q - 1, k > 0; }
    }
    /// a piece of the bytes of a text of digits is the piece of the text
    pub proof fn bytes_of(s: Seq<char>, b: nat) requires digs(s, b), b <= 36
        ensures vstd::utf8::encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] vstd::utf8::encode_utf8(s)[i]) < 128,
            forall|i: int, j: int| 0 <= i <= j <= s.len() ==> chars_of(#[trigger] vstd::utf8::encode_utf8(s).subrange(i, j)) == s.subrange(i, j)
    {
        digs_ascii(s, b);
        vstd::utf8::is_ascii_chars_encode_utf8(s);
        let t = vstd::utf8::encode_utf8(s);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]) < 128 && t[i] as char == s[i] by { assert(s[i] as u32 <= 127); assert(t[i] == s[i] as u8); }
        assert forall|i: int, j: int| 0 <= i <= j <= s.len() implies chars_of(#[trigger] t.subrange(i, j)) == s.subrange(i, j) by { assert(chars_of(t.subrange(i, j)) =~= s.subrange(i, j)); }
    }
    /// value of piece j of k characters, counted from the end
    pub open spec fn piece(s: Seq<char>, b: nat, k: int, j: int) -> nat { sval(s.subrange(cut_lo(s.len() as int, k, j + 1), cut_lo(s.len() as int, k, j)), b) }
    /// a piece is not empty and fits k digits
    pub proof fn piece_fits(s: Seq<char>, b: nat, k: int, j: int) requires digs(s, b), b >= 2, k > 0, 0 <= j < nchunks(s.len() as int, k)
        ensures piece(s, b, k, j) < pow(b as int, k as nat), ({ let t = s.subrange(cut_lo(s.len() as int, k, j + 1), cut_lo(s.len() as int, k, j)); t.len() > 0 && digs(t, b) })
    {
        chunk_bounds(s.len() as int, k, j);
        let (lo, hi) = (cut_lo(s.len() as int, k, j + 1), cut_lo(s.len() as int, k, j));
        digs_sub(s, b, lo, hi); sval_bound(s.subrange(lo, hi), b); lemma_pow_increases(b, (hi - lo) as nat, k as nat);
    }
    /// the value of the last j pieces
    pub open spec fn low(s: Seq<char>, b: nat, k: int, j: int) -> nat { sval(s.subrange(cut_lo(s.len() as int, k, j), s.len() as int), b) }
    /// the value of all but the last j pieces
    pub open spec fn high(s: Seq<char>, b: nat, k: int, j: int) -> nat { sval(s.subrange(0, cut_lo(s.len() as int, k, j)), b) }
    pub proof fn low_step(s: Seq<char>, b: nat, k: int, j: int) requires b >= 2, k > 0, 0 <= j < nchunks(s.len() as int, k)
        ensures low(s, b, k, j + 1) == piece(s, b, k, j) * pow(pow(b as int, k as nat), j as nat) + low(s, b, k, j)
    {
        chunk_bounds(s.len() as int, k, j);
        sval_split(s, cut_lo(s.len() as int, k, j + 1), cut_lo(s.len() as int, k, j), s.len() as int, b);
        lemma_pow_multiplies(b as int, k as nat, j as nat); assert(k * j == j * k) by (nonlinear_arith);
    }
    pub proof fn high_step(s: Seq<char>, b: nat, k: int, j: int) requires b >= 2, k > 0, 0 <= j < nchunks(s.len() as int, k)
        ensures high(s, b, k, j) == high(s, b, k, j + 1) * pow(b as int, k as nat) + piece(s, b, k, j)
    {
        chunk_bounds(s.len() as int, k, j);
        let (lo, hi) = (cut_lo(s.len() as int, k, j + 1), cut_lo(s.len() as int, k, j));
        sval_split(s, 0, lo, hi, b);
        if lo == 0 { let (p, q) = (pow(b as int, (hi - lo) as nat), pow(b as int, k as nat)); assert(0 * p == 0 && 0 * q == 0); }
    }
    pub proof fn ends(s: Seq<char>, b: nat, k: int) requires k > 0
        ensures low(s, b, k, 0) == 0, low(s, b, k, nchunks(s.len() as int, k)) == sval(s, b), high(s, b, k, nchunks(s.len() as int, k)) == 0, high(s, b, k, 0) == sval(s, b), nchunks(s.len() as int, k) >= 0
    {
        let n = s.len() as int; let q = nchunks(n, k);
        assert(0 * k == 0);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + k - 1, k);
        assert(q >= 0 && q * k >= n) by (nonlinear_arith) requires n + k - 1 == k * q + (n + k - 1) % k, 0 <= (n + k - 1) % k < k, n >= 0, k > 0;
        assert(s.subrange(0, n) == s); assert(s.subrange(n, n).len() == 0); assert(s.subrange(0, 0).len() == 0);
    }
    pub proof fn pow16(k: nat) ensures pow(16, k) == vstd::arithmetic::power2::pow2(4 * k)
    { lemma_pow_multiplies(2, 4, k); vstd::arithmetic::power2::lemma_pow2(4 * k); reveal_with_fuel(pow, 6); }

    // ---- numerals
    /// digit character
    pub open spec fn dch(d: nat, up: bool) -> char { if d < 10 { (48 + d) as u8 as char } else if up { (55 + d) as u8 as char } else { (87 + d) as u8 as char } }
    /// the numeral of v in base b: no leading zeros, "0" for zero
    pub open spec fn numeral(v: nat, b: nat, up: bool) -> Seq<char> decreases v via numeral_dec { if b < 2 || v < b { seq![dch(v, up)] } else { numeral(v / b, b, up).push(dch(v % b, up)) } }
    #[via_fn]
    proof fn numeral_dec(v: nat, b: nat, up: bool) { if b >= 2 && v >= b { assert(v / b < v) by (nonlinear_arith) requires v >= b, b >= 2; } }
    /// exactly k digits
    pub open spec fn numk(v: nat, b: nat, up: bool, k: nat) -> Seq<char> decreases k { if k == 0 { Seq::empty() } else { numk(v / b, b, up, (k - 1) as nat).push(dch(v % b, up)) } }
    /// padded with zeros to a width
    pub open spec fn pad0(s: Seq<char>, w: int) -> Seq<char> { if s.len() >= w { s } else { Seq::new((w - s.len()) as nat, |i: int| '0') + s } }
    pub proof fn numk_pad(v: nat, b: nat, up: bool, k: nat) requires b >= 2, k >= 1, v < pow(b as int, k) ensures pad0(numeral(v, b, up), k as int) == numk(v, b, up, k) decreases k
    {
        lemma_pow_adds(b as int, (k - 1) as nat, 1); lemma_pow1(b as int); lemma_pow0(b as int);
        let (q, d) = (v / b, v % b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v as int, b as int);
        if k == 1 { assert(v / b == 0 && v % b == v) by (nonlinear_arith) requires v < b; assert(numk(q, b, up, 0) == Seq::<char>::empty()); assert(numk(v, b, up, 1) =~= seq![dch(v, up)]); }
        else {
            let p = pow(b as int, (k - 1) as nat);
            assert(q < p) by (nonlinear_arith) requires v == b * q + d, v < p * b, d >= 0, b >= 2;
            numk_pad(q, b, up, (k - 1) as nat);
            if v < b { assert(q == 0 && d == v) by (nonlinear_arith) requires v == b * q + d, v < b, 0 <= d < b, q >= 0, b >= 2; assert(numeral(0, b, up) == seq!['0']); }
            assert(pad0(numeral(v, b, up), k as int) =~= pad0(numeral(q, b, up), k - 1).push(dch(d, up)));
        }
    }
    pub proof fn numeral_cat(h: nat, l: nat, b: nat, up: bool, k: nat) requires b >= 2, h > 0, l < pow(b as int, k) ensures numeral((h * pow(b as int, k) + l) as nat, b, up) == numeral(h, b, up) + numk(l, b, up, k) decreases k
    {
        lemma_pow0(b as int);
        if k == 0 { assert(h * 1 == h); assert(numeral(h, b, up) + Seq::<char>::empty() =~= numeral(h, b, up)); }
        else {
            lemma_pow_adds(b as int, (k - 1) as nat, 1); lemma_pow1(b as int); lemma_pow_positive(b as int, (k - 1) as nat);
            let p = pow(b as int, (k - 1) as nat);
            let (q, d) = ((l / b) as int, (l % b) as int);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l as int, b as int);
            assert(q < p && q >= 0) by (nonlinear_arith) requires l == b * q + d, l < p * b, d >= 0, b >= 2, l >= 0, d < b;
            numeral_cat(h, q as nat, b, up, (k - 1) as nat);
            let v = h * (p * b) + l; let w = h * p + q;
            assert(v == w * b + d && w >= 1) by (nonlinear_arith) requires v == h * (p * b) + l, w == h * p + q, l == b * q + d, h >= 1, p >= 1, q >= 0;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, b as int, w, d);
            assert(v >= b) by (nonlinear_arith) requires v == w * b + d, w >= 1, d >= 0, b >= 2;
            assert(numeral(h, b, up) + numk(l, b, up, k) =~= (numeral(h, b, up) + numk(q as nat, b, up, (k - 1) as nat)).push(dch(d as nat, up)));
        }
    }
    /// value of the digits from number i upwards, in base b
    pub open spec fn lvs<T: crate::spec::NumVal>(s: Seq<T>, b: nat, i: int) -> nat decreases s.len() - i { if i < 0 || i >= s.len() { 0 } else { lvs(s, b, i + 1) * b + s[i].nv() } }
    pub proof fn lvs_pos<T: crate::spec::NumVal>(s: Seq<T>, b: nat, i: int) requires 0 <= i < s.len(), s[s.len() - 1].nv() > 0, b > 0 ensures lvs(s, b, i) > 0 decreases s.len() - i
    { if i < s.len() - 1 { lvs_pos(s, b, i + 1); let x = lvs(s, b, i + 1) as int; assert(x * b > 0) by (nonlinear_arith) requires x > 0, b > 0; } else { assert(0 * b == 0); } }
    /// one more digit of k characters
    pub proof fn more<T: crate::spec::NumVal>(s: Seq<T>, base: nat, b: nat, up: bool, k: nat, i: int)
        requires 0 <= i < s.len() - 1, s[s.len() - 1].nv() > 0, b >= 2, k >= 1, base == pow(b as int, k), s[i].nv() < base
        ensures numeral(lvs(s, base, i), b, up) == numeral(lvs(s, base, i + 1), b, up) + pad0(numeral(s[i].nv(), b, up), k as int)
    { lemma_pow_positive(b as int, k); lvs_pos(s, base, i + 1); numk_pad(s[i].nv(), b, up, k); numeral_cat(lvs(s, base, i + 1), s[i].nv(), b, up, k); }
    /// the value printed is the value of the number
    pub proof fn lvs_vl<T: crate::digit::Digit>(s: Seq<T>, i: int) requires 0 <= i <= s.len() ensures lvs(s, T::dbase(), i) == crate::spec::vl(s.subrange(i, s.len() as int)), i == 0 ==> lvs(s, T::dbase(), 0) == crate::spec::vl(s) decreases s.len() - i
    {
        use crate::spec::*; use crate::lem::*;
        pv_init::<T>();
        let n = s.len() as int;
        if i < n {
            let u = s.subrange(i, n);
            lvs_vl(s, i + 1);
            vl_split(u, 1); pv1(u.subrange(0, 1));
            assert(u.subrange(1, u.len() as int) =~= s.subrange(i + 1, n));
            assert(u.subrange(0, 1)[0] == s[i]);
            let (x, b) = (lvs(s, T::dbase(), i + 1) as int, T::dbase() as int);
            assert(x * b == b * x) by (nonlinear_arith);
        }
        if i == 0 { assert(s.subrange(0, n) =~= s); }
    }
    /// parsing the numeral gives the number back
    pub proof fn read_back(v: nat, b: nat, up: bool) requires 2 <= b <= 16 ensures digs(numeral(v, b, up), b), sval(numeral(v, b, up), b) == v, numeral(v, b, up).len() > 0, numeral(v, b, up)[0] != '+', !is_hex(numeral(v, b, up)) decreases v
    {
        let t = numeral(v, b, up);
        if v < b { assert(t =~= seq![dch(v, up)]); assert(cval(dch(v, up)) == v); assert(t.drop_last() =~= Seq::<char>::empty()); assert(sval(t.drop_last(), b) == 0); assert(0 * b == 0); }
        else {
            let (q, d) = (v / b, v % b);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v as int, b as int);
            assert(q < v) by (nonlinear_arith) requires v == b * q + d, b >= 2, d >= 0, v >= b;
            read_back(q, b, up);
            assert(t.drop_last() =~= numeral(q, b, up)); assert(cval(dch(d, up)) == d);
            assert(q * b == b * q) by (nonlinear_arith);
            assert(t[0] == numeral(q, b, up)[0]);
            if t.len() == 2 { assert(t[1] == dch(d, up)); } else { assert(t[1] == numeral(q, b, up)[1]); }
        }
    }
    pub proof fn round_trip(v: nat, up: bool) ensures is_num(numeral(v, 10, up)), num(numeral(v, 10, up)) == v, is_num("0x"@ + numeral(v, 16, up)), num("0x"@ + numeral(v, 16, up)) == v
    {
        read_back(v, 10, up); read_back(v, 16, up); prefix_0x("0x"@);
        let t = "0x"@ + numeral(v, 16, up);
        assert(t.skip(2) =~= numeral(v, 16, up)); assert(t[0] == "0x"@[0] && t[1] == "0x"@[1]);
    }
}

/// Stand-in for `std::fmt`: the options of a formatter, the layout `pad_integral` and `pad` write, and the numerals of
/// the machine integers, as the standard library documents them.  What a sink does with a text written to it is left
/// open (`wrote`).
pub mod fmt {
    use vstd::prelude::*;
    use crate::text::*;
    #[verifier::external_body]
    pub struct Formatter<'a> { p: core::marker::PhantomData<&'a ()> }
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    pub enum Alignment { Left, Right, Center }
    /// the options in force
    pub uninterp spec fn fwidth<'a>(f: Formatter<'a>) -> Option<usize>;
    pub uninterp spec fn fprec<'a>(f: Formatter<'a>) -> Option<usize>;
    pub uninterp spec fn ffill<'a>(f: Formatter<'a>) -> char;
    pub uninterp spec fn falign<'a>(f: Formatter<'a>) -> Option<Alignment>;
    pub uninterp spec fn fplus<'a>(f: Formatter<'a>) -> bool;
    pub uninterp spec fn fminus<'a>(f: Formatter<'a>) -> bool;
    pub uninterp spec fn falt<'a>(f: Formatter<'a>) -> bool;
    pub uninterp spec fn fzero<'a>(f: Formatter<'a>) -> bool;
    /// the formatter after a text is written to it, and whether that succeeded
    pub uninterp spec fn wrote<'a>(f: Formatter<'a>, t: Seq<char>) -> (Formatter<'a>, bool);
    pub open spec fn rep(c: char, n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| c) }
    /// `t` aligned in a field of `w` characters
    pub open spec fn aligned<'a>(f: Formatter<'a>, t: Seq<char>, w: int, dflt: Alignment) -> Seq<char> {
        let k = w - t.len();
        let pre = match (match falign(f) { Some(a) => a, None => dflt }) { Alignment::Left => 0, Alignment::Right => k, Alignment::Center => k / 2 };
        rep(ffill(f), pre) + t + rep(ffill(f), k - pre)
    }
    pub open spec fn sign<'a>(f: Formatter<'a>, nonneg: bool) -> Seq<char> { if !nonneg { seq!['-'] } else if fplus(f) { seq!['+'] } else { Seq::empty() } }
    /// sign and prefix
    pub open spec fn head<'a>(f: Formatter<'a>, nonneg: bool, prefix: Seq<char>) -> Seq<char> { if falt(f) { sign(f, nonneg) + prefix } else { sign(f, nonneg) } }
    pub open spec fn layout<'a>(f: Formatter<'a>, nonneg: bool, prefix: Seq<char>, digits: Seq<char>) -> Seq<char> {
        let h = head(f, nonneg, prefix);
        match fwidth(f) {
            None => h + digits,
            Some(w) => if h.len() + digits.len() >= w { h + digits }
                else if fzero(f) { h + rep('0', w - h.len() - digits.len()) + digits }
                else { aligned(f, h + digits, w as int, Alignment::Right) },
        }
    }
    pub open spec fn padded<'a>(f: Formatter<'a>, nonneg: bool, prefix: Seq<char>, digits: Seq<char>) -> (Formatter<'a>, bool) { wrote(f, layout(f, nonneg, prefix, digits)) }
    pub open spec fn cut<'a>(f: Formatter<'a>, t: Seq<char>) -> Seq<char> { match fprec(f) { Some(p) => if t.len() > p { t.take(p as int) } else { t }, None => t } }
    pub open spec fn pad_layout<'a>(f: Formatter<'a>, t: Seq<char>) -> Seq<char> {
        let t = cut(f, t);
        match fwidth(f) { Some(w) => if t.len() >= w { t } else { aligned(f, t, w as int, Alignment::Left) }, None => t }
    }
    pub trait Text { spec fn text(&self) -> Seq<char>; }
    impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
    impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
    impl<'a> Formatter<'a> {
        #[verifier::external_body]
        pub fn pad_integral<S: Text + ?Sized>(&mut self, nonneg: bool, prefix: &str, buf: &S) -> (r: Result)
            ensures (*final(self), r is Ok) == padded(*old(self), nonneg, prefix@, buf.text()) { unimplemented!() }
        #[verifier::external_body]
        pub fn pad<S: Text + ?Sized>(&mut self, buf: &S) -> (r: Result) ensures (*final(self), r is Ok) == wrote(*old(self), pad_layout(*old(self), buf.text())) { unimplemented!() }
        #[verifier::external_body]
        pub fn write_str<S: Text + ?Sized>(&mut self, buf: &S) -> (r: Result) ensures (*final(self), r is Ok) == wrote(*old(self), buf.text()) { unimplemented!() }
        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result) ensures (*final(self), r is Ok) == wrote(*old(self), seq![c]) { unimplemented!() }
        #[verifier::external_body]
        pub fn width(&self) -> (r: Option<usize>) ensures r == fwidth(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn precision(&self) -> (r: Option<usize>) ensures r == fprec(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn fill(&self) -> (r: char) ensures r == ffill(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn sign_plus(&self) -> (r: bool) ensures r == fplus(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn sign_minus(&self) -> (r: bool) ensures r == fminus(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn alternate(&self) -> (r: bool) ensures r == falt(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn sign_aware_zero_pad(&self) -> (r: bool) ensures r == fzero(*self) { unimplemented!() }
    }
    pub trait LowerHex {
        spec fn lhex_wf(&self) -> bool;
        spec fn lhex_val(&self) -> nat;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) requires self.lhex_wf() ensures (*final(f), r is Ok) == padded(*old(f), true, "0x"@, numeral(self.lhex_val(), 16, false));
    }
    pub trait UpperHex {
        spec fn uhex_wf(&self) -> bool;
        spec fn uhex_val(&self) -> nat;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) requires self.uhex_wf() ensures (*final(f), r is Ok) == padded(*old(f), true, "0x"@, numeral(self.uhex_val(), 16, true));
    }
    pub trait Display {
        spec fn disp_wf(&self) -> bool;
        spec fn disp_val(&self) -> nat;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) requires self.disp_wf() ensures (*final(f), r is Ok) == padded(*old(f), true, ""@, numeral(self.disp_val(), 10, false));
    }
    /// `write!(s, "{:0w$x}", x)` into a string
    #[verifier::external_body]
    pub fn put_lower_hex<T: LowerHex>(s: &mut String, x: &T, w: usize) -> (r: Result) requires x.lhex_wf() ensures r is Ok, final(s)@ == old(s)@ + pad0(numeral(x.lhex_val(), 16, false), w as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_upper_hex<T: UpperHex>(s: &mut String, x: &T, w: usize) -> (r: Result) requires x.uhex_wf() ensures r is Ok, final(s)@ == old(s)@ + pad0(numeral(x.uhex_val(), 16, true), w as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_decimal<T: Display>(s: &mut String, x: &T, w: usize) -> (r: Result) requires x.disp_wf() ensures r is Ok, final(s)@ == old(s)@ + pad0(numeral(x.disp_val(), 10, false), w as int) { unimplemented!() }
    impl LowerHex for u8 { open spec fn lhex_wf(&self) -> bool { true } open spec fn lhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl UpperHex for u8 { open spec fn uhex_wf(&self) -> bool { true } open spec fn uhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl Display for u8 { open spec fn disp_wf(&self) -> bool { true } open spec fn disp_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl LowerHex for u16 { open spec fn lhex_wf(&self) -> bool { true } open spec fn lhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl UpperHex for u16 { open spec fn uhex_wf(&self) -> bool { true } open spec fn uhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl Display for u16 { open spec fn disp_wf(&self) -> bool { true } open spec fn disp_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl LowerHex for u32 { open spec fn lhex_wf(&self) -> bool { true } open spec fn lhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl UpperHex for u32 { open spec fn uhex_wf(&self) -> bool { true } open spec fn uhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl Display for u32 { open spec fn disp_wf(&self) -> bool { true } open spec fn disp_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl LowerHex for u64 { open spec fn lhex_wf(&self) -> bool { true } open spec fn lhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl UpperHex for u64 { open spec fn uhex_wf(&self) -> bool { true } open spec fn uhex_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
    impl Display for u64 { open spec fn disp_wf(&self) -> bool { true } open spec fn disp_val(&self) -> nat { *self as nat } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
}
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

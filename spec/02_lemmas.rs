/// Facts about digit sequences and the numbers they stand for.
pub mod lem {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    use crate::spec::*;
    use crate::digit::Digit;

    /// a slice of digits fits in the address space (assumed)
    #[verifier::external_body]
    pub proof fn ax_mem<T: Digit>(s: &[T]) ensures s@.len() <= 0x80_0000_0000_0000 { }
    /// the same for a vector (assumed)
    #[verifier::external_body]
    pub proof fn ax_memv<T: Digit>(s: &Vec<T>) ensures s@.len() <= 0x80_0000_0000_0000 { }
    /// comparing digits is comparing their values
    pub proof fn ax_dcmp<T: Digit>() ensures T::obeys_eq_spec(), T::obeys_partial_cmp_spec(), T::obeys_cmp_spec(), T::dbase() >= 100, T::dbase() % 2 == 0,
        forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a.nv() == b.nv()), forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(cmpn(a.nv() as int, b.nv() as int)),
        forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == cmpn(a.nv() as int, b.nv() as int)
    { T::ax_digit(); }
    pub proof fn bp_unfold<T: Digit>(k: int) requires k >= 0
        ensures bp::<T>(0) == 1, bp::<T>(1) == T::dbase(), bp::<T>(k + 1) == T::dbase() * bp::<T>(k), bp::<T>(k) > 0, bp::<T>(k + 1) >= bp::<T>(k), T::dbase() >= 100
        decreases k
    {
        T::ax_digit();
        reveal_with_fuel(bp, 3);
        if k > 0 { bp_unfold::<T>(k - 1); }
        assert(bp::<T>(k) == (if k <= 0 { 1nat } else { T::dbase() * bp::<T>(k - 1) }));
        if k > 0 { assert(T::dbase() * bp::<T>(k - 1) > 0) by (nonlinear_arith) requires T::dbase() >= 100, bp::<T>(k - 1) > 0; }
        assert(T::dbase() * bp::<T>(k) >= bp::<T>(k)) by (nonlinear_arith) requires T::dbase() >= 100, bp::<T>(k) > 0;
    }
    pub proof fn bp_pos<T: Digit>(k: int) ensures bp::<T>(k) > 0 { reveal(bp); if k >= 0 { bp_unfold::<T>(k); } }
    pub proof fn bp_add<T: Digit>(a: int, b: int) requires a >= 0, b >= 0 ensures bp::<T>(a + b) == bp::<T>(a) * bp::<T>(b) decreases b
    {
        bp_unfold::<T>(0);
        if b > 0 {
            bp_add::<T>(a, b - 1);
            bp_unfold::<T>(b - 1);
            bp_unfold::<T>(a + b - 1);
            let (x, y, d) = (bp::<T>(a), bp::<T>(b - 1), T::dbase());
            assert(d * (x * y) == x * (d * y)) by (nonlinear_arith);
        } else { assert(bp::<T>(a) * 1 == bp::<T>(a)); }
    }
    pub proof fn bp_mono<T: Digit>(a: int, b: int) requires 0 <= a <= b ensures bp::<T>(a) <= bp::<T>(b), a < b ==> bp::<T>(a) * T::dbase() <= bp::<T>(b) decreases b - a
    {
        if a < b { bp_unfold::<T>(b - 1); if a < b - 1 { bp_mono::<T>(a, b - 1);  } assert(bp::<T>(a) * T::dbase() <= T::dbase() * bp::<T>(b - 1)) by (nonlinear_arith) requires bp::<T>(a) <= bp::<T>(b - 1); }
    }
    pub proof fn pv_init<T: Digit>() ensures bp::<T>(0) == 1, bp::<T>(1) == T::dbase(), forall|s: Seq<T>| #[trigger] pv(s, 0) == 0, T::dbase() >= 100
    { bp_unfold::<T>(0); reveal(pv); }
    pub proof fn pvn<T: Digit>(s: Seq<T>, j: int) requires 0 <= j < s.len() ensures pv(s, j + 1) == pv(s, j) + s[j].nv() * bp::<T>(j) { reveal(pv); }
    /// sequences that agree on [k, n) differ in value by what they differ below k
    pub proof fn pv_agree<T: Digit>(a: Seq<T>, b: Seq<T>, k: int, n: int)
        requires 0 <= k <= n, n <= a.len(), n <= b.len(), forall|i: int| k <= i < n ==> #[trigger] a[i].nv() == b[i].nv()
        ensures pv(a, n) + pv(b, k) == pv(b, n) + pv(a, k)
        decreases n - k
    { reveal(bp); reveal(pv); if n > k { pv_agree(a, b, k, n - 1); assert(a[n - 1].nv() == b[n - 1].nv()); } }
    pub proof fn pv_eq<T: Digit>(a: Seq<T>, b: Seq<T>, n: int)
        requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i].nv() == b[i].nv()
        ensures pv(a, n) == pv(b, n)
    { reveal(pv); if n >= 0 { pv_agree(a, b, 0, n); } }
    pub proof fn pv_bound<T: Digit>(s: Seq<T>, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).nwf()
        ensures 0 <= pv(s, n) < bp::<T>(n) decreases n
    { reveal(bp); reveal(pv);
        bp_unfold::<T>(n);
        if n > 0 {
            pv_bound(s, n - 1);
            bp_unfold::<T>(n - 1);
            T::ax_nv(s[n - 1]);
            let (d, b, p, v) = (s[n - 1].nv(), T::dbase(), bp::<T>(n - 1), pv(s, n - 1));
            assert(v + d * p < b * p) by (nonlinear_arith) requires v < p, d + 1 <= b;
        }
    }
    pub proof fn vl_bound<T: Digit>(s: Seq<T>) requires dok(s) ensures 0 <= vl(s) < bp::<T>(s.len() as int) { pv_bound(s, s.len() as int); }
    pub proof fn pv1<T: Digit>(s: Seq<T>) requires s.len() > 0 ensures pv(s, 0) == 0, pv(s, 1) == s[0].nv(), bp::<T>(0) == 1, bp::<T>(1) == T::dbase()
    { bp_unfold::<T>(0); reveal_with_fuel(pv, 3); reveal_with_fuel(bp, 2); assert(s[0].nv() * 1 == s[0].nv()); assert(s[0].nv() * bp::<T>(0) == s[0].nv() * 1); }
    /// splitting at k
    pub proof fn pv_split<T: Digit>(s: Seq<T>, k: int, n: int) requires 0 <= k <= n <= s.len()
        ensures pv(s, n) == pv(s, k) + bp::<T>(k) * vl(s.subrange(k, n)), pv(s, k) == vl(s.subrange(0, k)), dok(s) ==> dok(s.subrange(k, n)) && dok(s.subrange(0, k))
        decreases n
    { reveal(bp); reveal(pv);
        pv_eq(s, s.subrange(0, k), k);
        let t = s.subrange(k, n);
        if n > k {
            pv_split(s, k, n - 1);
            let u = s.subrange(k, n - 1);
            pv_eq(t, u, n - 1 - k);
            bp_add::<T>(k, n - 1 - k);
            let (p, q, d, v) = (bp::<T>(k), bp::<T>(n - 1 - k), s[n - 1].nv(), vl(u));
            assert(t[n - 1 - k] == s[n - 1]);
            assert(p * (v + d * q) == p * v + d * (p * q)) by (nonlinear_arith);
        } else { assert(bp::<T>(k) * 0 == 0); }
        if dok(s) {
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).nwf() by { assert(t[i] == s[k + i]); }
            assert forall|i: int| 0 <= i < k implies (#[trigger] s.subrange(0, k)[i]).nwf() by { assert(s.subrange(0, k)[i] == s[i]); }
        }
    }
    pub proof fn vl_split<T: Digit>(s: Seq<T>, k: int) requires 0 <= k <= s.len()
        ensures vl(s) == vl(s.subrange(0, k)) + bp::<T>(k) * vl(s.subrange(k, s.len() as int)), dok(s) ==> dok(s.subrange(k, s.len() as int)) && dok(s.subrange(0, k))
    { pv_split(s, k, s.len() as int); }
    pub proof fn vl_concat<T: Digit>(a: Seq<T>, b: Seq<T>)
        ensures vl(a + b) == vl(a) + bp::<T>(a.len() as int) * vl(b), dok(a) && dok(b) ==> dok(a + b)
    {
        let s = a + b; vl_split(s, a.len() as int);
        assert(s.subrange(0, a.len() as int) =~= a); assert(s.subrange(a.len() as int, s.len() as int) =~= b);
    }
    /// digits in [k, n) are zero
    pub proof fn pv_zeros<T: Digit>(s: Seq<T>, k: int, n: int) requires 0 <= k <= n <= s.len(), forall|i: int| k <= i < n ==> (#[trigger] s[i]).nv() == 0
        ensures pv(s, n) == pv(s, k) decreases n - k
    { reveal(bp); reveal(pv); if n > k { pv_zeros(s, k, n - 1); assert(s[n - 1].nv() == 0); assert(0 * bp::<T>(n - 1) == 0); } }
    /// a non-zero digit bounds the value from below
    pub proof fn pv_low<T: Digit>(s: Seq<T>, n: int) requires 0 < n <= s.len(), s[n - 1].nv() != 0 ensures pv(s, n) >= bp::<T>(n - 1)
    { reveal(bp); reveal(pv); let (d, p) = (s[n - 1].nv(), bp::<T>(n - 1)); assert(d * p >= p) by (nonlinear_arith) requires d >= 1; }
    /// value zero means all digits zero
    pub proof fn pv_zero_digits<T: Digit>(s: Seq<T>, n: int) requires 0 <= n <= s.len(), pv(s, n) == 0 ensures forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).nv() == 0 decreases n
    { reveal(bp); reveal(pv);
        if n > 0 {
            bp_pos::<T>(n - 1);
            let (d, p) = (s[n - 1].nv(), bp::<T>(n - 1));
            if d > 0 { assert(d * p > 0) by (nonlinear_arith) requires d > 0, p > 0; }
            pv_zero_digits(s, n - 1);
        }
    }
    pub proof fn pv_mono<T: Digit>(s: Seq<T>, k: int, n: int) requires 0 <= k <= n <= s.len() ensures pv(s, k) <= pv(s, n) decreases n - k
    { reveal(bp); reveal(pv); if n > k { pv_mono(s, k, n - 1); } }

    pub proof fn push_val<T: Digit>(s: Seq<T>, x: T) ensures vl(s.push(x)) == vl(s) + x.nv() * bp::<T>(s.len() as int)
    { let t = s.push(x); pvn(t, s.len() as int); pv_eq(t, s, s.len() as int); }
    /// a value of at least base^(n-1) in n digits has a non-zero top digit
    pub proof fn top_nz<T: Digit>(s: Seq<T>) requires dok(s), s.len() > 0, vl(s) >= bp::<T>(s.len() - 1) ensures s[s.len() - 1].nv() != 0
    { pvn(s, s.len() - 1); pv_bound(s, s.len() - 1); assert(0 * bp::<T>(s.len() - 1) == 0); }
    pub proof fn norm_low<T: Digit>(s: Seq<T>) requires dnorm(s), s.len() > 0 ensures vl(s) >= bp::<T>(s.len() - 1) { pv_low(s, s.len() as int); }
    /// zero digits only
    pub proof fn vl_zero<T: Digit>(s: Seq<T>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nv() == 0 ensures vl(s) == 0 { pv_zeros(s, 0, s.len() as int); pv_init::<T>(); }
    /// dropping leading zeros
    pub proof fn vl_drop<T: Digit>(s: Seq<T>, k: int) requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).nv() == 0 ensures vl(s.subrange(0, k)) == vl(s)
    { pv_zeros(s, k, s.len() as int); pv_split(s, k, k); }
    /// one step of a carry chain: d' + c' * base == x + c
    pub proof fn step_up(v: int, vn: int, p: int, base: int, d: int, cn: int, x: int, c: int)
        requires d + cn * base == x + c, v + c * p == vn
        ensures v + d * p + cn * (base * p) == vn + x * p
    { assert(v + d * p + cn * (base * p) == vn + x * p) by (nonlinear_arith) requires d + cn * base == x + c, v + c * p == vn; }
    /// one step of a carry (or, with negative carries, borrow) chain at digit j
    pub proof fn upd<T: Digit>(now: Seq<T>, prev: Seq<T>, j: int, cn: int, x: int, c: int, vn: int)
        requires 0 <= j < now.len(), now.len() == prev.len(), forall|k: int| 0 <= k < j ==> #[trigger] now[k] == prev[k],
            now[j].nv() + cn * T::dbase() == x + c, pv(prev, j) + c * bp::<T>(j) == vn
        ensures pv(now, j + 1) + cn * bp::<T>(j + 1) == vn + x * bp::<T>(j)
    { reveal(bp); reveal(pv); pv_eq(now, prev, j); bp_unfold::<T>(j); step_up(pv(prev, j) as int, vn, bp::<T>(j) as int, T::dbase() as int, now[j].nv() as int, cn, x, c); }
    /// carry chain with boolean carries: cn out, c in
    pub proof fn updb<T: Digit>(now: Seq<T>, prev: Seq<T>, j: int, cn: bool, x: int, c: bool, vn: int)
        requires 0 <= j < now.len(), now.len() == prev.len(), forall|k: int| 0 <= k < j ==> #[trigger] now[k] == prev[k],
            now[j].nv() + (if cn { T::dbase() } else { 0 }) == x + b2n(c), pv(prev, j) + cb::<T>(c, j) == vn
        ensures pv(now, j + 1) + cb::<T>(cn, j + 1) == vn + x * bp::<T>(j)
    { upd(now, prev, j, b2n(cn) as int, x, b2n(c) as int, vn); }
    /// borrow chain with boolean borrows: cn out, c in
    pub proof fn updbs<T: Digit>(now: Seq<T>, prev: Seq<T>, j: int, cn: bool, x: int, c: bool, vn: int)
        requires 0 <= j < now.len(), now.len() == prev.len(), forall|k: int| 0 <= k < j ==> #[trigger] now[k] == prev[k],
            now[j].nv() + b2n(c) == x + (if cn { T::dbase() } else { 0 }), pv(prev, j) - cb::<T>(c, j) == vn
        ensures pv(now, j + 1) - cb::<T>(cn, j + 1) == vn + x * bp::<T>(j)
    { upd(now, prev, j, -(b2n(cn) as int), x, -(b2n(c) as int), vn); }
    /// changing only the digits from k on
    pub proof fn seg<T: Digit>(fin: Seq<T>, mid: Seq<T>, k: int, c: int, e: int)
        requires fin.len() == mid.len(), 0 <= k <= fin.len(), forall|i: int| 0 <= i < k ==> #[trigger] fin[i] == mid[i],
            vl(fin.subrange(k, fin.len() as int)) + c * bp::<T>(fin.len() - k) == vl(mid.subrange(k, fin.len() as int)) + e
        ensures vl(fin) + c * bp::<T>(fin.len() as int) == vl(mid) + e * bp::<T>(k)
    {
        vl_split(fin, k); vl_split(mid, k); assert(fin.subrange(0, k) =~= mid.subrange(0, k));
        bp_add::<T>(k, fin.len() - k);
        let (h, l, p, q) = (vl(fin.subrange(k, fin.len() as int)) as int, vl(mid.subrange(k, fin.len() as int)) as int, bp::<T>(k) as int, bp::<T>(fin.len() - k) as int);
        assert(p * h + c * (p * q) == p * l + e * p) by (nonlinear_arith) requires h + c * q == l + e;
    }
    /// changing only the digits in [lo, hi)
    pub proof fn seg2<T: Digit>(fin: Seq<T>, mid: Seq<T>, lo: int, hi: int, c: int, e: int)
        requires fin.len() == mid.len(), 0 <= lo <= hi <= fin.len(), forall|i: int| 0 <= i < lo ==> #[trigger] fin[i] == mid[i],
            vl(fin.subrange(lo, hi)) + c * bp::<T>(hi - lo) == vl(mid.subrange(lo, hi)) + e
        ensures pv(fin, hi) + c * bp::<T>(hi) == pv(mid, hi) + e * bp::<T>(lo)
    {
        pv_split(fin, lo, hi); pv_split(mid, lo, hi); assert(fin.subrange(0, lo) =~= mid.subrange(0, lo));
        bp_add::<T>(lo, hi - lo);
        let (h, l, p, q) = (vl(fin.subrange(lo, hi)) as int, vl(mid.subrange(lo, hi)) as int, bp::<T>(lo) as int, bp::<T>(hi - lo) as int);
        assert(p * h + c * (p * q) == p * l + e * p) by (nonlinear_arith) requires h + c * q == l + e;
    }
    /// adding one at digit lo, with carry c out of the digits up to hi
    pub proof fn inc_at<T: Digit>(fin: Seq<T>, mid: Seq<T>, lo: int, hi: int, c: bool)
        requires fin.len() == mid.len(), 0 <= lo <= hi <= fin.len(), forall|i: int| 0 <= i < lo ==> #[trigger] fin[i] == mid[i],
            vl(fin.subrange(lo, hi)) + cb::<T>(c, hi - lo) == vl(mid.subrange(lo, hi)) + 1
        ensures pv(fin, hi) + cb::<T>(c, hi) == pv(mid, hi) + bp::<T>(lo)
    { seg2(fin, mid, lo, hi, b2n(c) as int, 1); }
    /// subtracting one at digit lo, with borrow c out of the digits up to hi
    pub proof fn dec_at<T: Digit>(fin: Seq<T>, mid: Seq<T>, lo: int, hi: int, c: bool)
        requires fin.len() == mid.len(), 0 <= lo <= hi <= fin.len(), forall|i: int| 0 <= i < lo ==> #[trigger] fin[i] == mid[i],
            vl(fin.subrange(lo, hi)) + 1 == vl(mid.subrange(lo, hi)) + cb::<T>(c, hi - lo)
        ensures pv(fin, hi) + bp::<T>(lo) == pv(mid, hi) + cb::<T>(c, hi)
    { seg2(fin, mid, lo, hi, -(b2n(c) as int), -1); }
    pub proof fn dist(a: int, b: int, p: int) ensures (a + b) * p == a * p + b * p, p * (a + b) == p * a + p * b, (a - b) * p == a * p - b * p, p * (a - b) == p * a - p * b
    { assert((a + b) * p == a * p + b * p && p * (a + b) == p * a + p * b && (a - b) * p == a * p - b * p && p * (a - b) == p * a - p * b) by (nonlinear_arith); }
    pub proof fn assoc(a: int, b: int, c: int) ensures (a * b) * c == a * (b * c), a * b == b * a, b * c == c * b, a * c == c * a, a * (b * c) == b * (a * c)
    { assert((a * b) * c == a * (b * c) && a * (b * c) == b * (a * c)) by (nonlinear_arith); }
    /// the digits from k on were increased by e, with a carry out: append it
    pub proof fn push_one<T: Digit>(fin: Seq<T>, mid: Seq<T>, k: int, e: int)
        requires fin.len() == mid.len(), 0 <= k <= fin.len(), forall|i: int| 0 <= i < k ==> #[trigger] fin[i] == mid[i],
            vl(fin.subrange(k, fin.len() as int)) + bp::<T>(fin.len() - k) == vl(mid.subrange(k, fin.len() as int)) + e,
            dok(mid), dok(fin.subrange(k, fin.len() as int))
        ensures forall|x: T| x.nv() == 1 ==> vl(#[trigger] fin.push(x)) == vl(mid) + e * bp::<T>(k), dok(fin)
    {
        dok_at(fin, mid, k);
        seg(fin, mid, k, 1, e);
        assert forall|x: T| x.nv() == 1 implies vl(#[trigger] fin.push(x)) == vl(mid) + e * bp::<T>(k) by { push_val(fin, x); }
    }
    /// the digits from k on were increased by e, without a carry
    pub proof fn add_at<T: Digit>(fin: Seq<T>, mid: Seq<T>, k: int, e: int)
        requires fin.len() == mid.len(), 0 <= k <= fin.len(), forall|i: int| 0 <= i < k ==> #[trigger] fin[i] == mid[i], e >= 0, dok(mid), dok(fin.subrange(k, fin.len() as int)),
            vl(fin.subrange(k, fin.len() as int)) == vl(mid.subrange(k, fin.len() as int)) + e
        ensures vl(fin) == vl(mid) + e * bp::<T>(k), dnorm(mid) ==> dnorm(fin), dok(fin)
    {
        dok_at(fin, mid, k);
        seg(fin, mid, k, 0, e);
        assert(e * bp::<T>(k) >= 0) by (nonlinear_arith) requires e >= 0;
        if dnorm(mid) && mid.len() > 0 { norm_low(mid); top_nz(fin); }
    }
    /// digits below k unchanged and those from k on valid
    pub proof fn dok_at<T: Digit>(fin: Seq<T>, mid: Seq<T>, k: int)
        requires 0 <= k <= fin.len(), k <= mid.len(), dok(mid), forall|i: int| 0 <= i < k ==> #[trigger] fin[i] == mid[i], dok(fin.subrange(k, fin.len() as int))
        ensures dok(fin)
    {
        assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).nwf() by {
            if i < k { assert(fin[i] == mid[i]); } else { assert(fin.subrange(k, fin.len() as int)[i - k] == fin[i]); }
        }
    }
    /// a part of valid digits
    pub broadcast proof fn dok_sub<T: Digit>(s: Seq<T>, a: int, b: int) requires 0 <= a <= b <= s.len(), dok(s) ensures #[trigger] dok(s.subrange(a, b)) { }
    pub proof fn dok_fill<T: Digit>(s: Seq<T>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nv() == 0 && s[i].nwf() ensures dok(s) { }
    /// the first m digits carry the whole value, and are a normal form
    pub proof fn nlen_vl<T: Digit>(s: Seq<T>, m: int) requires nlen(s, m), dok(s)
        ensures vl(s.subrange(0, m)) == vl(s), pv(s, m) == vl(s), dok(s.subrange(0, m)), dnorm(s.subrange(0, m)), m > 0 ==> vl(s) >= bp::<T>(m - 1), vl(s) < bp::<T>(m), m == 0 <==> vl(s) == 0
    {
        vl_drop(s, m); vl_split(s, m); pv_split(s, m, m); pv_bound(s, m); bp_unfold::<T>(0);
        if m > 0 { pv_low(s, m); bp_pos::<T>(m - 1); }
    }
    pub proof fn sv_step<T: Digit>(s: Seq<T>, k: int, n: int) requires 0 <= k < n <= s.len()
        ensures sv(s, k, n) == s[k].nv() + T::dbase() * sv(s, k + 1, n)
    {
        let t = s.subrange(k, n);
        vl_split(t, 1); pv1(t); pv_split(t, 1, 1);
        assert(t.subrange(1, t.len() as int) =~= s.subrange(k + 1, n));
    }
    pub proof fn sv_eq<T: Digit>(a: Seq<T>, b: Seq<T>, k: int, n: int)
        requires 0 <= k <= n, n <= a.len(), n <= b.len(), forall|i: int| k <= i < n ==> #[trigger] a[i].nv() == b[i].nv()
        ensures sv(a, k, n) == sv(b, k, n)
    {
        assert forall|i: int| 0 <= i < n - k implies #[trigger] a.subrange(k, n)[i].nv() == b.subrange(k, n)[i].nv() by { assert(a[k + i].nv() == b[k + i].nv()); }
        pv_eq(a.subrange(k, n), b.subrange(k, n), n - k);
    }
    pub proof fn sv_full<T: Digit>(s: Seq<T>) ensures sv(s, 0, s.len() as int) == vl(s), sv(s, s.len() as int, s.len() as int) == 0
    { assert(s.subrange(0, s.len() as int) =~= s); pv_init::<T>(); }
    /// comparing digit by digit is comparing the numbers
    pub proof fn rlex_val<T: Digit>(a: Seq<T>, b: Seq<T>, n: int) requires 0 <= n <= a.len(), n <= b.len(), dok(a), dok(b)
        ensures rlex(a, b, n) == cmpn(pv(a, n) as int, pv(b, n) as int) decreases n
    {
        T::ax_digit(); pv_init::<T>();
        if n > 0 {
            rlex_val(a, b, n - 1); pvn(a, n - 1); pvn(b, n - 1); pv_bound(a, n - 1); pv_bound(b, n - 1);
            let (x, y, p) = (a[n - 1].nv() as int, b[n - 1].nv() as int, bp::<T>(n - 1) as int);
            if x < y { assert(x * p + p <= y * p) by (nonlinear_arith) requires x + 1 <= y, p > 0; }
            if x > y { assert(y * p + p <= x * p) by (nonlinear_arith) requires y + 1 <= x, p > 0; }
        }
    }
    /// a longer normal form is a larger number
    pub proof fn len_lt<T: Digit>(a: Seq<T>, b: Seq<T>) requires dok(a), dok(b), dnorm(b), a.len() < b.len() ensures vl(a) < vl(b)
    { vl_bound(a); norm_low(b); bp_mono::<T>(a.len() as int, b.len() - 1); }
    /// subtracting one from the digits from lo on, with borrow c
    pub proof fn dec_from<T: Digit>(fin: Seq<T>, mid: Seq<T>, lo: int, c: bool)
        requires fin.len() == mid.len(), 0 <= lo <= fin.len(), forall|i: int| 0 <= i < lo ==> #[trigger] fin[i] == mid[i],
            vl(fin.subrange(lo, fin.len() as int)) + 1 == vl(mid.subrange(lo, fin.len() as int)) + cb::<T>(c, fin.len() - lo),
            dok(mid), dok(fin.subrange(lo, fin.len() as int))
        ensures vl(fin) + bp::<T>(lo) == vl(mid) + cb::<T>(c, fin.len() as int), dok(fin)
    { dec_at(fin, mid, lo, fin.len() as int, c); dok_at(fin, mid, lo); }
    /// only the digits in [lo, hi) changed, and they are valid
    pub proof fn dok_seg<T: Digit>(fin: Seq<T>, mid: Seq<T>, lo: int, hi: int)
        requires 0 <= lo <= hi <= fin.len(), fin.len() == mid.len(), dok(mid), dok(fin.subrange(lo, hi)), forall|i: int| 0 <= i < lo || hi <= i < fin.len() ==> #[trigger] fin[i] == mid[i]
        ensures dok(fin)
    {
        assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).nwf() by {
            if lo <= i < hi { assert(fin.subrange(lo, hi)[i - lo] == fin[i]); } else { assert(fin[i] == mid[i]); }
        }
    }
    /// the first n digits were replaced; m of them are left
    pub proof fn head<T: Digit>(fin: Seq<T>, mid: Seq<T>, n: int, m: int)
        requires 0 <= n <= fin.len(), fin.len() == mid.len(), nlen(fin.subrange(0, n), m), dok(fin.subrange(0, n)), dok(mid), forall|i: int| n <= i < fin.len() ==> #[trigger] fin[i] == mid[i]
        ensures dok(fin), m <= n, pv(fin, m) == vl(fin.subrange(0, n)), pv(fin, n) == pv(fin, m), m > 0 ==> fin[m - 1].nv() != 0, forall|i: int| m <= i < n ==> (#[trigger] fin[i]).nv() == 0
    {
        dok_seg(fin, mid, 0, n);
        let t = fin.subrange(0, n);
        assert forall|i: int| m <= i < n implies (#[trigger] fin[i]).nv() == 0 by { assert(t[i] == fin[i]); }
        pv_zeros(fin, m, n); pv_split(fin, n, n); if m > 0 { assert(t[m - 1] == fin[m - 1]); }
    }
    /// powers of a binary base are powers of two
    pub proof fn bp_pow2<T: Digit>(w: nat, k: int) requires k >= 0, T::dbase() == vstd::arithmetic::power2::pow2(w) ensures bp::<T>(k) == vstd::arithmetic::power2::pow2((w * k) as nat), w * k >= 0 decreases k
    {
        bp_unfold::<T>(0); vstd::arithmetic::power2::lemma2_to64();
        if k > 0 {
            bp_pow2::<T>(w, k - 1); bp_unfold::<T>(k - 1);
            assert(w * k == w + w * (k - 1)) by (nonlinear_arith);
            vstd::arithmetic::power2::lemma_pow2_adds(w, (w * (k - 1)) as nat);
        } else { assert(w * 0 == 0); }
    }
    /// a number moved up by k digits
    pub proof fn vl_shift<T: Digit>(d: Seq<T>, fin: Seq<T>, k: int)
        requires k >= 0, fin.len() == d.len() + k, forall|i: int| 0 <= i < k ==> (#[trigger] fin[i]).nv() == 0 && fin[i].nwf(), forall|i: int| k <= i < fin.len() ==> #[trigger] fin[i] == d[i - k], dok(d)
        ensures vl(fin) == vl(d) * bp::<T>(k), dok(fin), d.len() > 0 && dnorm(d) ==> dnorm(fin)
    {
        vl_split(fin, k); vl_zero(fin.subrange(0, k)); assert(fin.subrange(k, fin.len() as int) =~= d);
        assert(bp::<T>(k) * vl(d) == vl(d) * bp::<T>(k)) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).nwf() by { if i >= k { assert(fin[i] == d[i - k]); } }
    }
    pub proof fn div_floor(v: int, q: int, m: int, r: int) requires v == q * m + r, 0 <= r < m ensures v / m == q, v % m == r
    { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, m, q, r); }
    /// dropping the k lowest digits divides; so does dropping all of them, when there are fewer
    pub proof fn drop_div<T: Digit>(s: Seq<T>, k: int, h: int) requires dok(s), 0 <= k <= s.len(), k == h || k == s.len() && k < h
        ensures vl(s.subrange(k, s.len() as int)) == vl(s) / bp::<T>(h), dok(s.subrange(k, s.len() as int)), dnorm(s) ==> dnorm(s.subrange(k, s.len() as int))
    {
        vl_split(s, k); vl_bound(s.subrange(0, k)); pv_init::<T>();
        let (a, b, m) = (vl(s.subrange(k, s.len() as int)) as int, vl(s.subrange(0, k)) as int, bp::<T>(h) as int);
        bp_pos::<T>(h);
        if k == h { assert(m * a == a * m) by (nonlinear_arith); div_floor(vl(s) as int, a, m, b); }
        else { bp_mono::<T>(k, h); vl_bound(s); assert(0 * m == 0); div_floor(vl(s) as int, 0, m, vl(s) as int); }
    }
}

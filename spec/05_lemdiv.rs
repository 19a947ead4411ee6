/// Facts for division.
pub mod lemdiv {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::lemmul::*;
    use crate::lemkara::*;
    use crate::digit::Digit;

    /// one step of a division, most significant digit first: quotient digit q in front of qq
    pub proof fn qstep(q: int, b: int, qq: int, d: int, r2: int, s: int, r1: int, t: int, x: int)
        requires q * d + r2 == s + b * r1, qq * d + r1 == t + x
        ensures (q + b * qq) * d + r2 == (s + b * t) + b * x
    {
        assert((q + b * qq) * d == q * d + b * (qq * d)) by (nonlinear_arith);
        assert(b * (qq * d + r1) == b * (qq * d) + b * r1) by (nonlinear_arith);
        assert(b * (t + x) == b * t + b * x) by (nonlinear_arith);
    }
    /// digit k of a division by f of the digits [k, n) with carry c0 in
    pub proof fn divstep<T: Digit>(now: Seq<T>, prev: Seq<T>, old: Seq<T>, k: int, n: int, f: int, cn: int, c: int, c0: int)
        requires 0 <= k < n <= now.len(), now.len() == prev.len() == old.len(), forall|i: int| k < i < n ==> #[trigger] now[i] == prev[i],
            now[k].nv() * f + cn == old[k].nv() + T::dbase() * c, sv(prev, k + 1, n) * f + c == sv(old, k + 1, n) + c0 * bp::<T>(n - k - 1)
        ensures sv(now, k, n) * f + cn == sv(old, k, n) + c0 * bp::<T>(n - k)
    {
        sv_step(now, k, n); sv_step(old, k, n); bp_unfold::<T>(n - k - 1);
        assert forall|i: int| k + 1 <= i < n implies #[trigger] now[i].nv() == prev[i].nv() by { assert(now[i] == prev[i]); }
        sv_eq(now, prev, k + 1, n);
        qstep(now[k].nv() as int, T::dbase() as int, sv(prev, k + 1, n) as int, f, cn, old[k].nv() as int, c, sv(old, k + 1, n) as int, c0 * bp::<T>(n - k - 1));
        assoc(T::dbase() as int, c0, bp::<T>(n - k - 1) as int);
    }
    /// the same when only the remainder is kept
    pub proof fn remstep<T: Digit>(old: Seq<T>, k: int, n: int, f: int, q: int, cn: int, c: int, qq: int)
        requires 0 <= k < n <= old.len(), q * f + cn == old[k].nv() + T::dbase() * c, qq * f + c == sv(old, k + 1, n)
        ensures (q + T::dbase() * qq) * f + cn == sv(old, k, n)
    { sv_step(old, k, n); qstep(q, T::dbase() as int, qq, f, cn, old[k].nv() as int, c, sv(old, k + 1, n) as int, 0); assert(T::dbase() * 0 == 0); }
    pub proof fn divmod(x: int, d: int, q: int, r: int) requires d > 0, x == q * d + r, 0 <= r < d ensures q == x / d, r == x % d
    { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, d, q, r); }

    /// the estimate of a quotient digit from the leading digits is at most two too high
    pub proof fn knuth(x: int, d: int, qh: int, r: int, xt: int, xh: int, msd: int, dl: int, xl: int, p: int, b: int)
        requires d == msd * p + dl, 0 <= dl < p, x == xt * p + xl, 0 <= xl < p, xh * b <= xt < xh * b + b, b <= 2 * msd, x < d * b, 0 <= qh < b, xt >= 0, b > 0,
            xh < msd ==> qh * msd + r == xt && 0 <= r < msd, xh >= msd ==> qh == b - 1
        ensures x < (qh + 1) * d, qh * d <= x + 2 * d, d > 0
    {
        assert(d > 0) by (nonlinear_arith) requires d == msd * p + dl, dl >= 0, p > 0, msd > 0;
        if xh < msd {
            assert(x < (qh + 1) * d) by (nonlinear_arith) requires x == xt * p + xl, xl < p, p > 0, qh * msd + r == xt, r < msd, d == msd * p + dl, dl >= 0, qh >= 0;
        } else {
            assert((qh + 1) * d == d * b) by (nonlinear_arith) requires qh == b - 1;
            assert(qh * msd <= xt) by (nonlinear_arith) requires qh == b - 1, xh * b <= xt, xh >= msd, b > 0, msd > 0;
        }
        // (qh - 2) * d <= x
        if qh >= 2 {
            assert(qh * msd <= xt);
            assert((qh - 2) * d <= (qh - 2) * (msd * p + p)) by (nonlinear_arith) requires d <= msd * p + p, qh >= 2;
            assert((qh - 2) * (msd * p + p) == (qh * msd + qh - 2 * msd - 2) * p) by (nonlinear_arith);
            assert((qh * msd + qh - 2 * msd - 2) * p <= xt * p) by (nonlinear_arith) requires qh * msd <= xt, qh - 2 * msd - 2 <= 0, p > 0;
            assert((qh - 2) * d == qh * d - 2 * d) by (nonlinear_arith);
        } else {
            assert(qh * d <= 2 * d) by (nonlinear_arith) requires qh <= 2, d > 0;
            assert(x >= 0) by (nonlinear_arith) requires x == xt * p + xl, xt >= 0, p > 0, xl >= 0;
        }
    }
    /// the leading digit t decides that v, shifted, is at least half of the range
    pub proof fn msnorm(t: int, v: int, m: int, b: int, p: int) requires b <= 2 * (t * m), t * p <= v, p > 0, m > 0 ensures b * p <= 2 * (v * m)
    {
        assert(b * p <= 2 * (t * m) * p) by (nonlinear_arith) requires b <= 2 * (t * m), p > 0;
        assert(2 * (t * m) * p == 2 * (t * p) * m) by (nonlinear_arith);
        assert((t * p) * m <= v * m) by (nonlinear_arith) requires t * p <= v, m > 0;
        assert(2 * (t * p) * m == 2 * ((t * p) * m)) by (nonlinear_arith);
    }
    /// a number of at least half the range has a leading digit of at least half the base
    pub proof fn half_top<T: Digit>(s: Seq<T>) requires s.len() > 0, dok(s), bp::<T>(s.len() as int) <= 2 * vl(s) ensures T::dbase() <= 2 * s[s.len() - 1].nv()
    {
        let n = s.len() as int;
        T::ax_digit(); pvn(s, n - 1); pv_bound(s, n - 1); bp_unfold::<T>(n - 1);
        let (b, p, t, w) = (T::dbase() as int, bp::<T>(n - 1) as int, s[n - 1].nv() as int, pv(s, n - 1) as int);
        assert(b < 2 * t + 2) by (nonlinear_arith) requires b * p <= 2 * (w + t * p), w < p, p > 0;
    }
    /// the same from the other side
    pub proof fn top_half<T: Digit>(s: Seq<T>) requires s.len() > 0, dok(s), T::dbase() <= 2 * s[s.len() - 1].nv() ensures bp::<T>(s.len() as int) <= 2 * vl(s)
    {
        let n = s.len() as int;
        pvn(s, n - 1); bp_unfold::<T>(n - 1);
        let (b, p, t, w) = (T::dbase() as int, bp::<T>(n - 1) as int, s[n - 1].nv() as int, pv(s, n - 1) as int);
        assert(b * p <= 2 * (w + t * p)) by (nonlinear_arith) requires b <= 2 * t, w >= 0, p > 0;
    }
    /// comparing three digits, most significant first
    pub proof fn gt3(a3: int, a2: int, a1: int, c3: int, c2: int, c1: int, b: int)
        requires 0 <= a1 < b, 0 <= a2 < b, 0 <= c1 < b, 0 <= c2 < b, 0 <= a3, 0 <= c3
        ensures (a3 > c3 || (a3 == c3 && (a2 > c2 || (a2 == c2 && a1 > c1)))) <==> n3(a1, a2, a3, b) > n3(c1, c2, c3, b)
    {
        reveal(n3);
        let (u, v) = (a2 + b * a3, c2 + b * c3);
        gt2(a3, a2, c3, c2, b); gt2(u, a1, v, c1, b);
    }
    pub proof fn gt2(a2: int, a1: int, c2: int, c1: int, b: int) requires 0 <= a1 < b, 0 <= c1 < b
        ensures (a2 > c2 || (a2 == c2 && a1 > c1)) <==> a1 + b * a2 > c1 + b * c2, (a1 == c1 && a2 == c2) <==> a1 + b * a2 == c1 + b * c2
    {
        if a2 > c2 { assert(b * a2 >= b * c2 + b) by (nonlinear_arith) requires a2 >= c2 + 1, b > 0; }
        if a2 < c2 { assert(b * c2 >= b * a2 + b) by (nonlinear_arith) requires c2 >= a2 + 1, b > 0; }
    }
    /// three digits, read as a number
    #[verifier::opaque]
    pub open spec fn n3(a1: int, a2: int, a3: int, b: int) -> int { a1 + b * (a2 + b * a3) }
    pub proof fn mul3(d1: int, c1: int, d2: int, d3: int, lo: int, hi: int, q: int, b: int) requires d1 + c1 * b == lo * q, d2 + d3 * b == hi * q + c1 ensures n3(d1, d2, d3, b) == q * (lo + b * hi)
    {
        reveal(n3);
        assert(q * (lo + b * hi) == lo * q + b * (hi * q)) by (nonlinear_arith);
        assert(b * (d2 + b * d3) == b * (hi * q) + c1 * b) by (nonlinear_arith) requires d2 + d3 * b == hi * q + c1;
    }
    /// one correction: subtracting the two digits of the divisor
    pub proof fn sub3(d1: int, d2: int, d3: int, e1: int, e2: int, lo: int, hi: int, c: int, c2: int, b: int)
        requires e1 + lo == d1 + b * c, e2 + hi + c == d2 + b * c2, n3(d1, d2, d3, b) >= lo + b * hi, 0 <= e1 < b, 0 <= e2 < b, 0 <= c2 <= 1, d3 >= 0
        ensures n3(e1, e2, d3 - c2, b) == n3(d1, d2, d3, b) - (lo + b * hi), d3 - c2 >= 0
    {
        reveal(n3);
        assert(b * (e2 + b * (d3 - c2)) == b * (d2 + b * d3) - b * hi - b * c) by (nonlinear_arith) requires e2 + hi + c == d2 + b * c2;
        if d3 - c2 < 0 {
            assert(b * (e2 + b * (d3 - c2)) <= -b) by (nonlinear_arith) requires e2 <= b - 1, d3 - c2 <= -1, b > 0;
        }
    }
    /// the difference, of which the third digit is known to be zero
    pub proof fn dif3(x1: int, x2: int, x3: int, d1: int, d2: int, d3: int, y1: int, y2: int, c: int, c2: int, b: int, d: int)
        requires y1 + d1 == x1 + b * c, y2 + d2 + c == x2 + b * c2, 0 <= n3(x1, x2, x3, b) - n3(d1, d2, d3, b) < b * b, 0 <= y1 < b, 0 <= y2 < b
        ensures y1 + b * y2 == n3(x1, x2, x3, b) - n3(d1, d2, d3, b)
    {
        reveal(n3);
        let z = x3 - d3 - c2;
        assert(n3(x1, x2, x3, b) - n3(d1, d2, d3, b) == y1 + b * y2 + (b * b) * z) by (nonlinear_arith)
            requires y1 + d1 == x1 + b * c, y2 + d2 + c == x2 + b * c2, n3(x1, x2, x3, b) == x1 + b * (x2 + b * x3), n3(d1, d2, d3, b) == d1 + b * (d2 + b * d3), z == x3 - d3 - c2;
        assert(y1 + b * y2 >= 0 && y1 + b * y2 < b * b) by (nonlinear_arith) requires 0 <= y1 < b, 0 <= y2 < b;
        assert(z == 0) by (nonlinear_arith) requires 0 <= y1 + b * y2 + (b * b) * z < b * b, 0 <= y1 + b * y2 < b * b;
    }
    /// x is all of y, when y fits in a digit
    pub proof fn fits<T: Digit>(x: int, y: int) requires x >= 0, y < T::dbase(), exists|r: T| #[trigger] r.nwf() && x + r.nv() * T::dbase() == y ensures x == y
    {
        let r = choose|r: T| #[trigger] r.nwf() && x + r.nv() * T::dbase() == y;
        T::ax_digit();
        assert(r.nv() == 0) by (nonlinear_arith) requires x + r.nv() * T::dbase() == y, x >= 0, y < T::dbase(), T::dbase() > 0;
        assert(0 * T::dbase() == 0);
    }
    /// shifting two digits, low one first
    pub proof fn shl2(lo: int, hi: int, l2: int, c: int, p2: int, b: int) requires l2 + c * b == lo * p2, 0 <= l2 < b, (lo + b * hi) * p2 < b * b, b > 0
        ensures hi * p2 + c < b, l2 + b * (hi * p2 + c) == (lo + b * hi) * p2
    {
        assert((lo + b * hi) * p2 == lo * p2 + b * (hi * p2)) by (nonlinear_arith);
        assert(b * (hi * p2 + c) == b * (hi * p2) + c * b) by (nonlinear_arith);
        assert(hi * p2 + c < b) by (nonlinear_arith) requires b * (hi * p2 + c) < b * b, b > 0;
    }
    /// shifting two digits back, high one first: hi = h2 * p2 + c, c * b + lo = l2 * p2 + e
    pub proof fn shr2(lo: int, hi: int, l2: int, h2: int, c: int, e: int, p2: int, b: int, v: int) requires h2 * p2 + c == hi, l2 * p2 + e == lo + c * b, 0 <= e < p2, lo + b * hi == v * p2
        ensures l2 + b * h2 == v
    {
        assert((l2 + b * h2) * p2 == l2 * p2 + b * (h2 * p2)) by (nonlinear_arith);
        assert(b * (h2 * p2 + c) == b * (h2 * p2) + c * b) by (nonlinear_arith);
        let w = l2 + b * h2;
        assert(w * p2 + e == v * p2);
        assert(w == v) by (nonlinear_arith) requires w * p2 + e == v * p2, 0 <= e < p2;
    }
    /// the scaled remainder is a multiple of the scale
    pub proof fn unscale(v: int, q: int, d: int, p2: int, r: int) requires q * (d * p2) + r == v * p2, r < d * p2, r >= 0, p2 > 0 ensures r == (v - q * d) * p2, 0 <= v - q * d < d
    {
        assert((v - q * d) * p2 == v * p2 - q * (d * p2)) by (nonlinear_arith);
        assert(0 <= v - q * d < d) by (nonlinear_arith) requires (v - q * d) * p2 < d * p2, (v - q * d) * p2 >= 0, p2 > 0;
    }
    pub proof fn le_mul(r: int, d: int, x: int, b: int) requires 0 <= x < b, r < d ensures x + b * r < d * b, b * (d - r) >= b
    { assert(b * (d - r) >= b && b * (d - r) == d * b - b * r) by (nonlinear_arith) requires d - r >= 1, b > 0; }
    pub proof fn ge_one(q: int, d: int) requires d > 0 ensures q * d <= 0 || q * d >= d
    { assert(q * d <= 0 || q * d >= d) by (nonlinear_arith) requires d > 0; }
    /// the digits of the estimate q of the quotient, the divisor and the dividend
    pub proof fn est(x0: int, x1: int, x2: int, lo: int, hi: int, q: int, r: int, b: int)
        requires 0 <= x0 < b, 0 <= x1 < b, 0 <= x2, 0 <= lo < b, b <= 2 * hi, x1 + b * x2 < lo + b * hi, 0 <= q < b, x2 < hi ==> q * hi + r == x1 + b * x2 && 0 <= r < hi, x2 >= hi ==> q == b - 1
        ensures n3(x0, x1, x2, b) < (q + 1) * (lo + b * hi), q * (lo + b * hi) <= n3(x0, x1, x2, b) + 2 * (lo + b * hi), lo + b * hi > 0, (q - 1) * (lo + b * hi) == q * (lo + b * hi) - (lo + b * hi),
            (q + 1) * (lo + b * hi) == q * (lo + b * hi) + (lo + b * hi), (q - 2) * (lo + b * hi) == q * (lo + b * hi) - 2 * (lo + b * hi),
            n3(x0, x1, x2, b) >= 0, q * (lo + b * hi) <= 0 || q * (lo + b * hi) >= lo + b * hi, (q - 1) * (lo + b * hi) <= 0 || (q - 1) * (lo + b * hi) >= lo + b * hi
    {
        reveal(n3);
        let (d, xt) = (lo + b * hi, x1 + b * x2);
        let x = n3(x0, x1, x2, b);
        assert(b * hi == hi * b && b * x2 == x2 * b && b * xt == xt * b) by (nonlinear_arith);
        le_mul(xt, d, x0, b);
        assert(b * x2 >= 0 && b * (x1 + b * x2) >= 0) by (nonlinear_arith) requires x2 >= 0, x1 >= 0, b > 0;
        ge_one(q, d); ge_one(q - 1, d);
        knuth(x, d, q, r, xt, x2, hi, lo, x0, b, b);
        assert((q - 1) * d == q * d - d && (q + 1) * d == q * d + d && (q - 2) * d == q * d - 2 * d) by (nonlinear_arith);
    }
    /// the remainder of one step is less than the divisor, which has two digits
    pub proof fn rem2(x: int, d: int, q: int, b: int, lo: int, hi: int) requires q * d <= x, x < (q + 1) * d, d == lo + b * hi, 0 <= lo < b, 0 <= hi < b ensures 0 <= x - q * d < d, d <= b * b
    {
        assert((q + 1) * d == q * d + d) by (nonlinear_arith);
        assert(d <= b * b) by (nonlinear_arith) requires d == lo + b * hi, lo < b, hi <= b - 1, b > 0;
    }
    /// from a difference with unknown borrow
    pub proof fn borrow(e: int, o: int, d: int, b: int) requires (exists|r: bool| e + o == d + (if #[trigger] idb(r) { b } else { 0 })) ensures e + o == d || e + o == d + b { }
    pub open spec fn idb(r: bool) -> bool { r }
    /// the outcome of a division of v by d: quotient in the first nq digits of q, remainder in the first nr digits of rm
    pub open spec fn divres<T: Digit>(v: int, d: int, oq: Seq<T>, q: Seq<T>, nq: int, rm: Seq<T>, nr: int) -> bool {
        0 <= nq <= q.len() && 0 <= nr <= rm.len() && q.len() == oq.len() && dok(q) && dok(rm) && pv(q, nq) * d + pv(rm, nr) == v && pv(rm, nr) < d
        && (nq > 0 ==> q[nq - 1].nv() != 0) && (nr > 0 ==> rm[nr - 1].nv() != 0) && keep(oq, q, nq)
    }
    /// digits from n on are zero
    pub open spec fn zeros<T: Digit>(s: Seq<T>, n: int) -> bool { forall|i: int| n <= i < s.len() ==> (#[trigger] s[i]).nv() == 0 }
    /// value of the quotient digits [k, m), with one more digit t on top
    #[verifier::opaque]
    pub open spec fn qv<T: Digit>(s: Seq<T>, k: int, m: int, t: int) -> int { sv(s, k, m) + t * bp::<T>(m - k) }
    /// the estimate of the next quotient digit from the leading digits
    pub proof fn kn<T: Digit>(w: Seq<T>, den: Seq<T>, q: int, r: int)
        requires den.len() >= 1, w.len() == den.len() + 1, dok(w), dok(den), T::dbase() <= 2 * den[den.len() - 1].nv(), vl(w) < vl(den) * T::dbase(), 0 <= q < T::dbase(),
            w[den.len() as int].nv() < den[den.len() - 1].nv() ==> q * den[den.len() - 1].nv() + r == w[den.len() - 1].nv() + T::dbase() * w[den.len() as int].nv() && 0 <= r < den[den.len() - 1].nv(),
            w[den.len() as int].nv() >= den[den.len() - 1].nv() ==> q == T::dbase() - 1
        ensures vl(den) > 0, vl(w) < vl(den) * q + vl(den), vl(den) * q <= vl(w) + 2 * vl(den), vl(den) * (q - 1) == vl(den) * q - vl(den), vl(den) * (q - 2) == vl(den) * q - 2 * vl(den),
            vl(den) * q <= 0 || vl(den) * q >= vl(den), vl(den) * (q - 1) <= 0 || vl(den) * (q - 1) >= vl(den), q == 0 ==> vl(den) * q == 0, q > 0 ==> vl(den) * q > 0, q == 1 ==> vl(den) * (q - 1) == 0, q == 2 ==> vl(den) * (q - 2) == 0
    {
        let n = den.len() as int;
        let (b, p, d, x) = (T::dbase() as int, bp::<T>(n - 1) as int, vl(den) as int, vl(w) as int);
        let (t1, t0, msd) = (w[n].nv() as int, w[n - 1].nv() as int, den[n - 1].nv() as int);
        pvn(den, n - 1); pvn(w, n); pvn(w, n - 1); bp_unfold::<T>(n - 1); pv_bound(den, n - 1); pv_bound(w, n - 1); T::ax_nv(w[n - 1]); T::ax_nv(w[n]);
        let xt = t0 + b * t1;
        assert(x == xt * p + pv(w, n - 1)) by (nonlinear_arith) requires x == pv(w, n - 1) + t0 * p + t1 * (b * p), xt == t0 + b * t1;
        assert(b * t1 == t1 * b && t1 * b >= 0) by (nonlinear_arith) requires b > 0, t1 >= 0;
        knuth(x, d, q, r, xt, t1, msd, pv(den, n - 1) as int, pv(w, n - 1) as int, p, b);
        assert((q + 1) * d == d * q + d && q * d == d * q && d * (q - 1) == d * q - d && d * (q - 2) == d * q - 2 * d) by (nonlinear_arith);
        ge_one(q, d); ge_one(q - 1, d); assert((q - 1) * d == d * (q - 1)) by (nonlinear_arith);
        if q > 0 { assert(d * q > 0) by (nonlinear_arith) requires d > 0, q > 0; }
        assert(d * 0 == 0);
    }
    /// a first estimate from a dividend whose leading digit is less than that of the divisor
    pub proof fn kn_first<T: Digit>(w: Seq<T>, den: Seq<T>) requires den.len() >= 1, w.len() == den.len() + 1, dok(w), dok(den), w[den.len() as int].nv() < den[den.len() - 1].nv() ensures vl(w) < vl(den) * T::dbase()
    {
        let n = den.len() as int;
        pvn(w, n); pv_bound(w, n); pvn(den, n - 1); bp_unfold::<T>(n - 1);
        let (b, p, c, msd) = (T::dbase() as int, bp::<T>(n - 1) as int, w[n].nv() as int, den[n - 1].nv() as int);
        assert(vl(w) < vl(den) * b) by (nonlinear_arith) requires vl(w) == pv(w, n) + c * (b * p), pv(w, n) < b * p, vl(den) == pv(den, n - 1) + msd * p, c + 1 <= msd, b > 0, p > 0, pv(den, n - 1) >= 0;
    }
    /// a further estimate
    pub proof fn kn_next(w: int, x0: int, r: int, d: int, b: int) requires w == x0 + b * r, 0 <= x0 < b, r < d ensures w < d * b { le_mul(r, d, x0, b); }
    /// values that differ by multiples of p, both in [0, p)
    pub proof fn modeq(x: int, y: int, z: int, p: int) requires 0 <= x < p, 0 <= y < p, x == y + z * p ensures x == y
    { assert(z == 0) by (nonlinear_arith) requires 0 <= x < p, 0 <= y < p, x == y + z * p; }
    /// the first step of a long division, the difference taken without the leading digit
    pub proof fn first_rem(h: int, lo: int, hi: int, c: int, a: int, p: int, x: int, y: int) requires h + lo == hi || h + lo == hi + p, 0 <= h < p, x == hi + c * p, y == lo + a * p, 0 <= x - y < p ensures h == x - y
    {
        let e = if h + lo == hi { 0int } else { 1int };
        assert(x - y == h + (c - a - e) * p) by (nonlinear_arith) requires x == hi + c * p, y == lo + a * p, h + lo == hi + e * p;
        modeq(x - y, h, c - a - e, p);
    }
    pub proof fn longstep<T: Digit>(now: Seq<T>, prev: Seq<T>, s: Seq<T>, k: int, m: int, n: int, t: int, c0: int, d: int, r2: int, r1: int)
        requires 0 <= k < m <= now.len(), now.len() == prev.len(), forall|i: int| k < i < m ==> #[trigger] now[i] == prev[i], k < n <= s.len(),
            now[k].nv() * d + r2 == s[k].nv() + T::dbase() * r1, qv(prev, k + 1, m, t) * d + r1 == sv(s, k + 1, n) + c0 * bp::<T>(n - k - 1)
        ensures qv(now, k, m, t) * d + r2 == sv(s, k, n) + c0 * bp::<T>(n - k)
    {
        reveal(qv);
        sv_step(now, k, m); sv_step(s, k, n); bp_unfold::<T>(n - k - 1); bp_unfold::<T>(m - k - 1);
        assert forall|i: int| k + 1 <= i < m implies #[trigger] now[i].nv() == prev[i].nv() by { assert(now[i] == prev[i]); }
        sv_eq(now, prev, k + 1, m);
        let (b, a, p) = (T::dbase() as int, sv(prev, k + 1, m) as int, bp::<T>(m - k - 1) as int);
        assert(b * (a + t * p) == b * a + t * (b * p)) by (nonlinear_arith);
        qstep(now[k].nv() as int, b, a + t * p, d, r2, s[k].nv() as int, r1, sv(s, k + 1, n) as int, c0 * bp::<T>(n - k - 1));
        assoc(b, c0, bp::<T>(n - k - 1) as int);
    }
    /// before the first step: the top digit only
    pub proof fn longinit<T: Digit>(q: Seq<T>, m: int, t: int, d: int) requires 0 <= m <= q.len() ensures qv(q, m, m, t) * d == t * d, qv(q, m, m, t) == t
    { reveal(qv); pv_init::<T>(); bp_unfold::<T>(0); assert(t * 1 == t); }
    /// afterwards: all digits of the quotient
    pub proof fn longend<T: Digit>(q: Seq<T>, m: int, t: int, nq: int) requires 0 <= m <= q.len(), nq == m && t == 0 || nq == m + 1 && m < q.len() && q[m].nv() == t ensures qv(q, 0, m, t) == pv(q, nq)
    { reveal(qv); pv_split(q, m, m); if nq > m { pvn(q, m); } assert(0 * bp::<T>(m) == 0); }
    /// less than the divisor: one digit fewer
    pub proof fn short<T: Digit>(w: Seq<T>, den: Seq<T>, s: Seq<T>, k: int) requires dok(w), dok(den), w.len() == den.len() + 1, vl(w) < vl(den), 0 <= k, k + w.len() <= s.len(), w == s.subrange(k, k + w.len())
        ensures s[k + den.len()].nv() == 0, sv(s, k, k + den.len()) == vl(w)
    {
        let n = den.len() as int;
        vl_bound(den); pvn(w, n); bp_pos::<T>(n);
        let (c, p) = (w[n].nv() as int, bp::<T>(n) as int);
        assert(c == 0) by (nonlinear_arith) requires c * p < p, p > 0, c >= 0;
        assert(0 * p == 0);
        assert(w[n] == s[k + n]); pv_split(w, n, n); assert(w.subrange(0, n) =~= s.subrange(k, k + n));
    }
    /// dropping zero digits in front
    pub proof fn dropped<T: Digit>(s: Seq<T>, m: int, n: int) requires 0 <= m <= n <= s.len(), forall|i: int| m <= i < n ==> (#[trigger] s[i]).nv() == 0 ensures pv(s, m) == pv(s, n) { pv_zeros(s, m, n); }
    /// scaling keeps the leading part of the dividend below the divisor
    pub proof fn scale_lt<T: Digit>(s: Seq<T>, z: Seq<T>, m: int, c0: int, d: int, p2: int)
        requires 0 <= m <= s.len(), z.len() == s.len(), dok(s), dok(z), p2 > 0, vl(z) + c0 * bp::<T>(s.len() as int) == vl(s) * p2, sv(s, m, s.len() as int) < d
        ensures sv(z, m, s.len() as int) + c0 * bp::<T>(s.len() - m) < d * p2
    {
        let n = s.len() as int;
        vl_split(s, m); vl_split(z, m); bp_add::<T>(m, n - m); vl_bound(s.subrange(0, m)); vl_bound(z.subrange(0, m)); bp_pos::<T>(m);
        let (p, q, lo, hi, zl, zh) = (bp::<T>(m) as int, bp::<T>(n - m) as int, vl(s.subrange(0, m)) as int, sv(s, m, n) as int, vl(z.subrange(0, m)) as int, sv(z, m, n) as int);
        let x = zh + c0 * q;
        assert(p * zh + c0 * (p * q) == p * x) by (nonlinear_arith) requires x == zh + c0 * q;
        assert((lo + p * hi) * p2 < p * ((hi + 1) * p2)) by (nonlinear_arith) requires lo < p, p2 > 0;
        assert((hi + 1) * p2 <= d * p2) by (nonlinear_arith) requires hi + 1 <= d, p2 > 0;
        assert(x < (hi + 1) * p2) by (nonlinear_arith) requires p * x < p * ((hi + 1) * p2), p > 0;
    }
    /// the scaled divisor has a leading digit of at least the scale
    pub proof fn scale_top<T: Digit>(s: Seq<T>, p2: int) requires s.len() > 0, dok(s), vl(s) >= p2 * bp::<T>(s.len() - 1) ensures s[s.len() - 1].nv() >= p2
    {
        let n = s.len() as int;
        pvn(s, n - 1); pv_bound(s, n - 1); bp_pos::<T>(n - 1);
        let (p, t, w) = (bp::<T>(n - 1) as int, s[n - 1].nv() as int, pv(s, n - 1) as int);
        assert(t >= p2) by (nonlinear_arith) requires w + t * p >= p2 * p, w < p, p > 0;
    }
    /// comparing with a leading digit c kept apart
    pub proof fn cmpw<T: Digit>(a: Seq<T>, hi: Seq<T>, c: int) requires a.len() == hi.len() + 1, dok(a), dok(hi)
        ensures (a[hi.len() as int].nv() > c || (a[hi.len() as int].nv() == c && vl(hi) < vl(a.subrange(0, hi.len() as int)))) <==> vl(a) > vl(hi) + c * bp::<T>(hi.len() as int),
            vl(a) == vl(a.subrange(0, hi.len() as int)) + a[hi.len() as int].nv() * bp::<T>(hi.len() as int)
    {
        let n = hi.len() as int;
        pv_split(a, n, n); pvn(a, n); vl_bound(a.subrange(0, n)); vl_bound(hi);
        let (p, x) = (bp::<T>(n) as int, a[n].nv() as int);
        assert(p * x == x * p && p * c == c * p) by (nonlinear_arith);
        gt2(x, vl(a.subrange(0, n)) as int, c, vl(hi) as int, p);
    }
    /// a carry out of a value that fits is zero
    pub proof fn full_scale<T: Digit>(x: int, y: int, p: int) requires 0 <= x < p, 0 <= y < p, exists|c: T| #[trigger] c.nwf() && x + c.nv() * p == y ensures x == y
    { let t = choose|c: T| #[trigger] c.nwf() && x + c.nv() * p == y; let c = t.nv() as int; if c >= 1 { assert(c * p >= p) by (nonlinear_arith) requires c >= 1, p >= 0; } assert(0 * p == 0); }
    /// an exact multiple leaves nothing
    pub proof fn unscale2(x: int, v: int, p2: int, c: int) requires x * p2 + c == v * p2, 0 <= c < p2 ensures x == v
    { assert(x == v) by (nonlinear_arith) requires x * p2 + c == v * p2, 0 <= c < p2; }
    /// the quotient fits
    pub proof fn qlen<T: Digit>(q: Seq<T>, nq: int, d: int, v: int, k: int) requires 0 <= nq <= q.len(), pv(q, nq) * d <= v, v < d * bp::<T>(k), d > 0, nq > 0 ==> q[nq - 1].nv() != 0, k >= 0 ensures nq <= k
    {
        if nq > k {
            pv_low(q, nq); bp_mono::<T>(k, nq - 1);
            assert(pv(q, nq) * d >= d * bp::<T>(k)) by (nonlinear_arith) requires pv(q, nq) >= bp::<T>(k), d > 0;
        }
    }
    /// dividing by d, not less than base^(nd - 1)
    pub proof fn fit_q<T: Digit>(v: int, d: int, n: int, nd: int, k: int) requires 1 <= nd <= n, v < bp::<T>(n), d >= bp::<T>(nd - 1), k >= n - nd + 1 ensures v < d * bp::<T>(k)
    {
        bp_add::<T>(nd - 1, n - nd + 1); bp_mono::<T>(n - nd + 1, k); bp_pos::<T>(nd - 1); bp_pos::<T>(k);
        let (p, a, b) = (bp::<T>(nd - 1) as int, bp::<T>(n - nd + 1) as int, bp::<T>(k) as int);
        assert(p * a <= d * b) by (nonlinear_arith) requires d >= p, p > 0, b >= a, a >= 0;
    }
    /// the leading part of the dividend is less than the divisor
    pub proof fn fit_lt<T: Digit>(s: Seq<T>, d: int, k: int) requires 0 <= k <= s.len(), dok(s), sv(s, k, s.len() as int) < d ensures vl(s) < d * bp::<T>(k)
    {
        vl_split(s, k); vl_bound(s.subrange(0, k)); le_mul(sv(s, k, s.len() as int) as int, d, vl(s.subrange(0, k)) as int, bp::<T>(k) as int);
    }
    /// the quotient was copied to another buffer
    pub proof fn copied<T: Digit>(oq: Seq<T>, q: Seq<T>, z: Seq<T>, nq: int) requires 0 <= nq <= q.len(), q.len() == oq.len(), nq <= z.len(), dok(oq), dok(z), nlen(z, nq),
            forall|i: int| 0 <= i < nq ==> #[trigger] q[i] == z[i], forall|i: int| nq <= i < q.len() ==> #[trigger] q[i] == oq[i]
        ensures dok(q), keep(oq, q, nq), pv(q, nq) == vl(z), nq > 0 ==> q[nq - 1].nv() != 0
    {
        nlen_vl(z, nq); pv_eq(q, z, nq);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).nwf() by { if i < nq { assert(q[i] == z[i]); } else { assert(q[i] == oq[i]); } }
    }
    /// a remainder of at most two digits
    pub proof fn small<T: Digit>(s: Seq<T>, a: int, b: int, m: int) requires forall|i: int| 2 <= i < s.len() ==> (#[trigger] s[i]).nv() == 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nwf(),
            a >= 0, b >= 0, s.len() > 0 ==> s[0].nv() == a, s.len() > 1 ==> s[1].nv() == b, s.len() == 0 ==> a == 0, s.len() < 2 ==> b == 0, m == (if b != 0 { 2int } else if a != 0 { 1int } else { 0int })
        ensures 0 <= m <= s.len(), dok(s), pv(s, m) == a + T::dbase() * b, m > 0 ==> s[m - 1].nv() != 0, zeros(s, m)
    {
        pv_init::<T>(); assert(T::dbase() * 0 == 0);
        if m > 0 { pv1(s); }
        if m > 1 { pvn(s, 1); assert(b * T::dbase() == T::dbase() * b) by (nonlinear_arith); }
    }
    /// Burnikel-Ziegler: the remainder before correction
    pub proof fn bz3(v: int, a3: int, a12: int, p: int, q: int, b1: int, b2: int, r: int, d: int, w: int)
        requires v == a3 + p * a12, 0 <= a3 < p, a12 == q * b1 + r, d == b2 + p * b1, w == a3 + p * r, 0 <= q < p, 0 <= b2 < p, p <= 2 * b1, r >= 0, b1 >= 1, r < b1 || q == p - 1 && v < d * p
        ensures v == q * d + w - q * b2, w >= 0, w - q * b2 < d, w - q * b2 + 2 * d >= 0, 0 <= q * b2 < p * p, q == 0 ==> q * b2 == 0, q == 1 ==> q * b2 < d, p * p <= 2 * d
    {
        assert(p * (q * b1 + r) == q * (p * b1) + p * r) by (nonlinear_arith);
        dist(b2, p * b1, q);
        assert(p * r >= 0) by (nonlinear_arith) requires p >= 1, r >= 0;
        if r < b1 { le_mul(r, b1, a3, p); assert(b1 * p == p * b1) by (nonlinear_arith); assert(q * b2 >= 0) by (nonlinear_arith) requires q >= 0, b2 >= 0; }
        else { assert((p - 1) * d == d * p - d) by (nonlinear_arith); }
        assert(q * b2 < p * p) by (nonlinear_arith) requires 0 <= q < p, 0 <= b2 < p;
        assert(q * b2 >= 0) by (nonlinear_arith) requires q >= 0, b2 >= 0;
        assert(p * p <= 2 * (p * b1)) by (nonlinear_arith) requires p <= 2 * b1, p >= 1;
        if q == 0 { assert(0 * b2 == 0); }
        if q == 1 { assert(1 * b2 == b2); assert(p * b1 >= p) by (nonlinear_arith) requires b1 >= 1, p >= 1; }
    }
    /// the quotient does not fit: the top of the numerator is that of the divisor
    pub proof fn bztop(v: int, a3: int, a12: int, lo: int, hi: int, p: int, b1: int, b2: int)
        requires v == a3 + p * a12, a3 >= 0, v < (b2 + p * b1) * p, a12 == lo + p * hi, hi >= b1, lo >= 0, b2 < p, p > 0 ensures hi == b1
    {
        assert(a12 < b2 + p * b1) by (nonlinear_arith) requires p * a12 < (b2 + p * b1) * p, p > 0;
        assert(hi < b1 + 1) by (nonlinear_arith) requires p * hi < p + p * b1, p > 0;
    }
    /// all digits at their maximum
    pub proof fn allmax<T: Digit>(s: Seq<T>, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).nv() == T::dbase() - 1 ensures pv(s, n) == bp::<T>(n) - 1 decreases n
    {
        pv_init::<T>();
        if n > 0 { allmax(s, n - 1); pvn(s, n - 1); bp_unfold::<T>(n - 1); let (b, p) = (T::dbase() as int, bp::<T>(n - 1) as int); assert((b - 1) * p == b * p - p) by (nonlinear_arith); assert(b * p == p * b) by (nonlinear_arith); }
    }
    /// digits above a bound are zero
    pub proof fn above<T: Digit>(s: Seq<T>, k: int) requires dok(s), 0 <= k <= s.len(), vl(s) < bp::<T>(k) ensures forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]).nv() == 0, sv(s, 0, k) == vl(s), pv(s, k) == vl(s)
    {
        vl_split(s, k); bp_pos::<T>(k); let h = s.subrange(k, s.len() as int); let p = bp::<T>(k) as int;
        assert(vl(h) == 0) by (nonlinear_arith) requires p * vl(h) < p, p > 0, vl(h) >= 0;
        pv_zero_digits(h, h.len() as int);
        assert forall|i: int| k <= i < s.len() implies (#[trigger] s[i]).nv() == 0 by { assert(h[i - k] == s[i]); }
        pv_zeros(s, k, s.len() as int); assert(s.subrange(0, s.len() as int) =~= s); assert(p * 0 == 0); assert(sv(s, 0, k) == vl(s)); pv_split(s, k, s.len() as int);
    }
    /// division of the digits below nnum
    pub proof fn bzbase<T: Digit>(q0: Seq<T>, q: Seq<T>, nq: int, s0: Seq<T>, z: Seq<T>, nnum: int, nr: int, d: int)
        requires zeros(q0, 0), 0 <= nnum <= s0.len(), z.len() == s0.len(), zeros(s0, nnum), dok(s0), forall|i: int| nnum <= i < z.len() ==> #[trigger] z[i] == s0[i], zeros(z.subrange(0, nnum), nr),
            divres(sv(s0, 0, nnum) as int, d, q0, q, nq, z.subrange(0, nnum), nr)
        ensures nlen(q, nq), vl(q) * d + vl(z) == vl(s0), vl(z) < d, dok(q), dok(z)
    {
        let y = z.subrange(0, nnum);
        assert forall|i: int| nq <= i < q.len() implies (#[trigger] q[i]).nv() == 0 by { assert(q0[i].nv() == 0); }
        dropped(q, nq, q.len() as int); assert(q.subrange(0, q.len() as int) =~= q); pv_split(q, q.len() as int, q.len() as int);
        dropped(y, nr, nnum); pv_split(y, nnum, nnum); assert(y.subrange(0, nnum) =~= y);
        assert(zeros(z, nnum)); vl_drop(z, nnum); vl_drop(s0, nnum);
        assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).nwf() by { if i < nnum { assert(y[i] == z[i]); } }
        assert(dok(z)) by { reveal(dok); }
    }
    /// the upper part of a numerator is small enough
    pub proof fn bzhalf(v: int, lo: int, hi: int, d: int, p: int, pp: int) requires v == lo + p * hi, lo >= 0, v < d * pp, pp == p * p, p > 0 ensures hi < d * p
    {
        assert(d * (p * p) == p * (d * p)) by (nonlinear_arith);
        assert(hi < d * p) by (nonlinear_arith) requires p * hi < p * (d * p), p > 0;
    }
    /// two halves of a quotient
    pub proof fn bzjoin(v: int, lo: int, hi: int, p: int, q1: int, q0: int, r1: int, r0: int, d: int) requires v == lo + p * hi, q1 * d + r1 == hi, q0 * d + r0 == lo + p * r1 ensures (q0 + p * q1) * d + r0 == v
    {
        assert(p * (q1 * d + r1) == (p * q1) * d + p * r1) by (nonlinear_arith); dist(q0, p * q1, d);
    }
    /// a numerator or divisor with its highest bit set cannot be scaled
    pub proof fn scaled_full<T: Digit>(z: T) requires z.nwf(), T::dbase() <= 2 * z.nv() ensures z.nv() != 0, forall|k: u32| z.nv() * #[trigger] vstd::arithmetic::power2::pow2(k as nat) < T::dbase() ==> k == 0
    {
        use vstd::arithmetic::power2::*;
        ax_dcmp::<T>(); lemma_pow2_unfold(1); lemma2_to64();
        assert forall|k: u32| k > 0 implies #[trigger] pow2(k as nat) >= 2 by { lemma_pow2_pos((k - 1) as nat); lemma_pow2_unfold(k as nat); }
        assert forall|k: u32| z.nv() * #[trigger] pow2(k as nat) < T::dbase() implies k == 0 by { if k > 0 { assert(z.nv() * pow2(k as nat) >= z.nv() * 2) by (nonlinear_arith) requires pow2(k as nat) >= 2; } }
    }
    /// the digits of a product
    pub proof fn prod_any<T: Digit>(o: Seq<T>, f: Seq<T>, n0: int, n1: int, m: int, v: int) requires prod0(o, f, n0, n1, m, v), dok(o), n0 >= 0, n1 >= 0
        ensures 0 <= m <= n0 + n1, m <= f.len(), dok(f), f.len() == o.len(), vl(f.subrange(0, m)) == v, dok(f.subrange(0, m)), dnorm(f.subrange(0, m))
    { pv_init::<T>(); cut_low(f, m, v); }
    /// a block below a remainder
    pub proof fn bzblk_pre<T: Digit>(s: Seq<T>, k: int, n: int, d: int) requires dok(s), 0 <= k, 0 <= n, k + 2 * n <= s.len(), sv(s, k + n, k + 2 * n) < d ensures vl(s.subrange(k, k + 2 * n)) < d * bp::<T>(n)
    { let b = s.subrange(k, k + 2 * n); assert(b.subrange(n, 2 * n) =~= s.subrange(k + n, k + 2 * n)); fit_lt(b, d, n); }
    /// one block of quotient digits
    pub proof fn bzblock<T: Digit>(q: Seq<T>, qp: Seq<T>, s: Seq<T>, sp: Seq<T>, ss: Seq<T>, k: int, n: int, m: int, d: int)
        requires 0 <= k, 0 <= n, k + n <= m, q.len() == qp.len() == m, s.len() == sp.len() == ss.len() == m + n, dok(sp), dok(s.subrange(k, k + 2 * n)), d < bp::<T>(n),
            forall|j: int| k + n <= j < m ==> #[trigger] q[j] == qp[j], forall|j: int| 0 <= j < k || k + 2 * n <= j < m + n ==> #[trigger] s[j] == sp[j], forall|j: int| 0 <= j < k + n ==> #[trigger] sp[j] == ss[j],
            sv(q, k, k + n) * d + sv(s, k, k + 2 * n) == sv(sp, k, k + 2 * n), sv(s, k, k + 2 * n) < d,
            sv(qp, k + n, m) * d + sv(sp, k + n, k + 2 * n) == sv(ss, k + n, m + n)
        ensures sv(q, k, m) * d + sv(s, k, k + n) == sv(ss, k, m + n), sv(s, k, k + n) < d, forall|j: int| k + n <= j < k + 2 * n ==> (#[trigger] s[j]).nv() == 0, dok(s)
    {
        let p = bp::<T>(n) as int;
        let (f, b, c, a) = (s.subrange(k, k + 2 * n), sp.subrange(k, k + 2 * n), ss.subrange(k, m + n), q.subrange(k, m));
        above(f, n);
        assert forall|j: int| k + n <= j < k + 2 * n implies (#[trigger] s[j]).nv() == 0 by { assert(s[j] == f[j - k]); }
        dok_seg(s, sp, k, k + 2 * n);
        assert(f.subrange(0, n) =~= s.subrange(k, k + n));
        vl_split(b, n); assert(b.subrange(0, n) =~= ss.subrange(k, k + n)); assert(b.subrange(n, 2 * n) =~= sp.subrange(k + n, k + 2 * n));
        vl_split(c, n); assert(c.subrange(0, n) =~= ss.subrange(k, k + n)); assert(c.subrange(n, c.len() as int) =~= ss.subrange(k + n, m + n));
        vl_split(a, n); assert(a.subrange(0, n) =~= q.subrange(k, k + n)); assert(a.subrange(n, a.len() as int) =~= qp.subrange(k + n, m));
        bzjoin(vl(c) as int, sv(ss, k, k + n) as int, sv(ss, k + n, m + n) as int, p, sv(qp, k + n, m) as int, sv(q, k, k + n) as int, sv(sp, k + n, k + 2 * n) as int, sv(s, k, k + n) as int, d);
    }
    /// the first block of a scaled numerator is less than the scaled divisor
    pub proof fn bzfirst<T: Digit>(ss: Seq<T>, v: int, d: int, p2: int, e: int, nd: int, nnum: int, n: int, m: int, dd: int)
        requires dok(ss), ss.len() == m + n, e == n - nd, 1 <= nd <= n, nd <= nnum, n <= m, m <= n + (nnum - nd) < m + n, vl(ss) == v * p2 * bp::<T>(e), v < bp::<T>(nnum), d >= bp::<T>(nd - 1), p2 > 0, dd == d * p2 * bp::<T>(e)
        ensures sv(ss, m, m + n) < dd
    {
        let y = n + nnum - nd - m;
        vl_split(ss, m); vl_bound(ss.subrange(0, m)); bp_pos::<T>(m);
        let (t, pm, pe) = (sv(ss, m, m + n) as int, bp::<T>(m) as int, bp::<T>(e) as int);
        bp_add::<T>(nnum, e); bp_add::<T>(m, y); bp_mono::<T>(y, n - 1); bp_add::<T>(nd - 1, e); bp_pos::<T>(e);
        let (pn, py) = (bp::<T>(nnum) as int, bp::<T>(y) as int);
        assert(nnum + e == m + y);
        assert(pm * t < (pn * p2) * pe) by (nonlinear_arith) requires pm * t <= v * p2 * pe, v < pn, p2 > 0, pe > 0;
        assert((pn * p2) * pe == pm * (p2 * py)) by (nonlinear_arith) requires pn * pe == pm * py;
        assert(t < p2 * py) by (nonlinear_arith) requires pm * t < pm * (p2 * py), pm > 0;
        let pd = bp::<T>(nd - 1) as int;
        assert(p2 * py <= p2 * (pd * pe)) by (nonlinear_arith) requires py <= pd * pe, p2 > 0;
        assert(p2 * (pd * pe) <= (d * p2) * pe) by (nonlinear_arith) requires pd <= d, p2 > 0, pe > 0;
    }
    /// only the digits above the offset matter
    pub proof fn bzlast<T: Digit>(s: Seq<T>, e: int, x: int) requires dok(s), 0 <= e <= s.len(), vl(s) == x * bp::<T>(e) ensures sv(s, e, s.len() as int) == x
    {
        vl_split(s, e); vl_bound(s.subrange(0, e)); let (p, lo, hi) = (bp::<T>(e) as int, vl(s.subrange(0, e)) as int, sv(s, e, s.len() as int) as int);
        assert(hi == x) by (nonlinear_arith) requires lo + p * hi == x * p, 0 <= lo < p;
    }
    /// a scaled divisor with zeros below it
    pub proof fn scale_at(d: int, p2: int, pd: int, pe: int) requires d * p2 < pd, pd <= 2 * (d * p2), pe > 0, d >= 0, p2 > 0 ensures (d * pe) * p2 == d * p2 * pe, 0 <= d * p2 * pe < pd * pe, pd * pe <= 2 * (d * p2 * pe)
    {
        assert((d * pe) * p2 == d * p2 * pe) by (nonlinear_arith);
        assert(d * p2 * pe < pd * pe) by (nonlinear_arith) requires d * p2 < pd, pe > 0;
        assert(pd * pe <= 2 * (d * p2) * pe) by (nonlinear_arith) requires pd <= 2 * (d * p2), pe > 0;
        assert(2 * (d * p2) * pe == 2 * (d * p2 * pe)) by (nonlinear_arith);
        assert(d * p2 * pe >= 0) by (nonlinear_arith) requires d >= 0, p2 > 0, pe > 0;
    }
}

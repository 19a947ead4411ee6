/// Facts for multiplication.
pub mod lemmul {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::digit::Digit;

    /// one digit of a multiplication by f, with carry c in and cn out
    pub proof fn muldig<T: Digit>(now: Seq<T>, prev: Seq<T>, src: Seq<T>, j: int, f: int, cn: int, c: int, o: int)
        requires 0 <= j < now.len(), j < src.len(), now.len() == prev.len(), forall|k: int| 0 <= k < j ==> #[trigger] now[k] == prev[k],
            now[j].nv() + cn * T::dbase() == src[j].nv() * f + c, pv(prev, j) + c * bp::<T>(j) == pv(src, j) * f + o
        ensures pv(now, j + 1) + cn * bp::<T>(j + 1) == pv(src, j + 1) * f + o
    {
        pvn(src, j);
        let (s, p, v) = (src[j].nv() as int, bp::<T>(j) as int, pv(src, j) as int);
        upd(now, prev, j, cn, s * f, c, v * f + o);
        assert((v + s * p) * f + o == v * f + o + (s * f) * p) by (nonlinear_arith);
    }
    pub proof fn pairstep0(n0: int, c: int, x: int, f: int, g: int, o: int, d: int)
        requires n0 + c * d == x * f + o
        ensures n0 + (c + x * g) * d == x * (f + d * g) + o
    { assert(n0 + (c + x * g) * d == x * (f + d * g) + o) by (nonlinear_arith) requires n0 + c * d == x * f + o; }
    /// one digit of a multiplication by a pair
    pub proof fn pairstep<T: Digit>(now: Seq<T>, prev: Seq<T>, src: Seq<T>, j: int, f: int, g: int, o: int, cn: int, c: int)
        requires 1 <= j < now.len(), now.len() == prev.len() == src.len(), forall|k: int| 0 <= k < j ==> #[trigger] now[k] == prev[k],
            now[j].nv() + cn * T::dbase() == src[j].nv() * f + src[j - 1].nv() * g + c,
            pv(prev, j) + (c + src[j - 1].nv() * g) * bp::<T>(j) == pv(src, j) * (f + T::dbase() * g) + o
        ensures pv(now, j + 1) + (cn + src[j].nv() * g) * bp::<T>(j + 1) == pv(src, j + 1) * (f + T::dbase() * g) + o
    {
        pvn(src, j);
        let (s, t, p, v, d) = (src[j].nv() as int, src[j - 1].nv() as int, bp::<T>(j) as int, pv(src, j) as int, T::dbase() as int);
        upd(now, prev, j, cn, s * f, c + t * g, v * (f + d * g) + o);
        bp_unfold::<T>(j);
        let q = d * p;
        assert((cn + s * g) * q == cn * q + s * g * q) by (nonlinear_arith);
        assert(s * g * q + s * f * p == s * p * (f + d * g)) by (nonlinear_arith) requires q == d * p;
        assert((v + s * p) * (f + d * g) == v * (f + d * g) + s * p * (f + d * g)) by (nonlinear_arith);
    }
    /// the two carry digits of a multiplication by a pair hold the carry
    pub proof fn pairend(v: int, p: int, old: int, m: int, o: int, d: int, e: int)
        requires v + e * p == old * m + o, v >= 0, 0 <= old < p, 0 <= m < d * d, 0 <= o < d, d >= 2
        ensures e < d * d
    {
        assert(old * m <= (p - 1) * (d * d - 1)) by (nonlinear_arith) requires 0 <= old <= p - 1, 0 <= m <= d * d - 1;
        assert((p - 1) * (d * d - 1) + d <= p * (d * d)) by (nonlinear_arith) requires p >= 1, d >= 2;
        if e >= d * d { assert(e * p >= (d * d) * p) by (nonlinear_arith) requires e >= d * d, p >= 1; assert((d * d) * p == p * (d * d)) by (nonlinear_arith); }
    }

    /// the result of a multiplication in a buffer o -> f of at least n digits: m digits with value v
    pub open spec fn prod<T: Digit>(o: Seq<T>, f: Seq<T>, n: int, m: int, v: int) -> bool {
        f.len() == o.len() && dok(f) && 0 <= m <= n <= f.len() && pv(f, m) == v && (m > 0 ==> f[m - 1].nv() != 0) && (forall|i: int| m <= i < n ==> (#[trigger] f[i]).nv() == 0)
            && keep(o, f, n)
    }
    /// digits from n on are as they were, or zero
    pub open spec fn keep<T: Digit>(o: Seq<T>, f: Seq<T>, n: int) -> bool { forall|i: int| n <= i < f.len() ==> (#[trigger] f[i]).nv() == o[i].nv() || f[i].nv() == 0 }
    pub proof fn keep_trans<T: Digit>(a: Seq<T>, b: Seq<T>, c: Seq<T>, n: int) requires keep(a, b, n), keep(b, c, n), a.len() == b.len() == c.len(), n >= 0 ensures keep(a, c, n)
    { assert forall|i: int| n <= i < c.len() implies (#[trigger] c[i]).nv() == a[i].nv() || c[i].nv() == 0 by { assert(b[i].nv() == a[i].nv() || b[i].nv() == 0); } }
    /// a finished product
    pub proof fn ptail<T: Digit>(o: Seq<T>, f: Seq<T>, n: int, m: int, v: int) requires keep(o, f, n), o.len() == f.len(), dok(f), 0 <= m <= n <= f.len(), m > 0 ==> f[m - 1].nv() != 0, forall|i: int| m <= i < n ==> (#[trigger] f[i]).nv() == 0, pv(f, n) == v
        ensures prod(o, f, n, m, v)
    { pv_zeros(f, m, n); }
    /// the same, when nothing is written for empty operands
    pub open spec fn prod0<T: Digit>(o: Seq<T>, f: Seq<T>, n0: int, n1: int, m: int, v: int) -> bool {
        if n0 == 0 || n1 == 0 { f == o && m == 0 && v == 0 } else { prod(o, f, n0 + n1, m, v) }
    }
    /// one digit of adding src * f at off
    pub proof fn addmul<T: Digit>(now: Seq<T>, prev: Seq<T>, outer: Seq<T>, src: Seq<T>, off: int, k: int, f: int, cn: int, c: int)
        requires 0 <= k < src.len(), 0 <= off, off + k < now.len(), now.len() == prev.len() == outer.len(), forall|i: int| 0 <= i < off + k ==> #[trigger] now[i] == prev[i],
            now[off + k].nv() + cn * T::dbase() == outer[off + k].nv() + src[k].nv() * f + c,
            pv(prev, off + k) + c * bp::<T>(off + k) == pv(outer, off + k) + (pv(src, k) * f) * bp::<T>(off)
        ensures pv(now, off + k + 1) + cn * bp::<T>(off + k + 1) == pv(outer, off + k + 1) + (pv(src, k + 1) * f) * bp::<T>(off)
    {
        pvn(outer, off + k); pvn(src, k); bp_add::<T>(off, k);
        let (a, s, v, p, q) = (outer[off + k].nv() as int, src[k].nv() as int, pv(src, k) as int, bp::<T>(off) as int, bp::<T>(k) as int);
        upd(now, prev, off + k, cn, a + s * f, c, pv(outer, off + k) + (v * f) * p);
        assert((a + s * f) * (p * q) + (v * f) * p == a * (p * q) + ((v + s * q) * f) * p) by (nonlinear_arith);
    }
    /// sum of the squares of the first n digits, each at its place
    pub open spec fn sqs<T: Digit>(s: Seq<T>, n: int) -> nat decreases n { if n <= 0 { 0 } else { sqs(s, n - 1) + s[n - 1].nv() * s[n - 1].nv() * bp::<T>(2 * (n - 1)) } }
    /// a square grows by one digit
    pub proof fn sqstep<T: Digit>(s: Seq<T>, n: int, t: int) requires 0 <= n < s.len(), 2 * t + sqs(s, n) == pv(s, n) * pv(s, n)
        ensures 2 * (t + (pv(s, n) * s[n].nv()) * bp::<T>(n)) + sqs(s, n + 1) == pv(s, n + 1) * pv(s, n + 1)
    {
        pvn(s, n); bp_add::<T>(n, n);
        let (v, d, p) = (pv(s, n) as int, s[n].nv() as int, bp::<T>(n) as int);
        assert((v + d * p) * (v + d * p) == v * v + 2 * ((v * d) * p) + d * d * (p * p)) by (nonlinear_arith);
    }
    /// product of bounded numbers
    pub proof fn mul_lt(a: int, b: int, p: int, q: int) requires 0 <= a < p, 0 <= b < q ensures a * b < p * q, a * b >= 0
    { assert(a * b <= a * q && a * q < p * q && a * b >= 0) by (nonlinear_arith) requires 0 <= a < p, 0 <= b < q; }
    /// two digits of adding the squares
    pub proof fn sqadd<T: Digit>(now: Seq<T>, prev: Seq<T>, outer: Seq<T>, s: Seq<T>, k: int, cn: bool, c: bool, c2: int)
        requires 0 <= k < s.len(), 2 * k + 1 < now.len(), now.len() == prev.len() == outer.len(), forall|i: int| 0 <= i < 2 * k ==> #[trigger] now[i] == prev[i],
            now[2 * k].nv() + c2 * T::dbase() == outer[2 * k].nv() + s[k].nv() * s[k].nv() + b2n(c),
            now[2 * k + 1].nv() + (if cn { T::dbase() } else { 0 }) == outer[2 * k + 1].nv() + c2,
            pv(prev, 2 * k) + cb::<T>(c, 2 * k) == pv(outer, 2 * k) + sqs(s, k)
        ensures pv(now, 2 * k + 2) + cb::<T>(cn, 2 * k + 2) == pv(outer, 2 * k + 2) + sqs(s, k + 1)
    {
        pvn(outer, 2 * k); pvn(outer, 2 * k + 1); pvn(now, 2 * k + 1);
        let (a, d, p) = (outer[2 * k].nv() as int, s[k].nv() as int, bp::<T>(2 * k) as int);
        upd(now, prev, 2 * k, c2, a + d * d, b2n(c) as int, (pv(outer, 2 * k) + sqs(s, k)) as int);
        dist(a, d * d, p);
        let (b, q) = (outer[2 * k + 1].nv() as int, bp::<T>(2 * k + 1) as int);
        upd(now, now, 2 * k + 1, b2n(cn) as int, b, c2, pv(outer, 2 * k) + sqs(s, k) + (a + d * d) * p);
    }
}

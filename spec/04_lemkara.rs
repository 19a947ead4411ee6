/// Facts for Karatsuba multiplication.
pub mod lemkara {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::lemmul::*;
    use crate::digit::Digit;

    /// digits are determined by the value
    pub proof fn uniq<T: Digit>(a: Seq<T>, b: Seq<T>, n: int)
        requires 0 <= n <= a.len(), n <= b.len(), pv(a, n) == pv(b, n), forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).nwf(), forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).nwf()
        ensures forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).nv() == b[i].nv()
        decreases n
    {
        if n > 0 {
            pvn(a, n - 1); pvn(b, n - 1); pv_bound(a, n - 1); pv_bound(b, n - 1); bp_pos::<T>(n - 1);
            let (x, y, u, v, p) = (a[n - 1].nv() as int, b[n - 1].nv() as int, pv(a, n - 1) as int, pv(b, n - 1) as int, bp::<T>(n - 1) as int);
            assert(x == y) by (nonlinear_arith) requires u + x * p == v + y * p, 0 <= u < p, 0 <= v < p;
            uniq(a, b, n - 1);
        }
    }
    /// adding within the first n digits leaves the others
    pub proof fn hold<T: Digit>(fin: Seq<T>, mid: Seq<T>, n: int, e: int, c: bool)
        requires fin.len() == mid.len(), 0 <= n <= fin.len(), dok(mid), dok(fin), vl(fin) + cb::<T>(c, fin.len() as int) == vl(mid) + e, 0 <= pv(mid, n) + e < bp::<T>(n)
        ensures !c, pv(fin, n) == pv(mid, n) + e, forall|i: int| n <= i < fin.len() ==> (#[trigger] fin[i]).nv() == mid[i].nv()
    {
        let l = fin.len() as int;
        vl_split(fin, n); vl_split(mid, n); pv_split(fin, n, l); pv_split(mid, n, l); bp_add::<T>(n, l - n); pv_bound(fin, n);
        let (f, m) = (fin.subrange(n, l), mid.subrange(n, l));
        vl_bound(f); vl_bound(m); bp_pos::<T>(n);
        let (a, b, h, k, p, q, x) = (pv(fin, n) as int, pv(mid, n) as int, vl(f) as int, vl(m) as int, bp::<T>(n) as int, bp::<T>(l - n) as int, b2n(c) as int);
        assert(x * (p * q) == cb::<T>(c, l)) by { if c { assert(1 * (p * q) == p * q); } else { assert(0 * (p * q) == 0); } }
        assert(a + p * (h + x * q) == b + e + p * k) by (nonlinear_arith) requires a + p * h + x * (p * q) == b + p * k + e;
        assert(h + x * q == k) by (nonlinear_arith) requires a + p * (h + x * q) == b + e + p * k, 0 <= a < p, 0 <= b + e < p;
        assert(x == 0) by (nonlinear_arith) requires h + x * q == k, 0 <= h, k < q, x == 0 || x == 1;
        uniq(f, m, l - n);
        assert forall|i: int| n <= i < l implies (#[trigger] fin[i]).nv() == mid[i].nv() by { assert(f[i - n] == fin[i] && m[i - n] == mid[i]); }
    }
    /// adding e at lo within the first n digits
    pub proof fn addin<T: Digit>(fin: Seq<T>, mid: Seq<T>, lo: int, n: int, e: int)
        requires fin.len() == mid.len(), 0 <= lo <= fin.len(), 0 <= n <= fin.len(), dok(mid), dok(fin.subrange(lo, fin.len() as int)), forall|i: int| 0 <= i < lo ==> #[trigger] fin[i] == mid[i],
            exists|c: bool| vl(fin.subrange(lo, fin.len() as int)) + #[trigger] cb::<T>(c, fin.len() - lo) == vl(mid.subrange(lo, fin.len() as int)) + e,
            e >= 0, pv(mid, n) + e * bp::<T>(lo) < bp::<T>(n)
        ensures dok(fin), pv(fin, n) == pv(mid, n) + e * bp::<T>(lo), keep(mid, fin, n),
            forall|c: bool| vl(fin.subrange(lo, fin.len() as int)) + #[trigger] cb::<T>(c, fin.len() - lo) == vl(mid.subrange(lo, fin.len() as int)) + e ==> !c
    {
        let l = fin.len() as int;
        dok_at(fin, mid, lo); bp_add::<T>(lo, l - lo);
        assert(e * bp::<T>(lo) >= 0) by (nonlinear_arith) requires e >= 0, bp::<T>(lo) >= 0;
        assert forall|c: bool| vl(fin.subrange(lo, l)) + #[trigger] cb::<T>(c, l - lo) == vl(mid.subrange(lo, l)) + e implies !c by {
            addin1(fin, mid, lo, n, e, c);
        }
        let c = choose|c: bool| vl(fin.subrange(lo, l)) + #[trigger] cb::<T>(c, l - lo) == vl(mid.subrange(lo, l)) + e;
        addin1(fin, mid, lo, n, e, c);
    }
    pub proof fn addin1<T: Digit>(fin: Seq<T>, mid: Seq<T>, lo: int, n: int, e: int, c: bool)
        requires fin.len() == mid.len(), 0 <= lo <= fin.len(), 0 <= n <= fin.len(), dok(mid), dok(fin), forall|i: int| 0 <= i < lo ==> #[trigger] fin[i] == mid[i],
            vl(fin.subrange(lo, fin.len() as int)) + cb::<T>(c, fin.len() - lo) == vl(mid.subrange(lo, fin.len() as int)) + e,
            e * bp::<T>(lo) >= 0, pv(mid, n) + e * bp::<T>(lo) < bp::<T>(n)
        ensures !c, pv(fin, n) == pv(mid, n) + e * bp::<T>(lo), forall|i: int| n <= i < fin.len() ==> (#[trigger] fin[i]).nv() == mid[i].nv()
    {
        let l = fin.len() as int;
        let (p, q) = (bp::<T>(lo) as int, bp::<T>(l - lo) as int);
        if c { assert(1 * q == q); assert(1 * (p * q) == p * q); } else { assert(0 * q == 0); assert(0 * (p * q) == 0); }
        bp_add::<T>(lo, l - lo);
        seg(fin, mid, lo, b2n(c) as int, e);
        hold(fin, mid, n, e * p, c);
    }
    /// a number with k + 1 digits at lo fits in n digits
    pub proof fn fit<T: Digit>(k: int, lo: int, n: int, x: int, p: int)
        requires k >= 0, lo >= 0, n >= 0, bp::<T>(k) <= x, bp::<T>(lo) * x <= p, p < bp::<T>(n)
        ensures lo + k < n
    {
        bp_add::<T>(lo, k);
        let (a, b) = (bp::<T>(lo) as int, bp::<T>(k) as int);
        assert(a * b <= a * x) by (nonlinear_arith) requires b <= x, a >= 0;
        if lo + k >= n { bp_mono::<T>(n, lo + k); }
    }
    /// a number fits in n digits at lo
    pub proof fn fit_norm<T: Digit>(m: int, lo: int, n: int, v: int, x: int, p: int)
        requires 0 <= m, m > 0 ==> bp::<T>(m - 1) <= v, v <= x, lo >= 0, n >= lo, bp::<T>(lo) * x <= p, p < bp::<T>(n)
        ensures lo + m <= n
    { if m > 0 { fit::<T>(m - 1, lo, n, x, p); } }

    /// a carry out of m digits of a number x at lo is below digit n
    pub proof fn fit_carry<T: Digit>(c: bool, m: int, lo: int, n: int, x: int, p: int)
        requires 0 <= m, c ==> bp::<T>(m) <= x, lo >= 0, n >= 0, bp::<T>(lo) * x <= p, p < bp::<T>(n)
        ensures c ==> lo + m < n
    { if c { fit::<T>(m, lo, n, x, p); } }

    /// the number in a buffer of which the first m digits are in use
    pub proof fn cut<T: Digit>(s: Seq<T>, m: int, k: int) requires nlen(s, m), m <= k <= s.len(), dok(s)
        ensures vl(s.subrange(0, k)) == vl(s), dok(s.subrange(0, k)), nlen(s.subrange(0, k), m), m == k ==> dnorm(s.subrange(0, k)), m > 0 ==> vl(s) >= bp::<T>(m - 1), vl(s) < bp::<T>(m), pv(s, k) == vl(s)
    {
        nlen_vl(s, m); let t = s.subrange(0, k);
        assert forall|i: int| m <= i < k implies (#[trigger] t[i]).nv() == 0 by { assert(t[i] == s[i]); }
        if m > 0 { assert(t[m - 1] == s[m - 1]); }
        vl_drop(s, k); pv_split(s, k, s.len() as int);
    }
    /// putting a number in the first k digits of a buffer which is zero beyond
    pub proof fn put<T: Digit>(fin: Seq<T>, mid: Seq<T>, m0: int, k: int) requires fin.len() == mid.len(), m0 <= k <= fin.len(), nlen(mid, m0), dok(mid), dok(fin.subrange(0, k)), forall|i: int| k <= i < fin.len() ==> #[trigger] fin[i] == mid[i]
        ensures vl(fin) == vl(fin.subrange(0, k)), dok(fin), forall|m: int| nlen(fin.subrange(0, k), m) ==> #[trigger] nlen(fin, m)
    {
        dok_seg(fin, mid, 0, k); vl_drop(fin, k);
        let t = fin.subrange(0, k);
        assert forall|m: int| nlen(t, m) implies #[trigger] nlen(fin, m) by {
            assert forall|i: int| m <= i < fin.len() implies (#[trigger] fin[i]).nv() == 0 by { if i < k { assert(t[i] == fin[i]); } }
            if m > 0 { assert(t[m - 1] == fin[m - 1]); }
        }
    }
    /// product into a buffer of zeros
    pub proof fn prod_zero<T: Digit>(o: Seq<T>, f: Seq<T>, n0: int, n1: int, m: int, v: int)
        requires prod0(o, f, n0, n1, m, v), dok(o), n0 >= 0, n1 >= 0, forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).nv() == 0
        ensures nlen(f, m), vl(f) == v, dok(f), f.len() == o.len(), m <= n0 + n1
    { if n0 == 0 || n1 == 0 { vl_zero(f); } else { pv_zeros(f, m, f.len() as int); } }
    /// product into a buffer of which the first n digits are zero
    pub proof fn prod_low<T: Digit>(o: Seq<T>, f: Seq<T>, n0: int, n1: int, n: int, m: int, v: int)
        requires prod0(o, f, n0, n1, m, v), dok(o), n0 >= 0, n1 >= 0, 0 <= n <= o.len(), n0 == 0 || n1 == 0 || n0 + n1 == n, forall|i: int| 0 <= i < n ==> (#[trigger] o[i]).nv() == 0
        ensures pv(f, n) == v, dok(f), f.len() == o.len(), m <= n, m > 0 ==> f[m - 1].nv() != 0, forall|i: int| m <= i < n ==> (#[trigger] f[i]).nv() == 0,
            keep(o, f, n), pv(f, m) == v, m > 0 ==> v >= bp::<T>(m - 1), v < bp::<T>(m)
    { pv_init::<T>(); if n0 == 0 || n1 == 0 { pv_zeros(f, 0, n); } else { pv_zeros(f, m, n); if m > 0 { pv_low(f, m); } pv_bound(f, m); } }

    pub proof fn binom(a: int, b: int, c: int, d: int) ensures (a + b) * (c + d) == a * c + a * d + b * c + b * d { assert((a + b) * (c + d) == a * c + a * d + b * c + b * d) by (nonlinear_arith); }
    pub proof fn neg(a: int, b: int) ensures (-a) * b == -(a * b), a * (-b) == -(a * b), a * b == b * a { assert((-a) * b == -(a * b) && a * (-b) == -(a * b) && a * b == b * a) by (nonlinear_arith); }
    /// the middle term
    pub open spec fn kmid(l0: int, h0: int, l1: int, h1: int) -> int { l0 * h1 + h0 * l1 }
    pub proof fn kara(l0: int, h0: int, l1: int, h1: int, b: int, s0: bool, d0: int, s1: bool, d1: int)
        requires l0 >= 0, l1 >= 0, h0 >= 0, h1 >= 0, d0 == if s0 { h0 - l0 } else { l0 - h0 }, d1 == if s1 { h1 - l1 } else { l1 - h1 }, b >= 1, d0 >= 0, d1 >= 0
        ensures (l0 + b * h0) * (l1 + b * h1) == l0 * l1 + b * kmid(l0, h0, l1, h1) + (b * b) * (h0 * h1),
            kmid(l0, h0, l1, h1) == if s0 != s1 { l0 * l1 + h0 * h1 + d0 * d1 } else { l0 * l1 + h0 * h1 - d0 * d1 },
            kmid(l0, h0, l1, h1) >= 0, l0 * l1 >= 0, h0 * h1 >= 0, d0 * d1 >= 0,
            b * kmid(l0, h0, l1, h1) <= (l0 + b * h0) * (l1 + b * h1)
    {
        let m = l0 * h1 + h0 * l1;
        let (p, q) = (b * h0, b * h1);
        binom(l0, p, l1, q); assoc(l0, b, h1); assoc(h0, b, l1); assoc(b, h0, l1); assoc(b, h0, q); assoc(h0, b, h1); assoc(b, b, h0 * h1); dist(l0 * h1, h0 * l1, b);
        binom(h0, -l0, h1, -l1); binom(h0, -l0, l1, -h1); neg(h0, l1); neg(l0, h1); neg(h0, h1); neg(l0, l1);
        binom(l0, -h0, l1, -h1); binom(l0, -h0, h1, -l1); neg(l1, h0); neg(h1, l0); neg(h1, h0); neg(l1, l0);
        neg(l0, -l1); neg(l0, -h1); neg(h0, -l1); neg(h0, -h1);
        assert(l0 * l1 >= 0 && h0 * h1 >= 0 && l0 * h1 >= 0 && h0 * l1 >= 0 && d0 * d1 >= 0) by (nonlinear_arith) requires l0 >= 0, l1 >= 0, h0 >= 0, h1 >= 0, d0 >= 0, d1 >= 0;
        assert((b * b) * (h0 * h1) >= 0) by (nonlinear_arith) requires h0 * h1 >= 0;
    }
    /// the two halves of an operand
    pub proof fn halves<T: Digit>(s: Seq<T>, low: Seq<T>, high: Seq<T>, nlow: int, split: int)
        requires dok(s), dnorm(s), s == low + high, low.len() == imin(split, s.len() as int), s.len() <= 2 * split, 0 <= nlow <= low.len(), nlow > 0 ==> low[nlow - 1].nv() != 0, forall|i: int| nlow <= i < low.len() ==> (#[trigger] low[i]).nv() == 0
        ensures vl(s) == vl(low) + bp::<T>(split) * vl(high), dok(low), dok(high), dnorm(high), high.len() <= split, vl(low.subrange(0, nlow)) == vl(low), dok(low.subrange(0, nlow)), dnorm(low.subrange(0, nlow))
    {
        let k = low.len() as int;
        assert(s.subrange(0, k) =~= low); assert(s.subrange(k, s.len() as int) =~= high);
        vl_split(s, k); vl_drop(low, nlow); pv_init::<T>();
        if high.len() == 0 { assert(bp::<T>(split) * 0 == 0); assert(bp::<T>(k) * 0 == 0); }
    }
    /// the two outer products side by side
    pub proof fn kjoin<T: Digit>(o: Seq<T>, a: Seq<T>, c0: Seq<T>, c: Seq<T>, split: int, n: int, va: int, vc: int)
        requires split >= 0, a.len() == 2 * split, dok(a), dok(c), 0 <= n - 2 * split <= c.len(), vl(a) == va, pv(c, n - 2 * split) == vc, keep(c0, c, n - 2 * split), c0.len() == c.len(), o.len() == (a + c).len(),
            forall|k: int| n - 2 * split <= k < c0.len() ==> #[trigger] c0[k] == o[k + 2 * split]
        ensures pv(a + c, n) == va + (bp::<T>(split) * bp::<T>(split)) * vc, dok(a + c), keep(o, a + c, n)
    {
        let t = c.subrange(0, n - 2 * split);
        vl_concat(a, t); pv_split(c, n - 2 * split, c.len() as int); bp_add::<T>(split, split);
        assert(a + t =~= (a + c).subrange(0, n)); pv_split(a + c, n, n);
        assert forall|i: int| n <= i < (a + c).len() implies (#[trigger] (a + c)[i]).nv() == o[i].nv() || (a + c)[i].nv() == 0 by { let k = i - 2 * split; assert((a + c)[i] == c[k]); assert(c0[k] == o[k + 2 * split]); }
    }
    /// the digits in use of a buffer
    pub proof fn cut_low<T: Digit>(s: Seq<T>, m: int, v: int) requires 0 <= m <= s.len(), dok(s), pv(s, m) == v, m > 0 ==> s[m - 1].nv() != 0
        ensures vl(s.subrange(0, m)) == v, dok(s.subrange(0, m)), dnorm(s.subrange(0, m))
    { pv_split(s, m, m); if m > 0 { assert(s.subrange(0, m)[m - 1] == s[m - 1]); } }
    /// carries out of the middle term
    pub proof fn kcarry(b: int, p: int, w: int, c0: int, c2: int, m: int) requires w + (c0 + c2) * p == m, b >= 1, w >= 0, 0 <= c0 <= 1, 0 <= c2 <= 1, p >= 0
        ensures b * m == b * w + c0 * (b * p) + c2 * (b * p), b * w >= 0, b * p >= 0
    {
        assert(b * (w + (c0 + c2) * p) == b * w + c0 * (b * p) + c2 * (b * p)) by (nonlinear_arith);
        assert(b * w >= 0 && b * p >= 0) by (nonlinear_arith) requires b >= 1, w >= 0, p >= 0;
    }
}

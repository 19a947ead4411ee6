/// Facts for Toom-Cook multiplication.
pub mod lemtoom {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::lem::*;
    use crate::lemmul::*;
    use crate::lemkara::*;
    use crate::digit::Digit;

    /// buffer s holds the number v in its first m digits, and zeros beyond
    pub open spec fn buf<T: Digit>(s: Seq<T>, m: int, v: int) -> bool { dok(s) && nlen(s, m) && vl(s) == v }
    pub open spec fn fabs(x: int) -> int { if x < 0 { -x } else { x } }

    pub proof fn buf_at<T: Digit>(s: Seq<T>, m: int, v: int, k: int) requires buf(s, m, v), m <= k <= s.len()
        ensures dok(s), nlen(s, m), 0 <= m, vl(s.subrange(0, k)) == v, dok(s.subrange(0, k)), nlen(s.subrange(0, k), m), m == k ==> dnorm(s.subrange(0, k)), v >= 0, v < bp::<T>(m), m > 0 ==> v >= bp::<T>(m - 1), m == 0 <==> v == 0, pv(s, k) == v,
            forall|i: int| m <= i < s.len() ==> (#[trigger] s[i]).nv() == 0
    { cut(s, m, k); nlen_vl(s, m); }
    /// m <= k, if the number fits in k digits
    pub proof fn buf_fits<T: Digit>(s: Seq<T>, m: int, v: int, k: int) requires buf(s, m, v), v < bp::<T>(k), k >= 0 ensures 0 <= m <= k, m <= s.len()
    { nlen_vl(s, m); if m > k { bp_mono::<T>(k, m - 1); } }
    /// an empty buffer
    pub proof fn buf_zero<T: Digit>(s: Seq<T>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nv() == 0 && s[i].nwf() ensures buf(s, 0, 0), dok(s)
    { vl_zero(s); }
    pub proof fn top<T: Digit>(s: Seq<T>, r: int) requires 0 < r <= s.len(), dok(s), pv(s, r) >= bp::<T>(r - 1) ensures s[r - 1].nv() != 0
    { pvn(s, r - 1); pv_bound(s, r - 1); if s[r - 1].nv() == 0 { assert(0 * bp::<T>(r - 1) == 0); } }
    /// a number of r digits written over the first mx digits of a buffer
    pub proof fn buf_new<T: Digit>(fin: Seq<T>, mid: Seq<T>, m0: int, v0: int, r: int, mx: int, v: int)
        requires buf(mid, m0, v0), fin.len() == mid.len(), dok(fin), m0 <= mx, 0 <= r <= fin.len(), mx <= fin.len(), pv(fin, r) == v, r > 0 ==> fin[r - 1].nv() != 0 || v >= bp::<T>(r - 1),
            forall|i: int| r <= i < mx ==> (#[trigger] fin[i]).nv() == 0, forall|i: int| imax(r, mx) <= i < fin.len() ==> #[trigger] fin[i] == mid[i]
        ensures buf(fin, r, v)
    {
        if r > 0 && fin[r - 1].nv() == 0 { top(fin, r); }
        assert forall|i: int| r <= i < fin.len() implies (#[trigger] fin[i]).nv() == 0 by { if i >= imax(r, mx) { assert(fin[i] == mid[i]); } }
        pv_zeros(fin, r, fin.len() as int);
    }
    /// the result of add_big_into
    pub proof fn buf_sum<T: Digit>(fin: Seq<T>, mid: Seq<T>, m0: int, v0: int, a: Seq<T>, b: Seq<T>, n: int)
        requires buf(mid, m0, v0), fin.len() == mid.len(), dok(fin), dok(a), dok(b), dnorm(a), dnorm(b), m0 <= imax(a.len() as int, b.len() as int) <= n <= imax(a.len() as int, b.len() as int) + 1, n <= fin.len(),
            pv(fin, n) == vl(a) + vl(b), n > imax(a.len() as int, b.len() as int) ==> fin[n - 1].nv() == 1, forall|k: int| n <= k < fin.len() ==> fin[k] == mid[k]
        ensures buf(fin, n, (vl(a) + vl(b)) as int)
    {
        if a.len() > 0 { norm_low(a); } if b.len() > 0 { norm_low(b); }
        buf_new(fin, mid, m0, v0, n, imax(a.len() as int, b.len() as int), (vl(a) + vl(b)) as int);
    }
    /// a number of m digits written over the first k digits
    pub proof fn buf_put<T: Digit>(fin: Seq<T>, mid: Seq<T>, m0: int, v0: int, k: int, m: int, v: int)
        requires buf(mid, m0, v0), m0 <= k <= fin.len(), fin.len() == mid.len(), dok(fin.subrange(0, k)), nlen(fin.subrange(0, k), m), vl(fin.subrange(0, k)) == v, forall|i: int| k <= i < fin.len() ==> #[trigger] fin[i] == mid[i]
        ensures buf(fin, m, v)
    { put(fin, mid, m0, k); }
    /// the first k digits added to, and the carry out of them stored
    pub proof fn buf_up<T: Digit>(fin: Seq<T>, g: Seq<T>, mid: Seq<T>, m0: int, v0: int, k: int, c: bool, v: int)
        requires buf(mid, m0, v0), 0 <= m0 <= k <= mid.len(), g.len() == mid.len(), dok(g.subrange(0, k)), vl(g.subrange(0, k)) + cb::<T>(c, k) == v, k > 0 ==> v >= bp::<T>(k - 1), forall|i: int| k <= i < g.len() ==> #[trigger] g[i] == mid[i],
            c ==> k < mid.len() && fin == g.update(k, fin[k]) && fin[k].nv() == 1 && fin[k].nwf(), !c ==> fin == g
        ensures buf(fin, k + b2n(c), v)
    {
        let l = fin.len() as int;
        dok_seg(g, mid, 0, k);
        pv_split(g, k, k);
        let n = k + b2n(c);
        assert(dok(fin)) by { assert forall|i: int| 0 <= i < l implies (#[trigger] fin[i]).nwf() by { assert(g[i].nwf()); } }
        if c { pv_eq(fin, g, k); pvn(fin, k); assert(1 * bp::<T>(k) == bp::<T>(k)); }
        assert(pv(fin, n) == v);
        if n > 0 && !c { top(fin, n); }
        assert forall|i: int| n <= i < l implies (#[trigger] fin[i]).nv() == 0 by { assert(fin[i] == g[i] && g[i] == mid[i]); }
        pv_zeros(fin, n, l);
    }
    /// no carry out of k digits
    pub proof fn no_carry<T: Digit>(k: int, x: int, v: int, c: bool, w: int) requires w + cb::<T>(c, k) == v, w >= 0, v < bp::<T>(x), k >= 0, x >= 0 ensures c ==> k < x
    { if c && k >= x { bp_mono::<T>(x, k); } }
    /// a product over rubbish, with the rest cleared
    pub proof fn buf_prod<T: Digit>(o: Seq<T>, f: Seq<T>, fin: Seq<T>, n0: int, n1: int, m: int, v: int)
        requires prod0(o, f, n0, n1, m, v), dok(o), n0 >= 0, n1 >= 0, fin.len() == f.len(), forall|i: int| 0 <= i < m ==> #[trigger] fin[i] == f[i], forall|i: int| m <= i < f.len() ==> (#[trigger] fin[i]).nv() == 0 && fin[i].nwf()
        ensures buf(fin, m, v)
    {
        pv_init::<T>();
        assert(dok(fin)) by { assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).nwf() by { if i < m { assert(f[i].nwf()); } } }
        pv_eq(fin, f, m); pv_zeros(fin, m, fin.len() as int);
    }
    pub proof fn buf_prod0<T: Digit>(o: Seq<T>, f: Seq<T>, n0: int, n1: int, m: int, v: int, v0: int)
        requires prod0(o, f, n0, n1, m, v), buf(o, 0, v0), n0 >= 0, n1 >= 0 ensures buf(f, m, v), 0 <= m <= f.len(), f.len() == o.len()
    { prod_zero(o, f, n0, n1, m, v); }
    /// two buffers side by side, emptied up to n
    pub proof fn buf_clear<T: Digit>(fin: Seq<T>, a: Seq<T>, b: Seq<T>, ma: int, va: int, mb: int, vb: int, n: int)
        requires buf(a, ma, va), buf(b, mb, vb), a.len() + mb <= n, fin.len() == a.len() + b.len(), n <= fin.len(), forall|i: int| 0 <= i < n ==> (#[trigger] fin[i]).nv() == 0 && fin[i].nwf(), forall|i: int| n <= i < fin.len() ==> #[trigger] fin[i] == (a + b)[i]
        ensures forall|i: int| 0 <= i < fin.len() ==> (#[trigger] fin[i]).nv() == 0 && fin[i].nwf()
    { assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).nv() == 0 && fin[i].nwf() by { if i >= n { let j = i - a.len(); assert(fin[i] == (a + b)[i] && (a + b)[i] == b[j]); assert(b[j].nv() == 0); } } }
    /// the three parts of an operand
    pub proof fn thirds<T: Digit>(s: Seq<T>, b: int, k: int, h: int, n0: int, n1: int)
        requires dok(s), dnorm(s), b > 0, s.len() <= 3 * b, k == imin(b, s.len() as int), h == imin(2 * b, s.len() as int), 0 <= n0 <= k, 0 <= n1 <= imin(b, s.len() - k),
            n0 > 0 ==> s[n0 - 1].nv() != 0, forall|i: int| n0 <= i < k ==> (#[trigger] s[i]).nv() == 0,
            n1 > 0 ==> s.subrange(k, s.len() as int)[n1 - 1].nv() != 0, forall|i: int| n1 <= i < imin(b, s.len() - k) ==> (#[trigger] s.subrange(k, s.len() as int)[i]).nv() == 0,
        ensures ({
            let (x0, x1, x2) = (s.subrange(0, n0), s.subrange(k, k + n1), s.subrange(h, s.len() as int));
            let r = bp::<T>(b) as int;
            &&& dok(x0) && dok(x1) && dok(x2) && dnorm(x0) && dnorm(x1) && dnorm(x2) && x0.len() <= b && x1.len() <= b && x2.len() <= b && 0 <= vl(x0) < r && 0 <= vl(x1) < r && 0 <= vl(x2) < r
            &&& vl(s) == vl(x0) + vl(x1) * r + vl(x2) * (r * r) }),
    {
        let l = s.len() as int;
        let (x0, x1, x2) = (s.subrange(0, n0), s.subrange(k, k + n1), s.subrange(h, l));
        let r = bp::<T>(b) as int;
        let (u, v) = (s.subrange(0, k), s.subrange(k, l)); let e = imin(b, l - k); let w = v.subrange(0, e);
        vl_split(s, k); vl_split(v, e);
        assert(v.subrange(e, l - k) =~= x2);
        assert forall|i: int| n0 <= i < k implies (#[trigger] u[i]).nv() == 0 by { assert(u[i] == s[i]); }
        assert forall|i: int| n1 <= i < e implies (#[trigger] w[i]).nv() == 0 by { assert(w[i] == v[i]); }
        vl_drop(u, n0); vl_drop(w, n1);
        assert(u.subrange(0, n0) =~= x0); assert(w.subrange(0, n1) =~= x1);
        if n0 > 0 { assert(x0[n0 - 1] == s[n0 - 1]); } if n1 > 0 { assert(x1[n1 - 1] == v[n1 - 1]); }
        vl_bound(x0); vl_bound(x1); vl_bound(x2); bp_mono::<T>(x0.len() as int, b); bp_mono::<T>(x1.len() as int, b); bp_mono::<T>(x2.len() as int, b);
        pv_init::<T>();
        let (a1, a2) = (vl(x1) as int, vl(x2) as int);
        if l <= b { assert(vl(v) == 0); assert(a1 == 0 && a2 == 0); assert(bp::<T>(k) * 0 == 0); assert(0 * r == 0 && 0 * (r * r) == 0); }
        else {
            assert(bp::<T>(k) == r);
            if l <= 2 * b { assert(a2 == 0); assert(bp::<T>(e) * 0 == 0); assert(0 * (r * r) == 0); assert(r * a1 == a1 * r) by (nonlinear_arith); }
            else { assert(r * (a1 + r * a2) == a1 * r + a2 * (r * r)) by (nonlinear_arith); }
        }
    }
    /// powers of the base
    pub proof fn lims<T: Digit>(b: int) requires b >= 0
        ensures ({ let r = bp::<T>(b) as int; r >= 1 && bp::<T>(2 * b) == r * r && bp::<T>(b + 1) >= 100 * r && bp::<T>(2 * b + 1) >= 100 * (r * r) && bp::<T>(3 * b) == r * (r * r) && bp::<T>(4 * b) == (r * r) * (r * r) && r * r >= 1 })
    {
        bp_pos::<T>(b); bp_add::<T>(b, b); bp_add::<T>(b, 2 * b); bp_add::<T>(2 * b, 2 * b); bp_unfold::<T>(b); bp_unfold::<T>(2 * b);
        let r = bp::<T>(b) as int; let d = T::dbase() as int;
        assert(r * r >= 1) by (nonlinear_arith) requires r >= 1;
        assert(d * r >= 100 * r) by (nonlinear_arith) requires d >= 100, r >= 1;
        let q = r * r;
        assert(d * q >= 100 * q) by (nonlinear_arith) requires d >= 100, q >= 1;
    }
    pub open spec fn k0(x0: int, x1: int, x2: int, y0: int, y1: int, y2: int) -> int { x0 * y0 }
    pub open spec fn k1(x0: int, x1: int, x2: int, y0: int, y1: int, y2: int) -> int { x0 * y1 + x1 * y0 }
    pub open spec fn k2(x0: int, x1: int, x2: int, y0: int, y1: int, y2: int) -> int { x0 * y2 + x1 * y1 + x2 * y0 }
    pub open spec fn k3(x0: int, x1: int, x2: int, y0: int, y1: int, y2: int) -> int { x1 * y2 + x2 * y1 }
    pub open spec fn k4(x0: int, x1: int, x2: int, y0: int, y1: int, y2: int) -> int { x2 * y2 }
    proof fn bound(x: int, y: int, r: int) requires 0 <= x < r, 0 <= y < r ensures 0 <= x * y <= r * r { assert(0 <= x * y <= r * r) by (nonlinear_arith) requires 0 <= x < r, 0 <= y < r; }
    proof fn tri(a: int, b: int, c: int, d: int) ensures a * (b + c + d) == a * b + a * c + a * d, (b + c + d) * a == b * a + c * a + d * a { assert(a * (b + c + d) == a * b + a * c + a * d) by (nonlinear_arith); assert((b + c + d) * a == b * a + c * a + d * a) by (nonlinear_arith); }
    proof fn sc(x: int, y: int, s: int, t: int) ensures (x * s) * (y * t) == (s * t) * (x * y), x * (y * t) == t * (x * y), (x * s) * y == s * (x * y)
    {
        assert((x * s) * (y * t) == (s * t) * (x * y)) by (nonlinear_arith);
        assert(x * (y * t) == t * (x * y)) by (nonlinear_arith);
        assert((x * s) * y == s * (x * y)) by (nonlinear_arith);
    }
    proof fn eval(x0: int, x1: int, x2: int, y0: int, y1: int, y2: int, s: int, q: int)
        requires q == s * s
        ensures (x0 + x1 * s + x2 * q) * (y0 + y1 * s + y2 * q) == k0(x0, x1, x2, y0, y1, y2) + s * k1(x0, x1, x2, y0, y1, y2) + q * k2(x0, x1, x2, y0, y1, y2) + (s * q) * k3(x0, x1, x2, y0, y1, y2) + (q * q) * k4(x0, x1, x2, y0, y1, y2)
    {
        let (b, c) = (y1 * s, y2 * q); let t = y0 + b + c;
        let (u, v) = (x1 * s, x2 * q);
        tri(t, x0, u, v); tri(x0, y0, b, c); tri(u, y0, b, c); tri(v, y0, b, c);
        sc(x0, y1, s, s); sc(x0, y2, q, q); sc(x1, y0, s, s); sc(x1, y1, s, s); sc(x1, y2, s, q); sc(x2, y0, q, q); sc(x2, y1, q, s); sc(x2, y2, q, q);
        assert(q * s == s * q) by (nonlinear_arith);
        let (p01, p02, p10, p11, p12, p20, p21) = (x0 * y1, x0 * y2, x1 * y0, x1 * y1, x1 * y2, x2 * y0, x2 * y1);
        dist(p01, p10, s); tri(q, p02, p11, p20); dist(p12, p21, s * q);
        assert(s * (p01 + p10) == (p01 + p10) * s) by (nonlinear_arith);
        assert((s * q) * (p12 + p21) == (p12 + p21) * (s * q)) by (nonlinear_arith);
        assert(p01 * s == s * p01 && p10 * s == s * p10) by (nonlinear_arith);
        let w = s * q;
        assert(p12 * w == w * p12 && p21 * w == w * p21) by (nonlinear_arith);
    }
    /// the product and the five evaluations in terms of its coefficients
    pub proof fn coefs(x0: int, x1: int, x2: int, y0: int, y1: int, y2: int, r: int)
        requires 0 <= x0 < r, 0 <= x1 < r, 0 <= x2 < r, 0 <= y0 < r, 0 <= y1 < r, 0 <= y2 < r
        ensures ({
            let c0 = k0(x0, x1, x2, y0, y1, y2); let c1 = k1(x0, x1, x2, y0, y1, y2); let c2 = k2(x0, x1, x2, y0, y1, y2); let c3 = k3(x0, x1, x2, y0, y1, y2); let c4 = k4(x0, x1, x2, y0, y1, y2);
            let q = r * r;
            &&& (x0 + x1 + x2) * (y0 + y1 + y2) == c0 + c1 + c2 + c3 + c4
            &&& (x0 - x1 + x2) * (y0 - y1 + y2) == c0 - c1 + c2 - c3 + c4
            &&& (x0 - 2 * x1 + 4 * x2) * (y0 - 2 * y1 + 4 * y2) == c0 - 2 * c1 + 4 * c2 - 8 * c3 + 16 * c4
            &&& (x0 + x1 * r + x2 * q) * (y0 + y1 * r + y2 * q) == c0 + r * c1 + q * c2 + (r * q) * c3 + (q * q) * c4
            &&& 0 <= c0 <= q && 0 <= c1 <= 2 * q && 0 <= c2 <= 3 * q && 0 <= c3 <= 2 * q && 0 <= c4 <= q }),
            x0 * y0 == k0(x0, x1, x2, y0, y1, y2), x2 * y2 == k4(x0, x1, x2, y0, y1, y2)
    {
        bound(x0, y0, r); bound(x0, y1, r); bound(x0, y2, r); bound(x1, y0, r); bound(x1, y1, r); bound(x1, y2, r); bound(x2, y0, r); bound(x2, y1, r); bound(x2, y2, r);
        eval(x0, x1, x2, y0, y1, y2, 1, 1); eval(x0, x1, x2, y0, y1, y2, -1, 1); eval(x0, x1, x2, y0, y1, y2, -2, 4); eval(x0, x1, x2, y0, y1, y2, r, r * r);
    }
    /// product of sign and magnitude
    pub proof fn sgmul(a: int, b: int) ensures fabs(a) * fabs(b) == fabs(a * b), (a < 0) != (b < 0) ==> a * b <= 0, (a < 0) == (b < 0) ==> a * b >= 0
    { neg(a, b); neg(fabs(a), fabs(b)); neg(-a, b); neg(a, -b); assert(fabs(a) * fabs(b) >= 0) by (nonlinear_arith) requires fabs(a) >= 0, fabs(b) >= 0;
      assert((-a) * (-b) == a * b) by (nonlinear_arith); }
    /// a sequence whose value fits n digits
    pub proof fn below<T: Digit>(s: Seq<T>, n: int) requires dok(s), 0 <= n <= s.len(), vl(s) < bp::<T>(n) ensures pv(s, n) == vl(s), forall|i: int| n <= i < s.len() ==> (#[trigger] s[i]).nv() == 0
    {
        let l = s.len() as int; let h = s.subrange(n, l);
        pv_split(s, n, l); pv_bound(s, n); vl_bound(h);
        let (p, x) = (bp::<T>(n) as int, vl(h) as int);
        assert(x == 0) by (nonlinear_arith) requires pv(s, n) + p * x < p, pv(s, n) >= 0, x >= 0, p > 0;
        assert(p * 0 == 0);
        pv_zero_digits(h, l - n);
        assert forall|i: int| n <= i < l implies (#[trigger] s[i]).nv() == 0 by { assert(h[i - n] == s[i]); }
    }
    /// the outer products side by side
    pub proof fn tjoin<T: Digit>(o: Seq<T>, a: Seq<T>, c: Seq<T>, ma: int, va: int, mc: int, vc: int, b: int, n: int, pp: int)
        requires buf(a, ma, va), buf(c, mc, vc), a.len() == imin(4 * b, o.len() as int), o.len() == a.len() + c.len(), b >= 0, 0 <= n <= o.len(), va + bp::<T>(4 * b) * vc <= pp < bp::<T>(n)
        ensures pv(a + c, n) == va + bp::<T>(4 * b) * vc, dok(a + c), keep(o, a + c, n)
    {
        vl_concat(a, c);
        if c.len() == 0 { pv_init::<T>(); assert(vc == 0); assert(bp::<T>(4 * b) * 0 == 0); assert(bp::<T>(a.len() as int) * 0 == 0); }
        below(a + c, n);
    }
    /// adding a middle coefficient
    pub proof fn mid_fits<T: Digit>(lo: int, k: int, n: int, c: int, m: int, pp: int) requires 0 <= m, m > 0 ==> bp::<T>(m - 1) <= c, lo >= 0, n >= lo, bp::<T>(lo) * c <= pp < bp::<T>(n) ensures lo + m <= n, c * bp::<T>(lo) == bp::<T>(lo) * c
    { fit_norm::<T>(m, lo, n, c, c, pp); assert(c * bp::<T>(lo) == bp::<T>(lo) * c) by (nonlinear_arith); }
    /// a buffer's number in its own slice
    pub open spec fn holds<T: Digit>(s: Seq<T>, m: int, v: int) -> bool { 0 <= m <= s.len() && dok(s.subrange(0, m)) && vl(s.subrange(0, m)) == v && (m > 0 ==> v >= bp::<T>(m - 1)) && v < bp::<T>(m) }
    pub proof fn buf_holds<T: Digit>(s: Seq<T>, m: int, v: int) requires buf(s, m, v) ensures holds(s, m, v) { buf_at(s, m, v, m); }
    /// what a product says about its buffer
    pub proof fn pfacts<T: Digit>(o: Seq<T>, f: Seq<T>, n0: int, n1: int, m: int, v: int) requires prod0(o, f, n0, n1, m, v), n0 >= 0, n1 >= 0 ensures 0 <= m <= f.len(), f.len() == o.len() { }
    pub proof fn slice_holds<T: Digit>(s: Seq<T>, k: int, m: int, v: int) requires 0 <= k <= s.len(), dok(s.subrange(0, k)), nlen(s.subrange(0, k), m), vl(s.subrange(0, k)) == v ensures holds(s, m, v)
    { let t = s.subrange(0, k); cut(t, m, m); nlen_vl(t, m); assert(t.subrange(0, m) =~= s.subrange(0, m)); }
    /// subtracting c from the first k digits of v, where c <= v <= 2 * c: what is lost comes back
    pub proof fn wrap<T: Digit>(g: Seq<T>, m: int, v: int, k: int, c: int, f: Seq<T>)
        requires buf(g, m, v), 0 <= k <= g.len(), 0 <= c <= v <= 2 * c, c < bp::<T>(k), dok(f), f.len() == k,
            vl(f) + c == vl(g.subrange(0, k)) || vl(g.subrange(0, k)) < c && vl(f) + c == vl(g.subrange(0, k)) + bp::<T>(k)
        ensures vl(f) == v - c
    {
        let l = g.len() as int; let h = g.subrange(k, l);
        vl_split(g, k); vl_bound(f); vl_bound(h); vl_bound(g.subrange(0, k));
        let (p, x, low) = (bp::<T>(k) as int, vl(h) as int, vl(g.subrange(0, k)) as int);
        assert(x == 0 || x == 1) by (nonlinear_arith) requires low + p * x == v, v < 2 * p, low >= 0, x >= 0, p > 0;
        assert(p * 0 == 0 && p * 1 == p);
    }
    pub proof fn terms(r: int, c0: int, c1: int, c2: int, c3: int, c4: int) requires r >= 1, c0 >= 0, c1 >= 0, c2 >= 0, c3 >= 0, c4 >= 0
        ensures r * c1 >= 0, (r * r) * c2 >= 0, (r * (r * r)) * c3 >= 0, ((r * r) * (r * r)) * c4 >= 0
    {
        let q = r * r; assert(q >= 1) by (nonlinear_arith) requires q == r * r, r >= 1;
        let t = r * q; assert(t >= 1) by (nonlinear_arith) requires t == r * q, r >= 1, q >= 1;
        let w = q * q; assert(w >= 1) by (nonlinear_arith) requires w == q * q, q >= 1;
        assert(r * c1 >= 0) by (nonlinear_arith) requires r >= 1, c1 >= 0;
        assert(q * c2 >= 0) by (nonlinear_arith) requires q >= 1, c2 >= 0;
        assert(t * c3 >= 0) by (nonlinear_arith) requires t >= 1, c3 >= 0;
        assert(w * c4 >= 0) by (nonlinear_arith) requires w >= 1, c4 >= 0;
    }
    /// three buffers side by side, emptied up to n
    pub proof fn buf_clear3<T: Digit>(fin: Seq<T>, a: Seq<T>, b: Seq<T>, c: Seq<T>, ma: int, va: int, mb: int, vb: int, mc: int, vc: int, n: int)
        requires buf(a, ma, va), buf(b, mb, vb), buf(c, mc, vc), a.len() + b.len() + mc <= n, fin.len() == a.len() + b.len() + c.len(), n <= fin.len(), forall|i: int| 0 <= i < n ==> (#[trigger] fin[i]).nv() == 0 && fin[i].nwf(), forall|i: int| n <= i < fin.len() ==> #[trigger] fin[i] == (a + (b + c))[i]
        ensures forall|i: int| 0 <= i < fin.len() ==> (#[trigger] fin[i]).nv() == 0 && fin[i].nwf()
    { assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).nv() == 0 && fin[i].nwf() by { if i >= n { let j = i - a.len() - b.len(); assert(fin[i] == (a + (b + c))[i] && (a + (b + c))[i] == c[j]); assert(c[j].nv() == 0); } } }
    /// sign and magnitude
    pub open spec fn sg(s: bool, v: int) -> int { if s { -v } else { v } }
    /// an operand cut in three, and its values at 1, -1 and -2
    pub open spec fn evs<T: Digit>(nr: Seq<T>, b: int, p0: Seq<T>, m1: Seq<T>, pinf: Seq<T>, p1: Seq<T>, lp1: int, spm1: bool, pm1: Seq<T>, lpm1: int, pm2: Seq<T>, lpm2: int) -> bool {
        let (x0, x1, x2) = (vl(p0) as int, vl(m1) as int, vl(pinf) as int);
        let r = bp::<T>(b) as int;
        &&& dok(p0) && dok(m1) && dok(pinf) && dnorm(p0) && dnorm(m1) && dnorm(pinf) && p0.len() <= b && m1.len() <= b && pinf.len() <= b && 0 <= x0 < r && 0 <= x1 < r && 0 <= x2 < r
        &&& vl(nr) == x0 + x1 * r + x2 * (r * r) && pinf == nr.subrange(imin(2 * b, nr.len() as int), nr.len() as int)
        &&& buf(p1, lp1, x0 + x1 + x2) && 0 <= lp1 <= b + 1
        &&& buf(pm1, lpm1, fabs(x0 - x1 + x2)) && 0 <= lpm1 <= b + 1 && spm1 == (x0 - x1 + x2 < 0)
        &&& buf(pm2, lpm2, fabs(x0 - 2 * x1 + 4 * x2)) && 0 <= lpm2 <= b + 1
    }
    /// a signed number in a buffer, small enough for k digits
    pub open spec fn sbuf<T: Digit>(s: Seq<T>, m: int, sign: bool, t: int, k: int) -> bool { buf(s, m, fabs(t)) && 0 <= m <= k && (sign ==> t <= 0) && (!sign ==> t >= 0) && fabs(t) < bp::<T>(k) }
    /// the interpolation, in terms of the coefficients
    pub proof fn triple(c0: int, c1: int, c2: int, c3: int, c4: int, vr1: int, vm: int, vw: int)
        requires vr1 == c0 + c1 + c2 + c3 + c4, vm == c0 - c1 + c2 - c3 + c4, vw == c0 - 2 * c1 + 4 * c2 - 8 * c3 + 16 * c4
        ensures (vw - vr1) % 3 == 0, (vr1 - vm) % 2 == 0, (vw - vr1) / 3 == -c1 + c2 - 3 * c3 + 5 * c4, (vr1 - vm) / 2 == c1 + c3,
            (vm - c0 - (vw - vr1) / 3) % 2 == 0, (vm - c0 - (vw - vr1) / 3) / 2 == c3 - 2 * c4
    {
        assert(vw - vr1 == 3 * (-c1 + c2 - 3 * c3 + 5 * c4)); assert(vr1 - vm == 2 * (c1 + c3));
    }
    /// a product over rubbish, the digits it takes
    pub proof fn buf_prod_cut<T: Digit>(o: Seq<T>, f: Seq<T>, n0: int, n1: int, m: int, v: int)
        requires prod0(o, f, n0, n1, m, v), dok(o), n0 >= 0, n1 >= 0
        ensures 0 <= m <= f.len(), f.len() == o.len(), dok(f), buf(f.subrange(0, m), m, v)
    { pv_init::<T>(); let t = f.subrange(0, m); pv_eq(t, f, m); assert(dok(t)) by { assert forall|i: int| 0 <= i < m implies (#[trigger] t[i]).nwf() by { assert(t[i] == f[i]); } } if m > 0 { assert(t[m - 1] == f[m - 1]); } }
    pub proof fn buf_low<T: Digit>(s: Seq<T>, m: int, v: int) requires buf(s, m, v) ensures 0 <= m <= s.len(), buf(s.subrange(0, m), m, v) { buf_at(s, m, v, m); }
    /// the first m digits of a slice's first k
    pub proof fn buf_sub<T: Digit>(r: Seq<T>, k: int, m: int, v: int) requires 0 <= k <= r.len(), buf(r.subrange(0, k), m, v) ensures 0 <= m <= k, buf(r.subrange(0, m), m, v), holds(r, m, v)
    { let s = r.subrange(0, k); buf_low(s, m, v); buf_holds(s, m, v); assert(s.subrange(0, m) =~= r.subrange(0, m)); }
    pub proof fn buf_val<T: Digit>(s: Seq<T>, m: int, v: int) requires buf(s, m, v) ensures vl(s) == v, v >= 0, dok(s), 0 <= m <= s.len() { nlen_vl(s, m); }
    /// digits changed only in front
    pub proof fn dok_put<T: Digit>(fin: Seq<T>, mid: Seq<T>, k: int) requires 0 <= k <= fin.len(), fin.len() == mid.len(), dok(mid), dok(fin.subrange(0, k)), forall|i: int| k <= i < fin.len() ==> #[trigger] fin[i] == mid[i] ensures dok(fin)
    { assert forall|i: int| 0 <= i < fin.len() implies (#[trigger] fin[i]).nwf() by { if i < k { assert(fin.subrange(0, k)[i].nwf()); } else { assert(mid[i].nwf()); } } }
    pub proof fn dok_cat<T: Digit>(a: Seq<T>, b: Seq<T>) requires dok(a), dok(b) ensures dok(a + b)
    { assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).nwf() by { if i < a.len() { assert(a[i].nwf()); } else { assert(b[i - a.len()].nwf()); } } }
}

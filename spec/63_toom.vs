== block mod ubig::mul::toom3
use crate::lemtoom::*;
== fn ubig::mul::toom3::mul_big_toom3_into__p
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires dok(nr0@), dnorm(nr0@), nd0 == nr0@.len(), 1 <= b, nd0 <= 3 * b, 3 * b <= 0x1000_0000_0000_0000, buf(old(p1)@, 0, 0), buf(old(pm1)@, 0, 0), buf(old(pm2)@, 0, 0), old(p1)@.len() >= b + 1, old(pm1)@.len() >= b + 1, old(pm2)@.len() >= b + 2
ensures final(p1)@.len() == old(p1)@.len(), final(pm1)@.len() == old(pm1)@.len(), final(pm2)@.len() == old(pm2)@.len(),
    evs(nr0@, b as int, r.0@, r.1@, r.2@, final(p1)@, r.3 as int, r.4, final(pm1)@, r.5 as int, final(pm2)@, r.7 as int), r.6 == (vl(r.0@) - 2 * vl(r.1@) + 4 * vl(r.2@) < 0)
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); ax_mem(nr0); assert(nr0@.subrange(0, nr0@.len() as int) =~= nr0@); lims::<T>(b as int); buf_at(p1@, 0, 0, 0); buf_at(pm1@, 0, 0, 0); buf_at(pm2@, 0, 0, 0); }
-- after `let pinf`
let ghost (x0, x1, x2) = (vl(p0@) as int, vl(m1@) as int, vl(pinf@) as int);
let ghost (xe, xn, xt) = (x0 + x1 + x2, x0 - x1 + x2, x0 - 2 * x1 + 4 * x2);
let ghost (gxp1, gxm1, gxm2) = (p1@, pm1@, pm2@);
proof { thirds(nr0@, b as int, min_b_nd0 as int, imin(2 * b as int, nd0 as int), len_p0 as int, len_m1 as int); assert(pinf@ =~= nr0@.subrange(imin(2 * b as int, nd0 as int), nd0 as int)); assert(m1@ =~= nr0@.subrange(min_b_nd0 as int, min_b_nd0 + len_m1)); }
-- after `let len_pm1`
let ghost hxm1 = pm1@;
proof { buf_sum(hxm1, gxm1, 0, 0, p0@, pinf@, len_pm1 as int); buf_at(hxm1, len_pm1 as int, x0 + x2, len_pm1 as int); }
let ghost lxm1 = len_pm1 as int;
-- after `let len_p1`
proof { buf_sum(p1@, gxp1, 0, 0, hxm1.subrange(0, len_pm1 as int), m1@, len_p1 as int); }
-- after `let (sign_pm1, len_pm1)`
let ghost jxm1 = pm1@;
proof { buf_new(jxm1, hxm1, lxm1, x0 + x2, len_pm1 as int, imax(lxm1, m1@.len() as int), fabs(xn)); buf_at(jxm1, len_pm1 as int, fabs(xn), len_pm1 as int); buf_fits(jxm1, len_pm1 as int, fabs(xn), b + 1); }
-- after `let (mut sign_pm2, mut len_pm2)`
let ghost hxm2 = pm2@; let ghost lxm2 = len_pm2 as int; let ghost wx = xn + x2;
proof {
    if sign_pm1 { buf_new(hxm2, gxm2, 0, 0, lxm2, imax(pinf@.len() as int, len_pm1 as int), fabs(wx)); }
    else { buf_sum(hxm2, gxm2, 0, 0, jxm1.subrange(0, len_pm1 as int), pinf@, lxm2); }
    assert(buf(hxm2, lxm2, fabs(wx)) && sign_pm2 == (wx < 0));
    buf_at(hxm2, lxm2, fabs(wx), lxm2); buf_fits(hxm2, lxm2, fabs(wx), b + 1);
}
let ghost mut cx = false; let ghost mut ux = pm2@;
-- block start `if super::double_carry_assign(&mut pm2[..len_pm2], false)`
proof { cx = true; ux = pm2@; no_carry::<T>(lxm2, b + 1, 2 * fabs(wx), true, vl(ux.subrange(0, lxm2)) as int); }
-- after `if super::double_carry_assign(&mut pm2[..len_pm2], false)`
proof { if !cx { ux = pm2@; } buf_up(pm2@, ux, hxm2, lxm2, fabs(wx), lxm2, cx, 2 * fabs(wx)); }
let ghost ixm2 = pm2@; let ghost kxm2 = len_pm2 as int;
proof { assert(buf(ixm2, kxm2, 2 * fabs(wx))); buf_at(ixm2, kxm2, 2 * fabs(wx), kxm2); buf_fits(ixm2, kxm2, 2 * fabs(wx), b + 1); }
let ghost mut dx = false; let ghost mut vx = pm2@;
-- after `len_pm2 = len_pm2.max(len_p0)`
let ghost exm2 = len_pm2 as int;
proof { buf_at(ixm2, kxm2, 2 * fabs(wx), exm2); if p0@.len() > 0 { norm_low(p0@); } }
-- block start `if crate::ubig::add::add_assign_big(&mut pm2[..len_pm2], p0)`
proof { dx = true; vx = pm2@; no_carry::<T>(exm2, b + 1, 2 * fabs(wx) + x0, true, vl(vx.subrange(0, exm2)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut pm2[..len_pm2], p0)`
proof { if !dx { vx = pm2@; } buf_up(pm2@, vx, ixm2, kxm2, 2 * fabs(wx), exm2, dx, 2 * fabs(wx) + x0); assert(xt == -(2 * fabs(wx) + x0)); assert(buf(pm2@, len_pm2 as int, fabs(xt))); }
-- after `let (sign, len) = crate::ubig::sub::sub_assign_big_abs_sign(pm2, len_pm2, p0)`
proof { buf_new(pm2@, ixm2, kxm2, 2 * fabs(wx), len as int, imax(kxm2, p0@.len() as int), fabs(xt)); }
-- after `if sign_pm2` #0
let ghost zxm2 = pm2@;
proof {
    assert(sign_pm2 == (xt < 0));
    assert(buf(zxm2, len_pm2 as int, fabs(xt)));
    buf_at(p1@, len_p1 as int, xe, len_p1 as int); buf_fits(p1@, len_p1 as int, xe, b + 1);
    buf_at(zxm2, len_pm2 as int, fabs(xt), len_pm2 as int); buf_fits(zxm2, len_pm2 as int, fabs(xt), b + 1);
}
== fn ubig::mul::toom3::mul_big_toom3_into__q
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires dok(nr1@), dnorm(nr1@), nd1 == nr1@.len(), 1 <= b, nd1 <= 3 * b, 3 * b <= 0x1000_0000_0000_0000, buf(old(q1)@, 0, 0), buf(old(qm1)@, 0, 0), buf(old(qm2)@, 0, 0), old(q1)@.len() >= b + 1, old(qm1)@.len() >= b + 1, old(qm2)@.len() >= b + 2
ensures final(q1)@.len() == old(q1)@.len(), final(qm1)@.len() == old(qm1)@.len(), final(qm2)@.len() == old(qm2)@.len(),
    evs(nr1@, b as int, r.0@, r.1@, r.2@, final(q1)@, r.3 as int, r.4, final(qm1)@, r.5 as int, final(qm2)@, r.7 as int), r.6 == (vl(r.0@) - 2 * vl(r.1@) + 4 * vl(r.2@) < 0)
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); ax_mem(nr1); assert(nr1@.subrange(0, nr1@.len() as int) =~= nr1@); lims::<T>(b as int); buf_at(q1@, 0, 0, 0); buf_at(qm1@, 0, 0, 0); buf_at(qm2@, 0, 0, 0); }
-- after `let qinf`
let ghost (y0, y1, y2) = (vl(q0@) as int, vl(n1@) as int, vl(qinf@) as int);
let ghost (ye, yn, yt) = (y0 + y1 + y2, y0 - y1 + y2, y0 - 2 * y1 + 4 * y2);
let ghost (gyp1, gym1, gym2) = (q1@, qm1@, qm2@);
proof { thirds(nr1@, b as int, min_b_nd1 as int, imin(2 * b as int, nd1 as int), len_q0 as int, len_n1 as int); assert(qinf@ =~= nr1@.subrange(imin(2 * b as int, nd1 as int), nd1 as int)); assert(n1@ =~= nr1@.subrange(min_b_nd1 as int, min_b_nd1 + len_n1)); }
-- after `let len_qm1`
let ghost hym1 = qm1@;
proof { buf_sum(hym1, gym1, 0, 0, q0@, qinf@, len_qm1 as int); buf_at(hym1, len_qm1 as int, y0 + y2, len_qm1 as int); }
let ghost lym1 = len_qm1 as int;
-- after `let len_q1`
proof { buf_sum(q1@, gyp1, 0, 0, hym1.subrange(0, len_qm1 as int), n1@, len_q1 as int); }
-- after `let (sign_qm1, len_qm1)`
let ghost jym1 = qm1@;
proof { buf_new(jym1, hym1, lym1, y0 + y2, len_qm1 as int, imax(lym1, n1@.len() as int), fabs(yn)); buf_at(jym1, len_qm1 as int, fabs(yn), len_qm1 as int); buf_fits(jym1, len_qm1 as int, fabs(yn), b + 1); }
-- after `let (mut sign_qm2, mut len_qm2)`
let ghost hym2 = qm2@; let ghost lym2 = len_qm2 as int; let ghost wy = yn + y2;
proof {
    if sign_qm1 { buf_new(hym2, gym2, 0, 0, lym2, imax(qinf@.len() as int, len_qm1 as int), fabs(wy)); }
    else { buf_sum(hym2, gym2, 0, 0, jym1.subrange(0, len_qm1 as int), qinf@, lym2); }
    assert(buf(hym2, lym2, fabs(wy)) && sign_qm2 == (wy < 0));
    buf_at(hym2, lym2, fabs(wy), lym2); buf_fits(hym2, lym2, fabs(wy), b + 1);
}
let ghost mut cy = false; let ghost mut uy = qm2@;
-- block start `if super::double_carry_assign(&mut qm2[..len_qm2], false)`
proof { cy = true; uy = qm2@; no_carry::<T>(lym2, b + 1, 2 * fabs(wy), true, vl(uy.subrange(0, lym2)) as int); }
-- after `if super::double_carry_assign(&mut qm2[..len_qm2], false)`
proof { if !cy { uy = qm2@; } buf_up(qm2@, uy, hym2, lym2, fabs(wy), lym2, cy, 2 * fabs(wy)); }
let ghost iym2 = qm2@; let ghost kym2 = len_qm2 as int;
proof { assert(buf(iym2, kym2, 2 * fabs(wy))); buf_at(iym2, kym2, 2 * fabs(wy), kym2); buf_fits(iym2, kym2, 2 * fabs(wy), b + 1); }
let ghost mut dy = false; let ghost mut vy = qm2@;
-- after `len_qm2 = len_qm2.max(len_q0)`
let ghost eym2 = len_qm2 as int;
proof { buf_at(iym2, kym2, 2 * fabs(wy), eym2); if q0@.len() > 0 { norm_low(q0@); } }
-- block start `if crate::ubig::add::add_assign_big(&mut qm2[..len_qm2], q0)`
proof { dy = true; vy = qm2@; no_carry::<T>(eym2, b + 1, 2 * fabs(wy) + y0, true, vl(vy.subrange(0, eym2)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut qm2[..len_qm2], q0)`
proof { if !dy { vy = qm2@; } buf_up(qm2@, vy, iym2, kym2, 2 * fabs(wy), eym2, dy, 2 * fabs(wy) + y0); assert(yt == -(2 * fabs(wy) + y0)); assert(buf(qm2@, len_qm2 as int, fabs(yt))); }
-- after `let (sign, len) = crate::ubig::sub::sub_assign_big_abs_sign(qm2, len_qm2, q0)`
proof { buf_new(qm2@, iym2, kym2, 2 * fabs(wy), len as int, imax(kym2, q0@.len() as int), fabs(yt)); }
-- after `if sign_qm2` #0
let ghost zym2 = qm2@;
proof {
    assert(sign_qm2 == (yt < 0));
    assert(buf(zym2, len_qm2 as int, fabs(yt)));
    buf_at(q1@, len_q1 as int, ye, len_q1 as int); buf_fits(q1@, len_q1 as int, ye, b + 1);
    buf_at(zym2, len_qm2 as int, fabs(yt), len_qm2 as int); buf_fits(zym2, len_qm2 as int, fabs(yt), b + 1);
}
== fn ubig::mul::toom3::mul_big_toom3_into__r13
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires old(r1)@.len() >= 2, rm1@.len() == old(r1)@.len(), old(r3)@.len() >= old(r1)@.len(), old(r3)@.len() <= 0x4000_0000_0000_0000,
    ({ let k = old(r1)@.len() - 2; let (vr1, vm, vw) = (vl(old(r1)@) as int, sg(sign_rm1, vl(rm1@) as int), sg(sign_rm2, vl(old(r3)@) as int));
       buf(old(r1)@, len_r1 as int, vr1) && buf(rm1@, len_rm1 as int, fabs(vm)) && buf(old(r3)@, len_rm2 as int, fabs(vw))
       && vr1 < bp::<T>(k) && fabs(vm) < bp::<T>(k) && fabs(vw) < bp::<T>(k) && vm <= vr1 && (vw - vr1) % 3 == 0 && (vr1 - vm) % 2 == 0 })
ensures final(r1)@.len() == old(r1)@.len(), final(r3)@.len() == old(r3)@.len(),
    ({ let k = old(r1)@.len() - 2; let (vr1, vm, vw) = (vl(old(r1)@) as int, sg(sign_rm1, vl(rm1@) as int), sg(sign_rm2, vl(old(r3)@) as int));
       sbuf(final(r3)@, r.0 as int, r.1, (vw - vr1) / 3, k) && sbuf(final(r1)@, r.3 as int, false, (vr1 - vm) / 2, k) })
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); lims::<T>(0); }
let ghost k = r1@.len() - 2; let ghost (vr1, vm, vw) = (vl(r1@) as int, sg(sign_rm1, vl(rm1@) as int), sg(sign_rm2, vl(r3@) as int));
let ghost (t3, t13) = ((vw - vr1) / 3, (vr1 - vm) / 2);
let ghost (g3, gl3, g1, gl1, jm, jl) = (r3@, len_rm2 as int, r1@, len_r1 as int, rm1@, len_rm1 as int);
proof {
    vstd::arithmetic::power2::lemma2_to64();
    assert(3 * t3 == vw - vr1 && 2 * t13 == vr1 - vm);
    buf_fits(g1, gl1, vr1, k); buf_fits(jm, jl, fabs(vm), k); buf_fits(g3, gl3, fabs(vw), k);
    buf_at(g1, gl1, vr1, gl1); buf_at(jm, jl, fabs(vm), jl); buf_at(g3, gl3, fabs(vw), gl3);
}
-- after `len_r3 = len_r3.max(len_r1)`
proof { buf_at(g3, gl3, fabs(vw), len_r3 as int); }
-- after `if sign_rm2`
let ghost h3 = r3@; let ghost l3 = len_r3 as int;
proof {
    assert(0 * bp::<T>(l3) == 0 && 1 * bp::<T>(l3) == bp::<T>(l3));
    if sign_rm2 { assert(vl(h3.subrange(0, l3)) + cb::<T>(carry, l3) == fabs(vw) + vr1); }
    else { buf_new(h3, g3, gl3, fabs(vw), l3, imax(gl3, gl1), fabs(vw - vr1)); buf_at(h3, l3, fabs(vw - vr1), l3); }
    assert(vl(h3.subrange(0, l3)) + cb::<T>(carry, l3) == 3 * fabs(t3));
    assert(sign_r3 ==> t3 <= 0); assert(!sign_r3 ==> t3 >= 0);
}
-- after `let (mut len_r3, _)`
proof { if sign_rm2 { buf_put(r3@, g3, gl3, fabs(vw), l3, len_r3 as int, fabs(t3)); } else { buf_put(r3@, h3, l3, fabs(vw - vr1), l3, len_r3 as int, fabs(t3)); } }
let ghost g3b = r3@; let ghost gl3b = len_r3 as int;
proof { buf_fits(g3b, gl3b, fabs(t3), k); buf_at(g3b, gl3b, fabs(t3), gl3b); if !sign_rm1 { buf_fits(jm, jl, fabs(vm), gl1); } }
-- after `len_r1 = len_r1.max(len_rm1)`
proof { buf_at(g1, gl1, vr1, len_r1 as int); }
-- after `if sign_rm1`
let ghost h1 = r1@; let ghost l1 = len_r1 as int;
proof {
    assert(0 * bp::<T>(l1) == 0 && 1 * bp::<T>(l1) == bp::<T>(l1));
    if sign_rm1 { assert(vl(h1.subrange(0, l1)) + cb::<T>(carry, l1) == vr1 + fabs(vm)); }
    else { buf_put(h1, g1, gl1, vr1, gl1, l1, vr1 - vm); buf_fits(h1, l1, vr1 - vm, k); buf_at(h1, l1, vr1 - vm, l1); }
    assert(vl(h1.subrange(0, l1)) + cb::<T>(carry, l1) == 2 * t13);
}
-- after `let (mut len_r1, _)`
proof { if sign_rm1 { buf_put(r1@, g1, gl1, vr1, l1, len_r1 as int, t13); } else { buf_put(r1@, h1, l1, vr1 - vm, l1, len_r1 as int, t13); }
    buf_fits(r1@, len_r1 as int, t13, k); buf_at(r1@, len_r1 as int, t13, len_r1 as int); }
== fn ubig::mul::toom3::mul_big_toom3_into__r23
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires old(r2)@.len() >= 2, old(r3)@.len() >= old(r2)@.len(), old(r3)@.len() <= 0x4000_0000_0000_0000,
    ({ let k = old(r2)@.len() - 2; let (vm, c0, t3) = (sg(sign_rm1, vl(old(r2)@) as int), vl(r0@) as int, sg(sign_r3, vl(old(r3)@) as int));
       buf(old(r2)@, len_rm1 as int, fabs(vm)) && buf(r0@, len_r0 as int, c0) && sbuf(old(r3)@, len_r3 as int, sign_r3, t3, k)
       && fabs(vm) < bp::<T>(k) && c0 < bp::<T>(k) && fabs(vm - c0) < bp::<T>(k) && (vm - c0 - t3) % 2 == 0 })
ensures final(r2)@.len() == old(r2)@.len(), final(r3)@.len() == old(r3)@.len(),
    ({ let k = old(r2)@.len() - 2; let (vm, c0, t3) = (sg(sign_rm1, vl(old(r2)@) as int), vl(r0@) as int, sg(sign_r3, vl(old(r3)@) as int));
       sbuf(final(r2)@, r.0 as int, r.1, vm - c0, k) && sbuf(final(r3)@, r.2 as int, r.3, (vm - c0 - t3) / 2, k) })
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); lims::<T>(0); }
let ghost k = r2@.len() - 2; let ghost (vm, c0, t3) = (sg(sign_rm1, vl(r2@) as int), vl(r0@) as int, sg(sign_r3, vl(r3@) as int));
let ghost (t2, t4) = (vm - c0, (vm - c0 - t3) / 2); let ghost sr3 = sign_r3;
let ghost (g2, gl2, g3b, gl3b, l0) = (r2@, len_rm1 as int, r3@, len_r3 as int, len_r0 as int);
let ghost mut ca = false; let ghost mut ua = r2@;
proof {
    vstd::arithmetic::power2::lemma2_to64();
    assert(2 * t4 == t2 - t3);
    buf_fits(g2, gl2, fabs(vm), k); buf_fits(r0@, l0, c0, k); buf_fits(g3b, gl3b, fabs(t3), k);
    buf_at(g2, gl2, fabs(vm), gl2); buf_at(r0@, l0, c0, l0); buf_at(g3b, gl3b, fabs(t3), gl3b);
}
-- after `len_r2 = len_r2.max(len_r0)`
let ghost e2 = len_r2 as int;
proof { buf_at(g2, gl2, fabs(vm), e2); }
-- block start `if crate::ubig::add::add_assign_big(&mut r2[..len_r2], &r0[..len_r0])`
proof { ca = true; ua = r2@; no_carry::<T>(e2, k, fabs(vm) + c0, true, vl(ua.subrange(0, e2)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r2[..len_r2], &r0[..len_r0])`
proof { if !ca { ua = r2@; } buf_up(r2@, ua, g2, gl2, fabs(vm), e2, ca, fabs(vm) + c0); assert(fabs(t2) == fabs(vm) + c0); }
-- after `let (sign, len) = crate::ubig::sub::sub_assign_big_abs_sign(r2, len_r2, &r0[..len_r0])`
proof { buf_new(r2@, g2, gl2, fabs(vm), len as int, imax(gl2, l0), fabs(vm - c0)); assert(vm - c0 == t2); }
-- after `if sign_rm1`
let ghost h2 = r2@; let ghost hl2 = len_r2 as int;
proof { assert(buf(h2, hl2, fabs(t2))); assert(sign_r2 ==> t2 <= 0); assert(!sign_r2 ==> t2 >= 0); buf_fits(h2, hl2, fabs(t2), k); buf_at(h2, hl2, fabs(t2), hl2); }
-- after `len_r3 = len_r3.max(len_r2)`
proof { buf_at(g3b, gl3b, fabs(t3), len_r3 as int); }
-- after `if sign_r2 != sign_r3`
let ghost h3b = r3@; let ghost l3b = len_r3 as int; let ghost far = sign_r2 != sr3;
proof {
    assert(0 * bp::<T>(l3b) == 0 && 1 * bp::<T>(l3b) == bp::<T>(l3b));
    if far { assert(vl(h3b.subrange(0, l3b)) + cb::<T>(carry, l3b) == fabs(t3) + fabs(t2)); }
    else { buf_new(h3b, g3b, gl3b, fabs(t3), l3b, imax(gl3b, hl2), fabs(fabs(t3) - fabs(t2))); buf_at(h3b, l3b, fabs(fabs(t3) - fabs(t2)), l3b); }
    assert(vl(h3b.subrange(0, l3b)) + cb::<T>(carry, l3b) == 2 * fabs(t4));
    assert(sign_r3 ==> t4 <= 0); assert(!sign_r3 ==> t4 >= 0);
}
-- after `let (mut len_r3, _)`
proof { if far { buf_put(r3@, g3b, gl3b, fabs(t3), l3b, len_r3 as int, fabs(t4)); } else { buf_put(r3@, h3b, l3b, fabs(fabs(t3) - fabs(t2)), l3b, len_r3 as int, fabs(t4)); }
    buf_fits(r3@, len_r3 as int, fabs(t4), k); buf_at(r3@, len_r3 as int, fabs(t4), len_r3 as int); }
== fn ubig::mul::toom3::mul_big_toom3_into__r123
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires old(r1)@.len() >= 2, old(r2)@.len() == old(r1)@.len(), old(r3)@.len() >= old(r1)@.len(), old(r3)@.len() <= 0x4000_0000_0000_0000, dok(r4@), dnorm(r4@), r4@.len() == len_r4,
    ({ let k = old(r1)@.len() - 2; let (c13, t2, t4, c4) = (vl(old(r1)@) as int, sg(sign_r2, vl(old(r2)@) as int), sg(sign_r3, vl(old(r3)@) as int), vl(r4@) as int); let c3 = t4 + 2 * c4;
       sbuf(old(r1)@, len_r1 as int, false, c13, k) && sbuf(old(r2)@, len_r2 as int, sign_r2, t2, k) && sbuf(old(r3)@, len_r3 as int, sign_r3, t4, k) && c4 < bp::<T>(k)
       && 0 <= c3 <= c13 && c3 < bp::<T>(k) && t4 + c4 < bp::<T>(k) && c4 <= t2 + c13 < bp::<T>(k) })
ensures final(r1)@.len() == old(r1)@.len(), final(r2)@.len() == old(r2)@.len(), final(r3)@.len() == old(r3)@.len(), dok(final(r1)@), dok(final(r2)@), dok(final(r3)@),
    ({ let (c13, t2, t4, c4) = (vl(old(r1)@) as int, sg(sign_r2, vl(old(r2)@) as int), sg(sign_r3, vl(old(r3)@) as int), vl(r4@) as int); let c3 = t4 + 2 * c4;
       holds(final(r1)@, r.0 as int, c13 - c3) && holds(final(r2)@, r.1 as int, t2 + c13 - c4) && holds(final(r3)@, r.2 as int, c3) })
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); lims::<T>(0); }
let ghost k = r1@.len() - 2; let ghost (c13, t2, t4, c4) = (vl(r1@) as int, sg(sign_r2, vl(r2@) as int), sg(sign_r3, vl(r3@) as int), vl(r4@) as int);
let ghost (c3, u2, l4) = (t4 + 2 * c4, t2 + c13, len_r4 as int);
let ghost o1 = r1@; let ghost (f1, fl1, h2, hl2, g3c, gl3c) = (r1@, len_r1 as int, r2@, len_r2 as int, r3@, len_r3 as int);
let ghost mut cc = false; let ghost mut uc = r3@; let ghost mut cd = false; let ghost mut ud = r3@; let ghost mut ce = false; let ghost mut ue = r2@;
proof {
    buf_fits(f1, fl1, c13, k); buf_fits(h2, hl2, fabs(t2), k); buf_fits(g3c, gl3c, fabs(t4), k);
    buf_at(f1, fl1, c13, fl1); buf_at(h2, hl2, fabs(t2), hl2); buf_at(g3c, gl3c, fabs(t4), gl3c);
    vl_bound(r4@); if l4 > 0 { norm_low(r4@); if l4 > k { bp_mono::<T>(k, l4 - 1); } }
    assert(r4@.subrange(0, l4) =~= r4@);
}
-- after `len_r3 = len_r3.max(len_r4)`
let ghost e3 = len_r3 as int;
proof { buf_at(g3c, gl3c, fabs(t4), e3); }
-- block start `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #0
proof { cc = true; uc = r3@; no_carry::<T>(e3, k, t4 + c4, true, vl(uc.subrange(0, e3)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #0
proof { if !cc { uc = r3@; } buf_up(r3@, uc, g3c, gl3c, fabs(t4), e3, cc, t4 + c4); }
let ghost i3 = r3@; let ghost il3 = len_r3 as int;
proof { buf_fits(i3, il3, t4 + c4, k); buf_at(i3, il3, t4 + c4, il3); }
-- block start `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #1
proof { cd = true; ud = r3@; no_carry::<T>(il3, k, c3, true, vl(ud.subrange(0, il3)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #1
proof { if !cd { ud = r3@; } buf_up(r3@, ud, i3, il3, t4 + c4, il3, cd, c3); buf_val(r3@, len_r3 as int, c3); buf_holds(r3@, len_r3 as int, c3); }
-- after `len_r3 = len_r4`
proof { buf_fits(g3c, gl3c, fabs(t4), l4); buf_at(g3c, gl3c, fabs(t4), l4); }
-- block start `if crate::ubig::add::add_assign_big(&mut r3[..len_r4], r4)`
proof { cc = true; uc = r3@; no_carry::<T>(l4, k, c3, true, vl(uc.subrange(0, l4)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r3[..len_r4], r4)`
proof { if !cc { uc = r3@; } buf_up(r3@, uc, g3c, gl3c, fabs(t4), l4, cc, c3); buf_val(r3@, len_r3 as int, c3); buf_holds(r3@, len_r3 as int, c3); }
-- before `let _ = crate::ubig::sub::sub_assign_big(&mut r3[..len_r4], r4)`
proof { assert(dok(g3c.subrange(0, l4))); }
-- after `let _ = crate::ubig::sub::sub_assign_big(&mut r3[..len_r4], r4)`
proof { wrap(g3c, gl3c, fabs(t4), l4, c4, r3@.subrange(0, l4)); }
-- after `len_r3 = crate::ubig::rsub::rsub_assign_big(&mut r3[..len_r4], r4)`
proof { slice_holds(r3@, l4, len_r3 as int, c3); dok_put(r3@, g3c, l4); }
-- after `if !sign_r3`
let ghost f3 = r3@; let ghost fl3 = len_r3 as int;
proof { assert(dok(f3)); assert(holds(f3, fl3, c3)); if sign_r2 { buf_fits(h2, hl2, fabs(t2), fl1); buf_at(h2, hl2, fabs(t2), fl1); } }
-- after `len_r2 = crate::ubig::rsub::rsub_assign_big(&mut r2[..len_r1], &r1[..len_r1])`
proof { buf_put(r2@, h2, hl2, fabs(t2), fl1, len_r2 as int, u2); }
-- after `len_r2 = len_r2.max(len_r1)`
let ghost e2b = len_r2 as int;
proof { buf_at(h2, hl2, fabs(t2), e2b); }
-- block start `if crate::ubig::add::add_assign_big(&mut r2[..len_r2], &r1[..len_r1])`
proof { ce = true; ue = r2@; no_carry::<T>(e2b, k, u2, true, vl(ue.subrange(0, e2b)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r2[..len_r2], &r1[..len_r1])`
proof { if !ce { ue = r2@; } buf_up(r2@, ue, h2, hl2, fabs(t2), e2b, ce, u2); }
-- after `if sign_r2`
let ghost i2 = r2@; let ghost il2 = len_r2 as int;
proof { assert(buf(i2, il2, u2)); buf_fits(i2, il2, u2, k); buf_at(i2, il2, u2, il2); if l4 > il2 { bp_mono::<T>(il2, l4 - 1); } if fl3 > fl1 { bp_mono::<T>(fl1, fl3 - 1); } }
-- after `len_r2 = crate::ubig::sub::sub_assign_big(&mut r2[..len_r2], r4)`
proof { buf_put(r2@, i2, il2, u2, il2, len_r2 as int, u2 - c4); buf_val(r2@, len_r2 as int, u2 - c4); buf_holds(r2@, len_r2 as int, u2 - c4); }
-- after `len_r1 = crate::ubig::sub::sub_assign_big(&mut r1[..len_r1], &r3[..len_r3])`
proof { buf_put(r1@, f1, fl1, c13, fl1, len_r1 as int, c13 - c3); buf_val(r1@, len_r1 as int, c13 - c3); buf_holds(r1@, len_r1 as int, c13 - c3); }
== fn ubig::mul::toom3::mul_big_toom3_into__sum
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires dok(old(result)@), n <= old(result)@.len(), b + len_r1 <= n, 2 * b + len_r2 <= n, 3 * b + len_r3 <= n,
    ({ let nn = n as int; let (c1, c2, c3) = (vl(r1@.subrange(0, len_r1 as int)) as int, vl(r2@.subrange(0, len_r2 as int)) as int, vl(r3@.subrange(0, len_r3 as int)) as int);
       holds(r1@, len_r1 as int, c1) && holds(r2@, len_r2 as int, c2) && holds(r3@, len_r3 as int, c3) && c1 * bp::<T>(b as int) >= 0 && c2 * bp::<T>(2 * b) >= 0 && c3 * bp::<T>(3 * b) >= 0
       && pv(old(result)@, nn) + c1 * bp::<T>(b as int) + c2 * bp::<T>(2 * b) + c3 * bp::<T>(3 * b) < bp::<T>(nn) })
ensures final(result)@.len() == old(result)@.len(), dok(final(result)@), keep(old(result)@, final(result)@, n as int),
    ({ let nn = n as int; let (c1, c2, c3) = (vl(r1@.subrange(0, len_r1 as int)) as int, vl(r2@.subrange(0, len_r2 as int)) as int, vl(r3@.subrange(0, len_r3 as int)) as int);
       pv(final(result)@, nn) == pv(old(result)@, nn) + c1 * bp::<T>(b as int) + c2 * bp::<T>(2 * b) + c3 * bp::<T>(3 * b) })
-- body start
hide(dok); hide(keep);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>();  }
let ghost nn = n as int; let ghost s0 = result@;
let ghost (c1, c2, c3) = (vl(r1@.subrange(0, len_r1 as int)) as int, vl(r2@.subrange(0, len_r2 as int)) as int, vl(r3@.subrange(0, len_r3 as int)) as int);
-- after `crate::ubig::add::add_assign_big(&mut result[b..], &r1[..len_r1])`
let ghost s1 = result@;
proof { addin(s1, s0, b as int, nn, c1); }
-- after `crate::ubig::add::add_assign_big(&mut result[2*b..], &r2[..len_r2])`
let ghost s2 = result@;
proof { addin(s2, s1, 2 * b, nn, c2); keep_trans(s0, s1, s2, nn); }
-- after `crate::ubig::add::add_assign_big(&mut result[3*b..], &r3[..len_r3])`
let ghost s3 = result@;
proof { addin(s3, s2, 3 * b, nn, c3); keep_trans(s0, s2, s3, nn); }
== fn ubig::mul::toom3::mul_big_toom3_into
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- outline mul_big_toom3_into__p `let min_b_nd0` to `if sign_pm2`
in nr0: &'a [T], nd0: usize, b: usize, p1: &mut [T], pm1: &mut [T], pm2: &mut [T]
out p0: &'a [T], m1: &'a [T], pinf: &'a [T], len_p1: usize, sign_pm1: bool, len_pm1: usize, sign_pm2: bool, len_pm2: usize
-- outline mul_big_toom3_into__q `let min_b_nd1` to `if sign_qm2`
in nr1: &'a [T], nd1: usize, b: usize, q1: &mut [T], qm1: &mut [T], qm2: &mut [T]
out q0: &'a [T], n1: &'a [T], qinf: &'a [T], len_q1: usize, sign_qm1: bool, len_qm1: usize, sign_qm2: bool, len_qm2: usize
-- outline mul_big_toom3_into__r13 `let mut len_r3 = len_rm2` to `let (mut len_r1, _)`
in r3: &mut [T], len_rm2: usize, r1: &mut [T], mut len_r1: usize, rm1: &[T], len_rm1: usize, sign_rm1: bool, sign_rm2: bool
out mut len_r3: usize, mut sign_r3: bool, mut carry: bool, mut len_r1: usize
-- outline mul_big_toom3_into__r23 `let mut len_r2 = len_rm1` to `let (mut len_r3, _)` #1
in r2: &mut [T], len_rm1: usize, r0: &[T], len_r0: usize, r3: &mut [T], mut len_r3: usize, mut sign_r3: bool, mut carry: bool, sign_rm1: bool
out mut len_r2: usize, sign_r2: bool, mut len_r3: usize, sign_r3: bool
-- outline mul_big_toom3_into__r123 `if !sign_r3` to `len_r1 = crate::ubig::sub::sub_assign_big`
in r1: &mut [T], mut len_r1: usize, r2: &mut [T], mut len_r2: usize, r3: &mut [T], mut len_r3: usize, r4: &[T], len_r4: usize, sign_r2: bool, sign_r3: bool
out len_r1: usize, len_r2: usize, len_r3: usize
-- outline mul_big_toom3_into__sum `crate::ubig::add::add_assign_big(&mut result[b..], &r1[..len_r1])` to `crate::ubig::add::add_assign_big(&mut result[3*b..], &r3[..len_r3])`
in result: &mut [T], b: usize, n: usize, r1: &[T], len_r1: usize, r2: &[T], len_r2: usize, r3: &[T], len_r3: usize
out
-- body start
hide(dok); hide(nlen); hide(prod0); hide(prod); hide(keep); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); ax_mem(nr0); assert(nr0@.subrange(0, nr0@.len() as int) =~= nr0@); assert(result@.subrange(0, result@.len() as int) =~= result@); ax_mem(nr1); assert(nr1@.subrange(0, nr1@.len() as int) =~= nr1@); }
-- after `let b =`
let ghost r_old = result@; let ghost bb = bp::<T>(b as int) as int; let ghost q2 = bb * bb;
proof { lims::<T>(b as int); assert(tws(nmax as int) == 6 * b + 10 + tws(b + 2)); tws_bound(b + 2); assert(2 * b + 4 <= nd0 + nd1 && b + 2 < nmax <= 3 * b); }
-- after `let (pm2, qm2)`
proof { buf_zero(pm2@); buf_zero(qm2@); }
-- after `let (pm1, qm1)`
proof { buf_zero(r1@); buf_zero(p1@); buf_zero(q1@); buf_zero(pm1@); buf_zero(qm1@); }
-- after `mul_big_toom3_into__p(nr0, nd0, b, p1, pm1, pm2)`
let ghost (x0, x1, x2) = (vl(p0@) as int, vl(m1@) as int, vl(pinf@) as int);
let ghost (xe, xn, xt) = (x0 + x1 + x2, x0 - x1 + x2, x0 - 2 * x1 + 4 * x2);
let ghost (zx1, zxm1, zxm2) = (p1@, pm1@, pm2@);
let ghost (lp1, lpm1, lpm2) = (len_p1 as int, len_pm1 as int, len_pm2 as int);
proof { buf_at(zx1, lp1, xe, lp1); buf_at(zxm1, lpm1, fabs(xn), lpm1); buf_at(zxm2, lpm2, fabs(xt), lpm2); }
-- after `mul_big_toom3_into__q(nr1, nd1, b, q1, qm1, qm2)`
let ghost (y0, y1, y2) = (vl(q0@) as int, vl(n1@) as int, vl(qinf@) as int);
let ghost (ye, yn, yt) = (y0 + y1 + y2, y0 - y1 + y2, y0 - 2 * y1 + 4 * y2);
let ghost (zy1, zym1, zym2) = (q1@, qm1@, qm2@);
let ghost (lq1, lqm1, lqm2) = (len_q1 as int, len_qm1 as int, len_qm2 as int);
proof { buf_at(zy1, lq1, ye, lq1); buf_at(zym1, lqm1, fabs(yn), lqm1); buf_at(zym2, lqm2, fabs(yt), lqm2); }
-- before `let mut len_r1`
let ghost gr1 = r1@;
proof {
    ws_toom(lp1, lq1, b + 2); ws_toom(lpm1, lqm1, b + 2); ws_toom(lpm2, lqm2, b + 2); ws_toom(p0@.len() as int, q0@.len() as int, b + 2); ws_toom(pinf@.len() as int, qinf@.len() as int, b + 2);
}
-- after `let mut len_r1`
proof { buf_prod0(gr1, r1@, lp1, lq1, len_r1 as int, xe * ye, 0); }
let ghost grm1 = rm1@;
proof { assert(dok(grm1)) by { reveal(dok);  } }
-- after `let len_rm1`
let ghost hrm1 = rm1@;
proof { pfacts(grm1, hrm1, lpm1, lqm1, len_rm1 as int, fabs(xn) * fabs(yn)); }
-- after `crate::shim::slice_fill(&mut rm1[len_rm1..]`
proof { assert forall|i: int| len_rm1 <= i < rm1@.len() implies (#[trigger] rm1@[i]).nv() == 0 && rm1@[i].nwf() by { let t = rm1@.subrange(len_rm1 as int, rm1@.len() as int); assert(t[i - len_rm1] == rm1@[i]); } buf_prod(grm1, hrm1, rm1@, lpm1, lqm1, len_rm1 as int, fabs(xn) * fabs(yn)); }
let ghost grm2 = rm2@;
proof { assert(dok(grm2)) by { reveal(dok); } }
-- after `let len_rm2`
let ghost hrm2 = rm2@;
proof { pfacts(grm2, hrm2, lpm2, lqm2, len_rm2 as int, fabs(xt) * fabs(yt)); }
-- after `crate::shim::slice_fill(&mut rm2[len_rm2..]`
proof { assert forall|i: int| len_rm2 <= i < rm2@.len() implies (#[trigger] rm2@[i]).nv() == 0 && rm2@[i].nwf() by { let t = rm2@.subrange(len_rm2 as int, rm2@.len() as int); assert(t[i - len_rm2] == rm2@[i]); } buf_prod(grm2, hrm2, rm2@, lpm2, lqm2, len_rm2 as int, fabs(xt) * fabs(yt)); }
-- after `crate::shim::slice_fill(&mut result[..n]`
proof { assert forall|i: int| 0 <= i < n implies (#[trigger] result@[i]).nv() == 0 && result@[i].nwf() by { let t = result@.subrange(0, n as int); assert(t[i] == result@[i]); } buf_clear(result@, zxm2, zym2, lpm2, fabs(xt), lqm2, fabs(yt), n as int); }
-- after `let (r0, r4)`
let ghost (gr0, gr4) = (r0@, r4@);
proof { buf_zero(gr0); buf_zero(gr4); assert(pinf@.len() > 0 && qinf@.len() > 0 ==> gr4.len() >= pinf@.len() + qinf@.len()); }
-- after `let len_r4`
let ghost (fr0, fr4) = (r0@, r4@); let ghost (l0, l4) = (len_r0 as int, len_r4 as int);
let ghost (c0, c1, c2, c3, c4) = (k0(x0, x1, x2, y0, y1, y2), k1(x0, x1, x2, y0, y1, y2), k2(x0, x1, x2, y0, y1, y2), k3(x0, x1, x2, y0, y1, y2), k4(x0, x1, x2, y0, y1, y2));
let ghost (vr1, vm, vw) = (xe * ye, xn * yn, xt * yt);
let ghost pp = (vl(nr0@) * vl(nr1@)) as int;
proof {
    buf_prod0(gr0, fr0, p0@.len() as int, q0@.len() as int, l0, x0 * y0, 0); buf_prod0(gr4, fr4, pinf@.len() as int, qinf@.len() as int, l4, x2 * y2, 0);
    coefs(x0, x1, x2, y0, y1, y2, bb); sgmul(xn, yn); sgmul(xt, yt);
    buf_at(fr0, l0, c0, l0); buf_at(fr4, l4, c4, l4);
    assert(buf(r1@, len_r1 as int, vr1) && buf(rm1@, len_rm1 as int, fabs(vm)) && buf(rm2@, len_rm2 as int, fabs(vw)));
    buf_at(r1@, len_r1 as int, vr1, len_r1 as int); buf_at(rm1@, len_rm1 as int, fabs(vm), len_rm1 as int); buf_at(rm2@, len_rm2 as int, fabs(vw), len_rm2 as int);
    assert(sg(sign_pm1 ^ sign_qm1, fabs(vm)) == vm && sg(sign_pm2 ^ sign_qm2, fabs(vw)) == vw);
    buf_val(r1@, len_r1 as int, vr1); buf_val(rm1@, len_rm1 as int, fabs(vm)); buf_val(rm2@, len_rm2 as int, fabs(vw)); buf_val(fr0, l0, c0); buf_val(fr4, l4, c4);
    assert(vl(r1@) == vr1);
    
    triple(c0, c1, c2, c3, c4, vr1, vm, vw);
}
-- after `mul_big_toom3_into__r13(r3, len_rm2, r1, len_r1, rm1, len_rm1, sign_rm1, sign_rm2)`
proof { let t3 = (vw - vr1) / 3; let t13 = (vr1 - vm) / 2; assert(sbuf(r3@, len_r3 as int, sign_r3, t3, 2 * b + 1)); assert(sbuf(r1@, len_r1 as int, false, t13, 2 * b + 1));
    buf_val(r3@, len_r3 as int, fabs(t3)); buf_val(r1@, len_r1 as int, fabs(t13)); assert(sg(sign_r3, vl(r3@) as int) == t3); assert(vl(r1@) == c1 + c3); }
-- after `mul_big_toom3_into__r23(r2, len_rm1, r0, len_r0, r3, len_r3, sign_r3, carry, sign_rm1)`
proof { let t4 = c3 - 2 * c4; let t2 = vm - c0; assert(sbuf(r2@, len_r2 as int, sign_r2, t2, 2 * b + 1)); assert(sbuf(r3@, len_r3 as int, sign_r3, t4, 2 * b + 1));
    buf_val(r3@, len_r3 as int, fabs(t4)); buf_val(r2@, len_r2 as int, fabs(t2)); assert(sg(sign_r3, vl(r3@) as int) == t4); assert(sg(sign_r2, vl(r2@) as int) == t2); }
-- after `let r4 =`
proof { assert(vl(r4@) == c4 && dok(r4@) && dnorm(r4@)); }
-- after `mul_big_toom3_into__r123(r1, len_r1, r2, len_r2, r3, len_r3, r4, len_r4, sign_r2, sign_r3)`
let ghost nn = n as int; let ghost s0 = result@;
proof {
    assert(holds(r1@, len_r1 as int, c1) && holds(r2@, len_r2 as int, c2) && holds(r3@, len_r3 as int, c3));
    vl_bound(nr0@); vl_bound(nr1@); bp_add::<T>(nd0 as int, nd1 as int); mul_lt(vl(nr0@) as int, vl(nr1@) as int, bp::<T>(nd0 as int) as int, bp::<T>(nd1 as int) as int);
    terms(bb, c0, c1, c2, c3, c4);
    assert(s0 =~= fr0 + fr4);
    tjoin(r_old, fr0, fr4, l0, c0, l4, c4, b as int, nn, pp);
    mid_fits::<T>(b as int, len_r1 as int, nn, c1, len_r1 as int, pp); mid_fits::<T>(2 * b, len_r2 as int, nn, c2, len_r2 as int, pp); mid_fits::<T>(3 * b, len_r3 as int, nn, c3, len_r3 as int, pp);
}
-- after `mul_big_toom3_into__sum(result, b, n, r1, len_r1, r2, len_r2, r3, len_r3)`
proof { assert(pv(result@, nn) == pp); keep_trans(r_old, s0, result@, nn); }
-- tail
proof { ptail(r_old, result@, nn, tail__ as int, pp); dok_cat(r2@, r3@); dok_cat(r1@, r2@ + r3@); dok_cat(r1@ + (r2@ + r3@), new_work@); }
== fn ubig::mul::toom3::square_toom3_into__p
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires dok(nr0@), dnorm(nr0@), nd0 == nr0@.len(), 1 <= b, nd0 <= 3 * b, 3 * b <= 0x1000_0000_0000_0000, buf(old(p1)@, 0, 0), buf(old(pm1)@, 0, 0), buf(old(pm2)@, 0, 0), old(p1)@.len() >= b + 1, old(pm1)@.len() >= b + 1, old(pm2)@.len() >= b + 2
ensures final(p1)@.len() == old(p1)@.len(), final(pm1)@.len() == old(pm1)@.len(), final(pm2)@.len() == old(pm2)@.len(),
    evs(nr0@, b as int, r.0@, r.1@, r.2@, final(p1)@, r.3 as int, r.4, final(pm1)@, r.5 as int, final(pm2)@, r.6 as int)
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); ax_mem(nr0); assert(nr0@.subrange(0, nr0@.len() as int) =~= nr0@); lims::<T>(b as int); buf_at(p1@, 0, 0, 0); buf_at(pm1@, 0, 0, 0); buf_at(pm2@, 0, 0, 0); }
-- after `let pinf`
let ghost (x0, x1, x2) = (vl(p0@) as int, vl(m1@) as int, vl(pinf@) as int);
let ghost (xe, xn, xt) = (x0 + x1 + x2, x0 - x1 + x2, x0 - 2 * x1 + 4 * x2);
let ghost (gxp1, gxm1, gxm2) = (p1@, pm1@, pm2@);
proof { thirds(nr0@, b as int, min_b_nd0 as int, imin(2 * b as int, nd0 as int), len_p0 as int, len_m1 as int); assert(pinf@ =~= nr0@.subrange(imin(2 * b as int, nd0 as int), nd0 as int)); assert(m1@ =~= nr0@.subrange(min_b_nd0 as int, min_b_nd0 + len_m1)); }
-- after `let len_pm1`
let ghost hxm1 = pm1@;
proof { buf_sum(hxm1, gxm1, 0, 0, p0@, pinf@, len_pm1 as int); buf_at(hxm1, len_pm1 as int, x0 + x2, len_pm1 as int); }
let ghost lxm1 = len_pm1 as int;
-- after `let len_p1`
proof { buf_sum(p1@, gxp1, 0, 0, hxm1.subrange(0, len_pm1 as int), m1@, len_p1 as int); }
-- after `let (sign_pm1, len_pm1)`
let ghost jxm1 = pm1@;
proof { buf_new(jxm1, hxm1, lxm1, x0 + x2, len_pm1 as int, imax(lxm1, m1@.len() as int), fabs(xn)); buf_at(jxm1, len_pm1 as int, fabs(xn), len_pm1 as int); buf_fits(jxm1, len_pm1 as int, fabs(xn), b + 1); }
-- after `let (sign_pm2, mut len_pm2)`
let ghost hxm2 = pm2@; let ghost lxm2 = len_pm2 as int; let ghost wx = xn + x2;
proof {
    if sign_pm1 { buf_new(hxm2, gxm2, 0, 0, lxm2, imax(pinf@.len() as int, len_pm1 as int), fabs(wx)); }
    else { buf_sum(hxm2, gxm2, 0, 0, jxm1.subrange(0, len_pm1 as int), pinf@, lxm2); }
    assert(buf(hxm2, lxm2, fabs(wx)) && sign_pm2 == (wx < 0));
    buf_at(hxm2, lxm2, fabs(wx), lxm2); buf_fits(hxm2, lxm2, fabs(wx), b + 1);
}
let ghost mut cx = false; let ghost mut ux = pm2@;
-- block start `if super::double_carry_assign(&mut pm2[..len_pm2], false)`
proof { cx = true; ux = pm2@; no_carry::<T>(lxm2, b + 1, 2 * fabs(wx), true, vl(ux.subrange(0, lxm2)) as int); }
-- after `if super::double_carry_assign(&mut pm2[..len_pm2], false)`
proof { if !cx { ux = pm2@; } buf_up(pm2@, ux, hxm2, lxm2, fabs(wx), lxm2, cx, 2 * fabs(wx)); }
let ghost ixm2 = pm2@; let ghost kxm2 = len_pm2 as int;
proof { assert(buf(ixm2, kxm2, 2 * fabs(wx))); buf_at(ixm2, kxm2, 2 * fabs(wx), kxm2); buf_fits(ixm2, kxm2, 2 * fabs(wx), b + 1); }
let ghost mut dx = false; let ghost mut vx = pm2@;
-- after `len_pm2 = len_pm2.max(len_p0)`
let ghost exm2 = len_pm2 as int;
proof { buf_at(ixm2, kxm2, 2 * fabs(wx), exm2); if p0@.len() > 0 { norm_low(p0@); } }
-- block start `if crate::ubig::add::add_assign_big(&mut pm2[..len_pm2], p0)`
proof { dx = true; vx = pm2@; no_carry::<T>(exm2, b + 1, 2 * fabs(wx) + x0, true, vl(vx.subrange(0, exm2)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut pm2[..len_pm2], p0)`
proof { if !dx { vx = pm2@; } buf_up(pm2@, vx, ixm2, kxm2, 2 * fabs(wx), exm2, dx, 2 * fabs(wx) + x0); assert(xt == -(2 * fabs(wx) + x0)); assert(buf(pm2@, len_pm2 as int, fabs(xt))); }
-- after `let (_, len) = crate::ubig::sub::sub_assign_big_abs_sign(pm2, len_pm2, p0)`
proof { buf_new(pm2@, ixm2, kxm2, 2 * fabs(wx), len as int, imax(kxm2, p0@.len() as int), fabs(xt)); }
-- after `if sign_pm2` #0
let ghost zxm2 = pm2@;
proof {
    
    assert(buf(zxm2, len_pm2 as int, fabs(xt)));
    buf_at(p1@, len_p1 as int, xe, len_p1 as int); buf_fits(p1@, len_p1 as int, xe, b + 1);
    buf_at(zxm2, len_pm2 as int, fabs(xt), len_pm2 as int); buf_fits(zxm2, len_pm2 as int, fabs(xt), b + 1);
}
== fn ubig::mul::toom3::square_toom3_into__r13
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires old(r1)@.len() >= 2, rm1@.len() == old(r1)@.len(), old(r3)@.len() >= old(r1)@.len(), old(r3)@.len() <= 0x4000_0000_0000_0000,
    ({ let k = old(r1)@.len() - 2; let (vr1, vm, vw) = (vl(old(r1)@.subrange(0, len_r1 as int)) as int, vl(rm1@) as int, vl(old(r3)@) as int);
       dok(old(r1)@) && len_r1 <= k && buf(old(r1)@.subrange(0, len_r1 as int), len_r1 as int, vr1) && buf(rm1@, len_rm1 as int, fabs(vm)) && buf(old(r3)@, len_rm2 as int, fabs(vw))
       && vr1 < bp::<T>(k) && fabs(vm) < bp::<T>(k) && fabs(vw) < bp::<T>(k) && vm <= vr1 && (vw - vr1) % 3 == 0 && (vr1 - vm) % 2 == 0 })
ensures final(r1)@.len() == old(r1)@.len(), final(r3)@.len() == old(r3)@.len(),
    ({ let k = old(r1)@.len() - 2; let (vr1, vm, vw) = (vl(old(r1)@.subrange(0, len_r1 as int)) as int, vl(rm1@) as int, vl(old(r3)@) as int);
       sbuf(final(r3)@, r.0 as int, r.1, (vw - vr1) / 3, k) && dok(final(r1)@) && sbuf(final(r1)@.subrange(0, r.2 as int), r.2 as int, false, (vr1 - vm) / 2, k) })
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); lims::<T>(0); }
let ghost (sign_rm1, sign_rm2) = (false, false);
let ghost k = r1@.len() - 2; let ghost (vr1, vm, vw) = (vl(r1@.subrange(0, len_r1 as int)) as int, sg(sign_rm1, vl(rm1@) as int), sg(sign_rm2, vl(r3@) as int));
let ghost (t3, t13) = ((vw - vr1) / 3, (vr1 - vm) / 2);
let ghost (g3, gl3, g1, gl1, jm, jl) = (r3@, len_rm2 as int, r1@.subrange(0, len_r1 as int), len_r1 as int, rm1@, len_rm1 as int);
proof {
    vstd::arithmetic::power2::lemma2_to64();
    assert(3 * t3 == vw - vr1 && 2 * t13 == vr1 - vm);
    buf_fits(g1, gl1, vr1, k); buf_fits(jm, jl, fabs(vm), k); buf_fits(g3, gl3, fabs(vw), k);
    buf_at(g1, gl1, vr1, gl1); buf_at(jm, jl, fabs(vm), jl); buf_at(g3, gl3, fabs(vw), gl3);
}
-- after `let (mut sign_r3, len_r3)`
let ghost h3 = r3@; let ghost l3 = len_r3 as int;
proof {
    assert(0 * bp::<T>(l3) == 0);
    buf_new(h3, g3, gl3, fabs(vw), l3, imax(gl3, gl1), fabs(vw - vr1)); buf_at(h3, l3, fabs(vw - vr1), l3);
    assert(fabs(vw - vr1) == 3 * fabs(t3));
    assert(sign_r3 ==> t3 <= 0); assert(!sign_r3 ==> t3 >= 0);
}
-- after `let (mut len_r3, _)`
proof { if sign_rm2 { buf_put(r3@, g3, gl3, fabs(vw), l3, len_r3 as int, fabs(t3)); } else { buf_put(r3@, h3, l3, fabs(vw - vr1), l3, len_r3 as int, fabs(t3)); } }
let ghost g3b = r3@; let ghost gl3b = len_r3 as int;
proof { buf_fits(g3b, gl3b, fabs(t3), k); buf_at(g3b, gl3b, fabs(t3), gl3b); if !sign_rm1 { buf_fits(jm, jl, fabs(vm), gl1); } }
-- after `len_r1 = crate::ubig::sub::sub_assign_big(&mut r1[..len_r1], &rm1[..len_rm1])`
let ghost h1 = r1@.subrange(0, gl1); let ghost l1 = len_r1 as int;
proof {
    assert(0 * bp::<T>(l1) == 0);
    assert(h1.subrange(0, gl1) =~= h1); assert(g1.subrange(0, gl1) =~= g1);
    assert(dok(r1@)) by { reveal(dok); assert forall|i: int| 0 <= i < r1@.len() implies (#[trigger] r1@[i]).nwf() by { if i < gl1 { assert(h1[i].nwf()); } } }
    buf_put(h1, g1, gl1, vr1, gl1, l1, vr1 - vm); buf_fits(h1, l1, vr1 - vm, k); buf_fits(h1, l1, vr1 - vm, k); buf_at(h1, l1, vr1 - vm, l1);
    assert(r1@.subrange(0, l1) =~= h1.subrange(0, l1));
    assert(vl(h1.subrange(0, l1)) == 2 * t13);
}
-- after `let (mut len_r1, _)`
let ghost q1 = r1@.subrange(0, gl1);
proof {
    assert(q1.subrange(0, l1) =~= r1@.subrange(0, l1));
    assert(dok(r1@)) by { reveal(dok); assert forall|i: int| 0 <= i < r1@.len() implies (#[trigger] r1@[i]).nwf() by { if i < l1 { assert(r1@.subrange(0, l1)[i].nwf()); } } }
    buf_put(q1, h1, l1, vr1 - vm, l1, len_r1 as int, t13);
    buf_fits(q1, len_r1 as int, t13, k); buf_sub(r1@, gl1, len_r1 as int, t13); buf_at(q1, len_r1 as int, t13, len_r1 as int); }
== fn ubig::mul::toom3::square_toom3_into__r23
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires old(r2)@.len() >= 2, old(r3)@.len() >= old(r2)@.len(), old(r3)@.len() <= 0x4000_0000_0000_0000,
    ({ let k = old(r2)@.len() - 2; let (vm, c0, t3) = (vl(old(r2)@) as int, vl(r0@) as int, sg(sign_r3, vl(old(r3)@) as int));
       buf(old(r2)@, len_rm1 as int, fabs(vm)) && buf(r0@, len_r0 as int, c0) && sbuf(old(r3)@, len_r3 as int, sign_r3, t3, k)
       && fabs(vm) < bp::<T>(k) && c0 < bp::<T>(k) && fabs(vm - c0) < bp::<T>(k) && (vm - c0 - t3) % 2 == 0 })
ensures final(r2)@.len() == old(r2)@.len(), final(r3)@.len() == old(r3)@.len(),
    ({ let k = old(r2)@.len() - 2; let (vm, c0, t3) = (vl(old(r2)@) as int, vl(r0@) as int, sg(sign_r3, vl(old(r3)@) as int));
       sbuf(final(r2)@, r.0 as int, r.1, vm - c0, k) && sbuf(final(r3)@, r.2 as int, r.3, (vm - c0 - t3) / 2, k) })
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); lims::<T>(0); }
let ghost sign_rm1 = false;
let ghost k = r2@.len() - 2; let ghost (vm, c0, t3) = (sg(sign_rm1, vl(r2@) as int), vl(r0@) as int, sg(sign_r3, vl(r3@) as int));
let ghost (t2, t4) = (vm - c0, (vm - c0 - t3) / 2); let ghost sr3 = sign_r3;
let ghost (g2, gl2, g3b, gl3b, l0) = (r2@, len_rm1 as int, r3@, len_r3 as int, len_r0 as int);
let ghost mut ca = false; let ghost mut ua = r2@;
proof {
    vstd::arithmetic::power2::lemma2_to64();
    assert(2 * t4 == t2 - t3);
    buf_fits(g2, gl2, fabs(vm), k); buf_fits(r0@, l0, c0, k); buf_fits(g3b, gl3b, fabs(t3), k);
    buf_at(g2, gl2, fabs(vm), gl2); buf_at(r0@, l0, c0, l0); buf_at(g3b, gl3b, fabs(t3), gl3b);
}
-- after `let (sign_r2, mut len_r2)`
proof { buf_new(r2@, g2, gl2, fabs(vm), len_r2 as int, imax(gl2, l0), fabs(vm - c0)); assert(vm - c0 == t2); }

let ghost h2 = r2@; let ghost hl2 = len_r2 as int;
proof { assert(buf(h2, hl2, fabs(t2))); assert(sign_r2 ==> t2 <= 0); assert(!sign_r2 ==> t2 >= 0); buf_fits(h2, hl2, fabs(t2), k); buf_at(h2, hl2, fabs(t2), hl2); }
-- after `len_r3 = len_r3.max(len_r2)`
proof { buf_at(g3b, gl3b, fabs(t3), len_r3 as int); }
-- after `if sign_r2 != sign_r3`
let ghost h3b = r3@; let ghost l3b = len_r3 as int; let ghost far = sign_r2 != sr3;
proof {
    assert(0 * bp::<T>(l3b) == 0 && 1 * bp::<T>(l3b) == bp::<T>(l3b));
    if far { assert(vl(h3b.subrange(0, l3b)) + cb::<T>(carry, l3b) == fabs(t3) + fabs(t2)); }
    else { buf_new(h3b, g3b, gl3b, fabs(t3), l3b, imax(gl3b, hl2), fabs(fabs(t3) - fabs(t2))); buf_at(h3b, l3b, fabs(fabs(t3) - fabs(t2)), l3b); }
    assert(vl(h3b.subrange(0, l3b)) + cb::<T>(carry, l3b) == 2 * fabs(t4));
    assert(sign_r3 ==> t4 <= 0); assert(!sign_r3 ==> t4 >= 0);
}
-- after `let (mut len_r3, _)`
proof { if far { buf_put(r3@, g3b, gl3b, fabs(t3), l3b, len_r3 as int, fabs(t4)); } else { buf_put(r3@, h3b, l3b, fabs(fabs(t3) - fabs(t2)), l3b, len_r3 as int, fabs(t4)); }
    buf_fits(r3@, len_r3 as int, fabs(t4), k); buf_at(r3@, len_r3 as int, fabs(t4), len_r3 as int); }
== fn ubig::mul::toom3::square_toom3_into__r123
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires old(r1)@.len() >= 2, old(r2)@.len() == old(r1)@.len(), old(r3)@.len() >= old(r1)@.len(), old(r3)@.len() <= 0x4000_0000_0000_0000, dok(r4@), dnorm(r4@), r4@.len() == len_r4,
    ({ let k = old(r1)@.len() - 2; let (c13, t2, t4, c4) = (vl(old(r1)@.subrange(0, len_r1 as int)) as int, sg(sign_r2, vl(old(r2)@) as int), sg(sign_r3, vl(old(r3)@) as int), vl(r4@) as int); let c3 = t4 + 2 * c4;
       dok(old(r1)@) && len_r1 <= k && sbuf(old(r1)@.subrange(0, len_r1 as int), len_r1 as int, false, c13, k) && sbuf(old(r2)@, len_r2 as int, sign_r2, t2, k) && sbuf(old(r3)@, len_r3 as int, sign_r3, t4, k) && c4 < bp::<T>(k)
       && 0 <= c3 <= c13 && c3 < bp::<T>(k) && t4 + c4 < bp::<T>(k) && c4 <= t2 + c13 < bp::<T>(k) })
ensures final(r1)@.len() == old(r1)@.len(), final(r2)@.len() == old(r2)@.len(), final(r3)@.len() == old(r3)@.len(), dok(final(r1)@), dok(final(r2)@), dok(final(r3)@),
    ({ let (c13, t2, t4, c4) = (vl(old(r1)@.subrange(0, len_r1 as int)) as int, sg(sign_r2, vl(old(r2)@) as int), sg(sign_r3, vl(old(r3)@) as int), vl(r4@) as int); let c3 = t4 + 2 * c4;
       holds(final(r1)@, r.0 as int, c13 - c3) && holds(final(r2)@, r.1 as int, t2 + c13 - c4) && holds(final(r3)@, r.2 as int, c3) })
-- body start
hide(dok); hide(nlen); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); lims::<T>(0); }
let ghost k = r1@.len() - 2; let ghost (c13, t2, t4, c4) = (vl(r1@.subrange(0, len_r1 as int)) as int, sg(sign_r2, vl(r2@) as int), sg(sign_r3, vl(r3@) as int), vl(r4@) as int);
let ghost (c3, u2, l4) = (t4 + 2 * c4, t2 + c13, len_r4 as int);
let ghost o1 = r1@; let ghost (f1, fl1, h2, hl2, g3c, gl3c) = (r1@.subrange(0, len_r1 as int), len_r1 as int, r2@, len_r2 as int, r3@, len_r3 as int);
let ghost mut cc = false; let ghost mut uc = r3@; let ghost mut cd = false; let ghost mut ud = r3@; let ghost mut ce = false; let ghost mut ue = r2@;
proof {
    buf_fits(f1, fl1, c13, k); buf_fits(h2, hl2, fabs(t2), k); buf_fits(g3c, gl3c, fabs(t4), k);
    buf_at(f1, fl1, c13, fl1); buf_at(h2, hl2, fabs(t2), hl2); buf_at(g3c, gl3c, fabs(t4), gl3c);
    vl_bound(r4@); if l4 > 0 { norm_low(r4@); if l4 > k { bp_mono::<T>(k, l4 - 1); } }
    assert(r4@.subrange(0, l4) =~= r4@);
}
-- after `len_r3 = len_r3.max(len_r4)`
let ghost e3 = len_r3 as int;
proof { buf_at(g3c, gl3c, fabs(t4), e3); }
-- block start `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #0
proof { cc = true; uc = r3@; no_carry::<T>(e3, k, t4 + c4, true, vl(uc.subrange(0, e3)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #0
proof { if !cc { uc = r3@; } buf_up(r3@, uc, g3c, gl3c, fabs(t4), e3, cc, t4 + c4); }
let ghost i3 = r3@; let ghost il3 = len_r3 as int;
proof { buf_fits(i3, il3, t4 + c4, k); buf_at(i3, il3, t4 + c4, il3); }
-- block start `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #1
proof { cd = true; ud = r3@; no_carry::<T>(il3, k, c3, true, vl(ud.subrange(0, il3)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #1
proof { if !cd { ud = r3@; } buf_up(r3@, ud, i3, il3, t4 + c4, il3, cd, c3); buf_val(r3@, len_r3 as int, c3); buf_holds(r3@, len_r3 as int, c3); }
-- after `len_r3 = len_r4`
proof { buf_fits(g3c, gl3c, fabs(t4), l4); buf_at(g3c, gl3c, fabs(t4), l4); }
-- block start `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #2
proof { cc = true; uc = r3@; no_carry::<T>(l4, k, c3, true, vl(uc.subrange(0, l4)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r3[..len_r3], r4)` #2
proof { if !cc { uc = r3@; } buf_up(r3@, uc, g3c, gl3c, fabs(t4), l4, cc, c3); buf_val(r3@, len_r3 as int, c3); buf_holds(r3@, len_r3 as int, c3); }
-- before `let _ = crate::ubig::sub::sub_assign_big(&mut r3[..len_r4], r4)`
proof { assert(dok(g3c.subrange(0, l4))); }
-- after `let _ = crate::ubig::sub::sub_assign_big(&mut r3[..len_r4], r4)`
proof { wrap(g3c, gl3c, fabs(t4), l4, c4, r3@.subrange(0, l4)); }
-- after `len_r3 = crate::ubig::rsub::rsub_assign_big(&mut r3[..len_r4], r4)`
proof { slice_holds(r3@, l4, len_r3 as int, c3); dok_put(r3@, g3c, l4); }
-- after `if !sign_r3`
let ghost f3 = r3@; let ghost fl3 = len_r3 as int;
proof { assert(dok(f3)); assert(holds(f3, fl3, c3)); if sign_r2 { buf_fits(h2, hl2, fabs(t2), fl1); buf_at(h2, hl2, fabs(t2), fl1); } }
-- after `len_r2 = crate::ubig::rsub::rsub_assign_big(&mut r2[..len_r1], &r1[..len_r1])`
proof { buf_put(r2@, h2, hl2, fabs(t2), fl1, len_r2 as int, u2); }
-- after `len_r2 = len_r2.max(len_r1)`
let ghost e2b = len_r2 as int;
proof { buf_at(h2, hl2, fabs(t2), e2b); }
-- block start `if crate::ubig::add::add_assign_big(&mut r2[..len_r2], &r1[..len_r1])`
proof { ce = true; ue = r2@; no_carry::<T>(e2b, k, u2, true, vl(ue.subrange(0, e2b)) as int); }
-- after `if crate::ubig::add::add_assign_big(&mut r2[..len_r2], &r1[..len_r1])`
proof { if !ce { ue = r2@; } buf_up(r2@, ue, h2, hl2, fabs(t2), e2b, ce, u2); }
-- after `if sign_r2`
let ghost i2 = r2@; let ghost il2 = len_r2 as int;
proof { assert(buf(i2, il2, u2)); buf_fits(i2, il2, u2, k); buf_at(i2, il2, u2, il2); if l4 > il2 { bp_mono::<T>(il2, l4 - 1); } if fl3 > fl1 { bp_mono::<T>(fl1, fl3 - 1); } }
-- after `len_r2 = crate::ubig::sub::sub_assign_big(&mut r2[..len_r2], r4)`
proof { buf_put(r2@, i2, il2, u2, il2, len_r2 as int, u2 - c4); buf_val(r2@, len_r2 as int, u2 - c4); buf_holds(r2@, len_r2 as int, u2 - c4); }
-- after `len_r1 = crate::ubig::sub::sub_assign_big(&mut r1[..len_r1], &r3[..len_r3])`
let ghost q1 = r1@.subrange(0, fl1);
proof { assert(q1.subrange(0, fl1) =~= q1); buf_put(q1, f1, fl1, c13, fl1, len_r1 as int, c13 - c3); assert(dok(r1@)) by { assert(forall|i: int| fl1 <= i < r1@.len() ==> #[trigger] r1@[i] == o1[i]); dok_put(r1@, o1, fl1); } buf_sub(r1@, fl1, len_r1 as int, c13 - c3); }
== fn ubig::mul::toom3::square_toom3_into__sum
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- spec
requires dok(old(result)@), n <= old(result)@.len(), b + len_r1 <= n, 2 * b + len_r2 <= n, 3 * b + len_r3 <= n,
    ({ let nn = n as int; let (c1, c2, c3) = (vl(r1@.subrange(0, len_r1 as int)) as int, vl(r2@.subrange(0, len_r2 as int)) as int, vl(r3@.subrange(0, len_r3 as int)) as int);
       holds(r1@, len_r1 as int, c1) && holds(r2@, len_r2 as int, c2) && holds(r3@, len_r3 as int, c3) && c1 * bp::<T>(b as int) >= 0 && c2 * bp::<T>(2 * b) >= 0 && c3 * bp::<T>(3 * b) >= 0
       && pv(old(result)@, nn) + c1 * bp::<T>(b as int) + c2 * bp::<T>(2 * b) + c3 * bp::<T>(3 * b) < bp::<T>(nn) })
ensures final(result)@.len() == old(result)@.len(), dok(final(result)@), keep(old(result)@, final(result)@, n as int),
    ({ let nn = n as int; let (c1, c2, c3) = (vl(r1@.subrange(0, len_r1 as int)) as int, vl(r2@.subrange(0, len_r2 as int)) as int, vl(r3@.subrange(0, len_r3 as int)) as int);
       pv(final(result)@, nn) == pv(old(result)@, nn) + c1 * bp::<T>(b as int) + c2 * bp::<T>(2 * b) + c3 * bp::<T>(3 * b) })
-- body start
hide(dok); hide(keep);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>();  }
let ghost nn = n as int; let ghost s0 = result@;
let ghost (c1, c2, c3) = (vl(r1@.subrange(0, len_r1 as int)) as int, vl(r2@.subrange(0, len_r2 as int)) as int, vl(r3@.subrange(0, len_r3 as int)) as int);
-- after `crate::ubig::add::add_assign_big(&mut result[b..], &r1[..len_r1])`
let ghost s1 = result@;
proof { addin(s1, s0, b as int, nn, c1); }
-- after `crate::ubig::add::add_assign_big(&mut result[2*b..], &r2[..len_r2])`
let ghost s2 = result@;
proof { addin(s2, s1, 2 * b, nn, c2); keep_trans(s0, s1, s2, nn); }
-- after `crate::ubig::add::add_assign_big(&mut result[3*b..], &r3[..len_r3])`
let ghost s3 = result@;
proof { addin(s3, s2, 3 * b, nn, c3); keep_trans(s0, s2, s3, nn); }
== fn ubig::mul::toom3::square_toom3_into
-- attr #[verifier::rlimit(1000)] #[verifier::spinoff_prover]
-- outline square_toom3_into__p `let min_b_nd0` to `if sign_pm2`
in nr0: &'a [T], nd0: usize, b: usize, p1: &mut [T], pm1: &mut [T], pm2: &mut [T]
out p0: &'a [T], m1: &'a [T], pinf: &'a [T], len_p1: usize, sign_pm1: bool, len_pm1: usize, len_pm2: usize
-- outline square_toom3_into__r13 `let (mut sign_r3, len_r3)` to `let (mut len_r1, _)`
in r3: &mut [T], len_rm2: usize, r1: &mut [T], mut len_r1: usize, rm1: &[T], len_rm1: usize
out mut len_r3: usize, mut sign_r3: bool, mut len_r1: usize
-- outline square_toom3_into__r23 `let (sign_r2, mut len_r2)` to `let (mut len_r3, _)` #1
in r2: &mut [T], len_rm1: usize, r0: &[T], len_r0: usize, r3: &mut [T], mut len_r3: usize, mut sign_r3: bool
out mut len_r2: usize, sign_r2: bool, mut len_r3: usize, sign_r3: bool
-- outline square_toom3_into__r123 `if !sign_r3` to `len_r1 = crate::ubig::sub::sub_assign_big` #1
in r1: &mut [T], mut len_r1: usize, r2: &mut [T], mut len_r2: usize, r3: &mut [T], mut len_r3: usize, r4: &[T], len_r4: usize, sign_r2: bool, sign_r3: bool
out len_r1: usize, len_r2: usize, len_r3: usize
-- outline square_toom3_into__sum `crate::ubig::add::add_assign_big(&mut result[b..], &r1[..len_r1])` to `crate::ubig::add::add_assign_big(&mut result[3*b..], &r3[..len_r3])`
in result: &mut [T], b: usize, n: usize, r1: &[T], len_r1: usize, r2: &[T], len_r2: usize, r3: &[T], len_r3: usize
out
-- body start
hide(dok); hide(nlen); hide(prod0); hide(prod); hide(keep); hide(buf);
broadcast use crate::lem::dok_sub;
proof { pv_init::<T>(); ax_mem(nr0); assert(nr0@.subrange(0, nr0@.len() as int) =~= nr0@); assert(result@.subrange(0, result@.len() as int) =~= result@); }
-- after `let b =`
let ghost r_old = result@; let ghost bb = bp::<T>(b as int) as int; let ghost q2 = bb * bb;
proof { lims::<T>(b as int); assert(tws(nd0 as int) == 6 * b + 10 + tws(b + 2)); tws_bound(b + 2); assert(2 * b + 4 <= nd0 + nd0 && b + 2 < nd0 <= 3 * b); }
-- after `let (pm1, pm2)`
proof { buf_zero(pm1@); buf_zero(pm2@); buf_zero(p1@); }
-- after `let (rm1, rm2)`
proof { assert(dok(r1@) && dok(rm1@) && dok(rm2@) && dok(new_work@)) by { reveal(dok); } }
-- after `square_toom3_into__p(nr0, nd0, b, p1, pm1, pm2)`
let ghost (x0, x1, x2) = (vl(p0@) as int, vl(m1@) as int, vl(pinf@) as int);
let ghost (xe, xn, xt) = (x0 + x1 + x2, x0 - x1 + x2, x0 - 2 * x1 + 4 * x2);
let ghost (zx1, zxm1, zxm2) = (p1@, pm1@, pm2@);
let ghost (lp1, lpm1, lpm2) = (len_p1 as int, len_pm1 as int, len_pm2 as int);
proof { buf_at(zx1, lp1, xe, lp1); buf_at(zxm1, lpm1, fabs(xn), lpm1); buf_at(zxm2, lpm2, fabs(xt), lpm2); }
-- before `let mut len_r1`
let ghost gr1 = r1@;
proof {
    ws_toom(lp1, lp1, b + 2); ws_toom(lpm1, lpm1, b + 2); ws_toom(lpm2, lpm2, b + 2); ws_toom(p0@.len() as int, p0@.len() as int, b + 2); ws_toom(pinf@.len() as int, pinf@.len() as int, b + 2);
}
-- after `let mut len_r1`
proof { buf_prod_cut(gr1, r1@, lp1, lp1, len_r1 as int, xe * xe); }
let ghost grm1 = rm1@;
proof { assert(dok(grm1)) by { reveal(dok);  } }
-- after `let len_rm1`
let ghost hrm1 = rm1@;
proof { pfacts(grm1, hrm1, lpm1, lpm1, len_rm1 as int, fabs(xn) * fabs(xn)); }
-- after `crate::shim::slice_fill(&mut rm1[len_rm1..]`
proof { assert forall|i: int| len_rm1 <= i < rm1@.len() implies (#[trigger] rm1@[i]).nv() == 0 && rm1@[i].nwf() by { let t = rm1@.subrange(len_rm1 as int, rm1@.len() as int); assert(t[i - len_rm1] == rm1@[i]); } buf_prod(grm1, hrm1, rm1@, lpm1, lpm1, len_rm1 as int, fabs(xn) * fabs(xn)); }
let ghost grm2 = rm2@;
proof { assert(dok(grm2)) by { reveal(dok); } }
-- after `let len_rm2`
let ghost hrm2 = rm2@;
proof { pfacts(grm2, hrm2, lpm2, lpm2, len_rm2 as int, fabs(xt) * fabs(xt)); }
-- after `crate::shim::slice_fill(&mut rm2[len_rm2..]`
proof { assert forall|i: int| len_rm2 <= i < rm2@.len() implies (#[trigger] rm2@[i]).nv() == 0 && rm2@[i].nwf() by { let t = rm2@.subrange(len_rm2 as int, rm2@.len() as int); assert(t[i - len_rm2] == rm2@[i]); } buf_prod(grm2, hrm2, rm2@, lpm2, lpm2, len_rm2 as int, fabs(xt) * fabs(xt)); }
-- after `crate::shim::slice_fill(&mut result[..n]`
proof { assert forall|i: int| 0 <= i < n implies (#[trigger] result@[i]).nv() == 0 && result@[i].nwf() by { let t = result@.subrange(0, n as int); assert(t[i] == result@[i]); } buf_clear3(result@, zx1, zxm1, zxm2, lp1, xe, lpm1, fabs(xn), lpm2, fabs(xt), n as int); }
-- after `let (r0, r4)`
let ghost (gr0, gr4) = (r0@, r4@);
proof { buf_zero(gr0); buf_zero(gr4); assert(pinf@.len() > 0 && pinf@.len() > 0 ==> gr4.len() >= pinf@.len() + pinf@.len()); }
-- after `let len_r4`
let ghost (fr0, fr4) = (r0@, r4@); let ghost (l0, l4) = (len_r0 as int, len_r4 as int);
let ghost (c0, c1, c2, c3, c4) = (k0(x0, x1, x2, x0, x1, x2), k1(x0, x1, x2, x0, x1, x2), k2(x0, x1, x2, x0, x1, x2), k3(x0, x1, x2, x0, x1, x2), k4(x0, x1, x2, x0, x1, x2));
let ghost (vr1, vm, vw) = (xe * xe, xn * xn, xt * xt);
let ghost pp = (vl(nr0@) * vl(nr0@)) as int;
proof {
    buf_prod0(gr0, fr0, p0@.len() as int, p0@.len() as int, l0, x0 * x0, 0); buf_prod0(gr4, fr4, pinf@.len() as int, pinf@.len() as int, l4, x2 * x2, 0);
    coefs(x0, x1, x2, x0, x1, x2, bb); sgmul(xn, xn); sgmul(xt, xt);
    buf_at(fr0, l0, c0, l0); buf_at(fr4, l4, c4, l4);
    assert(buf(r1@.subrange(0, len_r1 as int), len_r1 as int, vr1) && buf(rm1@, len_rm1 as int, fabs(vm)) && buf(rm2@, len_rm2 as int, fabs(vw)));
    buf_at(r1@.subrange(0, len_r1 as int), len_r1 as int, vr1, len_r1 as int); buf_at(rm1@, len_rm1 as int, fabs(vm), len_rm1 as int); buf_at(rm2@, len_rm2 as int, fabs(vw), len_rm2 as int);
    
    buf_val(r1@.subrange(0, len_r1 as int), len_r1 as int, vr1); buf_val(rm1@, len_rm1 as int, fabs(vm)); buf_val(rm2@, len_rm2 as int, fabs(vw)); buf_val(fr0, l0, c0); buf_val(fr4, l4, c4);
    assert(vl(r1@.subrange(0, len_r1 as int)) == vr1);
    buf_fits(r1@.subrange(0, len_r1 as int), len_r1 as int, vr1, 2 * b + 1);
    triple(c0, c1, c2, c3, c4, vr1, vm, vw);
}
-- after `square_toom3_into__r13(r3, len_rm2, r1, len_r1, rm1, len_rm1)`
proof { let t3 = (vw - vr1) / 3; let t13 = (vr1 - vm) / 2; assert(sbuf(r3@, len_r3 as int, sign_r3, t3, 2 * b + 1)); assert(sbuf(r1@.subrange(0, len_r1 as int), len_r1 as int, false, t13, 2 * b + 1));
    buf_val(r3@, len_r3 as int, fabs(t3)); buf_val(r1@.subrange(0, len_r1 as int), len_r1 as int, fabs(t13)); assert(sg(sign_r3, vl(r3@) as int) == t3); assert(vl(r1@.subrange(0, len_r1 as int)) == c1 + c3); }
-- after `square_toom3_into__r23(r2, len_rm1, r0, len_r0, r3, len_r3, sign_r3)`
proof { let t4 = c3 - 2 * c4; let t2 = vm - c0; assert(sbuf(r2@, len_r2 as int, sign_r2, t2, 2 * b + 1)); assert(sbuf(r3@, len_r3 as int, sign_r3, t4, 2 * b + 1));
    buf_val(r3@, len_r3 as int, fabs(t4)); buf_val(r2@, len_r2 as int, fabs(t2)); assert(sg(sign_r3, vl(r3@) as int) == t4); assert(sg(sign_r2, vl(r2@) as int) == t2); }
-- after `let r4 =`
proof { assert(vl(r4@) == c4 && dok(r4@) && dnorm(r4@)); }
-- after `square_toom3_into__r123(r1, len_r1, r2, len_r2, r3, len_r3, r4, len_r4, sign_r2, sign_r3)`
let ghost nn = n as int; let ghost s0 = result@;
proof {
    assert(holds(r1@, len_r1 as int, c1) && holds(r2@, len_r2 as int, c2) && holds(r3@, len_r3 as int, c3));
    vl_bound(nr0@); vl_bound(nr0@); bp_add::<T>(nd0 as int, nd0 as int); mul_lt(vl(nr0@) as int, vl(nr0@) as int, bp::<T>(nd0 as int) as int, bp::<T>(nd0 as int) as int);
    terms(bb, c0, c1, c2, c3, c4);
    assert(s0 =~= fr0 + fr4);
    tjoin(r_old, fr0, fr4, l0, c0, l4, c4, b as int, nn, pp);
    mid_fits::<T>(b as int, len_r1 as int, nn, c1, len_r1 as int, pp); mid_fits::<T>(2 * b, len_r2 as int, nn, c2, len_r2 as int, pp); mid_fits::<T>(3 * b, len_r3 as int, nn, c3, len_r3 as int, pp);
}
-- after `square_toom3_into__sum(result, b, n, r1, len_r1, r2, len_r2, r3, len_r3)`
proof { assert(pv(result@, nn) == pp); keep_trans(r_old, s0, result@, nn); }
-- tail
proof { ptail(r_old, result@, nn, tail__ as int, pp); dok_cat(r2@, r3@); dok_cat(r1@, r2@ + r3@); dok_cat(r1@ + (r2@ + r3@), new_work@); }
== end

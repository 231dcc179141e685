//! Drivers: quaternions (C12, C13, C14).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
#[path = "../elem.rs"]
mod elem;
use common::*;
use elem::*;
use pjs::*;
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_trigonometry::*;
use std::f64::consts::PI;

macro_rules! scal { ($rec:expr, $o:expr, $s:expr, $a:expr, $deg:expr, $x:expr, $op:tt, $y:expr) => {{
    let (x, y) = ($x, $y);
    $rec.call("quat", $o, "vv", $s, &[], $a, $deg, || x $op y);
    $rec.call("quat", $o, "vr", $s, &[], $a, $deg, || x $op &y);
    $rec.call("quat", $o, "rv", $s, &[], $a, $deg, || &x $op y);
    $rec.call("quat", $o, "rr", $s, &[], $a, $deg, || &x $op &y);
}} }
fn ring<S: Sc + SimdScalarSigned>(rec: &mut Rec, mag: i64, frac: bool) {
    let g = |rec: &mut Rec| gen(&mut rec.rng, 4, mag, S::DEN, true);
    let (a, b, c) = (g(rec), g(rec), g(rec));
    let s = gen(&mut rec.rng, 1, mag, S::DEN, true)[0];
    let (x, y, z, sc) = (quat::<S>(&a), quat::<S>(&b), quat::<S>(&c), S::ofq(s));
    let ab = [rr(&a), rr(&b)];
    let abc = [rr(&a), rr(&b), rr(&c)];
    let as_ = [rr(&a), vec![s.r()]];
    let a1 = [rr(&a)];
    let n = S::NAME;
    bin!(rec, "quat", "add", n, &[], &ab, 1, x, +, y);
    bin!(rec, "quat", "sub", n, &[], &ab, 1, x, -, y);
    bin!(rec, "quat", "mul", n, &[], &ab, 2, x, *, y);
    asg!(rec, "quat", "add", n, &[], &ab, 1, x, +=, y, ref);
    asg!(rec, "quat", "sub", n, &[], &ab, 1, x, -=, y, ref);
    scal!(rec, "smul", n, &as_, 2, x, *, sc);
    asg!(rec, "quat", "smul", n, &[], &as_, 2, x, *=, sc);
    rec.call("quat", "assoc", "m", n, &[], &abc, 3, || x * (y * z));
    rec.call("quat", "neg", "v", n, &[], &a1, 1, || -x);
    rec.call("quat", "neg", "r", n, &[], &a1, 1, || -&x);
    rec.call("quat", "conj", "m", n, &[], &a1, 1, || x.conjugate());
    rec.call("quat", "conj", "mut", n, &[], &a1, 1, || { let mut t = x; t.conjugate_mut(); t });
    rec.call("quat", "conjmul", "m", n, &[], &ab, 2, || (x * y).conjugate());
    rec.call("quat", "normsq", "modulus", n, &[], &a1, 2, || x.modulus_squared());
    rec.call("quat", "normsq", "norm", n, &[], &a1, 2, || x.norm_squared());
    rec.call("quat", "normsq", "magnitude", n, &[], &a1, 2, || x.magnitude_squared());
    rec.call("quat", "normsq", "conj", n, &[], &a1, 2, || (x * x.conjugate()).scalar());
    if n != "f32" {
        rec.call("quat", "normmul", "m", n, &[], &ab, 4, || (x * y).norm_squared());
    }
    rec.call("quat", "distsq", "m", n, &[], &ab, 2, || x.metric_distance_squared(&y));
    rec.call("quat", "dot", "m", n, &[], &ab, 2, || x.dot(&y));
    rec.call("quat", "squared", "m", n, &[], &a1, 2, || x.squared());
    rec.call("quat", "scalar", "m", n, &[], &a1, 1, || x.scalar());
    rec.call("quat", "vector", "m", n, &[], &a1, 1, || x.vector());
    rec.call("quat", "ispure", "m", n, &[], &a1, 0, || x.is_pure());
    rec.call("quat", "isreal", "m", n, &[], &a1, 0, || x.is_real());
    rec.call("quat", "iszero", "m", n, &[], &a1, 0, || x.is_zero());
    rec.call("quat", "isone", "m", n, &[], &a1, NOSCALE, || x.is_identity());
    let e: [S; 4] = arr(&a);
    let v3: Vector3<S> = vec::<S, 3>(&a[1..]);
    rec.call("quat", "parts", "new", n, &[], &a1, 1, || Quaternion::new(e[0], e[1], e[2], e[3]));
    rec.call("quat", "parts", "parts", n, &[], &a1, 1, || Quaternion::from_parts(e[0], v3));
    rec.call("quat", "parts", "vector", n, &[], &a1, 1, || Quaternion::from_vector(vec::<S, 4>(&a)));
    rec.call("quat", "parts", "array", n, &[], &a1, 1, || Quaternion::from(e));
    rec.call("quat", "parts", "arrayr", n, &[], &a1, 1, || Quaternion::from(&e));
    rec.call("quat", "parts", "tuple", n, &[], &a1, 1, || Quaternion::from((e[0], e[1], e[2], e[3])));
    rec.call("quat", "parts", "map", n, &[], &a1, 1, || x.map(|t| t));
    rec.call("quat", "ofreal", "m", n, &[], &[vec![s.r()]], 1, || Quaternion::from_real(sc));
    rec.call("quat", "ofpure", "m", n, &[], &[rr(&a[1..])], 1, || Quaternion::from_pure(v3));
    rec.call("quat", "fill", "m", n, &[], &[vec![s.r()]], 1, || Quaternion::from_fill(sc));
    if frac && s.0 != 0 {
        scal!(rec, "sdiv", n, &as_, 0, x, /, sc);
        asg!(rec, "quat", "sdiv", n, &[], &as_, 0, x, /=, sc);
        rec.call("quat", "half", "m", n, &[], &a1, 1, || x.half());
    }
}
fn rems<S: Sc + SimdScalar>(rec: &mut Rec, hi: i64) {
    let a: Vec<Q> = (0..4).map(|_| q(rec.rng.int(-hi, hi))).collect();
    let s = loop { let s = rec.rng.int(-hi, hi); if s != 0 { break q(s) } };
    let (x, sc) = (quat::<S>(&a), S::ofq(s));
    let as_ = [raw(&a), vec![s.0]];
    rec.rawcall("quat", "remi", "vv", S::NAME, &[], &as_, || x % sc);
    rec.rawcall("quat", "remi", "vr", S::NAME, &[], &as_, || x % &sc);
    rec.rawcall("quat", "remi", "rv", S::NAME, &[], &as_, || &x % sc);
    rec.rawcall("quat", "remi", "rr", S::NAME, &[], &as_, || &x % &sc);
    rec.rawcall("quat", "remi", "av", S::NAME, &[], &as_, || { let mut z = x; z %= sc; z });
}
fn consts<S: Sc + SimdScalarSigned>(rec: &mut Rec) {
    let n = S::NAME;
    type T<S> = Quaternion<S>;
    rec.call("quat", "zero", "m", n, &[], &[], 0, || T::<S>::zero());
    rec.call("quat", "zero", "default", n, &[], &[], 0, || T::<S>::default());
    rec.call("quat", "unit", "one", n, &[1], &[], 0, || T::<S>::one());
    rec.call("quat", "unit", "identity", n, &[1], &[], 0, || T::<S>::identity());
    let u = [T::<S>::unit_s(), T::<S>::unit_x(), T::<S>::unit_y(), T::<S>::unit_z()];
    for i in 0..4 {
        rec.call("quat", "unit", "unit", n, &[i as i64 + 1], &[], 0, || u[i]);
        for j in 0..4 {
            rec.call("quat", "table", "vv", n, &[i as i64 + 1, j as i64 + 1], &[], 0, || u[i] * u[j]);
            rec.call("quat", "table", "rr", n, &[i as i64 + 1, j as i64 + 1], &[], 0, || &u[i] * &u[j]);
        }
    }
}
fn nrm(a: &[Q]) -> i64 {
    let l = lcd(a);
    a.iter().map(|x| { let t = x.0 * (l / x.1); t * t }).sum()
}
fn field<S: Sc + SimdScalarFloat>(rec: &mut Rec, mag: i64) {
    let n = S::NAME;
    let a = if rec.rng.chance(15) { qs(&[0, 0, 0, 0]) } else { gen(&mut rec.rng, 4, mag, S::DEN, true) };
    let b = if rec.rng.chance(15) { qs(&[0, 0, 0, 0]) } else { gen(&mut rec.rng, 4, mag, S::DEN, true) };
    let (x, y) = (quat::<S>(&a), quat::<S>(&b));
    let a1 = [rr(&a)];
    let ab = [rr(&a), rr(&b)];
    rec.call("quat", "parts", "vec4", n, &[], &a1, 1, || Quaternion::from(vec::<S, 4>(&a)));
    rec.call("quat", "parts", "vec4r", n, &[], &a1, 1, || Quaternion::from(&vec::<S, 4>(&a)));
    hint(nrm(&a));
    rec.call("quat", "inv", "try", n, &[], &a1, -1, || x.try_inverse());
    rec.call("quat", "invp", "m", n, &[], &a1, -1, || x.inverse());
    hint(1);
    if a != qs(&[0, 0, 0, 0]) || scale() == 0 {
        rec.call("quat", "canInv", "m", n, &[], &a1, 0, || nz(&a, x.is_invertible()));
    }
    hint(nrm(&b) * lcd(&a));
    rec.call("quat", "divl", "m", n, &[], &ab, 0, || x.div_left(&y));
    rec.call("quat", "divr", "m", n, &[], &ab, 0, || x.div_right(&y));
    if nrm(&b) != 0 {
        rec.call("quat", "project", "m", n, &[], &ab, 1, || x.project(&y));
        rec.call("quat", "reject", "m", n, &[], &ab, 1, || x.reject(&y));
    }
    hint(1);
    rec.call("quat", "inner", "m", n, &[], &ab, 2, || x.inner(&y));
    rec.call("quat", "outer", "m", n, &[], &ab, 2, || x.outer(&y));
    {
        let s = loop { let s = gen(&mut rec.rng, 1, 9, 1, true)[0]; if s.0 != 0 { break s } };
        let (sc, e) = (S::ofq(s), [rr(&a), vec![s.r()]]);
        hint(s.0 * lcd(&a));
        rec.call("quat", "smul", "nscale", n, &[], &e, 2, || Normed::scale(&x, sc));
        rec.call("quat", "smul", "nscalem", n, &[], &e, 2, || { let mut z = x; Normed::scale_mut(&mut z, sc); z });
        rec.call("quat", "sdiv", "nscale", n, &[], &e, 0, || Normed::unscale(&x, sc));
        rec.call("quat", "sdiv", "nscalem", n, &[], &e, 0, || { let mut z = x; Normed::unscale_mut(&mut z, sc); z });
        hint(1);
    }
    let t = Q(rec.rng.int(-4, 8), 4);
    rec.call("quat", "lerp", "m", n, &[], &[rr(&a), rr(&b), vec![t.r()]], NOSCALE, || x.lerp(&y, S::ofq(t)));
    if scale() == 0 {
        rec.call("quat", "norm", "norm", n, &[], &a1, 0, || sqd(x.norm()));
        rec.call("quat", "norm", "modulus", n, &[], &a1, 0, || sqd(x.modulus()));
        rec.call("quat", "norm", "magnitude", n, &[], &a1, 0, || sqd(x.magnitude()));
        rec.call("quat", "norm", "l2", n, &[], &a1, 0, || sqd(x.l2_norm()));
        rec.call("quat", "dist", "m", n, &[], &ab, 0, || sqd(x.metric_distance(&y)));
        let ai: Vec<Q> = (0..4).map(|_| q(rec.rng.int(-mag, mag))).collect();
        let xi = quat::<S>(&ai);
        rec.rawcall("quat", "l1", "m", n, &[], &[raw(&ai)], || xi.l1_norm());
    }
}
/// is_invertible of exactly zero is a boundary of its threshold
fn nz(a: &[Q], r: bool) -> bool {
    r && a.iter().any(|x| x.0 != 0)
}
fn c12(rec: &mut Rec) {
    consts::<f64>(rec);
    consts::<f32>(rec);
    consts::<i32>(rec);
    for v in 0..5usize {
        for i in 0..4usize {
            let bad = [0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX][v];
            let mut c = [0.5; 4];
            c[i] = bad;
            let mut k = vec![0; 4];
            k[i] = if v == 1 { 2 } else if v == 2 || v == 3 { 1 } else { 0 };
            rec.call("quat", "isfin", "m", "f64", &[], &[k], 0, || Quaternion::from(c).is_finite());
        }
    }
    for it in 0..rec.iters(250, 2500) {
        rec.next();
        ring::<f64>(rec, [9, 20, 60, 4][it % 4], true);
        ring::<f32>(rec, 5, it % 2 == 0);
        ring::<i32>(rec, 60, false);
        if it % 4 == 0 {
            ring::<i64>(rec, 999, false);
            ring::<i16>(rec, 7, false);
        }
        field::<f64>(rec, [9, 20, 40, 4][it % 4]);
        field::<f32>(rec, 4);
        rems::<f64>(rec, 99);
        rems::<i32>(rec, 999);
        if it % 8 == 0 {
            set_scale([60, 30, 120, 200][it / 8 % 4]);
            ring::<f64>(rec, 9, true);
            field::<f64>(rec, 9);
            set_scale(0);
            set_scale([-60, -30, -120, -200][it / 8 % 4]);
            ring::<f64>(rec, 9, true);
            set_scale(0);
            set_scale([-10, -30, -20, -5][it / 8 % 4]);
            field::<f64>(rec, 9);
            set_scale(0);
        }
    }
}

// ------------------------------------------------------------ rotations
fn unit3<S: Fl>(u: &[Q]) -> Unit<Vector3<S>> {
    Unit::from_value_unchecked(vec::<S, 3>(u))
}
fn rots<S: Fl>(rec: &mut Rec) {
    let fine = S::NAME == "f64";
    let n = S::NAME;
    // half-angle rational
    let (c, s, h) = angle(&mut rec.rng, fine);
    let u = uvec(&mut rec.rng, fine);
    let turn = rec.rng.int(-1, 1) as f64;
    let th = 2.0 * h + 4.0 * PI * turn;
    let ax = [vec![c.r(), s.r()], rr(&u)];
    let un = unit3::<S>(&u);
    hint(lcd(&[c, s]) * lcd(&u));
    rec.call("quat", "axang", "rad", n, &[], &ax, 0, || Quaternion::from_axis_angle(&un, Radians(S::of(th))));
    rec.call("quat", "axang", "deg", n, &[], &ax, 0, || Quaternion::from_axis_angle(&un, Degrees(S::of(th.to_degrees()))));
    hint(1);
    // close to no turn, half a turn, a full turn
    if rec.rng.chance(3) {
        let m = if fine { rec.rng.int(20, 2500) } else { rec.rng.int(6, 14) };
        let (mut c, mut s) = (m * m - 1, if rec.rng.chance(2) { 2 * m } else { -2 * m });
        let t = (s as f64).atan2(c as f64);
        let k = rec.rng.int(0, 3);
        for _ in 0..k { let x = c; c = -s; s = x; }
        let u = if fine { uvec(&mut rec.rng, false) } else { let mut u = qs(&[0, 0, 0]); u[rec.rng.below(3)] = q(1); u };
        let th = 2.0 * t + k as f64 * PI;
        let (c, s) = (Q::red(c, m * m + 1), Q::red(s, m * m + 1));
        let ax = [vec![c.r(), s.r()], rr(&u)];
        let un = unit3::<S>(&u);
        hint(lcd(&[c, s]) * lcd(&u));
        rec.call("quat", "axang", "qrad", n, &[], &ax, 0, || Quaternion::from_axis_angle(&un, Radians(S::of(th))));
        rec.call("quat", "axang", "qdeg", n, &[], &ax, 0, || Quaternion::from_axis_angle(&un, Degrees(S::of(th.to_degrees()))));
        hint(1);
    }
    // any non-zero quaternion denotes a rotation
    let mut a = loop { let a = if rec.rng.chance(2) { uquat(&mut rec.rng, fine) } else { gen(&mut rec.rng, 4, if fine { 9 } else { 3 }, 1, true) }; if nrm(&a) != 0 { break a } };
    let b = loop { let a = if rec.rng.chance(2) { uquat(&mut rec.rng, fine) } else { gen(&mut rec.rng, 4, if fine { 4 } else { 2 }, 1, true) }; if nrm(&a) != 0 { break a } };
    // one part much larger than the others
    if fine && rec.rng.chance(5) {
        a = gen(&mut rec.rng, 4, 4, 1, true);
        a[rec.rng.below(4)] = q(rec.rng.int(20, 2500) * if rec.rng.chance(2) { 1 } else { -1 });
    }
    let (x, y) = (quat::<S>(&a), quat::<S>(&b));
    let a1 = [rr(&a)];
    let m3 = mat::<S, 3, 3>(&gen(&mut rec.rng, 9, 9, 1, true));
    let m4 = mat::<S, 4, 4>(&gen(&mut rec.rng, 16, 9, 1, true));
    hint(nrm(&a));
    rec.call("quat", "tomat", "m", n, &[], &a1, 0, || x.to_matrix());
    rec.call("quat", "tomat", "mut", n, &[], &a1, 0, || { let mut t = m3; x.to_matrix_mut(&mut t); t });
    rec.call("quat", "tomat", "from", n, &[], &a1, 0, || Matrix3x3::from(x));
    rec.call("quat", "tomat", "fromr", n, &[], &a1, 0, || Matrix3x3::from(&x));
    rec.call("quat", "toaff", "m", n, &[], &a1, 0, || x.to_affine_matrix());
    rec.call("quat", "toaff", "mut", n, &[], &a1, 0, || { let mut t = m4; x.to_affine_matrix_mut(&mut t); t });
    rec.call("quat", "toaff", "from", n, &[], &a1, 0, || Matrix4x4::from(x));
    rec.call("quat", "toaff", "fromr", n, &[], &a1, 0, || Matrix4x4::from(&x));
    let v = gen(&mut rec.rng, 3, 9, 1, true);
    let vv = vec::<S, 3>(&v);
    rec.call("quat", "turn", "m", n, &[], &[rr(&a), rr(&v)], 0, || x.to_matrix() * vv);
    rec.call("quat", "turn", "q", n, &[], &[rr(&a), rr(&v)], 0, || (x * Quaternion::from_pure(vv) * x.inverse()).vector());
    let ab = [rr(&a), rr(&b)];
    if nrm(&a) * nrm(&b) < if fine { 100_000_000 } else { 2000 } {
        hint(nrm(&a) * nrm(&b));
        rec.call("quat", "prodmat", "q", n, &[], &ab, 0, || (x * y).to_matrix());
        rec.call("quat", "prodmat", "m", n, &[], &ab, 0, || x.to_matrix() * y.to_matrix());
    }
    // every branch of the conversion from a matrix
    let r = rotq(&a);
    let rm = mat::<S, 3, 3>(&r);
    hint(nrm(&a));
    rec.call("quat", "frommat", "m", n, &[], &[rr(&r)], 0, || prods(&Quaternion::from_matrix(&rm)));
    rec.call("quat", "frommat", "from", n, &[], &[rr(&r)], 0, || prods(&Quaternion::from(rm)));
    rec.call("quat", "frommat", "fromr", n, &[], &[rr(&r)], 0, || prods(&Quaternion::from(&rm)));
    hint(nrm(&a));
    rec.call("quat", "roundtrip", "m", n, &[], &[rr(&r)], 0, || Quaternion::from_matrix(&rm).to_matrix());
    hint(1);
    // rotations between directions
    let (v, mut w) = (uvec(&mut rec.rng, fine), uvec(&mut rec.rng, fine));
    if rec.rng.chance(6) { w = v.clone(); }
    if rec.rng.chance(8) { w = v.iter().map(|x| -*x).collect(); }
    let anti = (0..3).all(|i| v[i] == -w[i]);
    let same = (0..3).all(|i| v[i] == w[i]);
    let d = [anti as i64];
    // products of the half-angle quaternion have denominators 2 (1 + v.w) * ...
    let dotq = v[0] * w[0] + v[1] * w[1] + v[2] * w[2];
    let den = if anti { 1 } else { let z = q(2) * (q(1) + dotq); let l = lcd(&v) * lcd(&w); l * l / gcd(l * l, z.1) * z.0.abs() };
    let coarse = dotq.f() > 0.9999 && !same || dotq.f() < -0.999 && !anti || !fine && !same && !anti && dotq.f().abs() > 0.7;
    if !coarse && (fine || den < 2000) && den < 100_000_000 {
        hint(den);
        let (nv, nw) = (q(1), q(1));
        let ar = [rr(&v), rr(&w), vec![nv.r(), nw.r()]];
        rec.call("quat", "between", "unit", n, &d, &ar, 0, || Quaternion::rotation_between_axis(&unit3::<S>(&v), &unit3::<S>(&w)).map(|t| prods(&t)));
        let (k1, k2) = (q(rec.rng.int(1, 9)), q(rec.rng.int(1, 9)));
        let (v2, w2): (Vec<Q>, Vec<Q>) = (v.iter().map(|x| *x * k1).collect(), w.iter().map(|x| *x * k2).collect());
        let ar = [rr(&v2), rr(&w2), vec![k1.r(), k2.r()]];
        rec.call("quat", "between", "vec", n, &d, &ar, 0, || Quaternion::rotation_between(&vec::<S, 3>(&v2), &vec::<S, 3>(&w2)).map(|t| prods(&t)));
        // directions do not depend on the magnitudes of the vectors
        let (z1, z2) = (S::of(2f64.powi(rec.rng.int(-40, 40) as i32 / if fine { 1 } else { 4 })), S::of(2f64.powi(rec.rng.int(-40, 40) as i32 / if fine { 1 } else { 4 })));
        rec.call("quat", "between", "veck", n, &d, &ar, 0, || Quaternion::rotation_between(&(vec::<S, 3>(&v2) * z1), &(vec::<S, 3>(&w2) * z2)).map(|t| prods(&t)));
        hint(1);
    }
}
/// infinitesimal rotations, nearly parallel directions
fn tiny<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let fr = loop { let fr = rotq(&uquat(&mut rec.rng, fine)); if lcd(&fr) <= if fine { 120 } else { 25 } { break fr } };
    let (v, b): (Vec<Q>, Vec<Q>) = (fr[0..3].to_vec(), fr[3..6].to_vec());
    // b x v = -(third column)
    let t: Vec<f64> = fr[6..9].iter().map(|x| -x.f()).collect();
    let l = lcd(&fr);
    let m = rec.rng.int(1, 3) * if rec.rng.chance(2) { 1 } else { -1 };
    let k = rec.rng.int(if fine { 24 } else { 12 }, if fine { 32 } else { 14 }) as i32;
    let (up, h) = (2f64.powi(k), 2f64.powi(-k));
    let th = m as f64 * h;
    let a = [rr(&b), vec![md(m as i128)]];
    let ub = unit3::<S>(&b);
    rec.call("quat", "gen", "rad", n, &[], &a, 0, || qtangent(Quaternion::from_axis_angle(&ub, Radians(S::of(th))), up, l));
    rec.call("quat", "gen", "deg", n, &[], &a, 0, || qtangent(Quaternion::from_axis_angle(&ub, Degrees(S::of(th.to_degrees()))), up, l));
    rec.call("quat", "gen", "mat", n, &[], &a, 0, || qtangent(Quaternion::from_matrix(&Matrix3x3::from_axis_angle(&ub, Radians(S::of(th)))), up, l));
    let mut mag = || 2f64.powi(rec.rng.int(-20, 20) as i32 / if fine { 1 } else { 4 });
    let (g1, g2) = (mag(), mag());
    let wv = |ct: f64, st: f64, g: f64| Vector3::new(S::of(g * (v[0].f() * ct + t[0] * st)), S::of(g * (v[1].f() * ct + t[1] * st)), S::of(g * (v[2].f() * ct + t[2] * st)));
    let (x, y) = (wv(1.0, 0.0, g1), wv(th.cos(), th.sin(), g2));
    let (ux, uy) = (Unit::from_value(x), Unit::from_value(y));
    rec.call("quat", "gen", "btw", n, &[], &a, 0, || Quaternion::rotation_between(&x, &y).map(|r| qtangent(r, up, l)));
    rec.call("quat", "gen", "btwu", n, &[], &a, 0, || Quaternion::rotation_between_axis(&ux, &uy).map(|r| qtangent(r, up, l)));
    // half a turn from it: the quaternion is about b
    if fine {
        let k = rec.rng.int(15, 24) as i32;
        let h = 2f64.powi(-k);
        let y = wv(-(m as f64 * h).cos(), (m as f64 * h).sin(), g2);
        let uy = Unit::from_value(y);
        // q = (m h / 2, b) up to sign
        let near = |w: Quaternion<S>| {
            let d = (0..3).map(|i| w.vector()[i].to() * b[i].f()).sum::<f64>().signum();
            Raw(vec![linq::<S>(d * w.scalar().to() * 2f64.powi(k + 1), 1, 1e-2), linq::<S>(d * w.vector()[0].to(), l, 1e-2), linq::<S>(d * w.vector()[1].to(), l, 1e-2), linq::<S>(d * w.vector()[2].to(), l, 1e-2)])
        };
        let a = [vec![md(m as i128), b[0].r(), b[1].r(), b[2].r()]];
        rec.call("quat", "parts", "anti", n, &[], &a, 0, || Quaternion::rotation_between(&x, &y).map(near));
        rec.call("quat", "parts", "antiu", n, &[], &a, 0, || Quaternion::rotation_between_axis(&ux, &uy).map(near));
    }
}
fn c13(rec: &mut Rec) {
    for it in 0..rec.iters(900, 9000) {
        rec.next();
        if it % 2 == 0 { tiny::<f64>(rec); }
        if it % 4 == 1 { tiny::<f32>(rec); }
        rots::<f64>(rec);
        if it % 3 == 0 {
            rots::<f32>(rec);
        }
    }
}

// ----------------------------------------------------- elementary functions
/// e^w for an observed logarithm w, computed from its parts
fn expobs<S: Fl>(w: &Quaternion<S>) -> Vec<i64> {
    let v = [w.vector()[0].to(), w.vector()[1].to(), w.vector()[2].to()];
    let m = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    let e = w.scalar().to().exp();
    let k = if m == 0.0 { 1.0 } else { m.sin() / m };
    vec![S::of(e * m.cos()).res(), S::of(e * k * v[0]).res(), S::of(e * k * v[1]).res(), S::of(e * k * v[2]).res(), (m <= PI + S::TOL) as i64]
}
/// coordinates (re, im) of a result in the plane of u, and whether it lies there
fn plane<S: Fl>(w: &Quaternion<S>, u: &[Q]) -> ((S, S), i64) {
    let v = [w.vector()[0].to(), w.vector()[1].to(), w.vector()[2].to()];
    let uu = [u[0].f(), u[1].f(), u[2].f()];
    let b = v[0] * uu[0] + v[1] * uu[1] + v[2] * uu[2];
    let off = (0..3).map(|i| (v[i] - b * uu[i]).abs()).fold(0.0, f64::max);
    ((w.scalar(), S::of(b)), (off <= S::TOL) as i64)
}
fn onaxis(z: (Q, Q), u: &[Q]) -> Vec<Q> {
    vec![z.0, z.1 * u[0], z.1 * u[1], z.1 * u[2]]
}
fn qf<S: Fl>(s: f64, b: f64, u: &[Q]) -> Quaternion<S> {
    Quaternion::new(S::of(s), S::of(b * u[0].f()), S::of(b * u[1].f()), S::of(b * u[2].f()))
}
fn elemq<S: Fl>(rec: &mut Rec) {
    let fine = S::NAME == "f64";
    let n = S::NAME;
    let p = Pt::new(&mut rec.rng, fine);
    let u = uvec(&mut rec.rng, fine);
    let lr = p.rho.f().ln();
    let turns = 2.0 * PI * rec.rng.int(-1, 1) as f64;
    let a = [p.arg(), rr(&u)];
    let d0 = lcd(&[p.c, p.s]) * p.rho.0 * p.rho.1 * lcd(&u);
    let real = p.s.0 == 0;
    hint(d0);
    let w = qf::<S>(lr, p.th + turns, &u);
    rec.call("quat", "exp", "m", n, &[], &a, 0, || w.exp());
    hint(2 * d0);
    rec.call("quat", "cosh", "m", n, &[], &a, 0, || w.cosh());
    rec.call("quat", "sinh", "m", n, &[], &a, 0, || w.sinh());
    let v = qf::<S>(p.th + turns, lr, &u);
    rec.call("quat", "cos", "m", n, &[], &a, 0, || v.cos());
    rec.call("quat", "sin", "m", n, &[], &a, 0, || v.sin());
    let td = tden(&p) * lcd(&u);
    let pole = p.rho == Q(1, 1) && p.c.0 == 0;
    if !pole && (fine || td < 3000) {
        hint(td);
        rec.call("quat", "tanh", "m", n, &[], &a, 0, || w.tanh());
        rec.call("quat", "tan", "m", n, &[], &a, 0, || v.tan());
    }
    hint(1);
    // z = rho (c + s u)
    let z = onaxis((p.rho * p.c, p.rho * p.s), &u);
    let zz = quat::<S>(&z);
    let za = [rr(&z)];
    if !(real && p.c.0 < 0) {
        hint(d0);
        rec.call("quat", "logq", "ln", n, &[], &za, 0, || Raw(expobs(&zz.ln())));
        rec.call("quat", "parts", "expln", n, &[], &za, 0, || zz.ln().exp());
        rec.call("quat", "logq", "polar", n, &[], &za, 0, || {
            let (m, t, ax) = zz.polar_decomposition();
            let h = t.0.to();
            let (m, c, s) = (m.to(), h.cos(), h.sin());
            let x = ax.map(|t| t.into_inner());
            let g = |i: usize| x.map_or(0.0, |t| t[i].to());
            Raw(vec![S::of(m * c).res(), S::of(m * s * g(0)).res(), S::of(m * s * g(1)).res(), S::of(m * s * g(2)).res(), (h >= -S::TOL && h <= PI + S::TOL) as i64])
        });
        hint(1);
        // arg: the angle from the real axis, in [0, pi]
        let sa = if p.s.0 < 0 { -p.s } else { p.s };
        // the same quaternion at another magnitude
        let k = 2 * rec.rng.int(if fine { -10 } else { -3 }, if fine { 150 } else { 5 }) as i32;
        let big = 2f64.powi(k);
        let zb = Quaternion::new(S::of(zz.scalar().to() * big), S::of(zz.vector()[0].to() * big), S::of(zz.vector()[1].to() * big), S::of(zz.vector()[2].to() * big));
        rec.call("quat", "argq", "k", n, &[], &[vec![p.rho.r(), p.c.r(), sa.r()]], 0, || { let t = zb.arg().to(); Raw(vec![S::of(t.cos()).res(), S::of(t.sin()).res(), (t >= 0.0 && t <= PI + S::TOL) as i64]) });
        hint(d0);
        rec.call("quat", "logq", "lnk", n, &[], &za, 0, || { let w = zb.ln(); Raw(expobs(&Quaternion::from_parts(S::of(w.scalar().to() - k as f64 * 2f64.ln()), w.vector()))) });
        rec.call("quat", "logq", "polark", n, &[], &za, 0, || {
            let (m, t, ax) = zb.polar_decomposition();
            let h = t.0.to();
            let (m, c, s) = (m.to() / big, h.cos(), h.sin());
            let x = ax.map(|t| t.into_inner());
            let g = |i: usize| x.map_or(0.0, |t| t[i].to());
            Raw(vec![S::of(m * c).res(), S::of(m * s * g(0)).res(), S::of(m * s * g(1)).res(), S::of(m * s * g(2)).res(), (h >= -S::TOL && h <= PI + S::TOL) as i64])
        });
        hint(1);
        rec.call("quat", "argq", "m", n, &[], &[vec![p.rho.r(), p.c.r(), sa.r()]], 0, || { let t = zz.arg().to(); Raw(vec![S::of(t.cos()).res(), S::of(t.sin()).res(), (t >= 0.0 && t <= PI + S::TOL) as i64]) });
    }
    // real quaternions of either sign, and zero
    let x = Q::red(rec.rng.int(1, 9), rec.rng.int(1, 4));
    for sg in [1i64, -1] {
        let xr = vec![q(sg) * x, q(0), q(0), q(0)];
        let xq = quat::<S>(&xr);
        hint(x.1);
        rec.call("quat", "logq", "polarr", n, &[], &[rr(&xr)], 0, || {
            let (m, t, ax) = xq.polar_decomposition();
            let h = t.0.to();
            let c = S::of(m.to() * h.cos()).res();
            let v = S::of(m.to() * h.sin()).res();
            Raw(vec![c, v, v, v, (ax.is_none() && h >= -S::TOL && h <= PI + S::TOL) as i64])
        });
        // documented: the logarithm of a real quaternion is that of its magnitude
        rec.call("quat", "logq", "lnr", n, &[], &[rr(&[x, q(0), q(0), q(0)])], 0, || Raw(expobs(&xq.ln())));
        rec.call("quat", "argq", "real", n, &[], &[vec![x.r(), q(sg).r(), q(0).r()]], 0, || { let t = xq.arg().to(); Raw(vec![S::of(t.cos()).res(), S::of(t.sin()).res(), (t >= 0.0 && t <= PI + S::TOL) as i64]) });
        let x2 = vec![q(sg) * x * x, q(0), q(0), q(0)];
        // documented: sqrt(-|s|) = sqrt(|s|) i
        rec.call("quat", "parts", "sqrtreal", n, &[], &[rr(&if sg > 0 { [x, q(0), q(0), q(0)] } else { [q(0), x, q(0), q(0)] })], 0, || quat::<S>(&x2).sqrt());
    }
    hint(1);
    let zero = Quaternion::<S>::zero();
    rec.call("quat", "zero", "sqrt", n, &[], &[], 0, || zero.sqrt());
    rec.call("quat", "zero", "polar", n, &[], &[], 0, || { let (m, t, ax) = zero.polar_decomposition(); Quaternion::new(m, if ax.is_none() { t.0 } else { S::of(1.0) }, m, m) });
    // construction from polar form: scale, full angle, axis
    hint(d0);
    let un = unit3::<S>(&u);
    rec.call("quat", "exp", "polar", n, &[], &a, 0, || Quaternion::from_polar_decomposition(S::ofq(p.rho), Radians(S::of(2.0 * p.th)), &un));
    hint(1);
    // decompose and recombine, on quaternions whose half-angle bisects rationally
    let (hc, hs) = if p.c.0 != 0 && p.s.0 != 0 { (if p.c.0 < 0 { -p.c } else { p.c }, if p.s.0 < 0 { -p.s } else { p.s }) } else { (Q(4, 5), Q(3, 5)) };
    let full = onaxis((p.rho * (hc * hc - hs * hs), p.rho * (q(2) * hc * hs)), &u);
    let fq = quat::<S>(&full);
    hint(lcd(&[hc]) * lcd(&[hc]) * p.rho.1 * lcd(&u));
    rec.call("quat", "polarrt", "m", n, &[], &[rr(&full), vec![p.rho.r()]], 0, || { let (m, t, ax) = fq.polar_decomposition(); Quaternion::from_polar_decomposition(m, t, &ax.unwrap()) });
    hint(1);
    // square roots and real powers
    let g = loop { let g = gen(&mut rec.rng, 4, if fine { 9 } else { 3 }, if fine { 2 } else { 1 }, true); if nrm(&g) != 0 { break g } };
    let sq = qmul(&g, &g);
    hint(lcd(&g));
    if sq[1..].iter().all(|x| x.0 == 0) && sq[0].0 < 0 {
        // the root of a negative real number is any pure quaternion of that norm
    } else {
        rec.call("quat", "sqrt", "m", n, &[], &[rr(&sq)], 0, || { let w = quat::<S>(&sq).sqrt(); let mut o = Vec::new(); w.pj(&mut o); o.push((w.scalar().to() >= -S::TOL) as i64); Raw(o) });
        let k = rec.rng.int(if fine { -10 } else { -3 }, if fine { 150 } else { 5 }) as i32;
        let mul = |w: &Quaternion<S>, f: f64| Quaternion::new(S::of(w.scalar().to() * f), S::of(w.vector()[0].to() * f), S::of(w.vector()[1].to() * f), S::of(w.vector()[2].to() * f));
        let sb = mul(&quat::<S>(&sq), 2f64.powi(2 * k));
        rec.call("quat", "sqrt", "k", n, &[], &[rr(&sq)], 0, || { let w = mul(&sb.sqrt(), 2f64.powi(-k)); let mut o = Vec::new(); w.pj(&mut o); o.push((w.scalar().to() >= -S::TOL) as i64); Raw(o) });
    }
    // real exponents
    let lim = if fine { 3 } else { 2 };
    let (e, m) = (rec.rng.int(-lim, lim), rec.rng.int(1, 3));
    let k = if fine { 3 } else { 1 };
    let gs: Vec<Q> = (0..4).map(|_| q(rec.rng.int(-k, k))).collect();
    let nv = ((gs[1].0 * gs[1].0 + gs[2].0 * gs[2].0 + gs[3].0 * gs[3].0) as f64).sqrt();
    let ag = nv.atan2(gs[0].f());
    if nrm(&gs) != 0 && ag < PI / m as f64 - 0.05 {
        let mut b = qs(&[1, 0, 0, 0]);
        for _ in 0..m { b = qmul(&b, &gs); }
        hint(if e < 0 { nrm(&gs).pow((-e) as u32) } else { 1 });
        rec.call("quat", "powf", "m", n, &[e, m], &[rr(&gs)], 0, || quat::<S>(&b).powf(S::of(e as f64 / m as f64)));
        hint(1);
    }
    // inverse functions at the exact image of a point off the real axis
    let e = (p.rho * p.c, p.rho * p.s);
    let i = (p.c / p.rho, -(p.s / p.rho));
    let two = q(2);
    let ch = ((e.0 + i.0) / two, (e.1 + i.1) / two);
    let sh = ((e.0 - i.0) / two, (e.1 - i.1) / two);
    let cx = |z: (Q, Q)| vec![z.0.r(), z.1.r()];
    let generic = p.s.0 != 0 && p.c.0 != 0 && p.rho != Q(1, 1);
    if generic {
        let zc = quat::<S>(&onaxis(ch, &u));
        rec.call("quat", "acosh", "m", n, &[], &[cx(ch)], 0, || { let (w, ok) = plane(&zc.acosh(), &u); obs(w, ok * in_(w.0, 0.0, 99.0) * in_(w.1, -PI, PI)) });
        rec.call("quat", "acos", "m", n, &[], &[cx(ch)], 0, || { let (w, ok) = plane(&zc.acos(), &u); obs((w.1, w.0), ok * in_(w.0, 0.0, PI)) });
        let zs = quat::<S>(&onaxis(sh, &u));
        rec.call("quat", "asinh", "m", n, &[], &[cx(sh)], 0, || { let (w, ok) = plane(&zs.asinh(), &u); obs(w, ok * in_(w.1, -PI / 2.0, PI / 2.0)) });
        let is = (-sh.1, sh.0);
        let zi = quat::<S>(&onaxis(is, &u));
        rec.call("quat", "asin", "m", n, &[], &[cx(is)], 0, || { let (w, ok) = plane(&zi.asin(), &u); obs((w.1, w.0), ok * in_(w.0, -PI / 2.0, PI / 2.0)) });
        let dd = ch.0 * ch.0 + ch.1 * ch.1;
        let th = ((sh.0 * ch.0 + sh.1 * ch.1) / dd, (sh.1 * ch.0 - sh.0 * ch.1) / dd);
        let zt = quat::<S>(&onaxis(th, &u));
        rec.call("quat", "atanh", "m", n, &[], &[cx(th)], 0, || { let (w, ok) = plane(&zt.atanh(), &u); obs(w, ok * in_(w.1, -PI / 2.0, PI / 2.0)) });
        let it = (-th.1, th.0);
        let zi = quat::<S>(&onaxis(it, &u));
        rec.call("quat", "atan", "m", n, &[], &[cx(it)], 0, || { let (w, ok) = plane(&zi.atan(), &u); obs((w.1, w.0), ok * in_(w.0, -PI / 2.0, PI / 2.0)) });
    }
}
/// far from the origin, next to it, and next to the negative real axis
fn reach<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let p = Pt::new(&mut rec.rng, fine);
    let u = uvec(&mut rec.rng, fine);
    let k = rec.rng.int(if fine { 8 } else { 3 }, if fine { 60 } else { 9 }) as i32;
    let (up, dn) = (2f64.powi(k), 2f64.powi(-k));
    let (er, ei) = (p.val().0 * up, p.val().1 * up);
    let (ir, ii) = (p.c.f() / p.rho.f() * dn, -p.s.f() / p.rho.f() * dn);
    let m = |x: i64| x.rem_euclid(P);
    let ro = p.rho.r() * powmod(2, k as i64) % P;
    let ri = inv(ro);
    let (e1, e2) = (ro * p.c.r() % P, ro * p.s.r() % P);
    let (i1, i2) = (ri * p.c.r() % P, m(-(ri * p.s.r() % P)));
    let half = inv(2);
    let hm = |x: i64| m(x) * half % P;
    if p.c.0 != 0 && p.s.0 != 0 {
        let (zc, ac) = (qf::<S>((er + ir) / 2.0, (ei + ii) / 2.0, &u), [vec![hm(e1 + i1), hm(e2 + i2)]]);
        let (zs, as_) = (qf::<S>((er - ir) / 2.0, (ei - ii) / 2.0, &u), [vec![hm(e1 - i1), hm(e2 - i2)]]);
        let (zi, ai) = (qf::<S>(-(ei - ii) / 2.0, (er - ir) / 2.0, &u), [vec![m(-as_[0][1]), as_[0][0]]]);
        let pl = |w: &Quaternion<S>| plane(w, &u);
        rec.call("quat", "acosh", "far", n, &[], &ac, 0, || { let (w, ok) = pl(&zc.acosh()); obsk(w, ok * in_(w.0, 0.0, 99.0) * in_(w.1, -PI, PI), k) });
        rec.call("quat", "acos", "far", n, &[], &ac, 0, || { let (w, ok) = pl(&zc.acos()); obsk((w.1, w.0), ok * in_(w.0, 0.0, PI), k) });
        rec.call("quat", "asinh", "far", n, &[], &as_, 0, || { let (w, ok) = pl(&zs.asinh()); obsk(w, ok * in_(w.1, -PI / 2.0, PI / 2.0), k) });
        rec.call("quat", "asin", "far", n, &[], &ai, 0, || { let (w, ok) = pl(&zi.asin()); obsk((w.1, w.0), ok * in_(w.0, -PI / 2.0, PI / 2.0), k) });
    }
    // the tangents have reached their limits
    let x = rec.rng.int(if fine { 40 } else { 20 }, if fine { 2000 } else { 300 }) as f64 + 0.5;
    let y = rec.rng.int(1, 400) as f64 / 64.0;
    for sg in [1i64, -1] {
        let (a, b) = (qf::<S>(sg as f64 * x, y, &u), qf::<S>(sg as f64 * y, x, &u));
        hint(lcd(&u));
        rec.call("quat", "tanhfar", "m", n, &[sg], &[], 0, || a.tanh());
        rec.call("quat", "tanfar", "m", n, &[], &[rr(&u)], 0, || b.tan());
        hint(1);
    }
    // tangents: f(q) = q + o(q) at the origin
    let g = loop { let g = [rec.rng.int(-3, 3), rec.rng.int(-2, 2), rec.rng.int(-2, 2), rec.rng.int(-2, 2)]; if g[1..] != [0, 0, 0] { break g } };
    let k = rec.rng.int(if fine { 22 } else { 11 }, if fine { 28 } else { 14 }) as i32;
    let (up, dn) = (2f64.powi(k), 2f64.powi(-k));
    let z = Quaternion::new(S::of(g[0] as f64 * dn), S::of(g[1] as f64 * dn), S::of(g[2] as f64 * dn), S::of(g[3] as f64 * dn));
    let a = [g.iter().map(|x| m(*x)).collect::<Vec<_>>()];
    let one = Quaternion::<S>::identity();
    let back = |w: Quaternion<S>| Raw(vec![lin::<S>(w.scalar().to() * up), lin::<S>(w.vector()[0].to() * up), lin::<S>(w.vector()[1].to() * up), lin::<S>(w.vector()[2].to() * up)]);
    rec.call("quat", "lin", "exp", n, &[], &a, 0, || back(z.exp() - one));
    rec.call("quat", "lin", "ln", n, &[], &a, 0, || back((z + one).ln()));
    rec.call("quat", "lin", "sinh", n, &[], &a, 0, || back(z.sinh()));
    rec.call("quat", "lin", "sin", n, &[], &a, 0, || back(z.sin()));
    rec.call("quat", "lin", "tanh", n, &[], &a, 0, || back(z.tanh()));
    rec.call("quat", "lin", "tan", n, &[], &a, 0, || back(z.tan()));
    rec.call("quat", "lin", "asinh", n, &[], &a, 0, || back(z.asinh()));
    rec.call("quat", "lin", "asin", n, &[], &a, 0, || back(z.asin()));
    rec.call("quat", "lin", "atanh", n, &[], &a, 0, || back(z.atanh()));
    rec.call("quat", "lin", "atan", n, &[], &a, 0, || back(z.atan()));
    rec.call("quat", "lin", "sqrt", n, &[], &a, 0, || back((z + z + one).sqrt() - one));
    rec.call("quat", "lin", "powf", n, &[], &a, 0, || back((z + one).powf(S::of(2.0)) - z - one));
    let sqr = |t: f64| {
        let x = (t * up) * (t * up);
        Raw(vec![if (x - x.round()).abs() < if fine { 1e-3 } else { 0.25 } { md(x.round() as i128) } else { IRR }])
    };
    let pi = S::of(PI).to();
    rec.call("quat", "linarg", "pos", n, &[], &a, 0, || sqr((z + one).arg().to()));
    rec.call("quat", "linarg", "neg", n, &[], &a, 0, || sqr(pi - (z - one).arg().to()));
    rec.call("quat", "linarg", "ln", n, &[], &a, 0, || sqr(pi - (z - one).ln().vector().norm().to()));
    // the square of (m h, v), h small, is next to the negative real axis: its root is known
    let h = rec.rng.int(if fine { 5 } else { 3 }, if fine { 34 } else { 10 }) as i32;
    let mm = rec.rng.int(1, 5);
    let (sm, v2) = (mm as f64 * 2f64.powi(-h), (g[1] * g[1] + g[2] * g[2] + g[3] * g[3]) as f64);
    let neg = Quaternion::new(S::of(sm * sm - v2), S::of(2.0 * sm * g[1] as f64), S::of(2.0 * sm * g[2] as f64), S::of(2.0 * sm * g[3] as f64));
    let ra = [vec![mm, m(g[1]), m(g[2]), m(g[3])]];
    rec.call("quat", "lin", "sqrtneg", n, &[], &ra, 0, || { let w = neg.sqrt(); Raw(vec![lin::<S>(w.scalar().to() * 2f64.powi(h)), lin::<S>(w.vector()[0].to()), lin::<S>(w.vector()[1].to()), lin::<S>(w.vector()[2].to())]) });
}
fn tden(p: &Pt) -> i64 {
    let (rn, rd, h) = (p.rho.0, p.rho.1, p.c.1);
    let (a, b) = (p.c.0 * p.c.0 - p.s.0 * p.s.0, 2 * p.c.0 * p.s.0);
    let (x, y) = (rn * rn * a + rd * rd * h * h, rn * rn * b);
    let g = gcd(gcd(x, y), gcd(rn * rn * a - rd * rd * h * h, y));
    let (x, y) = (x / g, y / g);
    x * x + y * y
}
fn interp<S: Fl>(rec: &mut Rec) {
    let fine = S::NAME == "f64";
    let n = S::NAME;
    let a = uquat(&mut rec.rng, fine);
    // g: rotation step of half-angle alpha, k alpha <= pi/2
    let (c, s, h) = *rec.rng.pick(&[(4, 3, 5), (12, 5, 13), (3, 4, 5), (15, 8, 17), (24, 7, 25), (40, 9, 41)]);
    let al = (s as f64).atan2(c as f64);
    let kmax = (PI / 2.0 / al) as i64;
    let k = rec.rng.int(1, Ord::min(kmax, if fine { 3 } else { 1 }));
    let j = rec.rng.int(0, k);
    let u = uvec(&mut rec.rng, false);
    let g = vec![Q::red(c, h), Q::red(s, h) * u[0], Q::red(s, h) * u[1], Q::red(s, h) * u[2]];
    let flip = rec.rng.chance(2);
    let mut b = a.clone();
    let mut mid = a.clone();
    for i in 0..k {
        if i == j { mid = b.clone(); }
        b = qmul(&b, &g);
    }
    if j == k { mid = b.clone(); }
    let end: Vec<Q> = if flip { b.iter().map(|x| -*x).collect() } else { b.clone() };
    let den = lcd(&mid);
    if den < if fine { 10_000_000 } else { 2000 } {
        hint(den);
        let ar = [rr(&a), rr(&g), rr(&end)];
        let (x, y) = (quat::<S>(&a), quat::<S>(&end));
        rec.call("quat", "slerp", "m", n, &[j, k], &ar, 0, || x.slerp(&y, S::of(j as f64 / k as f64)));
    }
    // near and beyond the ends, in small steps
    {
        let m = rec.rng.int(if fine { 15 } else { 3 }, if fine { 150 } else { 5 });
        let (j, k) = if fine { *rec.rng.pick(&[(-1i64, 3i64), (1, 3), (2, 3), (2, 1), (-1, 1), (3, 2)]) } else { (2, 1) };
        let ax = rec.rng.below(3);
        let sg = if rec.rng.chance(2) { 1 } else { -1 };
        let hh = m * m + 1;
        let mut g = vec![Q::red(m * m - 1, hh), q(0), q(0), q(0)];
        g[1 + ax] = Q::red(2 * m * sg, hh);
        let mut a = qs(&[0, 0, 0, 0]);
        a[rec.rng.below(4)] = q(if rec.rng.chance(2) { 1 } else { -1 });
        let gc = vec![g[0], -g[1], -g[2], -g[3]];
        let pw = |e: i64| { let mut t = a.clone(); for _ in 0..e.abs() { t = qmul(&t, if e > 0 { &g } else { &gc }); } t };
        let end = pw(k);
        let end: Vec<Q> = if flip { end.iter().map(|x| -*x).collect() } else { end };
        // the denominator of g^j
        let den = (m * m + 1).pow(j.unsigned_abs() as u32);
        if den < if fine { 1_000_000 } else { 700 } {
            hint(den);
            let ar = [rr(&a), rr(&g), rr(&end)];
            let (x, y) = (quat::<S>(&a), quat::<S>(&end));
            rec.call("quat", "slerp", "near", n, &[j, k], &ar, 0, || x.slerp(&y, S::of(j as f64 / k as f64)));
        }
    }
    // end points, also for nearly equal ends
    hint(lcd(&a));
    let eps = *rec.rng.pick(if fine { &[1e-5, 1e-3, 3e-4, 0.0] } else { &[1e-3, 4e-3, 0.01, 0.0] });
    let near = {
        let f = |i: usize| a[i].f();
        let (ce, se) = ((eps as f64).cos(), (eps as f64).sin());
        let gq = [ce, se * u[0].f(), se * u[1].f(), se * u[2].f()];
        Quaternion::new(
            S::of(f(0) * gq[0] - f(1) * gq[1] - f(2) * gq[2] - f(3) * gq[3]),
            S::of(f(0) * gq[1] + f(1) * gq[0] + f(2) * gq[3] - f(3) * gq[2]),
            S::of(f(0) * gq[2] - f(1) * gq[3] + f(2) * gq[0] + f(3) * gq[1]),
            S::of(f(0) * gq[3] + f(1) * gq[2] - f(2) * gq[1] + f(3) * gq[0]),
        )
    };
    let x = quat::<S>(&a);
    rec.call("quat", "slerpend", "first", n, &[], &[rr(&a)], 0, || x.slerp(&near, S::zero()));
    rec.call("quat", "slerpend", "last", n, &[], &[rr(&a)], 0, || near.slerp(&x, S::one()));
    rec.call("quat", "slerpend", "flast", n, &[], &[rr(&a)], 0, || (-near).slerp(&x, S::one()));
    rec.call("quat", "slerpend", "nfirst", n, &[], &[rr(&a)], 0, || x.nlerp(&near, S::zero()));
    rec.call("quat", "slerpend", "nlast", n, &[], &[rr(&a)], 0, || near.nlerp(&x, S::one()));
    hint(1);
    // nlerp
    let b = uquat(&mut rec.rng, fine);
    let t = Q(if rec.rng.chance(4) { rec.rng.int(-4, 8) } else { rec.rng.int(0, 4) }, 4);
    let l: Vec<Q> = (0..4).map(|i| a[i] + (b[i] - a[i]) * t).collect();
    if fine || lcd(&l) < 2000 {
        hint(lcd(&l));
        let y = quat::<S>(&b);
        rec.call("quat", "lerp", "u", n, &[], &[rr(&a), rr(&b), vec![t.r()]], NOSCALE, || x.lerp(&y, S::ofq(t)));
        hint(1);
    }
    let nn = l[0] * l[0] + l[1] * l[1] + l[2] * l[2] + l[3] * l[3];
    let den = if nn.0 == 0 { 0 } else { nn.0 * lcd(&l) * lcd(&l) / gcd(nn.1, lcd(&l) * lcd(&l)) };
    if den > 0 && den < if fine { 100_000_000 } else { 2000 } {
        hint(den);
        let y = quat::<S>(&b);
        rec.call("quat", "nlerp", "m", n, &[], &[rr(&a), rr(&b), vec![t.r()]], 0, || {
            let w = x.nlerp(&y, S::ofq(t));
            let dir = w.scalar().to() * l[0].f() + (0..3).map(|i| w.vector()[i].to() * l[i + 1].f()).sum::<f64>();
            let mut r = prods(&w).0;
            r.push((dir > 0.0) as i64);
            Raw(r)
        });
        hint(1);
    }
}
fn c14(rec: &mut Rec) {
    for it in 0..rec.iters(900, 9000) {
        rec.next();
        elemq::<f64>(rec);
        if it % 2 == 0 { reach::<f64>(rec); }
        interp::<f64>(rec);
        if it % 3 == 0 {
            elemq::<f32>(rec);
            reach::<f32>(rec);
            interp::<f32>(rec);
        }
    }
}
fn main() {
    drive(&[("C12", c12), ("C13", c13), ("C14", c14)]);
}

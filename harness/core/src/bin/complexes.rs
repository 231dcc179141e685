//! Drivers: complex numbers (C10, C11).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
use common::*;
#[path = "../elem.rs"]
mod elem;
use elem::*;
use pjs::*;
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_trigonometry::*;
use std::f64::consts::PI;

/// every operator with a scalar right-hand side, by value and by reference
macro_rules! scal { ($rec:expr, $o:expr, $s:expr, $a:expr, $deg:expr, $x:expr, $op:tt, $y:expr) => {{
    let (x, y) = ($x, $y);
    $rec.call("cpx", $o, "vv", $s, &[], $a, $deg, || x $op y);
    $rec.call("cpx", $o, "vr", $s, &[], $a, $deg, || x $op &y);
    $rec.call("cpx", $o, "rv", $s, &[], $a, $deg, || &x $op y);
    $rec.call("cpx", $o, "rr", $s, &[], $a, $deg, || &x $op &y);
}} }
fn ring<S: Sc + SimdScalarSigned>(rec: &mut Rec, mag: i64, divs: bool) {
    let g = |rec: &mut Rec| gen(&mut rec.rng, 2, mag, S::DEN, true);
    let (a, b, c) = (g(rec), g(rec), g(rec));
    let s = gen(&mut rec.rng, 1, mag, S::DEN, true)[0];
    let (x, y, z, sc) = (cpx::<S>(&a), cpx::<S>(&b), cpx::<S>(&c), S::ofq(s));
    let ab = [rr(&a), rr(&b)];
    let abc = [rr(&a), rr(&b), rr(&c)];
    let as_ = [rr(&a), vec![s.r()]];
    let a1 = [rr(&a)];
    let n = S::NAME;
    bin!(rec, "cpx", "add", n, &[], &ab, 1, x, +, y);
    bin!(rec, "cpx", "sub", n, &[], &ab, 1, x, -, y);
    bin!(rec, "cpx", "mul", n, &[], &ab, 2, x, *, y);
    asg!(rec, "cpx", "add", n, &[], &ab, 1, x, +=, y, ref);
    asg!(rec, "cpx", "sub", n, &[], &ab, 1, x, -=, y, ref);
    asg!(rec, "cpx", "mul", n, &[], &ab, 2, x, *=, y, ref);
    scal!(rec, "sadd", n, &as_, 1, x, +, sc);
    scal!(rec, "ssub", n, &as_, 1, x, -, sc);
    scal!(rec, "smul", n, &as_, 2, x, *, sc);
    asg!(rec, "cpx", "sadd", n, &[], &as_, 1, x, +=, sc, ref);
    asg!(rec, "cpx", "ssub", n, &[], &as_, 1, x, -=, sc, ref);
    asg!(rec, "cpx", "smul", n, &[], &as_, 2, x, *=, sc, ref);
    rec.call("cpx", "smul", "scale", n, &[], &as_, 2, || x.scale(sc));
    rec.call("cpx", "distr", "m", n, &[], &abc, 2, || x * y + x * z);
    rec.call("cpx", "assoc", "m", n, &[], &abc, 3, || x * (y * z));
    rec.call("cpx", "neg", "v", n, &[], &a1, 1, || -x);
    rec.call("cpx", "neg", "r", n, &[], &a1, 1, || -&x);
    rec.call("cpx", "conj", "m", n, &[], &a1, 1, || x.conjugate());
    rec.call("cpx", "conjlaw", "m", n, &[], &a1, 2, || x * x.conjugate());
    rec.call("cpx", "normsq", "modulus", n, &[], &a1, 2, || x.modulus_squared());
    rec.call("cpx", "normsq", "norm", n, &[], &a1, 2, || x.norm_squared());
    rec.call("cpx", "normsq", "magnitude", n, &[], &a1, 2, || x.magnitude_squared());
    rec.call("cpx", "pow", "squared", n, &[2], &a1, 2, || x.squared());
    rec.call("cpx", "pow", "cubed", n, &[3], &a1, 3, || x.cubed());
    rec.call("cpx", "re", "m", n, &[], &a1, 1, || x.real());
    rec.call("cpx", "im", "m", n, &[], &a1, 1, || x.imaginary());
    rec.call("cpx", "ofre", "m", n, &[], &[vec![s.r()]], 1, || Complex::from_real(sc));
    rec.call("cpx", "ofre", "from", n, &[], &[vec![s.r()]], 1, || Complex::from(sc));
    rec.call("cpx", "ofre", "fromr", n, &[], &[vec![s.r()]], 1, || Complex::from(&sc));
    rec.call("cpx", "ofim", "m", n, &[], &[vec![s.r()]], 1, || Complex::from_imaginary(sc));
    rec.call("cpx", "isreal", "m", n, &[], &a1, 0, || x.is_real());
    rec.call("cpx", "isimag", "m", n, &[], &a1, 0, || x.is_imaginary());
    rec.call("cpx", "iszero", "m", n, &[], &a1, 0, || x.is_zero());
    rec.call("cpx", "isone", "identity", n, &[], &a1, NOSCALE, || x.is_identity());
    rec.call("cpx", "isone", "one", n, &[], &a1, NOSCALE, || x.is_one());
    let (r, i) = (S::ofq(a[0]), S::ofq(a[1]));
    rec.call("cpx", "parts", "new", n, &[], &a1, 1, || Complex::new(r, i));
    rec.call("cpx", "parts", "tuple", n, &[], &a1, 1, || Complex::from((r, i)));
    rec.call("cpx", "parts", "array", n, &[], &a1, 1, || Complex::from([r, i]));
    rec.call("cpx", "parts", "map", n, &[], &a1, 1, || x.map(|t| t));
    if divs {
        if s.0 != 0 {
            scal!(rec, "sdiv", n, &as_, 0, x, /, sc);
            asg!(rec, "cpx", "sdiv", n, &[], &as_, 0, x, /=, sc, ref);
            rec.call("cpx", "sdiv", "unscale", n, &[], &as_, 0, || x.unscale(sc));
        }
        if b[0].0 != 0 || b[1].0 != 0 {
            hint(nd(&b) * den(&a));
            bin!(rec, "cpx", "div", n, &[], &ab, 0, x, /, y);
            asg!(rec, "cpx", "div", n, &[], &ab, 0, x, /=, y, ref);
            hint(1);
        }
    }
}
fn rems<S: Sc + SimdScalar>(rec: &mut Rec, lo: i64, hi: i64) {
    let a: Vec<Q> = (0..2).map(|_| q(rec.rng.int(lo, hi))).collect();
    let s = loop { let s = rec.rng.int(lo, hi); if s != 0 { break q(s) } };
    let (x, sc) = (cpx::<S>(&a), S::ofq(s));
    let as_ = [raw(&a), vec![s.0]];
    rec.rawcall("cpx", "remi", "vv", S::NAME, &[], &as_, || x % sc);
    rec.rawcall("cpx", "remi", "vr", S::NAME, &[], &as_, || x % &sc);
    rec.rawcall("cpx", "remi", "rv", S::NAME, &[], &as_, || &x % sc);
    rec.rawcall("cpx", "remi", "rr", S::NAME, &[], &as_, || &x % &sc);
    rec.rawcall("cpx", "remi", "av", S::NAME, &[], &as_, || { let mut z = x; z %= sc; z });
    rec.rawcall("cpx", "remi", "ar", S::NAME, &[], &as_, || { let mut z = x; z %= &sc; z });
}
fn fconsts<S: Sc + SimdScalarSigned>(rec: &mut Rec) {
    let n = S::NAME;
    rec.call("cpx", "zero", "m", n, &[], &[], 0, || Complex::<S>::zero());
    rec.call("cpx", "zero", "default", n, &[], &[], 0, || Complex::<S>::default());
    rec.call("cpx", "one", "one", n, &[], &[], 0, || Complex::<S>::one());
    rec.call("cpx", "one", "identity", n, &[], &[], 0, || Complex::<S>::identity());
    rec.call("cpx", "one", "unit_re", n, &[], &[], 0, || Complex::<S>::unit_re());
    rec.call("cpx", "i", "unit_im", n, &[], &[], 0, || Complex::<S>::unit_im());
    rec.call("cpx", "isq", "m", n, &[], &[], 0, || Complex::<S>::unit_im() * Complex::<S>::unit_im());
}
fn den(b: &[Q]) -> i64 {
    Ord::max(b[0].1, b[1].1)
}
/// squared norm of the integral multiple of a Gaussian (dyadic) rational
fn nd(b: &[Q]) -> i64 {
    let l = den(b);
    let f = |x: Q| x.0 * l / x.1;
    f(b[0]) * f(b[0]) + f(b[1]) * f(b[1])
}
fn field<S: Sc + SimdScalarFloat>(rec: &mut Rec, mag: i64, it: usize) {
    let n = S::NAME;
    let a = if rec.rng.chance(15) { qs(&[0, 0]) } else { gen(&mut rec.rng, 2, mag, S::DEN, true) };
    let x = cpx::<S>(&a);
    let a1 = [rr(&a)];
    hint(nd(&a));
    rec.call("cpx", "inv", "try", n, &[], &a1, -1, || x.try_inverse());
    rec.call("cpx", "invp", "m", n, &[], &a1, -1, || x.inverse());
    hint(1);
    rec.call("cpx", "canInv", "m", n, &[], &a1, NOSCALE, || x.is_invertible());
    if scale() == 0 {
        rec.call("cpx", "norm", "norm", n, &[], &a1, 0, || sqd(x.norm()));
        rec.call("cpx", "norm", "modulus", n, &[], &a1, 0, || sqd(x.modulus()));
        rec.call("cpx", "norm", "magnitude", n, &[], &a1, 0, || sqd(x.magnitude()));
        rec.call("cpx", "norm", "l2", n, &[], &a1, 0, || sqd(x.l2_norm()));
        let ai: Vec<Q> = (0..2).map(|_| q(rec.rng.int(-mag, mag))).collect();
        let xi = cpx::<S>(&ai);
        {
            let s = loop { let s = rec.rng.int(-9, 9); if s != 0 { break q(s) } };
            let (sc, e) = (S::ofq(s), [rr(&ai), vec![s.r()]]);
            rec.call("cpx", "smul", "nscale", n, &[], &e, 0, || Normed::scale(&xi, sc));
            rec.call("cpx", "smul", "nscalem", n, &[], &e, 0, || { let mut z = xi; Normed::scale_mut(&mut z, sc); z });
            hint(s.0);
            rec.call("cpx", "sdiv", "nscale", n, &[], &e, 0, || Normed::unscale(&xi, sc));
            rec.call("cpx", "sdiv", "nscalem", n, &[], &e, 0, || { let mut z = xi; Normed::unscale_mut(&mut z, sc); z });
            hint(1);
        }
        rec.rawcall("cpx", "l1", "m", n, &[], &[raw(&ai)], || xi.l1_norm());
        // every exponent, small bases
        let big = S::NAME == "f64";
        let b = qs(&[rec.rng.int(-2, 2), rec.rng.int(-2, 2)]);
        let y = cpx::<S>(&b);
        let nsq = b[0].0 * b[0].0 + b[1].0 * b[1].0;
        let top: i64 = match (nsq, big) { (0..=1, _) => 40, (2, true) => 28, (2, false) => 12, (4, true) => 12, (5, true) => 8, (8, true) => 8, (4, false) => 6, (5, false) => 4, _ => 3 };
        let e = if rec.rng.chance(3) { rec.rng.int(0, 3) } else { rec.rng.int(0, top) };
        rec.call("cpx", "pow", "powu", n, &[e], &[rr(&b)], 0, || y.powu(e as u32));
        rec.call("cpx", "pow", "powi", n, &[e], &[rr(&b)], 0, || y.powi(e as i32));
        let e = -rec.rng.int(1, top);
        hint(Ord::min(nsq.pow((-e) as u32), 1 << 30));
        rec.call("cpx", "pow", "powi", n, &[e], &[rr(&b)], 0, || y.powi(e as i32));
        hint(1);
        if it < 75 {
            // the smallest exponents on every small base, zero included
            let b = qs(&[(it % 5) as i64 - 2, (it / 5 % 5) as i64 - 2]);
            let y = cpx::<S>(&b);
            for e in 0..4i64 {
                rec.call("cpx", "pow", "powu", n, &[e], &[rr(&b)], 0, || y.powu(e as u32));
                rec.call("cpx", "pow", "powi", n, &[e], &[rr(&b)], 0, || y.powi(e as i32));
            }
        }
        if it < 40 {
            // extreme exponents on the units
            let e = [i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64, i32::MAX as i64 - 1, 1 << 30, -(1 << 30), (1 << 16) + 1, -65535, 3, -2][it % 10];
            let b = [qs(&[0, 1]), qs(&[0, -1]), qs(&[-1, 0]), qs(&[1, 0])][it / 10 % 4].clone();
            let y = cpx::<S>(&b);
            // i^e depends on e modulo 4
            let em = e.rem_euclid(4);
            rec.call("cpx", "pow", "powi", n, &[em], &[rr(&b)], 0, || y.powi(e as i32));
            rec.call("cpx", "pow", "powu", n, &[e.unsigned_abs() as i64 % 4], &[rr(&b)], 0, || y.powu(e.unsigned_abs() as u32));
        }
    }
}
/// powers of roots of unity with exponents of every size
fn rootpow<S: Fl>(rec: &mut Rec) {
    let fine = S::NAME == "f64";
    let m = *rec.rng.pick(&[3i64, 5, 6, 7, 9, 11, 12, 13]);
    let k = rec.rng.int(1, m - 1);
    let bits = rec.rng.int(0, if fine { 31 } else { 14 });
    let e = if fine && rec.rng.chance(6) { *rec.rng.pick(&[1i64 << 31, (1 << 31) - 1, (1 << 31) - 2, 1 << 30, 65536, 65535, 46337]) } else { Ord::max(rec.rng.int(0, (1i64 << bits) - 1), 1) };
    let t = 2.0 * PI * k as f64 / m as f64;
    let z = mk::<S>(t.cos(), t.sin());
    let back = |w: Complex<S>| {
        let x = w.imaginary().to().atan2(w.real().to()) * m as f64 / (2.0 * PI);
        let near = (x - x.round()).abs() < 0.1 && (w.real().to().hypot(w.imaginary().to()) - 1.0).abs() < 0.05;
        Raw(vec![(x.round() as i64).rem_euclid(m), near as i64])
    };
    let ar = |sg: i64| [vec![m, k, sg, e >> 15, e & 32767]];
    let n = S::NAME;
    rec.call("cpx", "rootpow", "powu", n, &[], &ar(1), 0, || back(z.powu(e as u32)));
    if e < 1 << 31 {
        rec.call("cpx", "rootpow", "powi", n, &[], &ar(1), 0, || back(z.powi(e as i32)));
    }
    rec.call("cpx", "rootpow", "powi", n, &[], &ar(-1), 0, || back(z.powi((-e) as i32)));
}
fn classify(rec: &mut Rec) {
    let vals = [0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE / 4.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    let k = |x: f64| if x.is_nan() { 2 } else if x.is_infinite() { 1 } else { 0 };
    for &r in &vals {
        for &i in &vals {
            let z = Complex::new(r, i);
            let w = Complex::new(r as f32, i as f32);
            let a = [vec![k(r), k(i)]];
            let b = [vec![k(r as f32 as f64), k(i as f32 as f64)]];
            rec.call("cpx", "isfin", "m", "f64", &[], &a, 0, || z.is_finite());
            rec.call("cpx", "isnan", "m", "f64", &[], &a, 0, || z.is_nan());
            rec.call("cpx", "isinf", "m", "f64", &[], &a, 0, || z.is_infinite());
            rec.call("cpx", "isfin", "m", "f32", &[], &b, 0, || w.is_finite());
            rec.call("cpx", "isnan", "m", "f32", &[], &b, 0, || w.is_nan());
            rec.call("cpx", "isinf", "m", "f32", &[], &b, 0, || w.is_infinite());
        }
    }
}
fn c10(rec: &mut Rec) {
    fconsts::<f64>(rec);
    fconsts::<f32>(rec);
    fconsts::<i32>(rec);
    fconsts::<i64>(rec);
    classify(rec);
    for it in 0..rec.iters(250, 2500) {
        rec.next();
        ring::<f64>(rec, [9, 30, 99, 4][it % 4], true);
        ring::<f32>(rec, 5, it % 2 == 0);
        ring::<i32>(rec, 99, false);
        if it % 4 == 0 {
            ring::<i64>(rec, 999, false);
            ring::<i16>(rec, 20, false);
        }
        field::<f64>(rec, [9, 30, 60, 4][it % 4], it);
        field::<f32>(rec, 4, it);
        rootpow::<f64>(rec);
        rootpow::<f32>(rec);
        rems::<f64>(rec, -99, 99);
        rems::<i32>(rec, -999, 999);
        if it % 8 == 0 {
            set_scale([-60, 60, -120, 200][it / 8 % 4]);
            ring::<f64>(rec, 9, true);
            field::<f64>(rec, 9, it);
            set_scale(0);
        }
    }
}

// ------------------------------------------------------------- elementary
/// denominator of tanh(ln rho + i theta)
fn tden(p: &Pt) -> i64 {
    // |E^2 + 1|^2 with E = (rn/rd) (c + i s)/h
    let (rn, rd, h) = (p.rho.0, p.rho.1, p.c.1);
    let (a, b) = (p.c.0 * p.c.0 - p.s.0 * p.s.0, 2 * p.c.0 * p.s.0);
    let (x, y) = (rn * rn * a + rd * rd * h * h, rn * rn * b);
    let g = gcd(gcd(x, y), gcd(rn * rn * a - rd * rd * h * h, y));
    let (x, y) = (x / g, y / g);
    x * x + y * y
}
fn elem<S: Fl>(rec: &mut Rec) {
    let fine = S::NAME == "f64";
    let n = S::NAME;
    let p = Pt::new(&mut rec.rng, fine);
    let turns = 2.0 * PI * rec.rng.int(-1, 1) as f64;
    let lr = p.rho.f().ln();
    let a = [p.arg()];
    // forward functions at w = ln rho + i(theta + 2 pi k)
    let w = mk::<S>(lr, p.th + turns);
    rec.call("cpx", "exp", "m", n, &[], &a, 0, || w.exp());
    rec.call("cpx", "cosh", "m", n, &[], &a, 0, || w.cosh());
    rec.call("cpx", "sinh", "m", n, &[], &a, 0, || w.sinh());
    let e2 = mk::<S>(p.rho.f().log2(), (p.th + turns) / 2f64.ln());
    rec.call("cpx", "exp", "exp2", n, &[], &a, 0, || e2.exp2());
    let v = mk::<S>(p.th + turns, lr);
    rec.call("cpx", "cos", "m", n, &[], &a, 0, || v.cos());
    rec.call("cpx", "sin", "m", n, &[], &a, 0, || v.sin());
    let pole = p.rho == Q(1, 1) && p.c.0 == 0;
    if !pole && (fine || tden(&p) < 5000) {
        hint(tden(&p));
        rec.call("cpx", "tanh", "m", n, &[], &a, 0, || w.tanh());
        rec.call("cpx", "tan", "m", n, &[], &a, 0, || v.tan());
        hint(1);
    }
    let th = S::of(p.th + turns);
    let rho = S::ofq(p.rho);
    rec.call("cpx", "polar", "rad", n, &[], &a, 0, || Complex::from_polar_decomposition(rho, Radians(th)));
    rec.call("cpx", "polar", "deg", n, &[], &a, 0, || Complex::from_polar_decomposition(rho, Degrees(S::of((p.th + turns).to_degrees()))));
    rec.call("cpx", "cis", "cis", n, &[], &a, 0, || Complex::cis(th));
    rec.call("cpx", "cis", "rad", n, &[], &a, 0, || Complex::from_angle(Radians(th)));
    rec.call("cpx", "cis", "deg", n, &[], &a, 0, || Complex::from_angle(Degrees(S::of((p.th + turns).to_degrees()))));
    // logarithms of z = rho (c + i s); the principal argument is recovered
    let (zr, zi) = p.val();
    let z = mk::<S>(zr, zi);
    rec.call("cpx", "log", "ln", n, &[], &a, 0, || { let w = z.ln(); obs((w.real(), w.imaginary()), in_(w.imaginary(), -PI + 1e-3, PI)) });
    // the same number in another magnitude: the logarithm shifts, the argument stays
    let k = if rec.rng.chance(2) { 0 } else { *rec.rng.pick(if fine { &[-100, -40, -12, 12, 40, 100] } else { &[-12, -9, 4, 9, 12, -4] }) };
    let big = 2f64.powi(k);
    let zk = mk::<S>(zr * big, zi * big);
    let shift = k as f64 * 2f64.ln();
    rec.call("cpx", "log", "lnk", n, &[], &a, 0, || { let w = zk.ln(); obs((S::of(w.real().to() - shift), w.imaginary()), in_(w.imaginary(), -PI + 1e-3, PI)) });
    rec.call("cpx", "log", "polark", n, &[], &a, 0, || { let (m, t) = zk.polar_decomposition(); obs((S::of((m.to() / big).ln()), t.0), in_(t.0, -PI + 1e-3, PI)) });
    rec.call("cpx", "arg", "k", n, &[], &a, 0, || { let t = zk.arg(); Raw(vec![S::of(t.to().cos()).res(), S::of(t.to().sin()).res(), in_(t, -PI + 1e-3, PI)]) });
    let base = *rec.rng.pick(&[2.0f64, 10.0, 0.5, 3.0]);
    let unlog = |w: Complex<S>, b: f64| {
        let l = b.ln();
        let (re, im) = (w.real().to() * l, w.imaginary().to() * l);
        obs((S::of(re), S::of(im)), in_(S::of(im), -PI + 1e-3, PI))
    };
    rec.call("cpx", "log", "log", n, &[], &a, 0, || unlog(z.log(S::of(base)), base));
    rec.call("cpx", "log", "log2", n, &[], &a, 0, || unlog(z.log2(), 2.0));
    rec.call("cpx", "log", "log10", n, &[], &a, 0, || unlog(z.log10(), 10.0));
    rec.call("cpx", "log", "polar", n, &[], &a, 0, || { let (m, t) = z.polar_decomposition(); obs((S::of(m.to().ln()), t.0), in_(t.0, -PI + 1e-3, PI)) });
    rec.call("cpx", "arg", "m", n, &[], &a, 0, || { let t = z.arg(); Raw(vec![S::of(t.to().cos()).res(), S::of(t.to().sin()).res(), in_(t, -PI + 1e-3, PI)]) });
    rec.call("cpx", "exp", "expln", n, &[], &a, 0, || z.ln().exp());
    // roots: z is the square / cube of a Gaussian rational
    let g = loop { let g = gen(&mut rec.rng, 2, if fine { 9 } else { 3 }, if fine { 2 } else { 1 }, true); if g[0].0 != 0 || g[1].0 != 0 { break g } };
    let (u, t) = (g[0].f(), g[1].f());
    let d2 = [vec![md2(&g, 2).0, md2(&g, 2).1]];
    let sq = mk::<S>(u * u - t * t, zadj(2.0 * u * t));
    let cube = ((u * u - 3.0 * t * t) * u, (3.0 * u * u - t * t) * t);
    let cu = mk::<S>(cube.0, zadj(cube.1));
    rec.call("cpx", "sqrt", "m", n, &[], &d2, 0, || { let w = sq.sqrt(); Raw(vec![w.real().res(), w.imaginary().res(), (w.real().to() > S::TOL * 10.0 || (w.real().to().abs() <= S::TOL * 10.0 && w.imaginary().to() >= 0.0)) as i64]) });
    let (sq4, cu8) = (mk::<S>(sq.real().to() * big * big, sq.imaginary().to() * big * big), mk::<S>(cu.real().to() * big * big * big, cu.imaginary().to() * big * big * big));
    rec.call("cpx", "sqrt", "k", n, &[], &d2, 0, || { let w = sq4.sqrt(); let w = (S::of(w.real().to() / big), S::of(w.imaginary().to() / big)); Raw(vec![w.0.res(), w.1.res(), (w.0.to() > S::TOL * 10.0 || (w.0.to().abs() <= S::TOL * 10.0 && w.1.to() >= 0.0)) as i64]) });
    // any number is the square and the cube of its roots
    {
        let y = mk::<S>(u, zadj(t));
        let ga = [rr(&g)];
        rec.call("cpx", "rootz", "sqrt", n, &[2], &ga, 0, || {
            let w = y.sqrt();
            let (a, b) = (w.real().to(), w.imaginary().to());
            Raw(vec![S::of(a * a - b * b).res(), S::of(2.0 * a * b).res(), (a > S::TOL * 10.0 || (a.abs() <= S::TOL * 10.0 && b >= 0.0)) as i64])
        });
        rec.call("cpx", "rootz", "cbrt", n, &[3], &ga, 0, || {
            let w = y.cbrt();
            let (a, b) = (w.real().to(), w.imaginary().to());
            Raw(vec![S::of(a * a * a - 3.0 * a * b * b).res(), S::of(3.0 * a * a * b - b * b * b).res(), in_(S::of(b.atan2(a)), -PI / 3.0, PI / 3.0)])
        });
    }
    // roots of the cube are Gaussian rational only for the branch of arg in (-pi/3, pi/3]
    let ag = t.atan2(u);
    if ag.abs() < PI / 3.0 - 0.01 {
        let d3 = [vec![md2(&g, 3).0, md2(&g, 3).1]];
        rec.call("cpx", "cbrt", "m", n, &[], &d3, 0, || { let w = cu.cbrt(); Raw(vec![w.real().res(), w.imaginary().res(), in_(S::of(w.imaginary().to().atan2(w.real().to())), -PI / 3.0, PI / 3.0)]) });
        rec.call("cpx", "cbrt", "k", n, &[], &d3, 0, || { let w = cu8.cbrt(); let w = (w.real().to() / big, w.imaginary().to() / big); Raw(vec![S::of(w.0).res(), S::of(w.1).res(), in_(S::of(w.1.atan2(w.0)), -PI / 3.0, PI / 3.0)]) });
    }
    // real exponents: the base is the m-th power of its principal m-th root
    let lim = if fine { 4 } else { 2 };
    let (e, m) = (rec.rng.int(-lim, lim), rec.rng.int(1, 3));
    let gs = if fine { g.clone() } else { qs(&[g[0].0.signum(), g[1].0.signum()]) };
    let gs = if fine && e.abs() > 2 { qs(&[Ord::clamp(gs[0].0, -3, 3), Ord::clamp(gs[1].0, -3, 3)]) } else { gs };
    let (u, t) = (gs[0].f(), gs[1].f());
    let ag = t.atan2(u);
    if (u != 0.0 || t != 0.0) && ag.abs() < PI / m as f64 - 0.01 {
        let mut b = (1.0, 0.0);
        for _ in 0..m { b = (b.0 * u - b.1 * t, b.0 * t + b.1 * u); }
        let base = mk::<S>(b.0, b.1);
        if e < 0 { hint(nd(&gs).pow((-e) as u32)); }
        rec.call("cpx", "powf", "m", n, &[e, m], &[rr(&gs)], 0, || base.powf(S::of(e as f64 / m as f64)));
        rec.call("cpx", "powf", "powc", n, &[e, m], &[rr(&gs)], 0, || base.powc(mk::<S>(e as f64 / m as f64, 0.0)));
        hint(1);
    }
    // complex exponents: z^w = exp(w ln z) hits a chosen point
    let o = Pt::new(&mut rec.rng, fine);
    if !(p.rho == Q(1, 1) && p.th.abs() < 1e-9) {
        // w = (ln o) / (ln z)
        let (a, b) = (o.rho.f().ln(), o.th);
        let d = lr * lr + p.th * p.th;
        let w = mk::<S>((a * lr + b * p.th) / d, (b * lr - a * p.th) / d);
        let arg = [o.arg()];
        if p.s.0 != 0 || p.c.0 > 0 {
            if fine {
                rec.call("cpx", "powc", "m", n, &[], &arg, 0, || z.powc(w));
            }
        }
        rec.call("cpx", "pow0", "m", n, &[], &[], 0, || z.powc(Complex::zero()));
    }
    // inverse functions at the exact image of a point
    let (er, ei) = p.val();
    let (ir, ii) = (p.c.f() / p.rho.f(), -p.s.f() / p.rho.f());
    let num = |x: &Q, y: &Q| -> i64 { x.r() * y.r() % P };
    let ri = inv(p.rho.r());
    let (e1, e2) = (num(&p.rho, &p.c), num(&p.rho, &p.s));
    let (i1, i2) = (ri * p.c.r() % P, (P - ri * p.s.r() % P) % P);
    let half = inv(2);
    let hm = |x: i64| (x.rem_euclid(P)) * half % P;
    let ch = (mk::<S>((er + ir) / 2.0, zadj((ei + ii) / 2.0)), [vec![hm(e1 + i1), hm(e2 + i2)]]);
    let shh = (mk::<S>(zadj((er - ir) / 2.0), zadj((ei - ii) / 2.0)), [vec![hm(e1 - i1), hm(e2 - i2)]]);
    let crit = p.rho == Q(1, 1) && (p.c.0 == 0 || p.s.0 == 0);
    // on the branch cuts the sign of a rounding error of f32 selects the side
    let cut = !fine && (p.s.0 == 0 || p.c.0 == 0);
    if !cut {
    rec.call("cpx", "acosh", "m", n, &[], &ch.1, 0, || { let w = ch.0.acosh(); obs((w.real(), w.imaginary()), in_(w.real(), 0.0, 99.0) * in_(w.imaginary(), -PI, PI)) });
    rec.call("cpx", "acos", "m", n, &[], &ch.1, 0, || { let w = ch.0.acos(); obs((w.imaginary(), w.real()), in_(w.real(), 0.0, PI)) });
    }
    if !crit && !cut {
        rec.call("cpx", "asinh", "m", n, &[], &shh.1, 0, || { let w = shh.0.asinh(); obs((w.real(), w.imaginary()), in_(w.imaginary(), -PI / 2.0, PI / 2.0)) });
        // i sinh(w) = sin(i w)
        let ish = mk::<S>(-shh.0.imaginary().to(), shh.0.real().to());
        let iarg = [vec![(P - shh.1[0][1]) % P, shh.1[0][0]]];
        rec.call("cpx", "asin", "m", n, &[], &iarg, 0, || { let w = ish.asin(); obs((w.imaginary(), w.real()), in_(w.real(), -PI / 2.0, PI / 2.0)) });
        // tanh w = (E - 1/E) / (E + 1/E)
        let (nr, ni, dr, di) = (er - ir, ei - ii, er + ir, ei + ii);
        let d = dr * dr + di * di;
        if d > 1e-9 && p.c.0 != 0 && p.s.0 != 0 {
            let tz = mk::<S>((nr * dr + ni * di) / d, (ni * dr - nr * di) / d);
            let m = |x: i64| x.rem_euclid(P);
            let (nr, ni, dr, di) = (m(e1 - i1), m(e2 - i2), m(e1 + i1), m(e2 + i2));
            let di_ = inv(m(dr * dr % P + di * di % P));
            let ta = (m(nr * dr % P + ni * di % P) * di_ % P, m(ni * dr % P - nr * di % P) * di_ % P);
            rec.call("cpx", "atanh", "m", n, &[], &[vec![ta.0, ta.1]], 0, || { let w = tz.atanh(); obs((w.real(), w.imaginary()), in_(w.imaginary(), -PI / 2.0, PI / 2.0)) });
            let itz = mk::<S>(-tz.imaginary().to(), tz.real().to());
            rec.call("cpx", "atan", "m", n, &[], &[vec![(P - ta.1) % P, ta.0]], 0, || { let w = itz.atan(); obs((w.imaginary(), w.real()), in_(w.real(), -PI / 2.0, PI / 2.0)) });
        }
    }
}
/// residues of the k-th power of a Gaussian rational
fn md2(g: &[Q], k: usize) -> (i64, i64) {
    let (a, b) = (g[0].r(), g[1].r());
    let mut r = (1, 0);
    for _ in 0..k { r = ((r.0 * a % P - r.1 * b % P).rem_euclid(P), (r.0 * b % P + r.1 * a % P) % P); }
    r
}
/// far from the origin, and next to it
fn reach<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    // inverse functions of the images of points whose modulus is near 2^k
    let p = Pt::new(&mut rec.rng, fine);
    let k = rec.rng.int(if fine { 8 } else { 3 }, if fine { 60 } else { 9 }) as i32;
    let (up, dn) = (2f64.powi(k), 2f64.powi(-k));
    let f = powmod(2, k as i64);
    let (er, ei) = (p.val().0 * up, p.val().1 * up);
    let (ir, ii) = (p.c.f() / p.rho.f() * dn, -p.s.f() / p.rho.f() * dn);
    let m = |x: i64| x.rem_euclid(P);
    let ro = p.rho.r() * f % P;
    let ri = inv(ro);
    let (e1, e2) = (ro * p.c.r() % P, ro * p.s.r() % P);
    let (i1, i2) = (ri * p.c.r() % P, m(-(ri * p.s.r() % P)));
    let half = inv(2);
    let hm = |x: i64| m(x) * half % P;
    if p.c.0 != 0 && p.s.0 != 0 {
        let ch = (mk::<S>((er + ir) / 2.0, (ei + ii) / 2.0), [vec![hm(e1 + i1), hm(e2 + i2)]]);
        let sh = (mk::<S>((er - ir) / 2.0, (ei - ii) / 2.0), [vec![hm(e1 - i1), hm(e2 - i2)]]);
        let ish = (mk::<S>(-sh.0.imaginary().to(), sh.0.real().to()), [vec![m(-sh.1[0][1]), sh.1[0][0]]]);
        rec.call("cpx", "acosh", "far", n, &[], &ch.1, 0, || { let w = ch.0.acosh(); obsk((w.real(), w.imaginary()), in_(w.real(), 0.0, 99.0) * in_(w.imaginary(), -PI, PI), k) });
        rec.call("cpx", "acos", "far", n, &[], &ch.1, 0, || { let w = ch.0.acos(); obsk((w.imaginary(), w.real()), in_(w.real(), 0.0, PI), k) });
        rec.call("cpx", "asinh", "far", n, &[], &sh.1, 0, || { let w = sh.0.asinh(); obsk((w.real(), w.imaginary()), in_(w.imaginary(), -PI / 2.0, PI / 2.0), k) });
        rec.call("cpx", "asin", "far", n, &[], &ish.1, 0, || { let w = ish.0.asin(); obsk((w.imaginary(), w.real()), in_(w.real(), -PI / 2.0, PI / 2.0), k) });
    }
    // the hyperbolic tangent has reached its limit, also where e^x overflows
    let x = rec.rng.int(if fine { 40 } else { 20 }, if fine { 2000 } else { 300 }) as f64 + 0.5;
    let y = rec.rng.int(-400, 400) as f64 / 64.0;
    for sg in [1i64, -1] {
        let (a, b) = (mk::<S>(sg as f64 * x, y), mk::<S>(y, sg as f64 * x));
        rec.call("cpx", "tanhfar", "m", n, &[sg], &[], 0, || a.tanh());
        rec.call("cpx", "tanfar", "m", n, &[sg], &[], 0, || b.tan());
    }
    // tangents: f(z) = z + o(z) at the origin
    let g = loop { let g = [rec.rng.int(-3, 3), rec.rng.int(-3, 3)]; if g != [0, 0] { break g } };
    let k = rec.rng.int(if fine { 22 } else { 11 }, if fine { 28 } else { 14 }) as i32;
    let (up, dn) = (2f64.powi(k), 2f64.powi(-k));
    let z = mk::<S>(g[0] as f64 * dn, g[1] as f64 * dn);
    let a = [vec![m(g[0]), m(g[1])]];
    let one = mk::<S>(1.0, 0.0);
    let back = |w: Complex<S>| Raw(vec![lin::<S>(w.real().to() * up), lin::<S>(w.imaginary().to() * up)]);
    rec.call("cpx", "lin", "exp", n, &[], &a, 0, || back(z.exp() - one));
    rec.call("cpx", "lin", "ln", n, &[], &a, 0, || back((z + one).ln()));
    rec.call("cpx", "lin", "sinh", n, &[], &a, 0, || back(z.sinh()));
    rec.call("cpx", "lin", "sin", n, &[], &a, 0, || back(z.sin()));
    rec.call("cpx", "lin", "tanh", n, &[], &a, 0, || back(z.tanh()));
    rec.call("cpx", "lin", "tan", n, &[], &a, 0, || back(z.tan()));
    rec.call("cpx", "lin", "asinh", n, &[], &a, 0, || back(z.asinh()));
    rec.call("cpx", "lin", "asin", n, &[], &a, 0, || back(z.asin()));
    rec.call("cpx", "lin", "atanh", n, &[], &a, 0, || back(z.atanh()));
    rec.call("cpx", "lin", "atan", n, &[], &a, 0, || back(z.atan()));
    rec.call("cpx", "lin", "sqrt", n, &[], &a, 0, || back((z + z + one).sqrt() - one));
    rec.call("cpx", "linarg", "pos", n, &[], &a, 0, || Raw(vec![lin::<S>((z + one).arg().to() * up)]));
    if g[1] != 0 {
        let w = z - one;
        let b = if g[1] > 0 { PI } else { -PI };
        rec.call("cpx", "linarg", "neg", n, &[], &a, 0, || Raw(vec![lin::<S>((S::of(b).to() - w.arg().to()) * up)]));
        rec.call("cpx", "linarg", "ln", n, &[], &a, 0, || Raw(vec![lin::<S>((S::of(b).to() - w.ln().imaginary().to()) * up)]));
    }
    rec.call("cpx", "lin", "cbrt", n, &[], &a, 0, || back((z + z + z + one).cbrt() - one));
}
fn c11(rec: &mut Rec) {
    for it in 0..rec.iters(900, 9000) {
        rec.next();
        elem::<f64>(rec);
        if it % 2 == 0 { reach::<f64>(rec); }
        if it % 3 == 0 {
            elem::<f32>(rec);
            reach::<f32>(rec);
        }
    }
}
fn main() {
    drive(&[("C10", c10), ("C11", c11)]);
}

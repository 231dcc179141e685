//! Drivers: vectors and points (C04, C05).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
use common::*;
use pjs::*;
use cglinalg_core::*;
use cglinalg_numeric::*;

/// operations every scalar type supports
pub fn arith<S: Sc + SimdScalar, const N: usize>(rec: &mut Rec, mag: i64) {
    let n = N as i64;
    let mut a = gen(&mut rec.rng, N, mag, S::DEN, S::SIGNED);
    let mut b = gen(&mut rec.rng, N, mag, S::DEN, S::SIGNED);
    if !S::SIGNED {
        for i in 0..N {
            if a[i].0 < b[i].0 {
                (a[i], b[i]) = (b[i], a[i]);
            }
        }
    }
    let s = gen(&mut rec.rng, 1, mag, S::DEN, S::SIGNED)[0];
    let (va, vb, sc) = (vec::<S, N>(&a), vec::<S, N>(&b), S::ofq(s));
    let (pa, pb) = (pnt::<S, N>(&a), pnt::<S, N>(&b));
    let ab = [rr(&a), rr(&b)];
    let as_ = [rr(&a), vec![s.r()]];
    bin!(rec, "vec", "add", S::NAME, &[n], &ab, 1, va, +, vb);
    bin!(rec, "vec", "sub", S::NAME, &[n], &ab, 1, va, -, vb);
    asg!(rec, "vec", "add", S::NAME, &[n], &ab, 1, va, +=, vb, ref);
    asg!(rec, "vec", "sub", S::NAME, &[n], &ab, 1, va, -=, vb, ref);
    bins!(rec, "vec", "smul", S::NAME, &[n], &as_, 2, va, *, sc);
    asg!(rec, "vec", "smul", S::NAME, &[n], &as_, 2, va, *=, sc);
    rec.call("vec", "cmul", "m", S::NAME, &[n], &ab, 2, || va.component_mul(&vb));
    rec.call("vec", "cmul", "mm", S::NAME, &[n], &ab, 2, || {
        let mut z = va;
        z.component_mul_assign(&vb);
        z
    });
    rec.call("vec", "iszero", "m", S::NAME, &[n], &[rr(&a)], 0, || va.is_zero());
    // points
    bin!(rec, "vec", "add", S::NAME, &[n, 1], &ab, 1, pa, +, vb);
    bin!(rec, "vec", "sub", S::NAME, &[n, 1], &ab, 1, pa, -, vb);
    bin!(rec, "vec", "sub", S::NAME, &[n, 2], &ab, 1, pa, -, pb);
    asg!(rec, "vec", "add", S::NAME, &[n, 1], &ab, 1, pa, +=, vb, ref);
    asg!(rec, "vec", "sub", S::NAME, &[n, 1], &ab, 1, pa, -=, vb, ref);
    bins!(rec, "vec", "smul", S::NAME, &[n, 1], &as_, 2, pa, *, sc);
    asg!(rec, "vec", "smul", S::NAME, &[n, 1], &as_, 2, pa, *=, sc);
    // result types are vectors / points: the annotations are part of the check
    rec.call("vec", "moveto", "p", S::NAME, &[n], &ab, 1, || -> Point<S, N> {
        if S::SIGNED {
            let d: Vector<S, N> = pb - pa;
            pa + d
        } else {
            let d: Vector<S, N> = pa - pb;
            // unsigned: move back instead
            let back: Point<S, N> = pa - d;
            back
        }
    });
    // exact division: multiples of the divisor
    if s.0 != 0 {
        if S::FLOAT {
            bins!(rec, "vec", "sdiv", S::NAME, &[n], &as_, 0, va, /, sc);
            asg!(rec, "vec", "sdiv", S::NAME, &[n], &as_, 0, va, /=, sc);
            bins!(rec, "vec", "sdiv", S::NAME, &[n, 1], &as_, 0, pa, /, sc);
            asg!(rec, "vec", "sdiv", S::NAME, &[n, 1], &as_, 0, pa, /=, sc);
        }
    }
    // truncating division and remainder on integers
    let ai: Vec<Q> = a.iter().map(|x| q(x.0)).collect();
    let k = q(if s.0 == 0 { 3 } else { s.0 });
    let (va, pa, sc) = (vec::<S, N>(&ai), pnt::<S, N>(&ai), S::ofq(k));
    let args = [raw(&ai), vec![k.0]];
    let mut rm = |v: &str, d: &[i64], g: &mut dyn FnMut() -> Raw| rec.rawcall("vec", "remi", v, S::NAME, d, &args, || g());
    let rv = |x: Vector<S, N>| Raw((0..N).map(|i| x[i].int()).collect());
    let rp = |x: Point<S, N>| Raw((0..N).map(|i| x[i].int()).collect());
    rm("v", &[n], &mut || rv(va % sc));
    rm("r", &[n], &mut || rv(&va % sc));
    rm("av", &[n], &mut || { let mut z = va; z %= sc; rv(z) });
    rm("v", &[n, 1], &mut || rp(pa % sc));
    rm("r", &[n, 1], &mut || rp(&pa % sc));
    rm("av", &[n, 1], &mut || { let mut z = pa; z %= sc; rp(z) });
    if !S::FLOAT {
        let mut dv = |v: &str, d: &[i64], g: &mut dyn FnMut() -> Raw| rec.rawcall("vec", "divi", v, S::NAME, d, &args, || g());
        dv("v", &[n], &mut || rv(va / sc));
        dv("r", &[n], &mut || rv(&va / sc));
        dv("av", &[n], &mut || { let mut z = va; z /= sc; rv(z) });
        dv("v", &[n, 1], &mut || rp(pa / sc));
        dv("r", &[n, 1], &mut || rp(&pa / sc));
        dv("av", &[n, 1], &mut || { let mut z = pa; z /= sc; rp(z) });
    }
}
pub fn signed<S: Sc + SimdScalarSigned, const N: usize>(rec: &mut Rec, mag: i64) {
    let n = N as i64;
    let a = gen(&mut rec.rng, N, mag, S::DEN, true);
    let (va, pa) = (vec::<S, N>(&a), pnt::<S, N>(&a));
    let aa = [rr(&a)];
    rec.call("vec", "neg", "v", S::NAME, &[n], &aa, 1, || -va);
    rec.call("vec", "neg", "r", S::NAME, &[n], &aa, 1, || -&va);
    rec.call("vec", "neg", "m", S::NAME, &[n], &aa, 1, || {
        let mut z = va;
        z.neg_mut();
        z
    });
    rec.call("vec", "neg", "v", S::NAME, &[n, 1], &aa, 1, || -pa);
    rec.call("vec", "neg", "r", S::NAME, &[n, 1], &aa, 1, || -&pa);
}
pub fn consts<S: Sc + SimdScalar, const N: usize>(rec: &mut Rec) {
    let n = N as i64;
    rec.call("vec", "zero", "m", S::NAME, &[n], &[], 0, || Vector::<S, N>::zero());
    rec.call("vec", "zero", "d", S::NAME, &[n], &[], 0, || Vector::<S, N>::default());
    rec.call("vec", "zero", "m", S::NAME, &[n, 1], &[], 0, || Point::<S, N>::origin());
    rec.call("vec", "zero", "d", S::NAME, &[n, 1], &[], 0, || Point::<S, N>::default());
    let s = gen(&mut rec.rng, 1, 9, S::DEN, S::SIGNED)[0];
    let sc = S::ofq(s);
    rec.call("vec", "fill", "m", S::NAME, &[n], &[vec![s.r()]], 1, || Vector::<S, N>::from_fill(sc));
    rec.call("vec", "fill", "m", S::NAME, &[n, 1], &[vec![s.r()]], 1, || Point::<S, N>::from_fill(sc));
    let a = gen(&mut rec.rng, N, 9, 1, S::SIGNED);
    let (va, pa) = (vec::<S, N>(&a), pnt::<S, N>(&a));
    let two = S::ofq(q(2));
    rec.call("vec", "smul", "map", S::NAME, &[n], &[rr(&a), vec![2]], NOSCALE, || va.map(|x| x * two));
    rec.call("vec", "smul", "map", S::NAME, &[n, 1], &[rr(&a), vec![2]], NOSCALE, || pa.map(|x| x * two));
    rec.call("vec", "id", "tv", S::NAME, &[n, 1], &[rr(&a)], 1, || pa.to_vector());
    rec.call("vec", "id", "fv", S::NAME, &[n, 1], &[rr(&a)], 1, || Point::from_vector(&va));
}
macro_rules! units { ($rec:expr, $S:ty, $($V:ident $n:expr, $i:expr, $f:ident);*) => {$(
    $rec.call("vec", "unit", stringify!($f), <$S>::NAME, &[$n, $i], &[], NOSCALE, || $V::<$S>::$f());
)*} }
pub fn units<S: Sc + SimdScalar>(rec: &mut Rec) {
    units!(rec, S, Vector1 1, 1, unit_x; Vector2 2, 1, unit_x; Vector2 2, 2, unit_y;
        Vector3 3, 1, unit_x; Vector3 3, 2, unit_y; Vector3 3, 3, unit_z;
        Vector4 4, 1, unit_x; Vector4 4, 2, unit_y; Vector4 4, 3, unit_z; Vector4 4, 4, unit_w);
}
fn all_n<S: Sc + SimdScalarSigned>(rec: &mut Rec, mag: i64) {
    arith::<S, 1>(rec, mag);
    arith::<S, 2>(rec, mag);
    arith::<S, 3>(rec, mag);
    arith::<S, 4>(rec, mag);
    signed::<S, 1>(rec, mag);
    signed::<S, 2>(rec, mag);
    signed::<S, 3>(rec, mag);
    signed::<S, 4>(rec, mag);
}
/// scaling through the interface of normed values
fn nscale<S: Sc + SimdScalarFloat, const N: usize>(rec: &mut Rec, mag: i64) {
    let n = N as i64;
    let a = gen(&mut rec.rng, N, mag, S::DEN, true);
    let s = loop { let s = gen(&mut rec.rng, 1, mag, S::DEN, true)[0]; if s.0 != 0 { break s } };
    let (va, pa, sc) = (vec::<S, N>(&a), pnt::<S, N>(&a), S::ofq(s));
    let e = [rr(&a), vec![s.r()]];
    rec.call("vec", "smul", "nscale", S::NAME, &[n], &e, 2, || Normed::scale(&va, sc));
    rec.call("vec", "smul", "nscalem", S::NAME, &[n], &e, 2, || { let mut z = va; Normed::scale_mut(&mut z, sc); z });
    rec.call("vec", "sdiv", "nscale", S::NAME, &[n], &e, 0, || Normed::unscale(&va, sc));
    rec.call("vec", "sdiv", "nscalem", S::NAME, &[n], &e, 0, || { let mut z = va; Normed::unscale_mut(&mut z, sc); z });
    rec.call("vec", "smul", "nscale", S::NAME, &[n, 1], &e, 2, || Normed::scale(&pa, sc));
    rec.call("vec", "smul", "nscalem", S::NAME, &[n, 1], &e, 2, || { let mut z = pa; Normed::scale_mut(&mut z, sc); z });
    rec.call("vec", "sdiv", "nscale", S::NAME, &[n, 1], &e, 0, || Normed::unscale(&pa, sc));
    rec.call("vec", "sdiv", "nscalem", S::NAME, &[n, 1], &e, 0, || { let mut z = pa; Normed::unscale_mut(&mut z, sc); z });
}
fn all_ns<S: Sc + SimdScalarFloat>(rec: &mut Rec, mag: i64) {
    for _ in 0..3 {
        nscale::<S, 1>(rec, mag);
        nscale::<S, 2>(rec, mag);
        nscale::<S, 3>(rec, mag);
        nscale::<S, 4>(rec, mag);
    }
}
pub fn c04(rec: &mut Rec) {
    for it in 0..rec.iters(16, 160) {
        rec.next();
        all_n::<f64>(rec, 99);
        all_n::<f32>(rec, 9);
        all_ns::<f64>(rec, 99);
        all_ns::<f32>(rec, 9);
        all_n::<i32>(rec, 99);
        all_n::<i8>(rec, 9);
        all_n::<i64>(rec, 999);
        // the same operations at extreme magnitudes (exact powers of two)
        let k = [40, -40, 20, -20, 120, -120][it % 6];
        set_scale(k);
        all_n::<f64>(rec, 9);
        all_ns::<f64>(rec, 9);
        set_scale(k / 4);
        all_n::<f32>(rec, 9);
        all_ns::<f32>(rec, 9);
        set_scale(0);
        arith::<u32, 1>(rec, 50);
        arith::<u32, 2>(rec, 50);
        arith::<u32, 3>(rec, 50);
        arith::<u32, 4>(rec, 50);
        arith::<u8, 3>(rec, 9);
        if it % 4 == 0 {
            consts::<f64, 1>(rec);
            consts::<f64, 2>(rec);
            consts::<f64, 3>(rec);
            consts::<f64, 4>(rec);
            consts::<i32, 1>(rec);
            consts::<i32, 2>(rec);
            consts::<i32, 3>(rec);
            consts::<i32, 4>(rec);
            units::<f64>(rec);
            units::<u8>(rec);
        }
    }
    // every pair of vectors over {-1,0,1}, dimensions 1 and 2 (3 when thorough)
    small::<1>(rec);
    small::<2>(rec);
    if rec.thorough {
        small::<3>(rec);
    }
}
fn small<const N: usize>(rec: &mut Rec) {
    let n = N as i64;
    let t = 3usize.pow(2 * N as u32);
    for c in 0..t {
        if c % 16 == 0 {
            rec.next();
        }
        let mut k = c;
        let v: Vec<Q> = (0..2 * N).map(|_| { let d = k % 3; k /= 3; q(d as i64 - 1) }).collect();
        let (a, b) = (&v[..N], &v[N..]);
        let (va, vb, pa) = (vec::<f64, N>(a), vec::<f64, N>(b), pnt::<f64, N>(a));
        let ab = [rr(a), rr(b)];
        rec.call("vec", "add", "vv", "f64", &[n], &ab, 1, || va + vb);
        rec.call("vec", "sub", "vv", "f64", &[n], &ab, 1, || va - vb);
        rec.call("vec", "cmul", "m", "f64", &[n], &ab, 1, || va.component_mul(&vb));
        rec.call("vec", "sub", "vv", "f64", &[n, 1], &ab, 1, || pa - vb);
        rec.call("vec", "dot", "m", "f64", &[n], &ab, 1, || va.dot(&vb));
    }
}

fn products<S: Sc + SimdScalarSigned, const N: usize>(rec: &mut Rec, mag: i64) {
    let n = N as i64;
    let a = gen(&mut rec.rng, N, mag, S::DEN, true);
    let b = gen(&mut rec.rng, N, mag, S::DEN, true);
    let (va, vb, pa, pb) = (vec::<S, N>(&a), vec::<S, N>(&b), pnt::<S, N>(&a), pnt::<S, N>(&b));
    let ab = [rr(&a), rr(&b)];
    rec.call("vec", "dot", "m", S::NAME, &[n], &ab, 2, || va.dot(&vb));
    rec.call("vec", "dot", "m", S::NAME, &[n, 1], &ab, 2, || pa.dot(&pb));
    rec.call("vec", "normsq", "m", S::NAME, &[n], &[rr(&a)], 2, || va.norm_squared());
    rec.call("vec", "normsq", "g", S::NAME, &[n], &[rr(&a)], 2, || va.magnitude_squared());
    rec.call("vec", "distsq", "m", S::NAME, &[n], &ab, 2, || va.metric_distance_squared(&vb));
    rec.call("vec", "normsq", "m", S::NAME, &[n, 1], &[rr(&a)], 2, || pa.norm_squared());
    rec.call("vec", "normsq", "g", S::NAME, &[n, 1], &[rr(&a)], 2, || pa.magnitude_squared());
    rec.call("vec", "distsq", "m", S::NAME, &[n, 1], &ab, 2, || pa.metric_distance_squared(&pb));
}
fn cross<S: Sc + SimdScalarSigned>(rec: &mut Rec, mag: i64) {
    let a = gen(&mut rec.rng, 3, mag, S::DEN, true);
    let b = gen(&mut rec.rng, 3, mag, S::DEN, true);
    let c = gen(&mut rec.rng, 3, mag, S::DEN, true);
    let (va, vb, vc) = (vec::<S, 3>(&a), vec::<S, 3>(&b), vec::<S, 3>(&c));
    rec.call("vec", "cross", "m", S::NAME, &[3], &[rr(&a), rr(&b)], 2, || va.cross(&vb));
    rec.call("vec", "triple", "m", S::NAME, &[3], &[rr(&a), rr(&b), rr(&c)], 3, || va.triple(&vb, &vc));
}
fn geo<S: Sc + SimdScalarFloat, const N: usize>(rec: &mut Rec, mag: i64) {
    let n = N as i64;
    let a = gen(&mut rec.rng, N, mag, S::DEN, true);
    let b = gen(&mut rec.rng, N, mag, 1, true);
    let (va, vb) = (vec::<S, N>(&a), vec::<S, N>(&b));
    let ab = [rr(&a), rr(&b)];
    if b.iter().any(|x| x.0 != 0) {
        rec.call("vec", "project", "m", S::NAME, &[n], &ab, 1, || va.project(&vb));
        rec.call("vec", "reflect", "m", S::NAME, &[n], &ab, 1, || va.reflect(&vb));
    }
    let t = *rec.rng.pick(&[Q(0, 1), Q(1, 1), Q(1, 2), Q(1, 4), Q(3, 4), Q(2, 1), Q(-1, 1), Q(-3, 2), Q(1, 5)]);
    let abt = [rr(&a), rr(&b), vec![t.r()]];
    let st = S::ofq(t);
    rec.call("vec", "lerp", "m", S::NAME, &[n], &abt, NOSCALE, || va.lerp(&vb, st));
}
pub fn c05(rec: &mut Rec) {
    for it in 0..rec.iters(150, 1500) {
        rec.next();
        products::<f64, 1>(rec, 99);
        products::<f64, 2>(rec, 99);
        products::<f64, 3>(rec, 99);
        products::<f64, 4>(rec, 99);
        products::<i64, 2>(rec, 99);
        products::<i64, 3>(rec, 99);
        products::<i64, 4>(rec, 99);
        products::<f32, 1>(rec, 9);
        products::<f32, 2>(rec, 9);
        products::<f32, 3>(rec, 9);
        products::<f32, 4>(rec, 9);
        cross::<f64>(rec, 99);
        cross::<f64>(rec, 9);
        cross::<f32>(rec, 9);
        cross::<i32>(rec, 99);
        let g = if it % 2 == 0 { 9 } else { 30 };
        geo::<f64, 1>(rec, g);
        geo::<f64, 2>(rec, g);
        geo::<f64, 3>(rec, g);
        geo::<f64, 4>(rec, g);
        geo::<f32, 2>(rec, 2);
        geo::<f32, 3>(rec, 2);
        if it % 3 == 0 {
            set_scale([40, -40, 20, -20, 100, -100][it / 3 % 6]);
            products::<f64, 1>(rec, 9);
            products::<f64, 2>(rec, 9);
            products::<f64, 3>(rec, 9);
            products::<f64, 4>(rec, 9);
            cross::<f64>(rec, 9);
            geo::<f64, 2>(rec, 9);
            geo::<f64, 3>(rec, 9);
            set_scale(0);
        }
    }
    // all pairs over {-1,0,1}^3 for the cross product
    for c in 0..729usize {
        if c % 16 == 0 {
            rec.next();
        }
        let mut k = c;
        let v: Vec<Q> = (0..6).map(|_| { let d = k % 3; k /= 3; q(d as i64 - 1) }).collect();
        let (va, vb) = (vec::<f64, 3>(&v[..3]), vec::<f64, 3>(&v[3..]));
        rec.call("vec", "cross", "m", "f64", &[3], &[rr(&v[..3]), rr(&v[3..])], 2, || va.cross(&vb));
        rec.call("vec", "dot", "m", "f64", &[3], &[rr(&v[..3]), rr(&v[3..])], 2, || va.dot(&vb));
    }
}

fn main() {
    drive(&[("C04", c04), ("C05", c05)]);
}

//! Driver: replays client programs generated from spec/Session.tla on the
//! library and records the whole store after every call (C29).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
use cglinalg_core::*;
use cglinalg_numeric::*;
use common::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
enum O<S> {
    V1(Vector1<S>), V2(Vector2<S>), V3(Vector3<S>), V4(Vector4<S>),
    P2(Point2<S>), P3(Point3<S>),
    M22(Matrix2x2<S>), M33(Matrix3x3<S>), M23(Matrix2x3<S>), M32(Matrix3x2<S>), M44(Matrix4x4<S>), M34(Matrix3x4<S>),
    Q(Quaternion<S>), C(Complex<S>),
}
fn arr<S: Sc, const N: usize>(a: &[i64]) -> [S; N] { std::array::from_fn(|i| S::ofq(q(a[i]))) }
fn arr2<S: Sc, const R: usize, const C: usize>(a: &[i64]) -> [[S; R]; C] { std::array::from_fn(|c| std::array::from_fn(|r| S::ofq(q(a[c * R + r])))) }
/// the table of spec/Session.tla
const TABLE: [(&str, usize); 24] = [
    ("v1", 1), ("v2", 2), ("v2", 2), ("v3", 3), ("v3", 3), ("v4", 4), ("v4", 4), ("p2", 2), ("p2", 2), ("p3", 3), ("p3", 3),
    ("m22", 4), ("m22", 4), ("m33", 9), ("m33", 9), ("m23", 6), ("m32", 6), ("m44", 16), ("m44", 16), ("m34", 12),
    ("q", 4), ("q", 4), ("c", 2), ("c", 2),
];
fn make<S: Sc + SimdScalarSigned>(k: &str, a: &[i64], route: i64) -> O<S> {
    let e = |i: usize| S::ofq(q(a[i]));
    let r = route & 1 == 1;
    match k {
        "v1" => O::V1(Vector1::from(arr::<S, 1>(a))),
        "v2" => O::V2(if r { Vector2::new(e(0), e(1)) } else { Vector2::from(arr::<S, 2>(a)) }),
        "v3" => O::V3(if r { Vector3::new(e(0), e(1), e(2)) } else { Vector3::from(arr::<S, 3>(a)) }),
        "v4" => O::V4(if r { Vector4::new(e(0), e(1), e(2), e(3)) } else { Vector4::from(arr::<S, 4>(a)) }),
        "p2" => O::P2(if r { Point2::new(e(0), e(1)) } else { Point2::from(arr::<S, 2>(a)) }),
        "p3" => O::P3(if r { Point3::new(e(0), e(1), e(2)) } else { Point3::from(arr::<S, 3>(a)) }),
        "m22" => O::M22(if r { Matrix2x2::new(e(0), e(1), e(2), e(3)) } else { Matrix::from(arr2::<S, 2, 2>(a)) }),
        "m33" => O::M33(if r { Matrix3x3::new(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8)) } else { Matrix::from(arr2::<S, 3, 3>(a)) }),
        "m23" => O::M23(if r { Matrix2x3::new(e(0), e(1), e(2), e(3), e(4), e(5)) } else { Matrix::from(arr2::<S, 2, 3>(a)) }),
        "m32" => O::M32(if r { Matrix3x2::new(e(0), e(1), e(2), e(3), e(4), e(5)) } else { Matrix::from(arr2::<S, 3, 2>(a)) }),
        "m44" => O::M44(if r {
            Matrix4x4::new(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15))
        } else { Matrix::from(arr2::<S, 4, 4>(a)) }),
        "m34" => O::M34(if r { Matrix3x4::new(e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11)) } else { Matrix::from(arr2::<S, 3, 4>(a)) }),
        "q" => O::Q(if r { Quaternion::new(e(0), e(1), e(2), e(3)) } else { Quaternion::from_parts(e(0), Vector3::new(e(1), e(2), e(3))) }),
        _ => O::C(if r { Complex::new(e(0), e(1)) } else { Complex::from(arr::<S, 2>(a)) }),
    }
}
macro_rules! one { ($x:expr; $($A:ident)*; $a:ident => $b:expr) => { match $x { $( O::$A($a) => $b, )* #[allow(unreachable_patterns)] _ => panic!("script") } } }
macro_rules! two { ($x:expr, $y:expr; $($A:ident $B:ident),*; $a:ident, $c:ident => $b:expr) => { match ($x, $y) { $( (O::$A($a), O::$B($c)) => $b, )* _ => panic!("script") } } }
fn dump<S: Sc + SimdScalarSigned>(st: &[O<S>]) -> Vec<i64> {
    let mut r = vec![];
    for x in st {
        match x {
            O::V1(a) => r.push(a[0].int()),
            O::V2(a) => r.extend((0..2).map(|i| a[i].int())),
            O::V3(a) => r.extend((0..3).map(|i| a[i].int())),
            O::V4(a) => r.extend((0..4).map(|i| a[i].int())),
            O::P2(a) => r.extend((0..2).map(|i| a[i].int())),
            O::P3(a) => r.extend((0..3).map(|i| a[i].int())),
            O::M22(a) => r.extend((0..4).map(|i| a[i / 2][i % 2].int())),
            O::M33(a) => r.extend((0..9).map(|i| a[i / 3][i % 3].int())),
            O::M23(a) => r.extend((0..6).map(|i| a[i / 2][i % 2].int())),
            O::M32(a) => r.extend((0..6).map(|i| a[i / 3][i % 3].int())),
            O::M44(a) => r.extend((0..16).map(|i| a[i / 4][i % 4].int())),
            O::M34(a) => r.extend((0..12).map(|i| a[i / 3][i % 3].int())),
            O::Q(a) => r.extend((0..4).map(|i| a[i].int())),
            O::C(a) => r.extend((0..2).map(|i| a[i].int())),
        }
    }
    r
}
macro_rules! setm { ($m:expr, $R:expr, $C:expr, $i:expr, $v:expr, $route:expr) => {{
    let (c, r) = ($i / $R, $i % $R);
    match $route {
        0 => $m[c][r] = $v,
        1 => $m[(c, r)] = $v,
        2 => { let z: &mut [[S; $R]; $C] = $m.as_mut(); z[c][r] = $v }
        _ => { let z: &mut [S; $R * $C] = $m.as_mut(); z[$i] = $v }
    }
}} }
macro_rules! setv { ($m:expr, $N:expr, $i:expr, $v:expr, $route:expr) => {
    match $route {
        0 | 3 => $m[$i] = $v,
        1 => { let z: &mut [S; $N] = $m.as_mut(); z[$i] = $v }
        _ => $m[$i..$i + 1][0] = $v,
    }
} }

fn step<S: Sc + SimdScalarSigned>(st: &mut [O<S>], o: &str, t: usize, s: &[usize], p: &[i64]) -> Vec<i64> {
    let route = *p.last().unwrap();
    let r = route & 1 == 1;
    let k = |i: usize| S::ofq(q(p[i]));
    let u = |i: usize| p[i] as usize;
    let a = s.first().map(|i| st[*i]);
    let b = s.get(1).map(|i| st[*i]);
    let (sa, sb) = (|| a.unwrap(), || b.unwrap());
    let x = st.get_mut(t);
    match o {
        "set" => st[t] = make(TABLE[t].0, p, route),
        "setel" => {
            let (i, v) = (u(0), k(1));
            match x.unwrap() {
                O::V1(m) => if route == 3 { m.x = v } else { setv!(m, 1, i, v, route) },
                O::V2(m) => if route == 3 { if i == 0 { m.x = v } else { m.y = v } } else { setv!(m, 2, i, v, route) },
                O::V3(m) => if route == 3 { match i { 0 => m.x = v, 1 => m.y = v, _ => m.z = v } } else { setv!(m, 3, i, v, route) },
                O::V4(m) => if route == 3 { match i { 0 => m.x = v, 1 => m.y = v, 2 => m.z = v, _ => m.w = v } } else { setv!(m, 4, i, v, route) },
                O::P2(m) => if route == 3 { if i == 0 { m.x = v } else { m.y = v } } else { setv!(m, 2, i, v, route) },
                O::P3(m) => if route == 3 { match i { 0 => m.x = v, 1 => m.y = v, _ => m.z = v } } else { setv!(m, 3, i, v, route) },
                O::M22(m) => if r && route == 3 { match i { 0 => m.c0r0 = v, 1 => m.c0r1 = v, 2 => m.c1r0 = v, _ => m.c1r1 = v } } else { setm!(m, 2, 2, i, v, route) },
                O::M33(m) => setm!(m, 3, 3, i, v, route),
                O::M23(m) => setm!(m, 2, 3, i, v, route),
                O::M32(m) => setm!(m, 3, 2, i, v, route),
                O::M44(m) => setm!(m, 4, 4, i, v, route),
                O::M34(m) => setm!(m, 3, 4, i, v, route),
                O::Q(m) => if route == 3 { if i == 0 { m.s = v } else { m.v[i - 1] = v } } else { setv!(m, 4, i, v, route) },
                O::C(m) => setv!(m, 2, i, v, route),
            }
        }
        "copy" => st[t] = sa(),
        "add" => two!(x.unwrap(), sa(); V1 V1, V2 V2, V3 V3, V4 V4, P2 V2, P3 V3, M22 M22, M33 M33, M23 M23, M32 M32, M44 M44, M34 M34, Q Q, C C;
                      x, y => if r { *x += y } else { *x += &y }),
        "sub" => two!(x.unwrap(), sa(); V1 V1, V2 V2, V3 V3, V4 V4, P2 V2, P3 V3, M22 M22, M33 M33, M23 M23, M32 M32, M44 M44, M34 M34, Q Q, C C;
                      x, y => if r { *x -= y } else { *x -= &y }),
        "addto" | "subto" => {
            let (a, b) = (sa(), sb());
            macro_rules! z { ($($A:ident $B:ident),*) => { match (a, b) { $( (O::$A(a), O::$B(b)) => O::$A(match (o == "addto", r) {
                (true, true) => a + b, (true, false) => &a + &b, (false, true) => a - b, (false, false) => &a - &b }), )* _ => panic!("script") } } }
            st[t] = z!(V1 V1, V2 V2, V3 V3, V4 V4, P2 V2, P3 V3, M22 M22, M33 M33, M23 M23, M32 M32, M44 M44, M34 M34, Q Q, C C)
        }
        "psub" => st[t] = match (sa(), sb()) {
            (O::P2(a), O::P2(b)) => O::V2(a - b),
            (O::P3(a), O::P3(b)) => O::V3(&a - &b),
            _ => panic!("script"),
        },
        "smul" => one!(x.unwrap(); V1 V2 V3 V4 P2 P3 M22 M33 M23 M32 M44 M34 Q C; x => if r { *x *= k(0) } else { *x = *x * k(0) }),
        "sdiv" => one!(x.unwrap(); V1 V2 V3 V4 P2 P3 M22 M33 M23 M32 M44 M34 Q C; x => if r { *x /= k(0) } else { *x = *x / k(0) }),
        "srem" => one!(x.unwrap(); V1 V2 V3 V4 P2 P3 M22 M33 M23 M32 M44 M34 Q C; x => if r { *x %= k(0) } else { *x = *x % k(0) }),
        "neg" => match x.unwrap() {
            O::V1(x) => if r { x.neg_mut() } else { *x = -*x },
            O::V2(x) => if r { x.neg_mut() } else { *x = -*x },
            O::V3(x) => if r { x.neg_mut() } else { *x = -*x },
            O::V4(x) => if r { x.neg_mut() } else { *x = -*x },
            O::P2(x) => *x = -*x,
            O::P3(x) => *x = -*x,
            O::M22(x) => if r { x.neg_mut() } else { *x = -*x },
            O::M33(x) => if r { x.neg_mut() } else { *x = -*x },
            O::M23(x) => if r { x.neg_mut() } else { *x = -*x },
            O::M32(x) => if r { x.neg_mut() } else { *x = -*x },
            O::M44(x) => if r { x.neg_mut() } else { *x = -*x },
            O::M34(x) => if r { x.neg_mut() } else { *x = -*x },
            O::Q(x) => *x = -*x,
            O::C(x) => *x = -*x,
        },
        "cmul" => two!(x.unwrap(), sa(); V1 V1, V2 V2, V3 V3, V4 V4, M22 M22, M33 M33, M23 M23, M32 M32, M44 M44, M34 M34;
                       x, y => if r { x.component_mul_assign(&y) } else { *x = x.component_mul(&y) }),
        "swaprow" => one!(x.unwrap(); M22 M33 M23 M32 M44 M34; x => x.swap_rows(u(0), u(1))),
        "swapcol" => one!(x.unwrap(); M22 M33 M23 M32 M44 M34; x => x.swap_columns(u(0), u(1))),
        "swapel" => one!(x.unwrap(); M22 M33 M23 M32 M44 M34; x => x.swap((u(0), u(1)), (u(2), u(3)))),
        "tr" => one!(x.unwrap(); M22 M33 M44; x => x.transpose_mut()),
        "trof" => st[t] = match sa() {
            O::M22(a) => O::M22(a.transpose()),
            O::M33(a) => O::M33(a.transpose()),
            O::M44(a) => O::M44(a.transpose()),
            O::M23(a) => O::M32(a.transpose()),
            O::M32(a) => O::M23(a.transpose()),
            _ => panic!("script"),
        },
        "conj" => match x.unwrap() {
            O::Q(x) => x.conjugate_mut(),
            O::C(x) => *x = x.conjugate(),
            _ => panic!("script"),
        },
        "conjof" => st[t] = match sa() {
            O::Q(x) => O::Q(x.conjugate()),
            O::C(x) => O::C(x.conjugate()),
            _ => panic!("script"),
        },
        "mul" => {
            macro_rules! z { ($($A:ident $B:ident $C:ident),*) => { match (sa(), sb()) { $( (O::$A(a), O::$B(b)) => O::$C(match route {
                0 => a * b, 1 => &a * b, 2 => a * &b, _ => &a * &b }), )* _ => panic!("script") } } }
            st[t] = z!(Q Q Q, C C C, M22 V2 V2, M33 V3 V3, M44 V4 V4, M23 V3 V2, M32 V2 V3, M34 V4 V3,
                       M22 M22 M22, M22 M23 M23, M23 M33 M23, M23 M32 M22, M32 M22 M32, M32 M23 M33, M33 M32 M32, M33 M33 M33, M33 M34 M34, M34 M44 M34, M44 M44 M44)
        }
        "mulasg" => two!(x.unwrap(), sa(); C C; x, y => if r { *x *= y } else { *x *= &y }),
        "colset" => match (x.unwrap(), sa()) {
            (O::M22(m), O::V2(v)) => { let z: &mut [Vector<S, 2>; 2] = m.as_mut(); z[u(0)] = v }
            (O::M23(m), O::V2(v)) => { let z: &mut [Vector<S, 2>; 3] = m.as_mut(); z[u(0)] = v }
            (O::M33(m), O::V3(v)) => { let z: &mut [Vector<S, 3>; 3] = m.as_mut(); z[u(0)] = v }
            (O::M32(m), O::V3(v)) => { let z: &mut [Vector<S, 3>; 2] = m.as_mut(); z[u(0)] = v }
            (O::M34(m), O::V3(v)) => { let z: &mut [Vector<S, 3>; 4] = m.as_mut(); z[u(0)] = v }
            (O::M44(m), O::V4(v)) => { let z: &mut [Vector<S, 4>; 4] = m.as_mut(); z[u(0)] = v }
            _ => panic!("script"),
        },
        "getcol" => st[t] = match sa() {
            O::M22(m) => O::V2(m.column(u(0))),
            O::M23(m) => O::V2(m.column(u(0))),
            O::M33(m) => O::V3(m.column(u(0))),
            O::M32(m) => O::V3(m.column(u(0))),
            O::M34(m) => O::V3(m.column(u(0))),
            O::M44(m) => O::V4(m.column(u(0))),
            _ => panic!("script"),
        },
        "getrow" => st[t] = match sa() {
            O::M22(m) => O::V2(m.row(u(0))),
            O::M32(m) => O::V2(m.row(u(0))),
            O::M23(m) => O::V3(m.row(u(0))),
            O::M33(m) => O::V3(m.row(u(0))),
            O::M34(m) => O::V4(m.row(u(0))),
            O::M44(m) => O::V4(m.row(u(0))),
            _ => panic!("script"),
        },
        "cross" => st[t] = match (sa(), sb()) { (O::V3(a), O::V3(b)) => O::V3(a.cross(&b)), _ => panic!("script") },
        "extend" => st[t] = match sa() {
            O::V1(a) => O::V2(a.extend(k(0))),
            O::V2(a) => O::V3(a.extend(k(0))),
            O::V3(a) => O::V4(a.extend(k(0))),
            _ => panic!("script"),
        },
        "contract" => st[t] = match sa() {
            O::V2(a) => O::V1(a.contract()),
            O::V3(a) => O::V2(a.contract()),
            O::V4(a) => O::V3(a.contract()),
            _ => panic!("script"),
        },
        "qvec" => st[t] = match sa() { O::Q(a) => O::V3(if r { a.v } else { a.vector() }), _ => panic!("script") },
        "qset" => st[t] = match sa() { O::V3(a) => O::Q(Quaternion::from_parts(k(0), a)), _ => panic!("script") },
        "recast" => st[t] = match sa() {
            O::V2(a) => O::P2(Point2::from_vector(&a)),
            O::V3(a) => O::P3(Point3::from_vector(&a)),
            O::P2(a) => O::V2(a.to_vector()),
            O::P3(a) => O::V3(a.to_vector()),
            _ => panic!("script"),
        },
        "normsq" => return vec![one!(sa(); V1 V2 V3 V4 P2 P3 Q C; a => if r { a.norm_squared() } else { a.magnitude_squared() }).int()],
        "trace" => return vec![one!(sa(); M22 M33 M44; a => a.trace()).int()],
        "det" => return vec![one!(sa(); M22; a => a.determinant()).int()],
        "iszero" => return vec![one!(sa(); V1 V2 V3 V4 M22 M33 M23 M32 M44 M34 Q C; a => a.is_zero()) as i64],
        "dot" => return vec![two!(sa(), sb(); V1 V1, V2 V2, V3 V3, V4 V4, P2 P2, P3 P3, Q Q; a, b => a.dot(&b)).int()],
        "eq" => return vec![two!(sa(), sb(); V1 V1, V2 V2, V3 V3, V4 V4, P2 P2, P3 P3, M22 M22, M33 M33, M23 M23, M32 M32, M44 M44, M34 M34, Q Q, C C;
                                 a, b => if r { a == b } else { !(a != b) }) as i64],
        _ => panic!("script"),
    }
    vec![]
}

fn replay<S: Sc + SimdScalarSigned>(rec: &mut Rec, scalar: &str, script: &[(String, i64, Vec<usize>, Vec<i64>)]) {
    let mut st: Vec<O<S>> = vec![];
    for (o, t, s, p) in script {
        let ids: Vec<i64> = s.iter().map(|x| *x as i64).collect();
        if o == "init" {
            let mut at = 0;
            st = TABLE.iter().map(|(k, n)| { at += n; make::<S>(k, &p[at - n..at], 0) }).collect();
            rec.emit_ses(o, scalar, &[], &[], 0, &[p.clone()], &dump(&st));
            continue;
        }
        let src: Vec<usize> = s.iter().map(|x| x - 1).collect();
        let out = catch_unwind(AssertUnwindSafe(|| step(&mut st, o, (*t - 1) as usize, &src, p)));
        let x = out.unwrap_or(vec![PANIC]);
        rec.emit_ses(o, scalar, &[], &x, *t, &[ids, p.clone()], &dump(&st));
    }
}

fn main() {
    drive(&[("C29", |rec| {
        // one program per line group: op target nsources sources.. params..
        let text = std::fs::read_to_string(std::env::var("SCRIPT").expect("SCRIPT")).expect("script");
        let mut programs: Vec<Vec<(String, i64, Vec<usize>, Vec<i64>)>> = vec![];
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n: Vec<i64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
            let ns = n[1] as usize;
            if w[0] == "init" { programs.push(vec![]) }
            programs.last_mut().unwrap().push((w[0].to_string(), n[0], n[2..2 + ns].iter().map(|x| *x as usize).collect(), n[2 + ns..].to_vec()));
        }
        for p in &programs {
            rec.next();
            replay::<f64>(rec, "f64", p);
            replay::<i32>(rec, "i32", p);
            rec.next();
            replay::<f32>(rec, "f32", p);
            replay::<i64>(rec, "i64", p);
        }
    })]);
}

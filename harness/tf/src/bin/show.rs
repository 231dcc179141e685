//! Driver: printed forms (C31).  Components are recorded as the strings the
//! scalar type itself prints.
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use common::*;
use std::fmt::Display;

fn st<T: Display>(x: &[T]) -> Vec<String> {
    x.iter().map(|y| format!("{y}")).collect()
}
fn cols<S: Display + Copy, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> Vec<Vec<String>> {
    (0..C).map(|c| (0..R).map(|r| format!("{}", m[c][r])).collect()).collect()
}
fn vs<S: Display + Copy, const N: usize>(v: &Vector<S, N>) -> Vec<String> {
    (0..N).map(|i| format!("{}", v[i])).collect()
}
/// the printed form, however it is reached; line ends do not count
fn show<T: Display>(rec: &mut Rec, o: &str, s: &str, a: &[Vec<String>], x: &T) {
    use std::fmt::Write;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut w = String::new();
        write!(w, "{}", x).expect("printing");
        [format!("{x}"), x.to_string(), w]
    }));
    match r {
        Err(_) => rec.emit_str("shw", o, "", s, a, "panic"),
        Ok(k) => {
            for (v, t) in ["f", "t", "w"].iter().zip(k.iter()) {
                rec.emit_str("shw", o, v, s, a, t.trim_end());
            }
        }
    }
}
fn ints<const N: usize>(rec: &mut Rec) -> [i64; N] {
    std::array::from_fn(|_| if rec.rng.below(6) == 0 { rec.rng.int(-40000, 40000) } else { rec.rng.int(-12, 12) })
}
macro_rules! plain {
    ($rec:expr, $S:ty, $s:expr, $g:expr) => {{
        let g: &dyn Fn(i64) -> $S = &$g;
        macro_rules! vp { ($N:literal) => {{
            let x: [$S; $N] = ints::<$N>($rec).map(|k| g(k));
            show($rec, "Vector", $s, &[st(&x)], &Vector::<$S, $N>::from(x));
            show($rec, "Point", $s, &[st(&x)], &Point::<$S, $N>::from(x));
        }}; }
        vp!(1); vp!(2); vp!(3); vp!(4);
        macro_rules! mt { ($R:literal $C:literal) => {{
            let x: [[$S; $R]; $C] = std::array::from_fn(|_| ints::<$R>($rec).map(|k| g(k)));
            let a: Vec<Vec<String>> = x.iter().map(|c| st(c)).collect();
            show($rec, "Matrix", $s, &a, &Matrix::<$S, $R, $C>::from(x));
        }}; }
        mt!(1 1); mt!(1 2); mt!(1 3); mt!(1 4); mt!(2 1); mt!(2 2); mt!(2 3); mt!(2 4); mt!(3 1); mt!(3 2); mt!(3 3); mt!(3 4); mt!(4 1); mt!(4 2); mt!(4 3); mt!(4 4);
        let x: [$S; 4] = ints::<4>($rec).map(|k| g(k));
        show($rec, "Complex", $s, &[st(&x[..2])], &Complex::new(x[0], x[1]));
        show($rec, "Quaternion", $s, &[st(&x)], &Quaternion::new(x[0], x[1], x[2], x[3]));
    }};
}
macro_rules! floats {
    ($rec:expr, $S:ty, $s:expr, $h:expr) => {{
        let h: $S = $h;
        let f = |rec: &mut Rec| -> $S { rec.rng.int(-99, 99) as $S / h };
        macro_rules! rv { ($N:literal) => { Vector::<$S, $N>::from(std::array::from_fn::<$S, $N, _>(|_| f($rec))) }; }
        let a = f($rec);
        show($rec, "Degrees", $s, &[st(&[a])], &Degrees(a));
        show($rec, "Radians", $s, &[st(&[a])], &Radians(a));
        let e = [f($rec), f($rec), f($rec)];
        show($rec, "EulerRadians", $s, &[st(&e)], &Euler::new(Radians(e[0]), Radians(e[1]), Radians(e[2])));
        show($rec, "EulerDegrees", $s, &[st(&e)], &Euler::new(Degrees(e[0]), Degrees(e[1]), Degrees(e[2])));
        let u = Unit::from_value(rv!(4) + Vector4::new(0.0, 0.0, 0.0, 500.0));
        show($rec, "UnitVector", $s, &[vs(u.as_ref())], &u);
        let u = Unit::from_value(Complex::new(f($rec), 200.0));
        show($rec, "UnitComplex", $s, &[st(&[u.as_ref()[0], u.as_ref()[1]])], &u);
        let u = Unit::from_value(Quaternion::new(f($rec), f($rec), f($rec), 200.0));
        show($rec, "UnitQuaternion", $s, &[st(&[u.as_ref()[0], u.as_ref()[1], u.as_ref()[2], u.as_ref()[3]])], &u);
        macro_rules! tf { ($N:literal, $M:literal, $r:expr, $up:expr, $dir:expr) => {{
            let (v, w) = (rv!($N), rv!($N));
            let t = Translation::<$S, $N>::from_vector(&v);
            let r: Rotation<$S, $N> = $r;
            let k = f($rec);
            show($rec, "Translation", $s, &[vs(&v)], &t);
            show($rec, "Scale", $s, &[vs(&v)], &Scale::<$S, $N>::from_nonuniform_scale(&v));
            show($rec, "Rotation", $s, &cols(r.matrix()), &r);
            let mut a = vec![vs(&v)];
            a.extend(cols(r.matrix()));
            show($rec, "Isometry", $s, &a, &Isometry::<$S, $N>::from_parts(&t, &r));
            a.insert(0, st(&[k]));
            show($rec, "Similarity", $s, &a, &Similarity::<$S, $N>::from_parts(&t, &r, k));
            let n = Unit::from_value(w + $up * 300.0);
            let o = Point::<$S, $N>::from_vector(&v);
            show($rec, "Reflection", $s, &[vs(n.as_ref()), vs(&v)], &Reflection::<$S, $N>::from_normal_bias(&n, &o));
            let (n, d) = (Unit::from_value($up), Unit::from_value($dir));
            show($rec, "Shear", $s, &[st(&[k]), vs(&v), vs(d.as_ref()), vs(n.as_ref())], &Shear::<$S, $N>::from_affine_shear(k, &o, &d, &n));
            let m: Matrix<$S, $M, $M> = Matrix::from(std::array::from_fn::<[$S; $M], $M, _>(|_| std::array::from_fn(|_| f($rec))));
            show($rec, "Transform", $s, &cols(&m), &Transform::<$S, $N, $M>::from_matrix_unchecked(m));
        }}; }
        let q = Radians(f($rec));
        tf!(2, 3, Rotation2::from_angle(q), Vector2::new(0.0, 1.0), Vector2::new(1.0, 0.0));
        let ax = Unit::from_value(Vector3::new(f($rec), 100.0, f($rec)));
        tf!(3, 4, Rotation3::from_axis_angle(&ax, q), Vector3::new(0.0, 1.0, 0.0), Vector3::new(0.0, 0.0, 1.0));
        let b: [$S; 3] = std::array::from_fn(|_| $rec.rng.int(1, 40) as $S / h);
        let (l, rt, bo, to, n, fa) = (-b[0], b[0] + b[1], -b[1], b[2], b[2], b[2] + b[0]);
        let p = Perspective3::new(l, rt, bo, to, n, fa);
        show($rec, "Perspective", $s, &cols(p.matrix()), &p);
        let p = Orthographic3::new(l, rt, bo, to, n, fa);
        show($rec, "Orthographic", $s, &cols(p.matrix()), &p);
    }};
}
fn main() {
    drive(&[("C31", |rec| {
        for i in 0..rec.iters(40, 900) {
            plain!(rec, i32, "i32", |k| k as i32);
            plain!(rec, u8, "u8", |k| k as u8);
            plain!(rec, f64, "f64", |k| match k { 11 => f64::NAN, 12 => f64::INFINITY, -12 => -0.0, k => k as f64 / 8.0 });
            plain!(rec, f32, "f32", |k| k as f32 / 10.0);
            let h = [1.0, 4.0, 10.0][i % 3];
            floats!(rec, f64, "f64", h);
            floats!(rec, f32, "f32", h as f32);
            rec.next();
        }
    })]);
}

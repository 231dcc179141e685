//! Driver: replays client programs over transformations, generated from
//! spec/XSession.tla, and records the whole store after every call (C34).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../../../core/src/elem.rs"]
mod elem;
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use common::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// numbers are integers counting units of 1/U
const U: f64 = 16.0;
trait F: Sc + SimdScalarFloat { const TOL: f64; fn of(x: f64) -> Self; fn f(self) -> f64; }
impl F for f64 { const TOL: f64 = 1e-4; fn of(x: f64) -> f64 { x } fn f(self) -> f64 { self } }
impl F for f32 { const TOL: f64 = 0.05; fn of(x: f64) -> f32 { x as f32 } fn f(self) -> f64 { self as f64 } }
fn un<S: F>(x: i64) -> S { S::of(x as f64 / U) }
fn rd<S: F>(x: S) -> i64 {
    let y = x.f() * U;
    if !(y.abs() < 1e8) { return 1_900_000_001 }
    let r = y.round();
    if (y - r).abs() <= S::TOL { r as i64 } else { 1_800_000_001 }
}
/// the quarter turn with this matrix
fn quarter<S: F>(m: &[i64]) -> Radians<S> { Radians(S::of((m[1] as f64).atan2(m[0] as f64))) }
/// a quaternion with this matrix; `Radians` and axis for the other route
fn quaternion_of(m: &[i64]) -> [f64; 4] {
    for e in 1..81 {
        let b = [e % 3 - 1, e / 3 % 3 - 1, e / 9 % 3 - 1, e / 27 - 1];
        if b.iter().all(|x| *x == 0) { continue }
        let r = elem::rotq(&b.map(|x| q(x as i64)));
        if (0..9).all(|i| r[i] == Q::red(m[i], U as i64)) {
            let l = (b.iter().map(|x| x * x).sum::<i32>() as f64).sqrt();
            return b.map(|x| x as f64 / l);
        }
    }
    panic!("script")
}
fn make_ro2<S: F>(m: &[i64], route: i64) -> Rotation2<S> {
    let a = quarter::<S>(m);
    match route {
        0 => Rotation2::from_angle(Degrees::from(a)),
        1 => Rotation2::rotation_between(&Vector2::new(un(16), un(0)), &Vector2::new(un(2 * m[0]), un(2 * m[1]))),
        _ => Rotation2::from_angle(a),
    }
}
fn make_ro3<S: F>(m: &[i64], route: i64) -> Rotation3<S> {
    let b = quaternion_of(m);
    let w = Quaternion::new(S::of(b[0]), S::of(b[1]), S::of(b[2]), S::of(b[3]));
    let l = (b[1] * b[1] + b[2] * b[2] + b[3] * b[3]).sqrt();
    match route {
        0 | 1 if l > 0.0 => {
            let axis = Unit::from_value(Vector3::new(S::of(b[1]), S::of(b[2]), S::of(b[3])));
            Rotation3::from_axis_angle(&axis, Radians(S::of(2.0 * l.atan2(b[0]))))
        }
        2 => Rotation3::from(&w),
        _ => Rotation3::from_quaternion(&w),
    }
}
fn again_ro2<S: F>(r: &Rotation2<S>, route: i64) -> Rotation2<S> {
    match route { 0 | 1 => Rotation2::from_angle(r.angle()), _ => *r }
}
fn again_ro3<S: F>(r: &Rotation3<S>, route: i64) -> Rotation3<S> {
    match route {
        0 => Rotation3::from_quaternion(&Quaternion::from(r)),
        1 => match r.axis_angle() { Some((a, t)) => Rotation3::from_axis_angle(&a, t), None => *r },
        2 => Rotation3::from(Quaternion::from(*r)),
        _ => *r,
    }
}

macro_rules! mul { ($rt:expr, $a:expr, $b:expr) => { match $rt { 0 => $a * $b, 1 => &$a * $b, 2 => $a * &$b, _ => &$a * &$b } } }
macro_rules! comp { ($rt:expr, $x:expr, $y:expr; $($A:ident $B:ident $C:ident),*) => { match ($x, $y) { $( (O::$A(a), O::$B(b)) => O::$C(mul!($rt, a, b)), )* _ => panic!("script") } } }
macro_rules! app { ($rt:expr, $x:expr, $y:expr; $($A:ident),*) => { match ($x, $y) {
    $( (O::$A(a), O::Po(b)) => O::Po(if $rt == 3 { a.apply_point(&b) } else { mul!($rt, a, b) }),
       (O::$A(a), O::Ve(b)) => O::Ve(if $rt == 3 { a.apply_vector(&b) } else { mul!($rt, a, b) }), )* _ => panic!("script") } } }
macro_rules! iapp { ($x:expr, $y:expr; $($A:ident),*; $($B:ident),*) => { match ($x, $y) {
    $( (O::$A(a), O::Po(b)) => O::Po(a.inverse_apply_point(&b)), (O::$A(a), O::Ve(b)) => O::Ve(a.inverse_apply_vector(&b)), )*
    $( (O::$B(a), O::Po(b)) => O::Po(a.inverse_apply_point(&b).unwrap()), (O::$B(a), O::Ve(b)) => O::Ve(a.inverse_apply_vector(&b).unwrap()), )*
    _ => panic!("script") } } }
macro_rules! totf { ($rt:expr, $x:expr; $($A:ident),*) => { match $x {
    $( O::$A(a) => O::Tf(match $rt { 0 => Transform::from_matrix_unchecked(a.to_affine_matrix()), 1 => Transform::from_matrix_unchecked(Matrix::from(a)),
        2 => Transform::from_matrix_unchecked(Matrix::from(&a)), _ => a.to_transform() }), )*
    O::Tf(a) => O::Tf(match $rt { 0 => Transform::from_matrix_unchecked(a.to_matrix()), 1 => Transform::from_matrix_unchecked(Matrix::from(a)),
        2 => Transform::from_matrix_unchecked(*a.as_ref()), _ => Transform::from_matrix_unchecked(*a.matrix()) }),
    _ => panic!("script") } } }
macro_rules! space { ($md:ident, $N:expr, $M:expr, $T:ident, $R:ident, $Sc:ident, $Sh:ident, $Re:ident, $I:ident, $Si:ident, $X:ident, $P:ident, $V:ident, $mk:ident, $again:ident, $turn:expr) => {
mod $md {
    use super::*;
    #[derive(Clone, Copy)]
    pub enum O<S: F> { Tr($T<S>), Ro($R<S>), Sc($Sc<S>), Sh($Sh<S>), Re($Re<S>), Is($I<S>), Si($Si<S>), Tf($X<S>), Po($P<S>), Ve($V<S>) }
    pub const TABLE: [(&str, usize); 19] = [
        ("tr", $N), ("tr", $N), ("ro", $N * $N), ("ro", $N * $N), ("sc", $N), ("sc", $N), ("sh", 1 + 3 * $N), ("sh", 1 + 3 * $N), ("re", 2 * $N),
        ("is", $N * $N + $N), ("is", $N * $N + $N), ("si", $N * $N + $N + 1), ("si", $N * $N + $N + 1), ("tf", $M * $M), ("tf", $M * $M),
        ("po", $N), ("po", $N), ("ve", $N), ("ve", $N)];
    fn vec<S: F>(a: &[i64]) -> $V<S> { Vector::from(core::array::from_fn::<S, $N, _>(|i| un(a[i]))) }
    fn pnt<S: F>(a: &[i64]) -> $P<S> { Point::from(core::array::from_fn::<S, $N, _>(|i| un(a[i]))) }
    fn unit<S: F>(a: &[i64]) -> Unit<$V<S>> { Unit::from_value(vec(a)) }
    pub fn make<S: F>(k: &str, a: &[i64], route: i64) -> O<S> {
        match k {
            "tr" => O::Tr(if route == 1 { Translation::between_points(&Point::origin(), &pnt(a)) } else { Translation::from_vector(&vec(a)) }),
            "ro" => O::Ro($mk(a, route)),
            "sc" => O::Sc(if route == 1 && a.iter().all(|x| *x == a[0]) { Scale::from_scale(un(a[0])) } else { Scale::from_nonuniform_scale(&vec(a)) }),
            "sh" => O::Sh(if route == 1 && a[1..1 + $N].iter().all(|x| *x == 0) { Shear::from_shear(un(a[0]), &unit(&a[1 + $N..]), &unit(&a[1 + 2 * $N..])) }
                          else { Shear::from_affine_shear(un(a[0]), &pnt(&a[1..]), &unit(&a[1 + $N..]), &unit(&a[1 + 2 * $N..])) }),
            "re" => O::Re(Reflection::from_normal_bias(&unit(a), &pnt(&a[$N..]))),
            "is" => O::Is(Isometry::from_parts(&Translation::from_vector(&vec(&a[$N * $N..])), &$mk(a, route))),
            "si" => O::Si(Similarity::from_parts(&Translation::from_vector(&vec(&a[$N * $N..])), &$mk(a, route), un(a[$N * $N + $N]))),
            "tf" => O::Tf(Transform::from_matrix_unchecked(Matrix::from(core::array::from_fn::<[S; $M], $M, _>(|c| core::array::from_fn(|r| un(a[c * $M + r])))))),
            "po" => O::Po(pnt(a)),
            _ => O::Ve(vec(a)),
        }
    }
    fn v<S: F>(x: &Vector<S, $N>, o: &mut Vec<i64>) { o.extend((0..$N).map(|i| rd(x[i]))) }
    fn p<S: F>(x: &Point<S, $N>, o: &mut Vec<i64>) { o.extend((0..$N).map(|i| rd(x[i]))) }
    fn m<S: F>(x: &Matrix<S, $N, $N>, o: &mut Vec<i64>) { for c in 0..$N { for r in 0..$N { o.push(rd(x[c][r])) } } }
    pub fn dump<S: F>(st: &[O<S>], o: &mut Vec<i64>) {
        for x in st {
            match x {
                O::Tr(x) => v(x.vector(), o),
                O::Ro(x) => m(x.matrix(), o),
                O::Sc(x) => v(&x.to_vector(), o),
                O::Sh(x) => { o.push(rd(x.shear_factor())); p(&x.origin(), o); v(&x.direction(), o); v(&x.normal(), o) }
                O::Re(x) => { v(&x.normal(), o); p(&x.bias(), o) }
                O::Is(x) => { m(x.rotation().matrix(), o); v(x.translation().vector(), o) }
                O::Si(x) => { m(x.rotation().matrix(), o); v(x.translation().vector(), o); o.push(rd(x.scale())) }
                O::Tf(x) => for c in 0..$M { for r in 0..$M { o.push(rd(x.matrix()[c][r])) } },
                O::Po(x) => p(x, o),
                O::Ve(x) => v(x, o),
            }
        }
    }
    pub fn step<S: F>(st: &mut [O<S>], o: &str, t: usize, s: &[usize], q: &[i64]) -> Vec<i64> {
        let route = *q.last().unwrap();
        let r = route & 1 == 1;
        let a = s.first().map(|i| st[*i]);
        let b = s.get(1).map(|i| st[*i]);
        let (sa, sb) = (|| a.unwrap(), || b.unwrap());
        match o {
            "set" => st[t] = make(TABLE[t].0, q, route),
            "copy" => st[t] = match sa() {
                O::Ro(x) => O::Ro($again(&x, route)),
                x => x,
            },
            "inv" => match &mut st[t] {
                O::Tr(x) => if r { x.inverse_mut() } else { *x = x.inverse() },
                O::Ro(x) => if r { x.inverse_mut() } else { *x = x.inverse() },
                O::Is(x) => if r { x.inverse_mut() } else { *x = x.inverse() },
                O::Si(x) => if r { x.inverse_mut() } else { *x = x.inverse() },
                O::Sc(x) => *x = x.inverse(),
                O::Sh(x) => *x = x.inverse(),
                O::Re(x) => *x = x.inverse(),
                O::Tf(x) => *x = if r { x.inverse() } else { x.try_inverse().unwrap() },
                _ => panic!("script"),
            },
            "invof" => st[t] = match sa() {
                O::Tr(x) => O::Tr(x.inverse()),
                O::Ro(x) => O::Ro(x.inverse()),
                O::Is(x) => O::Is(x.inverse()),
                O::Si(x) => O::Si(x.inverse()),
                O::Sc(x) => O::Sc(x.inverse()),
                O::Sh(x) => O::Sh(x.inverse()),
                O::Re(x) => O::Re(x.inverse()),
                O::Tf(x) => O::Tf(x.inverse()),
                _ => panic!("script"),
            },
            "comp" => st[t] = comp!(route, sa(), sb(); Tr Tr Tr, Ro Ro Ro, Sc Sc Sc, Is Is Is, Si Si Si, Tf Tf Tf, Sh Sh Tf, Tr Ro Is, Ro Tr Is, Is Tr Is, Tr Is Is, Is Ro Is, Ro Is Is, Si Is Si),
            "app" => st[t] = app!(route, sa(), sb(); Tr, Ro, Sc, Sh, Re, Is, Si, Tf),
            "iapp" => st[t] = iapp!(sa(), sb(); Tr, Ro, Sc, Sh, Re, Is, Si; Tf),
            "totf" => st[t] = totf!(route, sa(); Tr, Ro, Sc, Sh, Re, Is, Si),
            "up" => st[t] = match (&st[t], sa()) {
                (O::Is(_), O::Tr(a)) => O::Is(Isometry::from_translation(&a)),
                (O::Is(_), O::Ro(a)) => O::Is(Isometry::from_rotation(&a)),
                (O::Si(_), O::Tr(a)) => O::Si(Similarity::from_translation(&a)),
                (O::Si(_), O::Ro(a)) => O::Si(Similarity::from_rotation(&a)),
                (O::Si(_), O::Is(a)) => O::Si(Similarity::from_isometry(&a)),
                _ => panic!("script"),
            },
            "parts" => st[t] = match (&st[t], sa(), sb()) {
                (O::Is(_), O::Tr(a), O::Ro(b)) => O::Is(Isometry::from_parts(&a, &b)),
                (O::Si(_), O::Tr(a), O::Ro(b)) => O::Si(if r { Similarity::from_parts(&a, &b, un(q[0])) } else { &Similarity::from_isometry(&(a * b)) * &Similarity::from_scale(un(q[0])) }),
                _ => panic!("script"),
            },
            "gettr" => st[t] = O::Tr(match sa() { O::Is(x) => *x.translation(), O::Si(x) => *x.translation(), _ => panic!("script") }),
            "getro" => st[t] = O::Ro(match sa() { O::Is(x) => *x.rotation(), O::Si(x) => *x.rotation(), _ => panic!("script") }),
            "tfset" => match &mut st[t] { O::Tf(x) => x.matrix_mut()[(q[0] as usize / $M, q[0] as usize % $M)] = un(q[1]), _ => panic!("script") },
            "betw" => st[t] = O::Tr(match (sa(), sb()) {
                (O::Po(a), O::Po(b)) => Translation::between_points(&a, &b),
                (O::Ve(a), O::Ve(b)) => Translation::between_vectors(&a, &b),
                _ => panic!("script"),
            }),
            "move" => match (&mut st[t], sa()) {
                (O::Po(x), O::Ve(b)) => if r { *x += b } else { *x = Translation::from_vector(&b) * *x },
                (O::Ve(x), O::Ve(b)) => if r { *x += b } else { *x = *x + &b },
                _ => panic!("script"),
            },
            "diff" => st[t] = O::Ve(match (sa(), sb()) { (O::Po(a), O::Po(b)) => if r { a - b } else { Translation::between_points(&b, &a).to_vector() }, _ => panic!("script") }),
            "neg" => match &mut st[t] { O::Ve(x) => *x = -*x, _ => panic!("script") },
            "vtr" => st[t] = match sa() { O::Ve(a) => O::Tr(Translation::from_vector(&a)), _ => panic!("script") },
            "trv" => st[t] = match sa() { O::Tr(a) => O::Ve(match route { 0 => a.to_vector(), 1 => *a.vector(), 2 => *a.as_ref(), _ => a * Point::origin() - Point::origin() }), _ => panic!("script") },
            // equality of what is stored, up to rounding
            "eq" => { let (mut x, mut y) = (vec![], vec![]); dump(&[sa()], &mut x); dump(&[sb()], &mut y); return vec![(x == y) as i64] }
            "turn" => match sa() { O::Ro(a) => return vec![$turn(&a)], _ => panic!("script") },
            "fac" => match sa() { O::Si(a) => return vec![rd(a.scale())], _ => panic!("script") },
            _ => panic!("script"),
        }
        vec![]
    }
} } }
fn turn3<S: F>(_: &Rotation3<S>) -> i64 { panic!("script") }
fn turn2<S: F>(a: &Rotation2<S>) -> i64 {
    let k = a.angle().0.f() / std::f64::consts::FRAC_PI_2;
    if (k - k.round()).abs() > 1e-3 { return 99 }
    if k.round() == -2.0 { 2 } else { k.round() as i64 }
}
space!(d2, 2, 3, Translation2, Rotation2, Scale2, Shear2, Reflection2, Isometry2, Similarity2, Transform2, Point2, Vector2, make_ro2, again_ro2, turn2);
space!(d3, 3, 4, Translation3, Rotation3, Scale3, Shear3, Reflection3, Isometry3, Similarity3, Transform3, Point3, Vector3, make_ro3, again_ro3, turn3);

type Program = Vec<(String, i64, Vec<usize>, Vec<i64>)>;
fn replay<S: F>(rec: &mut Rec, scalar: &str, script: &[(String, i64, Vec<usize>, Vec<i64>)]) {
    let (mut s2, mut s3): (Vec<d2::O<S>>, Vec<d3::O<S>>) = (vec![], vec![]);
    for (o, t, s, p) in script {
        let ids: Vec<i64> = s.iter().map(|x| *x as i64).collect();
        let x = if o == "init" {
            let mut at = 0;
            s2 = d2::TABLE.iter().map(|(k, n)| { at += n; d2::make::<S>(k, &p[at - n..at], 3) }).collect();
            s3 = d3::TABLE.iter().map(|(k, n)| { at += n; d3::make::<S>(k, &p[at - n..at], 3) }).collect();
            vec![]
        } else {
            let first = if *t > 0 { *t as usize } else { s[0] };
            let out = catch_unwind(AssertUnwindSafe(|| if first <= 19 {
                d2::step(&mut s2, o, (*t - 1) as usize, &s.iter().map(|x| x - 1).collect::<Vec<_>>(), p)
            } else {
                d3::step(&mut s3, o, (*t - 20) as usize, &s.iter().map(|x| x - 20).collect::<Vec<_>>(), p)
            }));
            out.unwrap_or(vec![PANIC])
        };
        let mut now = vec![];
        d2::dump(&s2, &mut now);
        d3::dump(&s3, &mut now);
        let a = if o == "init" { vec![p.clone()] } else { vec![ids, p.clone()] };
        rec.emit_in("xse", o, scalar, &[], &x, *t, &a, &now);
    }
}
fn main() {
    drive(&[("C34", |rec| {
        let text = std::fs::read_to_string(std::env::var("SCRIPT").expect("SCRIPT")).expect("script");
        let mut programs: Vec<Program> = vec![];
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n: Vec<i64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
            let ns = n[1] as usize;
            if w[0] == "init" { programs.push(vec![]) }
            programs.last_mut().unwrap().push((w[0].to_string(), n[0], n[2..2 + ns].iter().map(|x| *x as usize).collect(), n[2 + ns..].to_vec()));
        }
        for p in &programs {
            rec.next();
            replay::<f64>(rec, "f64", p);
            // rounding accumulates: shorter histories for f32
            replay::<f32>(rec, "f32", &p[..p.len().min(24)]);
        }
    })]);
}

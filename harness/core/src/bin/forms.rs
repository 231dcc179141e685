//! Driver: every ownership form of every operator, every scalar type (C27).
//! One event carries the results of all forms of one operator on one pair of
//! operands.
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
use cglinalg_core::*;
use common::*;

trait Out { fn out(&self) -> Vec<i64>; }
impl<S: Sc, const N: usize> Out for Vector<S, N> { fn out(&self) -> Vec<i64> { (0..N).map(|i| self[i].int()).collect() } }
impl<S: Sc, const N: usize> Out for Point<S, N> { fn out(&self) -> Vec<i64> { (0..N).map(|i| self[i].int()).collect() } }
impl<S: Sc, const R: usize, const C: usize> Out for Matrix<S, R, C> { fn out(&self) -> Vec<i64> { (0..R * C).map(|i| self[i / R][i % R].int()).collect() } }
impl<S: Sc + cglinalg_numeric::SimdScalar> Out for Quaternion<S> { fn out(&self) -> Vec<i64> { vec![self.scalar().int(), self.vector()[0].int(), self.vector()[1].int(), self.vector()[2].int()] } }
impl<S: Sc + cglinalg_numeric::SimdScalar> Out for Complex<S> { fn out(&self) -> Vec<i64> { vec![self.real().int(), self.imaginary().int()] } }

/// a result, read after the operator ran (magnitudes are divided out)
struct O<T>(T);
impl<T: Out> Pj for O<T> { fn pj(&self, o: &mut Vec<i64>) { o.extend(self.0.out()) } }
/// degree of homogeneity of an operator in its operands
fn degree(o: &str) -> i32 {
    match o {
        "add" | "sub" | "neg" | "srem" | "sadd" | "ssub" | "lsub" => 1,
        "sdiv" | "cdiv" => 0,
        _ => 2,
    }
}
/// the forms' results, flattened
macro_rules! agree { ($rec:expr, $o:expr, $v:expr, $s:expr, $d:expr, $a:expr, [$($e:expr),* $(,)?]) => {{
    let mut r: Vec<i64> = vec![];
    $( r.extend(run(scale() * degree($o), true, || O($e))); )*
    $rec.emit("frm", $o, $v, $s, $d, $a, &r);
}} }
/// a binary operator in its four ownership forms and, with `=`, both compound forms
macro_rules! both {
    ($rec:expr, $o:expr, $v:expr, $s:expr, $d:expr, $a:expr, $x:expr, $op:tt, $y:expr) => {{
        let (x, y) = ($x, $y);
        agree!($rec, $o, $v, $s, $d, $a, [x $op y, &x $op y, x $op &y, &x $op &y])
    }};
    ($rec:expr, $o:expr, $v:expr, $s:expr, $d:expr, $a:expr, $x:expr, $op:tt, $y:expr, $as:tt) => {{
        let (x, y) = ($x, $y);
        agree!($rec, $o, $v, $s, $d, $a, [x $op y, &x $op y, x $op &y, &x $op &y, { let mut z = x; z $as y; z }, { let mut z = x; z $as &y; z }])
    }};
}
/// scalar on the right, by value, with the compound form
macro_rules! right { ($rec:expr, $o:expr, $v:expr, $s:expr, $d:expr, $a:expr, $x:expr, $op:tt, $y:expr, $as:tt) => {{
    let (x, y) = ($x, $y);
    agree!($rec, $o, $v, $s, $d, $a, [x $op y, &x $op y, { let mut z = x; z $as y; z }])
}} }
/// scalar on the right by value or reference
macro_rules! rightr { ($rec:expr, $o:expr, $v:expr, $s:expr, $d:expr, $a:expr, $x:expr, $op:tt, $y:expr, $as:tt) => {{
    let (x, y) = ($x, $y);
    agree!($rec, $o, $v, $s, $d, $a, [x $op y, &x $op y, x $op &y, &x $op &y, { let mut z = x; z $as y; z }])
}} }
macro_rules! left4 { ($rec:expr, $o:expr, $v:expr, $s:expr, $d:expr, $a:expr, $x:expr, $op:tt, $y:expr) => {{
    let (x, y) = ($x, $y);
    agree!($rec, $o, $v, $s, $d, $a, [x $op y, &x $op y, x $op &y, &x $op &y])
}} }

fn ints(r: &mut Rng, n: usize, lo: i64, hi: i64) -> Vec<i64> { (0..n).map(|_| r.int(lo, hi)).collect() }
fn cv<S: Sc, const N: usize>(a: &[i64]) -> Vector<S, N> { let z: [S; N] = std::array::from_fn(|i| S::ofq(q(a[i]))); Vector::from(z) }
fn cp<S: Sc, const N: usize>(a: &[i64]) -> Point<S, N> { let z: [S; N] = std::array::from_fn(|i| S::ofq(q(a[i]))); Point::from(z) }
fn cm<S: Sc, const R: usize, const C: usize>(a: &[i64]) -> Matrix<S, R, C> {
    let z: [[S; R]; C] = std::array::from_fn(|c| std::array::from_fn(|r| S::ofq(q(a[c * R + r]))));
    Matrix::from(z)
}

macro_rules! vecn { ($rec:ident, $S:ident, $lo:expr, $hi:expr, $k:expr, $a:ident, $b:ident, $n:expr) => {{
    let s = stringify!($S);
    let d = &[$n as i64];
    let ab = [$a[..$n].to_vec(), $b[..$n].to_vec()];
    let ak = [$a[..$n].to_vec(), vec![$k]];
    let am = [ab[0].iter().map(|x| x * $k).collect::<Vec<i64>>(), vec![$k]];
    let (x, y, k) = (cv::<$S, $n>(&$a), cv::<$S, $n>(&$b), <$S>::ofq(q($k)));
    let xm = cv::<$S, $n>(&am[0]);
    both!($rec, "add", "vector", s, d, &ab, x, +, y, +=);
    both!($rec, "sub", "vector", s, d, &ab, x, -, y, -=);
    right!($rec, "smul", "vector", s, d, &ak, x, *, k, *=);
    right!($rec, "sdiv", "vector", s, d, &am, xm, /, k, /=);
    right!($rec, "srem", "vector", s, d, &ak, x, %, k, %=);
    left4!($rec, "smul", "lvector", s, d, &ak, k, *, x);
    let (x, y, w) = (cp::<$S, $n>(&$a), cv::<$S, $n>(&$b), cp::<$S, $n>(&$b));
    let xm = cp::<$S, $n>(&am[0]);
    both!($rec, "add", "point", s, d, &ab, x, +, y, +=);
    both!($rec, "sub", "point", s, d, &ab, x, -, y, -=);
    both!($rec, "sub", "points", s, d, &ab, x, -, w);
    right!($rec, "smul", "point", s, d, &ak, x, *, k, *=);
    right!($rec, "sdiv", "point", s, d, &am, xm, /, k, /=);
    right!($rec, "srem", "point", s, d, &ak, x, %, k, %=);
    { let k = k; agree!($rec, "smul", "lpoint", s, d, &ak, [k * x, &k * x]) }
}} }
macro_rules! matn { ($rec:ident, $S:ident, $k:expr, $a:ident, $b:ident, $($r:expr, $c:expr);*) => {$({
    let s = stringify!($S);
    let n: usize = $r * $c;
    let d = &[n as i64, $r, $c];
    let ab = [$a[..n].to_vec(), $b[..n].to_vec()];
    let ak = [$a[..n].to_vec(), vec![$k]];
    let am = [ab[0].iter().map(|x| x * $k).collect::<Vec<i64>>(), vec![$k]];
    let (x, y, k) = (cm::<$S, $r, $c>(&$a), cm::<$S, $r, $c>(&$b), <$S>::ofq(q($k)));
    let xm = cm::<$S, $r, $c>(&am[0]);
    both!($rec, "add", "matrix", s, d, &ab, x, +, y, +=);
    both!($rec, "sub", "matrix", s, d, &ab, x, -, y, -=);
    right!($rec, "smul", "matrix", s, d, &ak, x, *, k, *=);
    right!($rec, "sdiv", "matrix", s, d, &am, xm, /, k, /=);
    right!($rec, "srem", "matrix", s, d, &ak, x, %, k, %=);
    left4!($rec, "smul", "lmatrix", s, d, &ak, k, *, x);
    let v = cv::<$S, $c>(&$b);
    both!($rec, "mvec", "matrix", s, &[$r, $r, $c], &[ab[0].clone(), $b[..$c].to_vec()], x, *, v);
})*} }
macro_rules! matmul { ($rec:ident, $S:ident, $a:ident, $b:ident, $($r:expr, $k:expr, $c:expr);*) => {$({
    let (x, y) = (cm::<$S, $r, $k>(&$a), cm::<$S, $k, $c>(&$b));
    both!($rec, "mmul", "matrix", stringify!($S), &[$r * $c, $r, $k, $c], &[$a[..$r * $k].to_vec(), $b[..$k * $c].to_vec()], x, *, y);
})*} }
macro_rules! nums { ($rec:ident, $S:ident, $k:expr, $a:ident, $b:ident) => {{
    let s = stringify!($S);
    let ab = [$a[..4].to_vec(), $b[..4].to_vec()];
    let ak = [$a[..4].to_vec(), vec![$k]];
    let am = [ab[0].iter().map(|x| x * $k).collect::<Vec<i64>>(), vec![$k]];
    let qn = |a: &[i64]| Quaternion::new(<$S>::ofq(q(a[0])), <$S>::ofq(q(a[1])), <$S>::ofq(q(a[2])), <$S>::ofq(q(a[3])));
    let (x, y, k, xm) = (qn(&$a), qn(&$b), <$S>::ofq(q($k)), qn(&am[0]));
    let d = &[4];
    both!($rec, "add", "quaternion", s, d, &ab, x, +, y, +=);
    both!($rec, "sub", "quaternion", s, d, &ab, x, -, y, -=);
    rightr!($rec, "smul", "quaternion", s, d, &ak, x, *, k, *=);
    rightr!($rec, "sdiv", "quaternion", s, d, &am, xm, /, k, /=);
    rightr!($rec, "srem", "quaternion", s, d, &ak, x, %, k, %=);
    left4!($rec, "smul", "lquaternion", s, d, &ak, k, *, x);
    let ab = [$a[..2].to_vec(), $b[..2].to_vec()];
    let ak = [$a[..2].to_vec(), vec![$k]];
    let am = [ab[0].iter().map(|x| x * $k).collect::<Vec<i64>>(), vec![$k]];
    let cn = |a: &[i64]| Complex::new(<$S>::ofq(q(a[0])), <$S>::ofq(q(a[1])));
    let (x, y, xm) = (cn(&$a), cn(&$b), cn(&am[0]));
    let d = &[2];
    both!($rec, "add", "complex", s, d, &ab, x, +, y, +=);
    both!($rec, "sub", "complex", s, d, &ab, x, -, y, -=);
    both!($rec, "smul", "complex", s, d, &ak, x, *, k, *=);
    both!($rec, "sdiv", "complex", s, d, &am, xm, /, k, /=);
    both!($rec, "srem", "complex", s, d, &ak, x, %, k, %=);
    both!($rec, "sadd", "complex", s, d, &ak, x, +, k, +=);
    left4!($rec, "sadd", "lcomplex", s, d, &ak, k, +, x);
    left4!($rec, "smul", "lcomplex", s, d, &ak, k, *, x);
    // keep unsigned differences in range
    let big = cn(&[$a[0] + $k, $a[1]]);
    both!($rec, "ssub", "complex", s, d, &[vec![$a[0] + $k, $a[1]], vec![$k]], big, -, k, -=);
}} }
macro_rules! signedn { ($rec:ident, $S:ident, $k:expr, $a:ident, $b:ident) => {{
    let s = stringify!($S);
    let (v1, v2, v3, v4) = (cv::<$S, 1>(&$a), cv::<$S, 2>(&$a), cv::<$S, 3>(&$a), cv::<$S, 4>(&$a));
    agree!($rec, "neg", "vector", s, &[1], &[$a[..1].to_vec()], [-v1, -&v1, { let mut z = v1; z.neg_mut(); z }]);
    agree!($rec, "neg", "vector", s, &[2], &[$a[..2].to_vec()], [-v2, -&v2, { let mut z = v2; z.neg_mut(); z }]);
    agree!($rec, "neg", "vector", s, &[3], &[$a[..3].to_vec()], [-v3, -&v3, { let mut z = v3; z.neg_mut(); z }]);
    agree!($rec, "neg", "vector", s, &[4], &[$a[..4].to_vec()], [-v4, -&v4, { let mut z = v4; z.neg_mut(); z }]);
    let (v2, v3) = (cp::<$S, 2>(&$a), cp::<$S, 3>(&$a));
    agree!($rec, "neg", "point", s, &[2], &[$a[..2].to_vec()], [-v2, -&v2]);
    agree!($rec, "neg", "point", s, &[3], &[$a[..3].to_vec()], [-v3, -&v3]);
    let (v2, v3, v4) = (cm::<$S, 2, 2>(&$a), cm::<$S, 2, 3>(&$a), cm::<$S, 4, 4>(&$a));
    agree!($rec, "neg", "matrix", s, &[4], &[$a[..4].to_vec()], [-v2, -&v2, { let mut z = v2; z.neg_mut(); z }]);
    agree!($rec, "neg", "matrix", s, &[6], &[$a[..6].to_vec()], [-v3, -&v3, { let mut z = v3; z.neg_mut(); z }]);
    agree!($rec, "neg", "matrix", s, &[16], &[$a[..16].to_vec()], [-v4, -&v4, { let mut z = v4; z.neg_mut(); z }]);
    let qn = |a: &[i64]| Quaternion::new(<$S>::ofq(q(a[0])), <$S>::ofq(q(a[1])), <$S>::ofq(q(a[2])), <$S>::ofq(q(a[3])));
    let (x, y) = (qn(&$a), qn(&$b));
    agree!($rec, "neg", "quaternion", s, &[4], &[$a[..4].to_vec()], [-x, -&x]);
    both!($rec, "qmul", "quaternion", s, &[4], &[$a[..4].to_vec(), $b[..4].to_vec()], x, *, y);
    let cn = |a: &[i64]| Complex::new(<$S>::ofq(q(a[0])), <$S>::ofq(q(a[1])));
    let (x, y, k) = (cn(&$a), cn(&$b), <$S>::ofq(q($k)));
    agree!($rec, "neg", "complex", s, &[2], &[$a[..2].to_vec()], [-x, -&x]);
    both!($rec, "cmul", "complex", s, &[2], &[$a[..2].to_vec(), $b[..2].to_vec()], x, *, y, *=);
    left4!($rec, "lsub", "lcomplex", s, &[2], &[$a[..2].to_vec(), vec![$k]], k, -, x);
    // exact quotients: multiples of the squared modulus
    let w = [$rec.rng.int(-2, 2), $rec.rng.int(1, 2)];
    let nn = w[0] * w[0] + w[1] * w[1];
    let e = [($a[0] % 2) * nn, ($a[1] % 2) * nn];
    both!($rec, "cdiv", "complex", s, &[2], &[e.to_vec(), w.to_vec()], cn(&e), /, cn(&w), /=);
    let ks = <$S>::ofq(q(nn * ($a[2] % 2)));
    left4!($rec, "cdiv", "lcomplex", s, &[2], &[vec![nn * ($a[2] % 2), 0], w.to_vec()], ks, /, cn(&w));
}} }
macro_rules! family { ($f:ident, $S:ident, $lo:expr, $hi:expr, $g:ident) => {
    fn $f(rec: &mut Rec) {
        let r = &mut rec.rng;
        let b = ints(r, 16, $lo, $hi);
        // differences stay in range for unsigned types
        let a: Vec<i64> = if $lo < 0 { ints(r, 16, $lo, $hi) } else { b.iter().map(|x| x + r.int(0, 3)).collect() };
        let k = r.int(1, $hi.min(9)) * if $lo < 0 && r.chance(2) { -1 } else { 1 };
        vecn!(rec, $S, $lo, $hi, k, a, b, 1);
        vecn!(rec, $S, $lo, $hi, k, a, b, 2);
        vecn!(rec, $S, $lo, $hi, k, a, b, 3);
        vecn!(rec, $S, $lo, $hi, k, a, b, 4);
        matn!(rec, $S, k, a, b, 1, 2; 2, 1; 1, 4; 2, 2; 2, 3; 2, 4; 3, 2; 3, 3; 3, 4; 4, 2; 4, 3; 4, 4);
        matmul!(rec, $S, a, b, 1, 2, 3; 2, 2, 2; 2, 3, 4; 3, 3, 3; 3, 4, 2; 4, 4, 4; 4, 2, 1; 1, 4, 1);
        nums!(rec, $S, k, a, b);
        $g!(rec, $S, k, a, b);
    }
} }
macro_rules! none { ($($t:tt)*) => {} }
family!(f_f64, f64, -99, 99, signedn);
family!(f_f32, f32, -30, 30, signedn);
family!(f_i8, i8, -4, 4, signedn);
family!(f_i16, i16, -50, 50, signedn);
family!(f_i32, i32, -99, 99, signedn);
family!(f_i64, i64, -99, 99, signedn);
family!(f_i128, i128, -99, 99, signedn);
family!(f_isize, isize, -99, 99, signedn);
family!(f_u8, u8, 0, 4, none);
family!(f_u16, u16, 0, 50, none);
family!(f_u32, u32, 0, 99, none);
family!(f_u64, u64, 0, 99, none);
family!(f_u128, u128, 0, 99, none);
family!(f_usize, usize, 0, 99, none);

fn main() {
    drive(&[("C27", |rec| {
        for _ in 0..rec.iters(12, 200) {
            for f in [f_f64, f_f32, f_i8, f_i16, f_i32, f_i64, f_i128, f_isize, f_u8, f_u16, f_u32, f_u64, f_u128, f_usize] {
                rec.next();
                f(rec);
            }
            // the floating-point types also far from one
            rec.next();
            for (f, m) in [(f_f64 as fn(&mut Rec), 300), (f_f32, 40)] {
                set_scale(rec.rng.int(-m, m) as i32);
                f(rec);
                set_scale(0);
            }
        }
    })]);
}

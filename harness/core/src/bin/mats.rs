//! Drivers: matrices (C06, C07).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
use common::*;
use pjs::*;
use cglinalg_core::*;
use cglinalg_numeric::*;

/// entrywise operations and structure, any shape
pub fn entry<S: Sc + SimdScalarSigned, const R: usize, const C: usize>(rec: &mut Rec, mag: i64) {
    let (r, c) = (R as i64, C as i64);
    let n = r * c;
    let d = [n, r, c];
    let a = gen(&mut rec.rng, R * C, mag, S::DEN, true);
    let b = gen(&mut rec.rng, R * C, mag, S::DEN, true);
    let s = gen(&mut rec.rng, 1, mag, S::DEN, true)[0];
    let (ma, mb, sc) = (mat::<S, R, C>(&a), mat::<S, R, C>(&b), S::ofq(s));
    let ab = [rr(&a), rr(&b)];
    let aa = [rr(&a)];
    let as_ = [rr(&a), vec![s.r()]];
    bin!(rec, "vec", "add", S::NAME, &d, &ab, 1, ma, +, mb);
    bin!(rec, "vec", "sub", S::NAME, &d, &ab, 1, ma, -, mb);
    asg!(rec, "vec", "add", S::NAME, &d, &ab, 1, ma, +=, mb, ref);
    asg!(rec, "vec", "sub", S::NAME, &d, &ab, 1, ma, -=, mb, ref);
    bins!(rec, "vec", "smul", S::NAME, &d, &as_, 2, ma, *, sc);
    asg!(rec, "vec", "smul", S::NAME, &d, &as_, 2, ma, *=, sc);
    rec.call("vec", "neg", "v", S::NAME, &d, &aa, 1, || -ma);
    rec.call("vec", "neg", "r", S::NAME, &d, &aa, 1, || -&ma);
    rec.call("vec", "neg", "m", S::NAME, &d, &aa, 1, || { let mut z = ma; z.neg_mut(); z });
    rec.call("vec", "cmul", "m", S::NAME, &d, &ab, 2, || ma.component_mul(&mb));
    rec.call("vec", "cmul", "mm", S::NAME, &d, &ab, 2, || { let mut z = ma; z.component_mul_assign(&mb); z });
    rec.call("vec", "dot", "m", S::NAME, &d, &ab, 2, || ma.dot(&mb));
    rec.call("vec", "normsq", "m", S::NAME, &d, &aa, 2, || ma.norm_squared());
    rec.call("vec", "normsq", "g", S::NAME, &d, &aa, 2, || ma.magnitude_squared());
    rec.call("vec", "distsq", "m", S::NAME, &d, &ab, 2, || ma.metric_distance_squared(&mb));
    rec.call("vec", "iszero", "m", S::NAME, &d, &aa, 0, || ma.is_zero());
    if s.0 != 0 && S::FLOAT {
        bins!(rec, "vec", "sdiv", S::NAME, &d, &as_, 0, ma, /, sc);
        asg!(rec, "vec", "sdiv", S::NAME, &d, &as_, 0, ma, /=, sc);
    }
    if scale() != 0 {
        return;
    }
    let ai: Vec<Q> = a.iter().map(|x| q(x.0)).collect();
    let k = q(if s.0 == 0 { 3 } else { s.0 });
    let (mi, ki) = (mat::<S, R, C>(&ai), S::ofq(k));
    let args = [raw(&ai), vec![k.0]];
    rec.rawcall("vec", "remi", "v", S::NAME, &d, &args, || mi % ki);
    rec.rawcall("vec", "remi", "r", S::NAME, &d, &args, || &mi % ki);
    rec.rawcall("vec", "remi", "av", S::NAME, &d, &args, || { let mut z = mi; z %= ki; z });
    if !S::FLOAT {
        rec.rawcall("vec", "divi", "v", S::NAME, &d, &args, || mi / ki);
        rec.rawcall("vec", "divi", "r", S::NAME, &d, &args, || &mi / ki);
        rec.rawcall("vec", "divi", "av", S::NAME, &d, &args, || { let mut z = mi; z /= ki; z });
    }
}
pub fn structure<S: Sc + SimdScalarSigned, const R: usize, const C: usize>(rec: &mut Rec, mag: i64) {
    let (r, c) = (R as i64, C as i64);
    let n = r * c;
    let a = gen(&mut rec.rng, R * C, mag, S::DEN, true);
    let s = gen(&mut rec.rng, 1, mag, S::DEN, true)[0];
    let (ma, sc) = (mat::<S, R, C>(&a), S::ofq(s));
    let aa = [rr(&a)];
    rec.call("mat", "transpose", "m", S::NAME, &[r, c], &aa, 1, || ma.transpose());
    rec.call("vec", "zero", "m", S::NAME, &[n, r, c], &[], 0, || Matrix::<S, R, C>::zero());
    rec.call("vec", "zero", "d", S::NAME, &[n, r, c], &[], 0, || Matrix::<S, R, C>::default());
    rec.call("vec", "fill", "m", S::NAME, &[n, r, c], &[vec![s.r()]], 1, || Matrix::<S, R, C>::from_fill(sc));
    rec.call("mat", "square", "m", S::NAME, &[r, c], &[], 0, || ma.is_square());
    rec.call("mat", "shape", "m", S::NAME, &[r, c], &[], 0, || {
        let s = ma.shape();
        Raw(vec![s.0 as i64, s.1 as i64, ma.len() as i64, ma.is_empty() as i64])
    });
    for i in 0..R {
        rec.call("mat", "row", "m", S::NAME, &[r, c, i as i64 + 1], &aa, 1, || ma.row(i));
    }
    for j in 0..C {
        rec.call("mat", "col", "m", S::NAME, &[r, c, j as i64 + 1], &aa, 1, || ma.column(j));
        rec.call("mat", "col", "i", S::NAME, &[r, c, j as i64 + 1], &aa, 1, || ma[j]);
    }
    let cols: [Vector<S, R>; C] = core::array::from_fn(|j| vec::<S, R>(&a[j * R..(j + 1) * R]));
    rec.call("vec", "id", "fromcols", S::NAME, &[n, r, c], &aa, 1, || Matrix::<S, R, C>::from_columns(&cols));
    let rows: [Vector<S, C>; R] = core::array::from_fn(|i| vec::<S, C>(&a[i * C..(i + 1) * C]));
    rec.call("mat", "fromrows", "m", S::NAME, &[r, c], &aa, 1, || Matrix::<S, R, C>::from_rows(&rows));
    let (i, j) = (rec.rng.below(R), rec.rng.below(R));
    rec.call("mat", "swaprows", "m", S::NAME, &[r, c, i as i64 + 1, j as i64 + 1], &aa, 1, || { let mut z = ma; z.swap_rows(i, j); z });
    let (i, j) = (rec.rng.below(C), rec.rng.below(C));
    rec.call("mat", "swapcols", "m", S::NAME, &[r, c, i as i64 + 1, j as i64 + 1], &aa, 1, || { let mut z = ma; z.swap_columns(i, j); z });
    let (c1, r1, c2, r2) = (rec.rng.below(C), rec.rng.below(R), rec.rng.below(C), rec.rng.below(R));
    rec.call("mat", "swapel", "m", S::NAME, &[r, c, c1 as i64 + 1, r1 as i64 + 1, c2 as i64 + 1, r2 as i64 + 1], &aa, 1, || { let mut z = ma; z.swap((c1, r1), (c2, r2)); z });
    let two = S::ofq(q(2));
    rec.call("vec", "smul", "map", S::NAME, &[n, r, c], &[rr(&a), vec![2]], NOSCALE, || ma.map(|x| x * two));
}
fn lerp<S: Sc + SimdScalarFloat, const R: usize, const C: usize>(rec: &mut Rec, mag: i64) {
    let n = (R * C) as i64;
    let a = gen(&mut rec.rng, R * C, mag, S::DEN, true);
    let b = gen(&mut rec.rng, R * C, mag, S::DEN, true);
    let t = *rec.rng.pick(&[Q(0, 1), Q(1, 1), Q(1, 2), Q(1, 4), Q(3, 4), Q(2, 1), Q(-1, 1), Q(-3, 2), Q(1, 5)]);
    let (ma, mb, st) = (mat::<S, R, C>(&a), mat::<S, R, C>(&b), S::ofq(t));
    rec.call("vec", "lerp", "m", S::NAME, &[n], &[rr(&a), rr(&b), vec![t.r()]], NOSCALE, || ma.lerp(&mb, st));
}
/// scaling through the interface of normed values
fn nscale<S: Sc + SimdScalarFloat, const R: usize, const C: usize>(rec: &mut Rec, mag: i64) {
    let n = (R * C) as i64;
    let a = gen(&mut rec.rng, R * C, mag, S::DEN, true);
    let s = loop { let s = gen(&mut rec.rng, 1, mag, S::DEN, true)[0]; if s.0 != 0 { break s } };
    let (ma, sc) = (mat::<S, R, C>(&a), S::ofq(s));
    let e = [rr(&a), vec![s.r()]];
    let d = [n, R as i64, C as i64];
    rec.call("vec", "smul", "nscale", S::NAME, &d, &e, 2, || Normed::scale(&ma, sc));
    rec.call("vec", "smul", "nscalem", S::NAME, &d, &e, 2, || { let mut z = ma; Normed::scale_mut(&mut z, sc); z });
    rec.call("vec", "sdiv", "nscale", S::NAME, &d, &e, 0, || Normed::unscale(&ma, sc));
    rec.call("vec", "sdiv", "nscalem", S::NAME, &d, &e, 0, || { let mut z = ma; Normed::unscale_mut(&mut z, sc); z });
}
/// shapes special to square matrices
pub fn square<S: Sc + SimdScalarSigned, const N: usize>(rec: &mut Rec, mag: i64) {
    let n = N as i64;
    let mut a = gen(&mut rec.rng, N * N, mag, S::DEN, true);
    match rec.rng.below(6) {
        0 => { for j in 0..N { for i in 0..j { a[j * N + i] = a[i * N + j]; } } }           // symmetric
        1 => { for j in 0..N { for i in 0..N { if i != j { a[j * N + i] = q(0); } } } }    // diagonal
        2 => { for j in 0..N { for i in 0..N { a[j * N + i] = q((i == j) as i64); } } }    // identity
        3 => { for j in 0..N { for i in 0..N { a[j * N + i] = q((i == j) as i64); } }      // one entry off identity
               let k = rec.rng.below(N * N); a[k] = q(rec.rng.int(-1, 2)); }
        4 => { for j in 0..N { for i in 0..j { a[j * N + i] = a[i * N + j]; } }            // one entry off symmetric
               let k = rec.rng.below(N * N); a[k] = q(rec.rng.int(-mag, mag)); }
        _ => {}
    }
    let s = gen(&mut rec.rng, 1, mag, S::DEN, true)[0];
    let v = gen(&mut rec.rng, N, mag, S::DEN, true);
    let (ma, sc, vv) = (mat::<S, N, N>(&a), S::ofq(s), vec::<S, N>(&v));
    let aa = [rr(&a)];
    rec.call("mat", "transpose", "mm", S::NAME, &[n, n], &aa, 1, || { let mut z = ma; z.transpose_mut(); z });
    rec.call("mat", "ident", "m", S::NAME, &[n], &[], 0, || Matrix::<S, N, N>::identity());
    rec.call("mat", "diagval", "m", S::NAME, &[n], &[vec![s.r()]], 1, || Matrix::<S, N, N>::from_diagonal_value(sc));
    rec.call("mat", "fromdiag", "m", S::NAME, &[n], &[rr(&v)], 1, || Matrix::<S, N, N>::from_diagonal(&vv));
    rec.call("mat", "diag", "m", S::NAME, &[n], &aa, 1, || ma.diagonal());
    rec.call("mat", "trace", "m", S::NAME, &[n], &aa, 1, || ma.trace());
    rec.call("mat", "isident", "m", S::NAME, &[n], &aa, NOSCALE, || ma.is_identity());
    if N == 3 {
        let w = vec::<S, 3>(&v);
        rec.call("mat", "crossmat", "m", S::NAME, &[n], &[rr(&v)], 1, || Matrix3x3::cross_matrix(&w));
    }
}
fn squaref<S: Sc + SimdScalarFloat, const N: usize>(rec: &mut Rec, mag: i64) {
    let n = N as i64;
    let mut a = gen(&mut rec.rng, N * N, mag, S::DEN, true);
    let kind = rec.rng.below(5);
    if kind < 2 { for j in 0..N { for i in 0..j { a[j * N + i] = a[i * N + j]; } } }
    if kind == 2 || kind == 3 { for j in 0..N { for i in 0..N { if i != j { a[j * N + i] = q(0); } } } }
    if kind == 1 || kind == 3 { let k = rec.rng.below(N * N); a[k] = q(rec.rng.int(-mag, mag)); }
    // slightly off, yet far above rounding
    if kind == 4 && N > 1 {
        let (i, j) = (rec.rng.below(N), rec.rng.below(N));
        let diag = rec.rng.chance(2);
        for y in 0..N { for x in 0..y { if diag { a[x * N + y] = q(0); } let t = a[x * N + y]; a[y * N + x] = t; } }
        let k = if S::NAME == "f64" { rec.rng.int(20, 32) } else { rec.rng.int(9, 14) };
        let e = Q(if rec.rng.chance(2) { 1 } else { -1 }, 1 << k);
        let t = a[i * N + j];
        a[i * N + j] = if S::NAME == "f64" || t.0 == 0 { t + e } else { t };
    }
    let ma = mat::<S, N, N>(&a);
    rec.call("mat", "isdiag", "m", S::NAME, &[n], &[rr(&a)], NOSCALE, || ma.is_diagonal());
    rec.call("mat", "issym", "m", S::NAME, &[n], &[rr(&a)], NOSCALE, || ma.is_symmetric());
}
macro_rules! mul { ($rec:expr, $S:ty, $mag:expr, $($r:literal $n:literal $c:literal),*) => {{$( {
    const R: usize = $r; const N: usize = $n; const C: usize = $c;
    let d = [$r, $n, $c];
    let a = gen(&mut $rec.rng, R * N, $mag, <$S>::DEN, <$S>::SIGNED);
    let b = gen(&mut $rec.rng, N * C, $mag, <$S>::DEN, <$S>::SIGNED);
    let ab = [rr(&a), rr(&b)];
    let (ma, mb) = (mat::<$S, R, N>(&a), mat::<$S, N, C>(&b));
    bin!($rec, "mat", "mul", <$S>::NAME, &d, &ab, 2, ma, *, mb);
    // transpose product: an N x R matrix against an N x C one
    let mt = mat::<$S, N, R>(&a);
    $rec.call("mat", "trmul", "m", <$S>::NAME, &d, &ab, 2, || mt.tr_mul(&mb));
    if C == 1 {
        let v = vec::<$S, N>(&b);
        bin!($rec, "mat", "mul", <$S>::NAME, &d, &ab, 2, ma, *, v);
    }
    if R == C {
        let mb = mat::<$S, N, R>(&b[..N * R]);
        $rec.call("mat", "trdot", "m", <$S>::NAME, &d, &ab, 2, || ma.tr_dot(&mb));
    }
} )*}} }
macro_rules! all_mul { ($rec:expr, $S:ty, $mag:expr) => {
    mul!($rec, $S, $mag, 1 1 1, 1 1 2, 1 1 3, 1 1 4, 1 2 1, 1 2 2, 1 2 3, 1 2 4, 1 3 1, 1 3 2, 1 3 3, 1 3 4, 1 4 1, 1 4 2, 1 4 3, 1 4 4,
        2 1 1, 2 1 2, 2 1 3, 2 1 4, 2 2 1, 2 2 2, 2 2 3, 2 2 4, 2 3 1, 2 3 2, 2 3 3, 2 3 4, 2 4 1, 2 4 2, 2 4 3, 2 4 4,
        3 1 1, 3 1 2, 3 1 3, 3 1 4, 3 2 1, 3 2 2, 3 2 3, 3 2 4, 3 3 1, 3 3 2, 3 3 3, 3 3 4, 3 4 1, 3 4 2, 3 4 3, 3 4 4,
        4 1 1, 4 1 2, 4 1 3, 4 1 4, 4 2 1, 4 2 2, 4 2 3, 4 2 4, 4 3 1, 4 3 2, 4 3 3, 4 3 4, 4 4 1, 4 4 2, 4 4 3, 4 4 4)
} }
fn mul_f64(rec: &mut Rec, mag: i64) { all_mul!(rec, f64, mag) }
fn mul_i64(rec: &mut Rec, mag: i64) { mul!(rec, i64, mag, 1 1 1, 2 2 1, 2 2 2, 3 3 3, 4 4 4, 3 3 1, 4 4 1, 2 3 4, 4 3 2, 3 2 4) }
fn mul_f32(rec: &mut Rec, mag: i64) { mul!(rec, f32, mag, 1 1 1, 2 2 1, 2 2 2, 3 3 3, 4 4 4, 3 3 1, 4 4 1, 2 3 4, 4 3 2, 3 2 4) }
fn mul_u32(rec: &mut Rec, mag: i64) { mul!(rec, u32, mag, 2 2 2, 3 3 3, 4 4 4, 3 3 1, 4 4 1) }

macro_rules! shapes { ($f:ident, $S:ty, $rec:expr, $mag:expr) => {
    $f::<$S, 1, 1>($rec, $mag); $f::<$S, 2, 2>($rec, $mag); $f::<$S, 3, 3>($rec, $mag); $f::<$S, 4, 4>($rec, $mag);
    $f::<$S, 1, 2>($rec, $mag); $f::<$S, 1, 3>($rec, $mag); $f::<$S, 1, 4>($rec, $mag); $f::<$S, 2, 3>($rec, $mag);
    $f::<$S, 3, 2>($rec, $mag); $f::<$S, 2, 4>($rec, $mag); $f::<$S, 4, 2>($rec, $mag); $f::<$S, 3, 4>($rec, $mag);
    $f::<$S, 4, 3>($rec, $mag); $f::<$S, 4, 1>($rec, $mag); $f::<$S, 2, 1>($rec, $mag); $f::<$S, 3, 1>($rec, $mag);
} }
pub fn c06(rec: &mut Rec) {
    for it in 0..rec.iters(24, 240) {
        rec.next();
        mul_f64(rec, if it % 2 == 0 { 9 } else { 99 });
        mul_i64(rec, 999);
        mul_f32(rec, 9);
        mul_u32(rec, 99);
        shapes!(structure, f64, rec, 99);
        for _ in 0..3 {
            square::<f64, 1>(rec, 9); square::<f64, 2>(rec, 9); square::<f64, 3>(rec, 9); square::<f64, 4>(rec, 9);
            squaref::<f64, 1>(rec, 9); squaref::<f64, 2>(rec, 9); squaref::<f64, 3>(rec, 9); squaref::<f64, 4>(rec, 9);
            squaref::<f32, 2>(rec, 9); squaref::<f32, 3>(rec, 9); squaref::<f32, 4>(rec, 9);
        }
        if it % 3 == 0 {
            shapes!(entry, f64, rec, 99);
            shapes!(entry, i32, rec, 99);
            shapes!(lerp, f64, rec, 9);
            shapes!(nscale, f64, rec, 99);
            shapes!(nscale, f32, rec, 9);
            shapes!(structure, i32, rec, 99);
            square::<i32, 2>(rec, 9); square::<i32, 3>(rec, 9); square::<i32, 4>(rec, 9);
        }
        if it % 6 == 1 {
            set_scale([40, -40, 100, -100][it / 6 % 4]);
            mul_f64(rec, 9);
            shapes!(nscale, f64, rec, 9);
            entry::<f64, 2, 2>(rec, 9); entry::<f64, 3, 3>(rec, 9); entry::<f64, 4, 4>(rec, 9); entry::<f64, 3, 4>(rec, 9);
            set_scale(0);
        }
    }
    // every pair of 2x2 matrices over {-1,0,1}
    for c in 0..6561usize {
        if c % 64 == 0 { rec.next(); }
        if !rec.thorough && c % 3 != 0 { continue; }
        let mut k = c;
        let v: Vec<Q> = (0..8).map(|_| { let d = k % 3; k /= 3; q(d as i64 - 1) }).collect();
        let (ma, mb) = (mat::<f64, 2, 2>(&v[..4]), mat::<f64, 2, 2>(&v[4..]));
        rec.call("mat", "mul", "vv", "f64", &[2, 2, 2], &[rr(&v[..4]), rr(&v[4..])], 2, || ma * mb);
    }
}

/// exact determinant, to keep inverses within the projection's resolution
pub fn idet(a: &[i128], n: usize) -> i128 {
    if n == 1 { return a[0]; }
    let mut s = 0;
    for r in 0..n {
        let m: Vec<i128> = (0..(n - 1) * (n - 1)).map(|k| { let (i, j) = (k % (n - 1), k / (n - 1)); a[(j + 1) * n + if i < r { i } else { i + 1 }] }).collect();
        let t = a[r] * idet(&m, n - 1);
        s += if r % 2 == 0 { t } else { -t };
    }
    s
}
pub fn genmat(r: &mut Rng, n: usize, mag: i64) -> Vec<Q> {
    let mut a = gen(r, n * n, mag, 1, true);
    match r.below(9) {
        // unimodular: large entries, determinant +-1
        8 if n > 1 && mag > 4 => {
            for j in 0..n { for i in 0..n { a[j * n + i] = q((i == j) as i64); } }
            for _ in 0..n + 2 {
                let (i, j, f) = (r.below(n), r.below(n), r.int(-6, 6));
                if i != j { for k in 0..n { a[i * n + k] = q(a[i * n + k].0 + f * a[j * n + k].0); } }
            }
            let (i, j) = (r.below(n), r.below(n));
            for k in 0..n { a.swap(i * n + k, j * n + k); }
        }
        0 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); for k in 0..n { a[i * n + k] = a[j * n + k]; } } // often singular
        1 if n > 2 => { for k in 0..n { a[k] = q(a[n + k].0 + a[2 * n + k].0); } }                              // singular
        2 => { for j in 0..n { for i in 0..n { if i > j { a[j * n + i] = q(0); } } } }                           // triangular
        3 => { let p = r.below(n); for j in 0..n { for i in 0..n { a[j * n + i] = q(if (i + p) % n == j { r.int(1, 3) * if r.chance(2) { -1 } else { 1 } } else { 0 }); } } } // monomial
        4 => { let k = r.below(n); for j in 0..n { a[j * n + k] = q(0); } if r.chance(2) { a[k * n + k] = q(r.int(-mag, mag)); } }
        _ => {}
    }
    a
}
macro_rules! detinv { ($rec:expr, $S:ty, $mag:expr, $lim:expr, $($n:literal $T:ident),*) => {{$( {
    const N: usize = $n;
    let a = genmat(&mut $rec.rng, N, $mag);
    let det = idet(&a.iter().map(|x| x.0 as i128).collect::<Vec<_>>(), N);
    let m = mat::<$S, N, N>(&a);
    let aa = [rr(&a)];
    let d = [$n];
    $rec.call("mat", "det", "m", <$S>::NAME, &d, &aa, N as i32, || m.determinant());
    if det.abs() <= $lim && scale() < -10 {
        // singularity is decided exactly: however small, a regular matrix is inverted
        $rec.call("mat", "inv", "t", <$S>::NAME, &d, &aa, -1, || m.try_inverse());
    }
    if det.abs() <= $lim && scale() >= -10 {
        $rec.call("mat", "inv", "t", <$S>::NAME, &d, &aa, -1, || m.try_inverse());
        if det != 0 { $rec.call("mat", "inv", "i", <$S>::NAME, &d, &aa, -1, || m.inverse()); }
        $rec.call("mat", "isinv", "m", <$S>::NAME, &d, &aa, 0, || m.is_invertible());
    }
} )*}} }
/// rows and columns of different magnitudes: D1 A D2
macro_rules! graded { ($rec:expr, $mag:expr, $($n:literal),*) => {{$( {
    const N: usize = $n;
    let a = genmat(&mut $rec.rng, N, $mag);
    let det = idet(&a.iter().map(|x| x.0 as i128).collect::<Vec<_>>(), N);
    let e: Vec<i32> = (0..2 * N).map(|_| $rec.rng.int(-25, 25) as i32).collect();
    let tot: i32 = e.iter().sum();
    let mut m = mat::<f64, N, N>(&a);
    for c in 0..N { for r in 0..N { m[c][r] *= 2f64.powi(e[r] + e[N + c]); } }
    let aa = [rr(&a)];
    let d = [$n];
    $rec.call("mat", "det", "graded", "f64", &d, &aa, 0, || m.determinant() * 2f64.powi(-tot));
    if det.abs() <= 5000 {
        let back = |mut v: Matrix<f64, N, N>| { for c in 0..N { for r in 0..N { v[c][r] *= 2f64.powi(e[c] + e[N + r]); } } v };
        $rec.call("mat", "inv", "graded", "f64", &d, &aa, 0, || m.try_inverse().map(back));
        if det != 0 { $rec.call("mat", "inv", "gradedi", "f64", &d, &aa, 0, || back(m.inverse())); }
    }
} )*}} }
macro_rules! deti { ($rec:expr, $S:ty, $mag:expr, $($n:literal),*) => {{$( {
    const N: usize = $n;
    let a = genmat(&mut $rec.rng, N, $mag);
    let m = mat::<$S, N, N>(&a);
    $rec.call("mat", "det", "m", <$S>::NAME, &[$n], &[rr(&a)], N as i32, || m.determinant());
} )*}} }
pub fn c07(rec: &mut Rec) {
    for it in 0..rec.iters(600, 6000) {
        rec.next();
        detinv!(rec, f64, 3, 5000, 1 Matrix1x1, 2 Matrix2x2, 3 Matrix3x3, 4 Matrix4x4);
        detinv!(rec, f64, [1, 2, 5, 9][it % 4], 5000, 1 Matrix1x1, 2 Matrix2x2, 3 Matrix3x3, 4 Matrix4x4);
        detinv!(rec, f64, 50, 5000, 1 Matrix1x1, 2 Matrix2x2, 3 Matrix3x3, 4 Matrix4x4);
        detinv!(rec, f32, 2, 40, 1 Matrix1x1, 2 Matrix2x2, 3 Matrix3x3, 4 Matrix4x4);
        graded!(rec, [3, 9, 5, 20][it % 4], 1, 2, 3, 4);
        if it % 4 == 0 {
            deti!(rec, i64, 99, 1, 2, 3, 4);
            deti!(rec, i32, 20, 1, 2, 3, 4);
            set_scale([30, 60, 8, -30, -10, -6][it / 4 % 6]);
            detinv!(rec, f64, 4, 5000, 1 Matrix1x1, 2 Matrix2x2, 3 Matrix3x3, 4 Matrix4x4);
            set_scale(0);
        }
    }
    // all 2x2 over {-2..2}, all 3x3 over {0,1} (and {-1,0,1} when thorough)
    for c in 0..625usize {
        if c % 16 == 0 { rec.next(); }
        let mut k = c;
        let a: Vec<Q> = (0..4).map(|_| { let d = k % 5; k /= 5; q(d as i64 - 2) }).collect();
        let m = mat::<f64, 2, 2>(&a);
        rec.call("mat", "det", "m", "f64", &[2], &[rr(&a)], 2, || m.determinant());
        rec.call("mat", "inv", "t", "f64", &[2], &[rr(&a)], 2, || m.try_inverse());
        rec.call("mat", "isinv", "m", "f64", &[2], &[rr(&a)], 0, || m.is_invertible());
    }
    let (b, off) = if rec.thorough { (3usize, 1) } else { (2, 0) };
    for c in 0..b.pow(9) {
        if c % 16 == 0 { rec.next(); }
        let mut k = c;
        let a: Vec<Q> = (0..9).map(|_| { let d = k % b; k /= b; q(d as i64 - off) }).collect();
        let m = mat::<f64, 3, 3>(&a);
        rec.call("mat", "det", "m", "f64", &[3], &[rr(&a)], 2, || m.determinant());
        rec.call("mat", "inv", "t", "f64", &[3], &[rr(&a)], 2, || m.try_inverse());
        rec.call("mat", "isinv", "m", "f64", &[3], &[rr(&a)], 0, || m.is_invertible());
    }
}

fn main() {
    drive(&[("C06", c06), ("C07", c07)]);
}

//! Driver: homogeneous coordinates, extension, contraction, embedding (C09).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
use common::*;
use pjs::*;
use cglinalg_core::*;
use cglinalg_numeric::*;

macro_rules! ext { ($rec:expr, $S:ty, $mag:expr, $($n:literal $m:literal),*) => {{$( {
    const N: usize = $n; const M: usize = $m;
    let a = gen(&mut $rec.rng, N, $mag, <$S>::DEN, <$S>::SIGNED);
    let x = gen(&mut $rec.rng, 1, $mag, <$S>::DEN, <$S>::SIGNED)[0];
    let (v, p, xs) = (vec::<$S, N>(&a), pnt::<$S, N>(&a), <$S>::ofq(x));
    let ax = [rr(&a), vec![x.r()]];
    let d = [$n];
    $rec.call("hom", "extend", "v", <$S>::NAME, &d, &ax, 1, || -> Vector<$S, M> { v.extend(xs) });
    $rec.call("hom", "extend", "p", <$S>::NAME, &d, &ax, 1, || -> Point<$S, M> { p.extend(xs) });
    $rec.call("hom", "tov", "v", <$S>::NAME, &d, &ax, 1, || -> Vector<$S, M> { v.to_homogeneous() });
    $rec.call("hom", "top", "p", <$S>::NAME, &d, &ax, NOSCALE, || -> Vector<$S, M> { p.to_homogeneous() });
    // round trips
    $rec.call("hom", "id", "v", <$S>::NAME, &d, &ax, 1, || { let h: Vector<$S, M> = v.extend(xs); h.contract() });
    $rec.call("hom", "id", "p", <$S>::NAME, &d, &ax, 1, || { let h: Point<$S, M> = p.extend(xs); h.contract() });
    $rec.call("hom", "id", "vh", <$S>::NAME, &d, &ax, 1, || { let h: Vector<$S, M> = v.to_homogeneous(); h.from_homogeneous() });
    $rec.call("hom", "id", "ph", <$S>::NAME, &d, &ax, NOSCALE, || { let h: Vector<$S, M> = p.to_homogeneous(); Point::<$S, N>::from_homogeneous(&h) });
    // the other way: an arbitrary homogeneous vector
    let mut h = gen(&mut $rec.rng, M, $mag, <$S>::DEN, <$S>::SIGNED);
    match $rec.rng.below(4) { 0 => h[N] = q(0), 1 => h[N] = q(1), _ => {} }
    let hv = vec::<$S, M>(&h);
    let hp = pnt::<$S, M>(&h);
    let hh = [rr(&h)];
    let e = [$m];
    if M <= 4 {
        $rec.call("hom", "contract", "v", <$S>::NAME, &e, &hh, 1, || contract_v(&hv));
        $rec.call("hom", "contract", "p", <$S>::NAME, &e, &hh, 1, || contract_p(&hp));
        $rec.call("hom", "fromv", "v", <$S>::NAME, &e, &hh, 1, || hv.from_homogeneous());
    }
    if <$S>::FLOAT {
        $rec.call("hom", "fromp", "p", <$S>::NAME, &e, &hh, 0, || Point::<$S, N>::from_homogeneous(&hv));
    } else if h[N].0 != 0 {
        for i in 0..N { h[i] = q(h[i].0 % 5 * h[N].0); }
        let hv = vec::<$S, M>(&h);
        $rec.call("hom", "fromp", "p", <$S>::NAME, &e, &[rr(&h)], 0, || Point::<$S, N>::from_homogeneous(&hv));
    } else {
        $rec.call("hom", "fromp", "p", <$S>::NAME, &e, &hh, 0, || Point::<$S, N>::from_homogeneous(&hv));
    }
} )*}} }
fn contract_v<S: Sc + SimdScalar, const N: usize, const M: usize>(v: &Vector<S, N>) -> Vector<S, M>
where ShapeConstraint: CanContract<Const<N>, Const<M>> + DimSub<Const<N>, Const<1>, Output = Const<M>> + DimAdd<Const<M>, Const<1>, Output = Const<N>> {
    v.contract()
}
fn contract_p<S: Sc + SimdScalar, const N: usize, const M: usize>(v: &Point<S, N>) -> Point<S, M>
where ShapeConstraint: CanContract<Const<N>, Const<M>> + DimSub<Const<N>, Const<1>, Output = Const<M>> + DimAdd<Const<M>, Const<1>, Output = Const<N>> {
    v.contract()
}
macro_rules! emb { ($rec:expr, $S:ty, $mag:expr, $($n:literal $m:literal),*) => {{$( {
    const N: usize = $n; const M: usize = $m;
    let a = gen(&mut $rec.rng, N * N, $mag, <$S>::DEN, <$S>::SIGNED);
    let m = mat::<$S, N, N>(&a);
    $rec.call("mat", "embed", "v", <$S>::NAME, &[$n, $m], &[rr(&a)], NOSCALE, || Matrix::<$S, M, M>::from(m));
    $rec.call("mat", "embed", "r", <$S>::NAME, &[$n, $m], &[rr(&a)], NOSCALE, || Matrix::<$S, M, M>::from(&m));
    if M == N + 1 {
        // acts on homogeneous coordinates as the linear map does
        let x = gen(&mut $rec.rng, N, 9, 1, <$S>::SIGNED);
        let v = vec::<$S, N>(&x);
        let p = pnt::<$S, N>(&x);
        let w = Matrix::<$S, M, M>::from(m);
        $rec.call("hom", "actv", "m", <$S>::NAME, &[$n], &[rr(&a), rr(&x)], NOSCALE, || w * vec_ext::<$S, N, M>(&v, 0));
        $rec.call("hom", "actp", "m", <$S>::NAME, &[$n], &[rr(&a), rr(&x)], NOSCALE, || w * vec_ext::<$S, N, M>(&p.to_vector(), 1));
    }
} )*}} }
fn vec_ext<S: Sc + SimdScalar, const N: usize, const M: usize>(v: &Vector<S, N>, w: i64) -> Vector<S, M> {
    Vector::from(core::array::from_fn::<S, M, _>(|i| if i < N { v[i] } else { S::ofq(q(w)) }))
}
fn c09(rec: &mut Rec) {
    for it in 0..rec.iters(200, 2000) {
        rec.next();
        ext!(rec, f64, [9, 99, 999, 3][it % 4], 1 2, 2 3, 3 4);
        ext!(rec, f32, 9, 1 2, 2 3, 3 4);
        ext!(rec, i32, 99, 1 2, 2 3, 3 4);
        ext!(rec, u16, 20, 1 2, 2 3, 3 4);
        emb!(rec, f64, 99, 1 2, 1 3, 1 4, 2 3, 2 4, 3 4);
        emb!(rec, i32, 99, 1 2, 1 3, 1 4, 2 3, 2 4, 3 4);
        if it % 4 == 0 {
            set_scale([-60, 60, -200, 300][it / 4 % 4]);
            ext!(rec, f64, 9, 1 2, 2 3, 3 4);
            set_scale(0);
        }
    }
}
fn main() {
    drive(&[("C09", c09)]);
}

//! Drivers: storage layout and views (C08), named components and swizzles (C28).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../pjs.rs"]
mod pjs;
#[path = "../swz.rs"]
mod swz;
use common::*;
use pjs::*;
use cglinalg_core::*;
use cglinalg_numeric::*;

/// distinct values
fn distinct<S: Sc>(r: &mut Rng, n: usize) -> Vec<Q> {
    let off = r.int(1, 90);
    let mut v: Vec<i64> = (0..n as i64).map(|i| off + i).collect();
    for i in (1..n).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
    if S::SIGNED && r.chance(2) {
        for x in v.iter_mut() {
            if r.chance(2) { *x = -*x; }
        }
    }
    qs(&v)
}
type Rd<T, S> = (&'static str, fn(&T) -> Vec<S>);
type Wr<T, S> = (&'static str, fn(&mut T, usize, S));
/// every read view on one object, then a history of writes through random
/// views, each observed through a random read view
fn views<T: Clone, S: Sc + SimdScalar>(rec: &mut Rec, ty: &str, n: usize, a: &[Q], mk: &[(&'static str, T)], rd: &[Rd<T, S>], wr: &[Wr<T, S>]) {
    let ni = n as i64;
    for (name, obj) in mk {
        for (v, f) in rd {
            rec.call("lay", "all", &format!("{ty} {name} {v}"), S::NAME, &[ni], &[rr(a)], 0, || f(obj));
        }
    }
    rec.call("lay", "size", ty, S::NAME, &[ni], &[], 0, || Raw(vec![(core::mem::size_of::<T>() / core::mem::size_of::<S>()) as i64, (core::mem::size_of::<T>() % core::mem::size_of::<S>()) as i64]));
    let mut obj = mk[0].1.clone();
    let mut old = rr(a);
    for _ in 0..2 * wr.len() {
        let (w, g) = wr[rec.rng.below(wr.len())];
        let (v, f) = rd[rec.rng.below(rd.len())];
        let k = rec.rng.below(n);
        let x = q(rec.rng.int(0, 99));
        let r = run(0, false, || { g(&mut obj, k, S::ofq(x)); f(&obj) });
        rec.emit("lay", "w", &format!("{ty} {w}/{v}"), S::NAME, &[ni, k as i64 + 1], &[old.clone(), vec![x.r()]], &r);
        old = r;
    }
}
fn ranges<T: Clone, S: Sc + SimdScalar>(rec: &mut Rec, ty: &str, n: usize, a: &[Q], o: &T,
    rg: fn(&T, usize, usize) -> Vec<S>, to: fn(&T, usize) -> Vec<S>, from: fn(&T, usize) -> Vec<S>,
    wrg: fn(&mut T, usize, usize, &[S]), wto: fn(&mut T, usize, &[S]), wfrom: fn(&mut T, usize, &[S])) {
    let ni = n as i64;
    let b = distinct::<S>(&mut rec.rng, n);
    let bs: Vec<S> = b.iter().map(|x| S::ofq(*x)).collect();
    let flat = |t: &T| rg(t, 0, n);
    for lo in 0..=n {
        for hi in lo..=n {
            rec.call("lay", "range", &format!("{ty} r"), S::NAME, &[ni, lo as i64 + 1, hi as i64], &[rr(a)], 0, || rg(o, lo, hi));
            rec.call("lay", "wrange", &format!("{ty} r"), S::NAME, &[ni, lo as i64 + 1, hi as i64], &[rr(a), rr(&b)], 0, || { let mut t = o.clone(); wrg(&mut t, lo, hi, &bs[lo..hi]); flat(&t) });
        }
        rec.call("lay", "range", &format!("{ty} to"), S::NAME, &[ni, 1, lo as i64], &[rr(a)], 0, || to(o, lo));
        rec.call("lay", "range", &format!("{ty} from"), S::NAME, &[ni, lo as i64 + 1, ni], &[rr(a)], 0, || from(o, lo));
        rec.call("lay", "wrange", &format!("{ty} to"), S::NAME, &[ni, 1, lo as i64], &[rr(a), rr(&b)], 0, || { let mut t = o.clone(); wto(&mut t, lo, &bs[..lo]); flat(&t) });
        rec.call("lay", "wrange", &format!("{ty} from"), S::NAME, &[ni, lo as i64 + 1, ni], &[rr(a), rr(&b)], 0, || { let mut t = o.clone(); wfrom(&mut t, lo, &bs[lo..]); flat(&t) });
    }
    // one past the end is refused
    rec.call("lay", "oob", &format!("{ty} r"), S::NAME, &[ni], &[], 0, || rg(o, 0, n + 1));
    rec.call("lay", "oob", &format!("{ty} to"), S::NAME, &[ni], &[], 0, || to(o, n + 1));
    rec.call("lay", "oob", &format!("{ty} from"), S::NAME, &[ni], &[], 0, || from(o, n + 1));
}
macro_rules! rng_of { ($rec:expr, $ty:expr, $T:ty, $S:ty, $n:expr, $a:expr, $o:expr) => {
    ranges::<$T, $S>($rec, $ty, $n, $a, $o, |t, l, h| t[l..h].to_vec(), |t, h| t[..h].to_vec(), |t, l| t[l..].to_vec(),
        |t, l, h, x| t[l..h].copy_from_slice(x), |t, h, x| t[..h].copy_from_slice(x), |t, l, x| t[l..].copy_from_slice(x));
    $rec.call("lay", "oob", concat!($ty, " i"), <$S>::NAME, &[$n as i64], &[], 0, || $o[$n]);
} }
fn off<S>(base: *const S, x: *const S) -> Raw {
    Raw(vec![(x as isize - base as isize) as i64 / core::mem::size_of::<S>() as i64, ((x as isize - base as isize) % core::mem::size_of::<S>() as isize) as i64])
}
/// views every vector- or point-like container has
macro_rules! common_views { ($T:ty, $S:ty, $n:expr) => { [
    ("index", (|t| (0..$n).map(|i| t[i]).collect()) as fn(&$T) -> Vec<$S>),
    ("full", |t| t[..].to_vec()),
    ("as_slice", |t| t.as_slice().to_vec()),
    ("as_ref", |t| { let r: &[$S; $n] = t.as_ref(); r.to_vec() }),
    ("as_ptr", |t| { let p = t.as_ptr(); (0..$n).map(|i| unsafe { *p.add(i) }).collect() }),
    ("copy", |t| { let c = *t; (0..$n).map(|i| c[i]).collect() }),
] } }
macro_rules! common_writes { ($T:ty, $S:ty, $n:expr) => { [
    ("index", (|t, k, x| t[k] = x) as fn(&mut $T, usize, $S)),
    ("full", |t, k, x| t[..][k] = x),
    ("as_mut", |t, k, x| { let r: &mut [$S; $n] = t.as_mut(); r[k] = x }),
    ("as_mut_ptr", |t, k, x| { let p = t.as_mut_ptr(); unsafe { *p.add(k) = x } }),
] } }
macro_rules! cat { ($a:expr, $b:expr) => {{ let mut v = $a.to_vec(); v.extend_from_slice(&$b); v }} }
macro_rules! addr { ($rec:expr, $ty:expr, $S:ty, $n:expr, $o:expr) => {
    for k in 0..$n {
        $rec.call("lay", "off", $ty, <$S>::NAME, &[$n as i64, k as i64 + 1], &[], 0, || off::<$S>($o.as_ptr(), &$o[k]));
    }
    $rec.call("lay", "off", $ty, <$S>::NAME, &[$n as i64, 1], &[], 0, || off::<$S>(&$o as *const _ as *const $S, $o.as_ptr()));
    $rec.call("lay", "len", $ty, <$S>::NAME, &[$n as i64], &[], 0, || Raw(vec![$o.len() as i64, $o.is_empty() as i64, $o.as_slice().len() as i64]));
} }
macro_rules! vlike { ($f:ident, $Ty:ident, $S:ident, $n:literal, ($($x:ident $i:tt),*), $Tup:ty, $extra:tt) => {
    fn $f<$S: Sc + SimdScalar>(rec: &mut Rec) {
        type T<S> = $Ty<S>;
        let a = distinct::<$S>(&mut rec.rng, $n);
        let arr: [$S; $n] = core::array::from_fn(|i| $S::ofq(a[i]));
        let tup: $Tup = ($(arr[$i],)*);
        let o: T<$S> = $Ty::new($(arr[$i]),*);
        let mk: Vec<(&'static str, T<$S>)> = vec![
            ("new", o), ("from_arr", T::from(arr)), ("from_arr_ref", T::from(&arr)), ("ref_from_arr", *<&T<$S>>::from(&arr)),
            ("from_tup", T::from(tup)), ("from_tup_ref", T::from(&tup)), ("ref_from_tup", *<&T<$S>>::from(&tup)),
        ];
        let rd = cat!(common_views!(T<$S>, $S, $n), [
            ("tuple", (|t| { let r: &$Tup = t.as_ref(); vec![$(r.$i),*] }) as fn(&T<$S>) -> Vec<$S>),
            ("fields", |t| vec![$(t.$x),*]),
        ]);
        let wr = cat!(common_writes!(T<$S>, $S, $n), [
            ("tuple", (|t, k, x| { let r: &mut $Tup = t.as_mut(); match k { $($i => r.$i = x,)* _ => unreachable!() } }) as fn(&mut T<$S>, usize, $S)),
            ("fields", |t, k, x| match k { $($i => t.$x = x,)* _ => unreachable!() }),
        ]);
        views(rec, stringify!($Ty), $n, &a, &mk, &rd, &wr);
        rng_of!(rec, stringify!($Ty), T<$S>, $S, $n, &a, &o);
        addr!(rec, stringify!($Ty), $S, $n, o);
    }
} }
vlike!(vec1, Vector1, S, 1, (x 0), (S,), ());
vlike!(vec2, Vector2, S, 2, (x 0, y 1), (S, S), ());
vlike!(vec3, Vector3, S, 3, (x 0, y 1, z 2), (S, S, S), ());
vlike!(vec4, Vector4, S, 4, (x 0, y 1, z 2, w 3), (S, S, S, S), ());
vlike!(pnt1, Point1, S, 1, (x 0), (S,), ());
vlike!(pnt2, Point2, S, 2, (x 0, y 1), (S, S), ());
vlike!(pnt3, Point3, S, 3, (x 0, y 1, z 2), (S, S, S), ());

fn vec_other<S: Sc + SimdScalar, const N: usize>(rec: &mut Rec) {
    let a = distinct::<S>(&mut rec.rng, N);
    let arr: [S; N] = core::array::from_fn(|i| S::ofq(a[i]));
    let v = Vector::<S, N>::from(arr);
    let p = Point::<S, N>::from(arr);
    let n = N as i64;
    rec.call("lay", "all", "vec nested", S::NAME, &[n], &[rr(&a)], 0, || { let r: &[[S; N]; 1] = v.as_ref(); r[0].to_vec() });
    let k = rec.rng.below(N);
    rec.call("lay", "w", "vec nested", S::NAME, &[n, k as i64 + 1], &[rr(&a), vec![7]], 0, || { let mut z = v; let r: &mut [[S; N]; 1] = z.as_mut(); r[0][k] = S::ofq(q(7)); z });
    rec.call("lay", "all", "pnt from_vector", S::NAME, &[n], &[rr(&a)], 0, || Point::from_vector(&v));
    rec.call("lay", "all", "pnt to_vector", S::NAME, &[n], &[rr(&a)], 0, || p.to_vector());
    rec.call("lay", "shape", "vec", S::NAME, &[n, 1], &[], 0, || { let s = v.shape(); Raw(vec![s.0 as i64, s.1 as i64]) });
    rec.call("lay", "shape", "pnt", S::NAME, &[n, 1], &[], 0, || { let s = p.shape(); Raw(vec![s.0 as i64, s.1 as i64]) });
    rec.call("lay", "all", "vec map", S::NAME, &[n], &[rr(&a)], 0, || v.map(|x| x));
    rec.call("lay", "all", "pnt map", S::NAME, &[n], &[rr(&a)], 0, || p.map(|x| x));
    // map visits the components in order
    rec.call("lay", "count", "vec map", S::NAME, &[n], &[], 0, || { let mut c = 0i64; let w = v.map(|_| { c += 1; c }); Raw(w.as_slice().to_vec()) });
}
fn quatl<S: Sc + SimdScalar>(rec: &mut Rec) {
    let a = distinct::<S>(&mut rec.rng, 4);
    let t: [S; 4] = core::array::from_fn(|i| S::ofq(a[i]));
    let tup = (t[0], t[1], t[2], t[3]);
    type T<S> = Quaternion<S>;
    let o = T::new(t[0], t[1], t[2], t[3]);
    let v3 = Vector3::new(t[1], t[2], t[3]);
    let mk = vec![("new", o), ("from_arr", T::from(t)), ("from_arr_ref", T::from(&t)), ("ref_from_arr", *<&T<S>>::from(&t)),
        ("from_tup", T::from(tup)), ("from_tup_ref", T::from(&tup)), ("ref_from_tup", *<&T<S>>::from(&tup)),
        ("from_parts", T::from_parts(t[0], v3))];
    let rd = cat!(common_views!(T<S>, S, 4), [
        ("tuple", (|t| { let r: &(S, S, S, S) = t.as_ref(); vec![r.0, r.1, r.2, r.3] }) as fn(&T<S>) -> Vec<S>),
        ("sv", |t| vec![t.s, t.v.x, t.v.y, t.v.z]),
        ("scalar vector", |t| { let v = t.vector(); vec![t.scalar(), v[0], v[1], v[2]] }),
        ("map", |t| { let m = t.map(|x| x); vec![m.scalar(), m.vector().x, m.vector().y, m.vector().z] }),
    ]);
    let wr = cat!(common_writes!(T<S>, S, 4), [
        ("tuple", (|t, k, x| { let r: &mut (S, S, S, S) = t.as_mut(); match k { 0 => r.0 = x, 1 => r.1 = x, 2 => r.2 = x, _ => r.3 = x } }) as fn(&mut T<S>, usize, S)),
        ("sv", |t, k, x| match k { 0 => t.s = x, 1 => t.v.x = x, 2 => t.v.y = x, _ => t.v.z = x }),
    ]);
    views(rec, "Quaternion", 4, &a, &mk, &rd, &wr);
    rng_of!(rec, "Quaternion", T<S>, S, 4, &a, &o);
    addr!(rec, "Quaternion", S, 4, o);
    rec.call("lay", "shape", "quat", S::NAME, &[4, 1], &[], 0, || { let s = o.shape(); Raw(vec![s.0 as i64, s.1 as i64]) });
    rec.call("lay", "all", "from_fill", S::NAME, &[4], &[vec![a[0].r(); 4]], 0, || T::from_fill(t[0]));
}
fn quat4<S: Sc + SimdScalarFloat>(rec: &mut Rec) {
    let a = distinct::<S>(&mut rec.rng, 4);
    let v4 = vec::<S, 4>(&a);
    rec.call("lay", "all", "quat from vec4", S::NAME, &[4], &[rr(&a)], 0, || Quaternion::from(v4));
    rec.call("lay", "all", "quat from &vec4", S::NAME, &[4], &[rr(&a)], 0, || Quaternion::from(&v4));
    rec.call("lay", "range", "vec3 from vec4", S::NAME, &[4, 1, 3], &[rr(&a)], 0, || Vector3::from(v4));
    rec.call("lay", "range", "vec3 from &vec4", S::NAME, &[4, 1, 3], &[rr(&a)], 0, || Vector3::from(&v4));
}
fn cpxl<S: Sc + SimdScalar>(rec: &mut Rec) {
    let a = distinct::<S>(&mut rec.rng, 2);
    let t: [S; 2] = core::array::from_fn(|i| S::ofq(a[i]));
    let tup = (t[0], t[1]);
    type T<S> = Complex<S>;
    let o = T::new(t[0], t[1]);
    let mk = vec![("new", o), ("from_arr", T::from(t)), ("from_arr_ref", T::from(&t)), ("ref_from_arr", *<&T<S>>::from(&t)),
        ("from_tup", T::from(tup)), ("from_tup_ref", T::from(&tup)), ("ref_from_tup", *<&T<S>>::from(&tup))];
    let rd = cat!(common_views!(T<S>, S, 2), [
        ("tuple", (|t| { let r: &(S, S) = t.as_ref(); vec![r.0, r.1] }) as fn(&T<S>) -> Vec<S>),
        ("parts", |t| vec![t.real(), t.imaginary()]),
        ("map", |t| { let m = t.map(|x| x); vec![m.real(), m.imaginary()] }),
    ]);
    let wr = cat!(common_writes!(T<S>, S, 2), [
        ("tuple", (|t, k, x| { let r: &mut (S, S) = t.as_mut(); match k { 0 => r.0 = x, _ => r.1 = x } }) as fn(&mut T<S>, usize, S)),
    ]);
    views(rec, "Complex", 2, &a, &mk, &rd, &wr);
    rng_of!(rec, "Complex", T<S>, S, 2, &a, &o);
    addr!(rec, "Complex", S, 2, o);
    rec.call("lay", "shape", "cpx", S::NAME, &[2, 1], &[], 0, || { let s = o.shape(); Raw(vec![s.0 as i64, s.1 as i64]) });
    // one-dimensional containers are their scalar
    rec.call("lay", "all", "vec1 from S", S::NAME, &[1], &[vec![a[0].r()]], 0, || Vector1::from(t[0]));
    rec.call("lay", "all", "pnt1 from S", S::NAME, &[1], &[vec![a[0].r()]], 0, || Point1::from(t[0]));
    rec.call("lay", "all", "vec1 to_scalar", S::NAME, &[1], &[vec![a[1].r()]], 0, || Vector1::new(t[1]).to_scalar());
    rec.call("lay", "all", "mat1 to_scalar", S::NAME, &[1], &[vec![a[1].r()]], 0, || Matrix1x1::new(t[1]).to_scalar());
    rec.call("lay", "all", "from real", S::NAME, &[2], &[vec![a[0].r(), 0]], 0, || T::from_real(t[0]));
    rec.call("lay", "all", "from S", S::NAME, &[2], &[vec![a[0].r(), 0]], 0, || T::from(t[0]));
    rec.call("lay", "all", "from &S", S::NAME, &[2], &[vec![a[0].r(), 0]], 0, || T::from(&t[0]));
    rec.call("lay", "all", "from imag", S::NAME, &[2], &[vec![0, a[0].r()]], 0, || T::from_imaginary(t[0]));
}
macro_rules! matl { ($f:ident, $Ty:ident, $R:literal, $C:literal, $RC:literal, ($($x:ident $i:tt $c:literal $r:literal),*), ($($n:literal),*)) => {
    fn $f<S: Sc + SimdScalar>(rec: &mut Rec) {
        type T<S> = $Ty<S>;
        let a = distinct::<S>(&mut rec.rng, $RC);
        let flat: [S; $RC] = core::array::from_fn(|i| S::ofq(a[i]));
        let nested: [[S; $R]; $C] = core::array::from_fn(|c| core::array::from_fn(|r| flat[c * $R + r]));
        let cols: [Vector<S, $R>; $C] = core::array::from_fn(|c| Vector::from(nested[c]));
        let rows: [Vector<S, $C>; $R] = core::array::from_fn(|r| Vector::from(core::array::from_fn::<S, $C, _>(|c| nested[c][r])));
        let o: T<S> = T::from(nested);
        let mk: Vec<(&'static str, T<S>)> = vec![
            ("from_nested", o), ("new", $Ty::new($(flat[$n]),*)), ("from_flat", T::from(flat)),
            ("ref_from_nested", *<&T<S>>::from(&nested)), ("ref_from_flat", *<&T<S>>::from(&flat)), ("ref_from_cols", *<&T<S>>::from(&cols)),
            ("from_columns", T::from_columns(&cols)), ("from_rows", T::from_rows(&rows)),
        ];
        let rd: Vec<Rd<T<S>, S>> = vec![
            ("index", |t| (0..$RC).map(|i| t[i / $R][i % $R]).collect()),
            ("pair", |t| (0..$RC).map(|i| t[(i / $R, i % $R)]).collect()),
            ("as_slice", |t| t.as_slice().to_vec()),
            ("nested", |t| { let r: &[[S; $R]; $C] = t.as_ref(); r.iter().flatten().copied().collect() }),
            ("flat", |t| { let r: &[S; $RC] = t.as_ref(); r.to_vec() }),
            ("cols", |t| { let r: &[Vector<S, $R>; $C] = t.as_ref(); r.iter().flat_map(|v| v.as_slice().to_vec()).collect() }),
            ("as_ptr", |t| { let p = t.as_ptr(); (0..$RC).map(|i| unsafe { *p.add(i) }).collect() }),
            ("fields", |t| { let mut v = vec![]; for k in 0..$RC { v.push(match k { $($i => t.$x,)* _ => unreachable!() }) } v }),
            ("column", |t| (0..$RC).map(|i| t.column(i / $R)[i % $R]).collect()),
            ("row", |t| (0..$RC).map(|i| t.row(i % $R)[i / $R]).collect()),
            ("map", |t| { let m = t.map(|x| x); m.as_slice().to_vec() }),
        ];
        let wr: Vec<Wr<T<S>, S>> = vec![
            ("index", |t, k, x| t[k / $R][k % $R] = x),
            ("pair", |t, k, x| t[(k / $R, k % $R)] = x),
            ("nested", |t, k, x| { let r: &mut [[S; $R]; $C] = t.as_mut(); r[k / $R][k % $R] = x }),
            ("flat", |t, k, x| { let r: &mut [S; $RC] = t.as_mut(); r[k] = x }),
            ("cols", |t, k, x| { let r: &mut [Vector<S, $R>; $C] = t.as_mut(); r[k / $R][k % $R] = x }),
            ("as_mut_ptr", |t, k, x| { let p = t.as_mut_ptr(); unsafe { *p.add(k) = x } }),
            ("fields", |t, k, x| match k { $($i => t.$x = x,)* _ => unreachable!() }),
            ("colview", |t, k, x| { let c = &mut t[k / $R]; let r: &mut [S; $R] = c.as_mut(); r[k % $R] = x }),
        ];
        views(rec, stringify!($Ty), $RC, &a, &mk, &rd, &wr);
        for k in 0..$RC {
            rec.call("lay", "off", stringify!($Ty), S::NAME, &[$RC, k as i64 + 1], &[], 0, || off::<S>(o.as_ptr(), &o[k / $R][k % $R]));
        }
        $( rec.call("lay", "field", stringify!($Ty), S::NAME, &[$R, $C, $c, $r], &[rr(&a)], 0, || o.$x); )*
        for c in 0..$C { for r in 0..$R {
            rec.call("lay", "field", stringify!($Ty), S::NAME, &[$R, $C, c, r], &[rr(&a)], 0, || o[(c as usize, r as usize)]);
        } }
        rec.call("lay", "oob", "mat c", S::NAME, &[$RC], &[], 0, || o[$C]);
        rec.call("lay", "oob", "mat r", S::NAME, &[$RC], &[], 0, || o[0][$R]);
        rec.call("lay", "oob", "mat pc", S::NAME, &[$RC], &[], 0, || o[($C, 0)]);
        rec.call("lay", "oob", "mat pr", S::NAME, &[$RC], &[], 0, || o[(0, $R)]);
        rec.call("lay", "oob", "mat row", S::NAME, &[$RC], &[], 0, || o.row($R));
        rec.call("lay", "oob", "mat col", S::NAME, &[$RC], &[], 0, || o.column($C));
        rec.call("mat", "shape", "m", S::NAME, &[$R, $C], &[], 0, || { let s = o.shape(); Raw(vec![s.0 as i64, s.1 as i64, o.len() as i64, o.is_empty() as i64]) });
        for i in 0..$R { for j in 0..$R {
            rec.call("mat", "swaprows", "m", S::NAME, &[$R, $C, i + 1, j + 1], &[rr(&a)], 0, || { let mut z = o; z.swap_rows(i as usize, j as usize); z });
        } }
        for i in 0..$C { for j in 0..$C {
            rec.call("mat", "swapcols", "m", S::NAME, &[$R, $C, i + 1, j + 1], &[rr(&a)], 0, || { let mut z = o; z.swap_columns(i as usize, j as usize); z });
        } }
        let (c1, r1, c2, r2) = (rec.rng.below($C), rec.rng.below($R), rec.rng.below($C), rec.rng.below($R));
        rec.call("mat", "swapel", "m", S::NAME, &[$R, $C, c1 as i64 + 1, r1 as i64 + 1, c2 as i64 + 1, r2 as i64 + 1], &[rr(&a)], 0, || { let mut z = o; z.swap((c1, r1), (c2, r2)); z });
        rec.call("lay", "count", "mat map", S::NAME, &[$RC], &[], 0, || { let mut k = 0i64; let w = o.map(|_| { k += 1; k }); Raw(w.as_slice().to_vec()) });
    }
} }
matl!(m11, Matrix1x1, 1, 1, 1, (c0r0 0 0 0), (0));
matl!(m22, Matrix2x2, 2, 2, 4, (c0r0 0 0 0, c0r1 1 0 1, c1r0 2 1 0, c1r1 3 1 1), (0, 1, 2, 3));
matl!(m33, Matrix3x3, 3, 3, 9, (c0r0 0 0 0, c0r1 1 0 1, c0r2 2 0 2, c1r0 3 1 0, c1r1 4 1 1, c1r2 5 1 2, c2r0 6 2 0, c2r1 7 2 1, c2r2 8 2 2), (0, 1, 2, 3, 4, 5, 6, 7, 8));
matl!(m44, Matrix4x4, 4, 4, 16, (c0r0 0 0 0, c0r1 1 0 1, c0r2 2 0 2, c0r3 3 0 3, c1r0 4 1 0, c1r1 5 1 1, c1r2 6 1 2, c1r3 7 1 3,
    c2r0 8 2 0, c2r1 9 2 1, c2r2 10 2 2, c2r3 11 2 3, c3r0 12 3 0, c3r1 13 3 1, c3r2 14 3 2, c3r3 15 3 3), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15));
matl!(m12, Matrix1x2, 1, 2, 2, (c0r0 0 0 0, c1r0 1 1 0), (0, 1));
matl!(m13, Matrix1x3, 1, 3, 3, (c0r0 0 0 0, c1r0 1 1 0, c2r0 2 2 0), (0, 1, 2));
matl!(m14, Matrix1x4, 1, 4, 4, (c0r0 0 0 0, c1r0 1 1 0, c2r0 2 2 0, c3r0 3 3 0), (0, 1, 2, 3));
matl!(m23, Matrix2x3, 2, 3, 6, (c0r0 0 0 0, c0r1 1 0 1, c1r0 2 1 0, c1r1 3 1 1, c2r0 4 2 0, c2r1 5 2 1), (0, 1, 2, 3, 4, 5));
matl!(m24, Matrix2x4, 2, 4, 8, (c0r0 0 0 0, c0r1 1 0 1, c1r0 2 1 0, c1r1 3 1 1, c2r0 4 2 0, c2r1 5 2 1, c3r0 6 3 0, c3r1 7 3 1), (0, 1, 2, 3, 4, 5, 6, 7));
matl!(m34, Matrix3x4, 3, 4, 12, (c0r0 0 0 0, c0r1 1 0 1, c0r2 2 0 2, c1r0 3 1 0, c1r1 4 1 1, c1r2 5 1 2, c2r0 6 2 0, c2r1 7 2 1, c2r2 8 2 2,
    c3r0 9 3 0, c3r1 10 3 1, c3r2 11 3 2), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11));
matl!(m32, Matrix3x2, 3, 2, 6, (c0r0 0 0 0, c0r1 1 0 1, c0r2 2 0 2, c1r0 3 1 0, c1r1 4 1 1, c1r2 5 1 2), (0, 1, 2, 3, 4, 5));
matl!(m42, Matrix4x2, 4, 2, 8, (c0r0 0 0 0, c0r1 1 0 1, c0r2 2 0 2, c0r3 3 0 3, c1r0 4 1 0, c1r1 5 1 1, c1r2 6 1 2, c1r3 7 1 3), (0, 1, 2, 3, 4, 5, 6, 7));
matl!(m43, Matrix4x3, 4, 3, 12, (c0r0 0 0 0, c0r1 1 0 1, c0r2 2 0 2, c0r3 3 0 3, c1r0 4 1 0, c1r1 5 1 1, c1r2 6 1 2, c1r3 7 1 3,
    c2r0 8 2 0, c2r1 9 2 1, c2r2 10 2 2, c2r3 11 2 3), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11));

/// elements that are not numbers: storage moves them and nothing else
type Nz = core::num::NonZeroI64;
struct Ones(Vec<i64>);
impl Ones {
    fn rr(&self) -> Vec<i64> { self.0.iter().map(|x| q(*x).r()).collect() }
}
fn ones(r: &mut Rng, n: usize) -> Ones {
    Ones(distinct::<u8>(r, n).iter().map(|x| x.0).collect())
}
fn out<'a>(v: impl IntoIterator<Item = &'a Nz>) -> Raw { Raw(v.into_iter().map(|x| q(x.get()).r()).collect()) }
fn outm<const R: usize, const C: usize>(m: &Matrix<Nz, R, C>) -> Raw {
    let n: &[[Nz; R]; C] = m.as_ref();
    out(n.iter().flatten())
}
fn mat_elems<const R: usize, const C: usize>(rec: &mut Rec) {
    let n = R * C;
    let d = [n as i64];
    let a = ones(&mut rec.rng, n);
    let at = |c: usize, r: usize| Nz::new(a.0[c * R + r]).unwrap();
    let nested: [[Nz; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| at(c, r)));
    let cols: [Vector<Nz, R>; C] = core::array::from_fn(|c| Vector::from(nested[c]));
    let rows: [Vector<Nz, C>; R] = core::array::from_fn(|r| Vector::from(core::array::from_fn::<Nz, C, _>(|c| nested[c][r])));
    let v = [a.rr()];
    let o = Matrix::<Nz, R, C>::from(nested);
    rec.call("lay", "all", "elem slice", "nz", &d, &v, 0, || outm(&o));
    rec.call("lay", "all", "elem from_rows", "nz", &d, &v, 0, || outm(&Matrix::<Nz, R, C>::from_rows(&rows)));
    rec.call("lay", "all", "elem from_columns", "nz", &d, &v, 0, || outm(&Matrix::<Nz, R, C>::from_columns(&cols)));
    rec.call("lay", "all", "elem row", "nz", &d, &v, 0, || out(&(0..n).map(|i| o.row(i % R)[i / R]).collect::<Vec<_>>()));
    rec.call("lay", "all", "elem column", "nz", &d, &v, 0, || out(&(0..n).map(|i| o.column(i / R)[i % R]).collect::<Vec<_>>()));
    rec.call("lay", "all", "elem map", "nz", &d, &v, 0, || outm(&o.map(|x| x)));
    rec.call("lay", "all", "elem map from", "nz", &d, &v, 0, || {
        let m = Matrix::<i64, R, C>::from(core::array::from_fn::<[i64; R], C, _>(|c| core::array::from_fn(|r| at(c, r).get())));
        outm(&m.map(|x| Nz::new(x).unwrap()))
    });
    rec.call("lay", "all", "elem map text", "text", &d, &v, 0, || Raw((o.map(|x| x.get().to_string()).as_ref() as &[[String; R]; C]).iter().flatten().map(|x| q(x.parse().unwrap()).r()).collect()));
    rec.call("lay", "all", "elem map box", "box", &d, &v, 0, || Raw((o.map(Box::new).as_ref() as &[[Box<Nz>; R]; C]).iter().flatten().map(|x| q(x.get()).r()).collect()));
    rec.call("lay", "moved", "elem mat map", "tok", &d, &v, 0, || moved(n, |see| { let m = o.map(|x| Tok(x.get())); let t: &[[Tok; R]; C] = m.as_ref(); t.iter().flatten().for_each(see) }));
    rec.call("lay", "all", "elem fill", "nz", &d, &[vec![v[0][0]; n]], 0, || outm(&Matrix::<Nz, R, C>::from_fill(at(0, 0))));
    for i in 0..R { for j in 0..R {
        rec.call("mat", "swaprows", "elem", "nz", &[R as i64, C as i64, i as i64 + 1, j as i64 + 1], &v, 0, || { let mut z = o; z.swap_rows(i, j); outm(&z) });
    } }
    for i in 0..C { for j in 0..C {
        rec.call("mat", "swapcols", "elem", "nz", &[R as i64, C as i64, i as i64 + 1, j as i64 + 1], &v, 0, || { let mut z = o; z.swap_columns(i, j); outm(&z) });
    } }
}
/// an element that notices being thrown away
struct Tok(i64);
static LOST: core::sync::atomic::AtomicI64 = core::sync::atomic::AtomicI64::new(0);
impl Drop for Tok {
    fn drop(&mut self) { LOST.fetch_add(1, core::sync::atomic::Ordering::SeqCst); }
}
fn moved(n: usize, f: impl FnOnce(&mut dyn FnMut(&Tok))) -> Raw {
    LOST.store(0, core::sync::atomic::Ordering::SeqCst);
    let mut v = vec![];
    let mut lost = -1;
    let mut seen = |t: &Tok| { if lost < 0 { lost = LOST.load(core::sync::atomic::Ordering::SeqCst) } v.push(q(t.0).r()) };
    f(&mut seen);
    v.insert(0, lost);
    // and afterwards every element is gone exactly once
    v.insert(1, LOST.load(core::sync::atomic::Ordering::SeqCst) - n as i64);
    Raw(v)
}
fn vec_elems<const N: usize>(rec: &mut Rec) {
    let d = [N as i64];
    let a = ones(&mut rec.rng, N);
    let v = [a.rr()];
    let arr: [Nz; N] = core::array::from_fn(|i| Nz::new(a.0[i]).unwrap());
    let (x, p) = (Vector::<Nz, N>::from(arr), Point::<Nz, N>::from(arr));
    rec.call("lay", "all", "elem vec", "nz", &d, &v, 0, || out(x.as_slice()));
    rec.call("lay", "all", "elem vec map", "nz", &d, &v, 0, || out(x.map(|t| t).as_slice()));
    rec.call("lay", "all", "elem vec text", "text", &d, &v, 0, || Raw(x.map(|t| t.get().to_string()).as_slice().iter().map(|t| q(t.parse().unwrap()).r()).collect()));
    rec.call("lay", "moved", "elem vec map", "tok", &d, &v, 0, || moved(N, |see| x.map(|t| Tok(t.get())).as_slice().iter().for_each(see)));
    rec.call("lay", "moved", "elem pnt map", "tok", &d, &v, 0, || moved(N, |see| p.map(|t| Tok(t.get())).as_slice().iter().for_each(see)));
    rec.call("lay", "all", "elem vec fill", "nz", &d, &[vec![v[0][0]; N]], 0, || out(Vector::<Nz, N>::from_fill(arr[0]).as_slice()));
    rec.call("lay", "all", "elem pnt", "nz", &d, &v, 0, || out(p.as_slice()));
    rec.call("lay", "all", "elem pnt map", "nz", &d, &v, 0, || out(p.map(|t| t).as_slice()));
    rec.call("lay", "all", "elem pnt box", "box", &d, &v, 0, || Raw(p.map(Box::new).as_slice().iter().map(|t| q(t.get()).r()).collect()));
}
fn elems(rec: &mut Rec) {
    macro_rules! m { ($($r:literal $c:literal),*) => { $( mat_elems::<$r, $c>(rec); )* } }
    m!(1 1, 1 2, 1 3, 1 4, 2 1, 2 2, 2 3, 2 4, 3 1, 3 2, 3 3, 3 4, 4 1, 4 2, 4 3, 4 4, 5 2, 3 6);
    vec_elems::<1>(rec); vec_elems::<2>(rec); vec_elems::<3>(rec); vec_elems::<4>(rec); vec_elems::<6>(rec);
}
fn all<S: Sc + SimdScalar>(rec: &mut Rec) {
    vec1::<S>(rec); vec2::<S>(rec); vec3::<S>(rec); vec4::<S>(rec);
    pnt1::<S>(rec); pnt2::<S>(rec); pnt3::<S>(rec);
    vec_other::<S, 1>(rec); vec_other::<S, 2>(rec); vec_other::<S, 3>(rec); vec_other::<S, 4>(rec);
    quatl::<S>(rec); cpxl::<S>(rec);
    m11::<S>(rec); m22::<S>(rec); m33::<S>(rec); m44::<S>(rec); m12::<S>(rec); m13::<S>(rec); m14::<S>(rec);
    m23::<S>(rec); m24::<S>(rec); m34::<S>(rec); m32::<S>(rec); m42::<S>(rec); m43::<S>(rec);
}
fn c08(rec: &mut Rec) {
    for _ in 0..rec.iters(4, 40) {
        rec.next(); all::<f64>(rec); quat4::<f64>(rec); quat4::<f32>(rec);
        rec.next(); elems(rec);
        rec.next(); all::<u8>(rec);
        rec.next(); all::<i64>(rec);
        rec.next(); all::<f32>(rec);
    }
}
fn c28(rec: &mut Rec) {
    for _ in 0..rec.iters(6, 60) {
        rec.next(); swz::all::<f64>(rec, &distinct::<f64>);
        rec.next(); swz::all::<i32>(rec, &distinct::<i32>);
        rec.next(); swz::all::<u8>(rec, &distinct::<u8>);
    }
}
fn main() {
    drive(&[("C08", c08), ("C28", c28)]);
}

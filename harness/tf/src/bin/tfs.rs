//! Drivers: transformations act as their matrices (C18), compose (C19), and
//! the matrices of scales, shears, reflections and translations (C20).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../../../core/src/pjs.rs"]
mod pjs;
#[path = "../../../core/src/elem.rs"]
mod elem;
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use common::*;
use elem::*;
use pjs::*;

// kinds of transformation, as in spec/Xform.tla
const TRANS: i64 = 1;
const ROT: i64 = 2;
const SCALE: i64 = 3;
const SHEAR: i64 = 4;
const REFL: i64 = 5;
const ISO: i64 = 6;
const SIM: i64 = 7;
const GEN: i64 = 8;
const NAMES: [&str; 9] = ["", "trans", "rot", "scale", "shear", "refl", "iso", "sim", "gen"];

/// exact homogeneous matrix (column-major); only used to sharpen the projection
fn hom(n: usize, k: i64, p: &[Q]) -> Vec<Q> {
    let m = n + 1;
    if k == GEN { return p.to_vec(); }
    let mut h = vec![q(0); m * m];
    for i in 0..m { h[i * m + i] = q(1) }
    match k {
        TRANS => for i in 0..n { h[n * m + i] = p[i] },
        SCALE => for i in 0..n { h[i * m + i] = p[i] },
        ROT | ISO | SIM => {
            let s = if k == SIM { p[n * n + n] } else { q(1) };
            for c in 0..n { for r in 0..n { h[c * m + r] = s * p[c * n + r] } }
            if k != ROT { for i in 0..n { h[n * m + i] = p[n * n + i] } }
        }
        _ => {
            let (f, o, d, v) = if k == SHEAR { (p[0], &p[1..1 + n], &p[1 + n..1 + 2 * n], &p[1 + 2 * n..]) } else { (q(-2), &p[n..], &p[..n], &p[..n]) };
            let ov = (0..n).fold(q(0), |t, i| t + o[i] * v[i]);
            for c in 0..n { for r in 0..n { h[c * m + r] = h[c * m + r] + f * d[r] * v[c] } }
            for r in 0..n { h[n * m + r] = -(f * ov * d[r]) }
        }
    }
    h
}
fn mulq(a: &[Q], b: &[Q], m: usize) -> Vec<Q> {
    (0..m * m).map(|i| { let (c, r) = (i / m, i % m); (0..m).fold(q(0), |t, k| t + a[k * m + r] * b[c * m + k]) }).collect()
}
fn detq(a: &[Q], m: usize) -> Q {
    if m == 1 { return a[0]; }
    (0..m).fold(q(0), |t, r| {
        let minor: Vec<Q> = (1..m).flat_map(|c| (0..m).filter(move |x| *x != r).map(move |x| (c, x))).map(|(c, x)| a[c * m + x]).collect();
        let u = a[r] * detq(&minor, m - 1);
        if r % 2 == 0 { t + u } else { t - u }
    })
}
fn invden(h: &[Q], m: usize) -> i64 {
    let d = detq(h, m);
    let l = lcd(h);
    d.0.abs() * l
}
/// rotation matrix (2 or 3 dimensions)
fn rotm(r: &mut Rng, n: usize, fine: bool) -> Vec<Q> {
    if n == 2 {
        let (c, s, _) = angle(r, fine);
        vec![c, s, -s, c]
    } else if fine {
        loop {
            let b: Vec<i64> = (0..4).map(|_| r.int(-3, 3)).collect();
            if b.iter().any(|x| *x != 0) { return rotq(&qs(&b)); }
        }
    } else {
        let t = [[1i64, 1, 1, 1], [1, 0, 0, 1], [1, 2, 2, 0], [1, 0, 0, 0], [0, 1, 2, 2], [2, 0, 1, 0], [1, 1, 0, 0]];
        let mut b = *r.pick(&t);
        for i in (1..4).rev() { let j = r.below(i + 1); b.swap(i, j) }
        for x in b.iter_mut() { if r.chance(2) { *x = -*x } }
        rotq(&qs(&b))
    }
}
fn unitv(r: &mut Rng, n: usize, fine: bool) -> Vec<Q> {
    if n == 2 { let (c, s, _) = angle(r, fine); vec![c, s] } else { uvec(r, fine) }
}
/// a unit vector and another orthogonal to it
fn perp(r: &mut Rng, n: usize, fine: bool) -> (Vec<Q>, Vec<Q>) {
    if n == 2 {
        let u = unitv(r, 2, fine);
        let s = if r.chance(2) { q(1) } else { q(-1) };
        let w = vec![-u[1] * s, u[0] * s];
        (u, w)
    } else {
        let m = rotm(r, 3, fine);
        let (i, j) = *r.pick(&[(0, 1), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)]);
        (m[i * 3..i * 3 + 3].to_vec(), m[j * 3..j * 3 + 3].to_vec())
    }
}
fn small(r: &mut Rng, fine: bool) -> Q {
    if fine && r.chance(4) { Q::red(r.int(-63, 63), 64) } else if fine { Q::red(r.int(-9, 9), 1 << r.below(3)) } else { q(r.int(-3, 3)) }
}
fn nz(r: &mut Rng, fine: bool) -> Q {
    loop { let x = if fine { Q::red(r.int(-6, 6), r.int(1, 4)) } else { *r.pick(&[q(1), q(2), Q(1, 2), q(-1), q(-2), q(4)]) }; if x.0 != 0 { return x; } }
}
fn vecq(r: &mut Rng, n: usize, fine: bool) -> Vec<Q> {
    gen(r, n, if fine { 9 } else { 3 }, if fine { 3 } else { 1 }, true)
}
fn params(r: &mut Rng, n: usize, k: i64, fine: bool) -> Vec<Q> {
    match k {
        TRANS => vecq(r, n, fine),
        ROT => rotm(r, n, fine),
        SCALE => (0..n).map(|_| nz(r, fine)).collect(),
        SHEAR => {
            let (d, v) = perp(r, n, fine);
            let o = if r.chance(3) { vec![q(0); n] } else { vecq(r, n, false) };
            [vec![small(r, fine)], o, d, v].concat()
        }
        REFL => [unitv(r, n, fine), vecq(r, n, false)].concat(),
        ISO => [rotm(r, n, fine), vecq(r, n, fine)].concat(),
        SIM => [rotm(r, n, fine), vecq(r, n, fine), vec![nz(r, fine)]].concat(),
        _ => {
            let m = n + 1;
            let mut h = gen(r, m * m, if fine { 5 } else { 2 }, 1, true);
            if !r.chance(3) {
                for c in 0..m { h[c * m + n] = q((c == n) as i64) }
            }
            h
        }
    }
}
fn affine(n: usize, h: &[Q]) -> bool { (0..=n).all(|c| h[c * (n + 1) + n] == q((c == n) as i64)) }
/// weight of the image of a point
fn weight(n: usize, h: &[Q], x: &[Q]) -> Q { (0..=n).fold(q(0), |t, c| t + h[c * (n + 1) + n] * if c < n { x[c] } else { q(1) }) }


macro_rules! dimension {
    ($mod:ident, $n:expr, $np:expr, $mt:ident, $gen:ident) => {
        mod $mod {
            use super::*;
            pub const N: usize = $n;
            pub const NP: usize = $np;
            pub type M<S> = $mt<S>;
            pub type V<S> = Vector<S, N>;
            pub type Pn<S> = Point<S, N>;
            pub fn trans<S: Fl>(p: &[Q]) -> Translation<S, N> { Translation::from_vector(&vec::<S, N>(p)) }
            /// an arbitrary rotation object: built from its matrix through the public constructors
            pub fn scale<S: Fl>(p: &[Q]) -> Scale<S, N> { Scale::from_nonuniform_scale(&vec::<S, N>(p)) }
            pub fn uv<S: Fl>(p: &[Q]) -> Unit<V<S>> { Unit::from_value_unchecked(vec::<S, N>(p)) }
            pub fn shear<S: Fl>(p: &[Q]) -> Shear<S, N> {
                Shear::from_affine_shear(S::ofq(p[0]), &pnt::<S, N>(&p[1..1 + N]), &uv(&p[1 + N..1 + 2 * N]), &uv(&p[1 + 2 * N..]))
            }
            pub fn refl<S: Fl>(p: &[Q]) -> Reflection<S, N> { Reflection::from_normal_bias(&uv(&p[..N]), &pnt::<S, N>(&p[N..])) }
            pub fn iso<S: Fl>(p: &[Q]) -> Isometry<S, N> { Isometry::from_parts(&trans(&p[N * N..]), &rot(&p[..N * N])) }
            pub fn sim<S: Fl>(p: &[Q]) -> Similarity<S, N> { Similarity::from_parts(&trans(&p[N * N..N * N + N]), &rot(&p[..N * N]), S::ofq(p[N * N + N])) }
            pub fn gen<S: Fl>(p: &[Q]) -> Transform<S, N, NP> { Transform::from_matrix_unchecked(mat::<S, NP, NP>(p)) }
            macro_rules! suite {
                ($rec:expr, $k:expr, $p:expr, $x:expr, inv) => {{ suite!($rec, $k, $p, $x);
                    let (x, p, d): (_, &Vec<Q>, [i64; 2]) = ($x, $p, [N as i64, $k]);
                    let n = S::NAME;
                    let nm = NAMES[$k as usize];
                    let a = [rr(p)];
                    let h = hom(N, $k, p);
                    let e = invden(&h, NP);
                    let big = if S::FLOAT && n == "f32" { e <= 64 } else { e <= 20000 };
                    if big {
                        hint(e);
                        $rec.call("tf", "invhom", nm, n, &d, &a, 0, || x.inverse().to_affine_matrix());
                        let y = vecq(&mut $rec.rng, N, n == "f64");
                        let pa = [a[0].clone(), rr(&y)];
                        hint(e * lcd(&y));
                        $rec.call("tf", "invp", nm, n, &d, &pa, 0, || x.inverse_apply_point(&pnt::<S, N>(&y)));
                        $rec.call("tf", "invp", nm, n, &d, &pa, 0, || x.inverse().apply_point(&pnt::<S, N>(&y)));
                        $rec.call("tf", "invv", nm, n, &d, &pa, 0, || x.inverse_apply_vector(&vec::<S, N>(&y)));
                        $rec.call("tf", "invv", nm, n, &d, &pa, 0, || x.inverse().apply_vector(&vec::<S, N>(&y)));
                    }
                    hint(1);
                }};
                ($rec:expr, $k:expr, $p:expr, $x:expr) => {{
                    let (x, p, d): (_, &Vec<Q>, [i64; 2]) = ($x, $p, [N as i64, $k]);
                    let n = S::NAME;
                    let nm = NAMES[$k as usize];
                    let a = [rr(p)];
                    let h = hom(N, $k, p);
                    hint(lcd(&h));
                    $rec.call("tf", "hom", nm, n, &d, &a, 0, || x.to_affine_matrix());
                    $rec.call("tf", "hom", nm, n, &d, &a, 0, || *x.to_transform().matrix());
                    $rec.call("tf", "hom", nm, n, &d, &a, 0, || M::<S>::from(x));
                    $rec.call("tf", "hom", nm, n, &d, &a, 0, || M::<S>::from(&x));
                    for _ in 0..2 { apply!($rec, $k, a, h, x, vecq(&mut $rec.rng, N, n == "f64")); }
                    hint(1);
                }};
            }
            macro_rules! apply {
                ($rec:expr, $k:expr, $a:expr, $h:expr, $x:expr, $y:expr) => {{
                    let (x, y): (_, Vec<Q>) = ($x, $y);
                    let d = [N as i64, $k];
                    let n = S::NAME;
                    let nm = NAMES[$k as usize];
                    let pa = [$a[0].clone(), rr(&y)];
                    let (pt, ve) = (pnt::<S, N>(&y), vec::<S, N>(&y));
                    let w = weight(N, &$h, &y);
                    hint(lcd(&$h) * lcd(&y) * w.0.abs());
                    if w.0 != 0 {
                        $rec.call("tf", "actp", nm, n, &d, &pa, 0, || x.apply_point(&pt));
                        $rec.call("tf", "actp", nm, n, &d, &pa, 0, || x * pt);
                        $rec.call("tf", "actp", nm, n, &d, &pa, 0, || &x * pt);
                        $rec.call("tf", "actp", nm, n, &d, &pa, 0, || x * &pt);
                        $rec.call("tf", "actp", nm, n, &d, &pa, 0, || &x * &pt);
                    }
                    hint(lcd(&$h) * lcd(&y));
                    $rec.call("tf", "actv", nm, n, &d, &pa, 0, || x.apply_vector(&ve));
                    $rec.call("tf", "actv", nm, n, &d, &pa, 0, || x * ve);
                    $rec.call("tf", "actv", nm, n, &d, &pa, 0, || &x * ve);
                    $rec.call("tf", "actv", nm, n, &d, &pa, 0, || x * &ve);
                    $rec.call("tf", "actv", nm, n, &d, &pa, 0, || &x * &ve);
                }};
            }
            pub fn act<S: Fl>(rec: &mut Rec) {
                let n = S::NAME;
                let fine = n == "f64";
                let nd = N as i64;
                // translation
                let p = params(&mut rec.rng, N, TRANS, fine);
                let t = trans::<S>(&p);
                suite!(rec, TRANS, &p, t, inv);
                hint(lcd(&p));
                let (p1, p2) = (vecq(&mut rec.rng, N, fine), vecq(&mut rec.rng, N, fine));
                let df: Vec<Q> = (0..N).map(|i| p2[i] - p1[i]).collect();
                rec.call("tf", "hom", "between", n, &[nd, TRANS], &[rr(&df)], 0, || Translation::<S, N>::between_points(&pnt(&p1), &pnt(&p2)).to_affine_matrix());
                rec.call("tf", "hom", "betweenv", n, &[nd, TRANS], &[rr(&df)], 0, || Translation::<S, N>::between_vectors(&vec(&p1), &vec(&p2)).to_affine_matrix());
                rec.call("tf", "same", "tvec", n, &[], &[rr(&p)], 0, || *t.vector());
                rec.call("tf", "same", "ttov", n, &[], &[rr(&p)], 0, || t.to_vector());
                rec.call("tf", "same", "tref", n, &[], &[rr(&p)], 0, || *AsRef::<V<S>>::as_ref(&t));
                rec.call("tf", "invhom", "tmut", n, &[nd, TRANS], &[rr(&p)], 0, || { let mut u = t; u.inverse_mut(); u.to_affine_matrix() });
                // rotation
                let p = params(&mut rec.rng, N, ROT, fine);
                let x = rot::<S>(&p);
                suite!(rec, ROT, &p, x, inv);
                hint(lcd(&p));
                rec.call("tf", "same", "rmat", n, &[], &[rr(&p)], 0, || *x.matrix());
                rec.call("tf", "invhom", "rmut", n, &[nd, ROT], &[rr(&p)], 0, || { let mut u = x; u.inverse_mut(); u.to_affine_matrix() });
                // scale
                let p = params(&mut rec.rng, N, SCALE, fine);
                let x = scale::<S>(&p);
                suite!(rec, SCALE, &p, x, inv);
                hint(lcd(&p));
                rec.call("tf", "same", "svec", n, &[], &[rr(&p)], 0, || x.to_vector());
                rec.call("mat", "fromdiag", "smat", n, &[nd], &[rr(&p)], 0, || x.to_matrix());
                let u = vec![p[0]; N];
                rec.call("tf", "hom", "uscale", n, &[nd, SCALE], &[rr(&u)], 0, || Scale::<S, N>::from_scale(S::ofq(p[0])).to_affine_matrix());
                // shear
                let p = params(&mut rec.rng, N, SHEAR, fine);
                let x = shear::<S>(&p);
                suite!(rec, SHEAR, &p, x, inv);
                hint(lcd(&p));
                rec.call("tf", "same", "shear", n, &[], &[rr(&p)], 0, || (x.shear_factor(), x.origin(), (x.direction(), x.normal())));
                let mut p0 = p.clone();
                for i in 1..=N { p0[i] = q(0) }
                let x0 = Shear::<S, N>::from_shear(S::ofq(p[0]), &uv(&p[1 + N..1 + 2 * N]), &uv(&p[1 + 2 * N..]));
                suite!(rec, SHEAR, &p0, x0, inv);
                // reflection
                let p = params(&mut rec.rng, N, REFL, fine);
                let x = refl::<S>(&p);
                suite!(rec, REFL, &p, x, inv);
                hint(lcd(&p));
                rec.call("tf", "same", "refl", n, &[], &[rr(&p)], 0, || (x.normal(), x.bias()));
                // isometry
                let p = params(&mut rec.rng, N, ISO, fine);
                let x = iso::<S>(&p);
                suite!(rec, ISO, &p, x, inv);
                hint(invden(&hom(N, ISO, &p), NP));
                rec.call("tf", "invhom", "imut", n, &[nd, ISO], &[rr(&p)], 0, || { let mut u = x; u.inverse_mut(); u.to_affine_matrix() });
                hint(lcd(&p));
                rec.call("tf", "same", "iso", n, &[], &[rr(&p)], 0, || (*x.rotation().matrix(), *x.translation().vector()));
                let z = vec![q(0); N];
                let (pr, pt) = ([p[..N * N].to_vec(), z.clone()].concat(), p[N * N..].to_vec());
                let (tr, ro) = (trans::<S>(&pt), rot::<S>(&p[..N * N]));
                rec.call("tf", "hom", "ifromr", n, &[nd, ISO], &[rr(&pr)], 0, || Isometry::from_rotation(&ro).to_affine_matrix());
                rec.call("tf", "hom", "ifromt", n, &[nd, TRANS], &[rr(&pt)], 0, || Isometry::from_translation(&tr).to_affine_matrix());
                // similarity
                rec.call("tf", "hom", "sfromr", n, &[nd, ISO], &[rr(&pr)], 0, || Similarity::from_rotation(&ro).to_affine_matrix());
                rec.call("tf", "hom", "sfromt", n, &[nd, TRANS], &[rr(&pt)], 0, || Similarity::from_translation(&tr).to_affine_matrix());
                rec.call("tf", "hom", "sfromi", n, &[nd, ISO], &[rr(&p)], 0, || Similarity::from_isometry(&x).to_affine_matrix());
                let p = params(&mut rec.rng, N, SIM, fine);
                let x = sim::<S>(&p);
                suite!(rec, SIM, &p, x, inv);
                let e = invden(&hom(N, SIM, &p), NP);
                if e <= 64 || fine && e <= 20000 {
                    hint(e);
                    rec.call("tf", "invhom", "smut", n, &[nd, SIM], &[rr(&p)], 0, || { let mut u = x; u.inverse_mut(); u.to_affine_matrix() });
                }
                hint(lcd(&p));
                rec.call("tf", "same", "sim", n, &[], &[rr(&p)], 0, || (*x.rotation().matrix(), *x.translation().vector(), x.scale()));
                let s = vec![p[N * N + N]; N];
                rec.call("tf", "hom", "sfroms", n, &[nd, SCALE], &[rr(&s)], 0, || Similarity::<S, N>::from_scale(S::ofq(s[0])).to_affine_matrix());
                // general transform
                let p = params(&mut rec.rng, N, GEN, fine);
                let x = gen::<S>(&p);
                let a = [rr(&p)];
                hint(lcd(&p));
                rec.call("tf", "hom", "gen", n, &[nd, GEN], &a, 0, || *x.matrix());
                rec.call("tf", "hom", "gen", n, &[nd, GEN], &a, 0, || x.to_matrix());
                rec.call("tf", "hom", "gen", n, &[nd, GEN], &a, 0, || M::<S>::from(x));
                rec.call("tf", "hom", "gen", n, &[nd, GEN], &a, 0, || M::<S>::from(&x));
                rec.call("tf", "hom", "gen", n, &[nd, GEN], &a, 0, || *AsRef::<M<S>>::as_ref(&x));
                rec.call("tf", "hom", "gen", n, &[nd, GEN], &a, 0, || { let mut u = Transform::<S, N, NP>::identity(); *u.matrix_mut() = *x.matrix(); u.to_matrix() });
                for _ in 0..2 { apply!(rec, GEN, a, p, x, vecq(&mut rec.rng, N, fine)); }
                let e = detq(&p, NP).0.abs();
                if e == 0 || e <= 24 || fine && e <= 20000 {
                    hint(e);
                    rec.call("tf", "tryinv", "gen", n, &[nd, GEN], &a, 0, || x.try_inverse().map(|t| *t.matrix()));
                    if e != 0 { rec.call("tf", "invhom", "gen", n, &[nd, GEN], &a, 0, || *x.inverse().matrix()); }
                    let y = vecq(&mut rec.rng, N, false);
                    let pa = [a[0].clone(), rr(&y)];
                    if affine(N, &p) {
                        rec.call("tf", "invp", "gen", n, &[nd, GEN], &pa, 0, || x.inverse_apply_point(&pnt::<S, N>(&y)));
                        rec.call("tf", "invv", "gen", n, &[nd, GEN], &pa, 0, || x.inverse_apply_vector(&vec::<S, N>(&y)));
                    }
                }
                hint(1);
            }
            pub fn idents<S: Fl>(rec: &mut Rec) {
                let n = S::NAME;
                let d = [N as i64];
                rec.call("tf", "ident", "trans", n, &d, &[], 0, || Translation::<S, N>::identity().to_affine_matrix());
                rec.call("tf", "ident", "rot", n, &d, &[], 0, || Rotation::<S, N>::identity().to_affine_matrix());
                rec.call("tf", "ident", "scale", n, &d, &[], 0, || Scale::<S, N>::identity().to_affine_matrix());
                rec.call("tf", "ident", "shear", n, &d, &[], 0, || Shear::<S, N>::identity().to_affine_matrix());
                rec.call("tf", "ident", "iso", n, &d, &[], 0, || Isometry::<S, N>::identity().to_affine_matrix());
                rec.call("tf", "ident", "sim", n, &d, &[], 0, || Similarity::<S, N>::identity().to_affine_matrix());
                rec.call("tf", "ident", "gen", n, &d, &[], 0, || *Transform::<S, N, NP>::identity().matrix());
                let y = vecq(&mut rec.rng, N, n == "f64");
                hint(lcd(&y));
                let a = [rr(&y)];
                let (p, v) = (pnt::<S, N>(&y), vec::<S, N>(&y));
                rec.call("tf", "same", "idtrans", n, &d, &a, 0, || Translation::<S, N>::identity() * p);
                rec.call("tf", "same", "idrot", n, &d, &a, 0, || Rotation::<S, N>::identity() * p);
                rec.call("tf", "same", "idscale", n, &d, &a, 0, || Scale::<S, N>::identity() * p);
                rec.call("tf", "same", "idshear", n, &d, &a, 0, || Shear::<S, N>::identity() * p);
                rec.call("tf", "same", "idiso", n, &d, &a, 0, || Isometry::<S, N>::identity() * p);
                rec.call("tf", "same", "idsim", n, &d, &a, 0, || Similarity::<S, N>::identity() * p);
                rec.call("tf", "same", "idgen", n, &d, &a, 0, || Transform::<S, N, NP>::identity() * p);
                rec.call("tf", "same", "idtransv", n, &d, &a, 0, || Translation::<S, N>::identity() * v);
                rec.call("tf", "same", "idrotv", n, &d, &a, 0, || Rotation::<S, N>::identity() * v);
                rec.call("tf", "same", "idscalev", n, &d, &a, 0, || Scale::<S, N>::identity() * v);
                rec.call("tf", "same", "idshearv", n, &d, &a, 0, || Shear::<S, N>::identity() * v);
                rec.call("tf", "same", "idisov", n, &d, &a, 0, || Isometry::<S, N>::identity() * v);
                rec.call("tf", "same", "idsimv", n, &d, &a, 0, || Similarity::<S, N>::identity() * v);
                rec.call("tf", "same", "idgenv", n, &d, &a, 0, || Transform::<S, N, NP>::identity() * v);
                hint(1);
            }
            macro_rules! compo {
                ($rec:expr, $k1:ident $f1:ident, $k2:ident $f2:ident, $out:expr) => {{
                    let fine = S::NAME == "f64";
                    let n = S::NAME;
                    let (p1, p2) = (params(&mut $rec.rng, N, $k1, fine), params(&mut $rec.rng, N, $k2, fine));
                    let (x, y) = ($f1::<S>(&p1), $f2::<S>(&p2));
                    let d = [N as i64, $k1, $k2];
                    let a = [rr(&p1), rr(&p2)];
                    let h = mulq(&hom(N, $k1, &p1), &hom(N, $k2, &p2), NP);
                    let nm = concat!(stringify!($f1), "*", stringify!($f2));
                    if lcd(&h) <= 20000 && (fine || lcd(&h) <= 300) {
                        hint(lcd(&h));
                        $rec.call("tf", "comp", nm, n, &d, &a, 0, || $out(x * y));
                        $rec.call("tf", "comp", nm, n, &d, &a, 0, || $out(&x * y));
                        $rec.call("tf", "comp", nm, n, &d, &a, 0, || $out(x * &y));
                        $rec.call("tf", "comp", nm, n, &d, &a, 0, || $out(&x * &y));
                        let z = vecq(&mut $rec.rng, N, false);
                        let b = [a[0].clone(), a[1].clone(), rr(&z)];
                        let w = weight(N, &h, &z);
                        if w.0 != 0 && (fine || w.0.abs() <= 4) {
                            hint(lcd(&h) * w.0.abs());
                            $rec.call("tf", "compp", nm, n, &d, &b, 0, || (x * y) * pnt::<S, N>(&z));
                            if $k2 != GEN && $k2 != SHEAR { $rec.call("tf", "compp", nm, n, &d, &b, 0, || x * (y * pnt::<S, N>(&z))); }
                        }
                        hint(lcd(&h));
                        $rec.call("tf", "compv", nm, n, &d, &b, 0, || (x * y) * vec::<S, N>(&z));
                    }
                    hint(1);
                }};
            }
            pub fn compose<S: Fl>(rec: &mut Rec) {
                compo!(rec, TRANS trans, TRANS trans, |z: Translation<S, N>| z.to_affine_matrix());
                compo!(rec, ROT rot, ROT rot, |z: Rotation<S, N>| z.to_affine_matrix());
                compo!(rec, ROT rot, TRANS trans, |z: Isometry<S, N>| z.to_affine_matrix());
                compo!(rec, TRANS trans, ROT rot, |z: Isometry<S, N>| z.to_affine_matrix());
                compo!(rec, ISO iso, TRANS trans, |z: Isometry<S, N>| z.to_affine_matrix());
                compo!(rec, TRANS trans, ISO iso, |z: Isometry<S, N>| z.to_affine_matrix());
                compo!(rec, ISO iso, ROT rot, |z: Isometry<S, N>| z.to_affine_matrix());
                compo!(rec, ROT rot, ISO iso, |z: Isometry<S, N>| z.to_affine_matrix());
                compo!(rec, ISO iso, ISO iso, |z: Isometry<S, N>| z.to_affine_matrix());
                compo!(rec, SIM sim, ISO iso, |z: Similarity<S, N>| z.to_affine_matrix());
                compo!(rec, SIM sim, SIM sim, |z: Similarity<S, N>| z.to_affine_matrix());
                compo!(rec, SCALE scale, SCALE scale, |z: Scale<S, N>| z.to_affine_matrix());
                compo!(rec, SHEAR shear, SHEAR shear, |z: Transform<S, N, NP>| z.to_matrix());
                compo!(rec, GEN gen, GEN gen, |z: Transform<S, N, NP>| z.to_matrix());
                chain::<S>(rec);
                group::<S>(rec);
            }
            /// longer products, both bracketings, and the inverse of a product
            fn chain<S: Fl>(rec: &mut Rec) {
                let n = S::NAME;
                let fine = n == "f64";
                let nd = N as i64;
                let p: Vec<Vec<Q>> = (0..3).map(|_| params(&mut rec.rng, N, SIM, fine)).collect();
                let h: Vec<Vec<Q>> = p.iter().map(|x| hom(N, SIM, x)).collect();
                let l: i64 = h.iter().map(|x| lcd(x)).product();
                if l <= if fine { 8000 } else { 100 } {
                    let hh = mulq(&h[0], &mulq(&h[1], &h[2], NP), NP);
                    hint(lcd(&hh));
                    let (x, y, z) = (sim::<S>(&p[0]), sim::<S>(&p[1]), sim::<S>(&p[2]));
                    let a = [rr(&p[0]), rr(&p[1]), rr(&p[2])];
                    rec.call("tf", "chain", "l", n, &[nd, SIM, SIM, SIM], &a, 0, || ((x * y) * z).to_affine_matrix());
                    rec.call("tf", "chain", "r", n, &[nd, SIM, SIM, SIM], &a, 0, || (x * (y * z)).to_affine_matrix());
                }
                let (p, r) = (params(&mut rec.rng, N, ISO, fine), params(&mut rec.rng, N, ISO, fine));
                let hh = mulq(&hom(N, ISO, &p), &hom(N, ISO, &r), NP);
                let e = invden(&hh, NP);
                if e <= if fine { 20000 } else { 200 } {
                    hint(e);
                    let (x, y) = (iso::<S>(&p), iso::<S>(&r));
                    let a = [rr(&p), rr(&r)];
                    rec.call("tf", "compinv", "i", n, &[nd, ISO, ISO], &a, 0, || (x * y).inverse().to_affine_matrix());
                    rec.call("tf", "compinv", "r", n, &[nd, ISO, ISO], &a, 0, || (y.inverse() * x.inverse()).to_affine_matrix());
                    hint(lcd(&p));
                    rec.call("tf", "hom", "neutr", n, &[nd, ISO], &[rr(&p)], 0, || (x * Isometry::identity()).to_affine_matrix());
                    rec.call("tf", "hom", "neutl", n, &[nd, ISO], &[rr(&p)], 0, || (Isometry::identity() * x).to_affine_matrix());
                    rec.call("tf", "ident", "cancel", n, &[nd], &[], 0, || (x * x.inverse()).to_affine_matrix());
                    rec.call("tf", "ident", "cancel", n, &[nd], &[], 0, || (x.inverse() * x).to_affine_matrix());
                }
                let p = params(&mut rec.rng, N, SIM, fine);
                let x = sim::<S>(&p);
                hint(lcd(&hom(N, SIM, &p)));
                rec.call("tf", "hom", "neutsr", n, &[nd, SIM], &[rr(&p)], 0, || (x * Similarity::identity()).to_affine_matrix());
                rec.call("tf", "hom", "neutsl", n, &[nd, SIM], &[rr(&p)], 0, || (Similarity::identity() * x).to_affine_matrix());
                hint(1);
                rec.call("tf", "ident", "cancels", n, &[nd], &[], 0, || (x * x.inverse()).to_affine_matrix());
                rec.call("tf", "ident", "cancels", n, &[nd], &[], 0, || (x.inverse() * x).to_affine_matrix());
            }
            /// associativity, neutrality and inverses within one kind
            fn group<S: Fl>(rec: &mut Rec) {
                let n = S::NAME;
                let fine = n == "f64";
                let nd = N as i64;
                macro_rules! grp { ($k:ident $f:ident, $T:ty, $id:expr, $out:expr, $inv:expr) => {{
                    let out = $out;
                    let inv: fn($T) -> $T = $inv;
                    let p: Vec<Vec<Q>> = (0..3).map(|_| params(&mut rec.rng, N, $k, fine)).collect();
                    let h: Vec<Vec<Q>> = p.iter().map(|x| hom(N, $k, x)).collect();
                    let (x, y, z) = ($f::<S>(&p[0]), $f::<S>(&p[1]), $f::<S>(&p[2]));
                    let nm = stringify!($f);
                    if h.iter().map(|x| lcd(x)).product::<i64>() <= if fine { 8000 } else { 100 } {
                        hint(lcd(&mulq(&h[0], &mulq(&h[1], &h[2], NP), NP)));
                        let a = [rr(&p[0]), rr(&p[1]), rr(&p[2])];
                        rec.call("tf", "chain", nm, n, &[nd, $k, $k, $k], &a, 0, || out((x * y) * z));
                        rec.call("tf", "chain", nm, n, &[nd, $k, $k, $k], &a, 0, || out(x * (y * z)));
                    }
                    let e = lcd(&h[0]);
                    if e <= if fine { 20000 } else { 200 } {
                        hint(e);
                        let a = [rr(&p[0])];
                        rec.call("tf", "hom", nm, n, &[nd, $k], &a, 0, || out(x * $id));
                        rec.call("tf", "hom", nm, n, &[nd, $k], &a, 0, || out($id * x));
                    }
                    let hh = mulq(&h[0], &h[1], NP);
                    let e = invden(&hh, NP);
                    if e != 0 && e <= if fine { 20000 } else { 200 } {
                        hint(e);
                        let a = [rr(&p[0]), rr(&p[1])];
                        rec.call("tf", "compinv", nm, n, &[nd, $k, $k], &a, 0, || out(inv(x * y)));
                        rec.call("tf", "compinv", nm, n, &[nd, $k, $k], &a, 0, || out(inv(y) * inv(x)));
                        hint(1);
                        rec.call("tf", "ident", nm, n, &[nd], &[], 0, || out(x * inv(x)));
                        rec.call("tf", "ident", nm, n, &[nd], &[], 0, || out(inv(x) * x));
                    }
                    hint(1);
                }} }
                grp!(TRANS trans, Translation<S, N>, Translation::identity(), |z: Translation<S, N>| z.to_affine_matrix(), |z| z.inverse());
                grp!(ROT rot, Rotation<S, N>, Rotation::identity(), |z: Rotation<S, N>| z.to_affine_matrix(), |z| z.inverse());
                grp!(SCALE scale, Scale<S, N>, Scale::identity(), |z: Scale<S, N>| z.to_affine_matrix(), |z| z.inverse());
                grp!(ISO iso, Isometry<S, N>, Isometry::identity(), |z: Isometry<S, N>| z.to_affine_matrix(), |z| z.inverse());
                grp!(SIM sim, Similarity<S, N>, Similarity::identity(), |z: Similarity<S, N>| z.to_affine_matrix(), |z| z.inverse());
                grp!(GEN gen, Transform<S, N, NP>, Transform::identity(), |z: Transform<S, N, NP>| z.to_matrix(), |z| z.try_inverse().expect("regular"));
                // a mirror undoes itself
                let p = params(&mut rec.rng, N, REFL, fine);
                let x = refl::<S>(&p);
                rec.call("tf", "ident", "refl", n, &[nd], &[], 0, || x.to_affine_matrix() * x.inverse().to_affine_matrix());
                let p = params(&mut rec.rng, N, SHEAR, fine);
                let x = shear::<S>(&p);
                rec.call("tf", "ident", "shear", n, &[nd], &[], 0, || (x * x.inverse()).to_matrix());
            }
            /// lengths and factors of any magnitude: positions and offsets in
            /// units of 2^k, stretching factors in units of 2^m
            pub fn lengths<S: Fl>(rec: &mut Rec) {
                let n = S::NAME;
                let fine = n == "f64";
                let nd = N as i64;
                let b = if fine { *rec.rng.pick(&[12, 40, 100]) } else { *rec.rng.pick(&[6, 12]) };
                let k = if rec.rng.chance(2) { b } else { -b };
                let m = *rec.rng.pick(&[-b / 2, b / 2, 0]);
                let pw = |e: i32| S::of(2f64.powi(e));
                let vk = |p: &[Q], e: i32| vec::<S, N>(p) * pw(e);
                let pk = |p: &[Q], e: i32| Point::<S, N>::from_vector(&vk(p, e));
                let ho = |mut h: M<S>, m: i32, k: i32| { for c in 0..=N { for r in 0..N { h[c][r] = h[c][r] * pw(if c < N { -m } else { -m - k }) } } h };
                macro_rules! len { ($kd:ident $f:ident, $m:expr, $x:expr, $p:expr) => {{
                    let (x, m, p): (_, i32, &Vec<Q>) = ($x, $m, $p);
                    let h = hom(N, $kd, p);
                    let nm = if $kd == SHEAR { "shear" } else { concat!(stringify!($f), "k") };
                    let d = [nd, $kd];
                    let (y, e) = (vecq(&mut rec.rng, N, false), invden(&h, NP));
                    let (a, pa) = ([rr(p)], [rr(p), rr(&y)]);
                    if lcd(&h) <= if fine { 20000 } else { 200 } {
                        hint(lcd(&h) * lcd(&y));
                        rec.call("tf", "hom", nm, n, &d, &a, 0, || ho(x.to_affine_matrix(), m, k));
                        rec.call("tf", "actp", nm, n, &d, &pa, 0, || x.apply_point(&pk(&y, k)).to_vector() * pw(-m - k));
                        let (pt, ve) = (pk(&y, k), vk(&y, k));
                        rec.call("tf", "actp", nm, n, &d, &pa, 0, || (x * pt).to_vector() * pw(-m - k));
                        rec.call("tf", "actp", nm, n, &d, &pa, 0, || (&x * pt).to_vector() * pw(-m - k));
                        rec.call("tf", "actp", nm, n, &d, &pa, 0, || (x * &pt).to_vector() * pw(-m - k));
                        rec.call("tf", "actp", nm, n, &d, &pa, 0, || (&x * &pt).to_vector() * pw(-m - k));
                        rec.call("tf", "actv", nm, n, &d, &pa, 0, || x.apply_vector(&ve) * pw(-m - k));
                        rec.call("tf", "actv", nm, n, &d, &pa, 0, || (x * ve) * pw(-m - k));
                        rec.call("tf", "actv", nm, n, &d, &pa, 0, || (&x * ve) * pw(-m - k));
                        rec.call("tf", "actv", nm, n, &d, &pa, 0, || (x * &ve) * pw(-m - k));
                        rec.call("tf", "actv", nm, n, &d, &pa, 0, || (&x * &ve) * pw(-m - k));
                    }
                    if e <= if fine { 20000 } else { 64 } {
                        hint(e * lcd(&y));
                        rec.call("tf", "invhom", nm, n, &d, &a, 0, || ho(x.inverse().to_affine_matrix(), -m, m + k));
                        rec.call("tf", "invp", nm, n, &d, &pa, 0, || x.inverse_apply_point(&pk(&y, m + k)).to_vector() * pw(-k));
                        rec.call("tf", "invp", nm, n, &d, &pa, 0, || x.inverse().apply_point(&pk(&y, m + k)).to_vector() * pw(-k));
                        rec.call("tf", "invv", nm, n, &d, &pa, 0, || x.inverse_apply_vector(&vk(&y, m + k)) * pw(-k));
                    }
                    hint(1);
                }} }
                let p = params(&mut rec.rng, N, TRANS, fine);
                len!(TRANS trans, 0, Translation::<S, N>::from_vector(&vk(&p, k)), &p);
                let p = params(&mut rec.rng, N, ROT, fine);
                len!(ROT rot, 0, rot::<S>(&p), &p);
                let p = params(&mut rec.rng, N, SCALE, fine);
                len!(SCALE scale, m, Scale::<S, N>::from_nonuniform_scale(&vk(&p, m)), &p);
                let mut p = params(&mut rec.rng, N, SHEAR, fine);
                len!(SHEAR shear, 0, Shear::<S, N>::from_affine_shear(S::ofq(p[0]), &pk(&p[1..1 + N], k), &uv(&p[1 + N..1 + 2 * N]), &uv(&p[1 + 2 * N..])), &p);
                for i in 1..=N { p[i] = q(0) }
                len!(SHEAR shear0, 0, Shear::<S, N>::from_shear(S::ofq(p[0]), &uv(&p[1 + N..1 + 2 * N]), &uv(&p[1 + 2 * N..])), &p);
                // a vanishing shear is no shear
                let f = S::ofq(p[0]) * pw(if fine { -60 } else { -40 });
                p[0] = q(0);
                len!(SHEAR shear0, 0, Shear::<S, N>::from_shear(f, &uv(&p[1 + N..1 + 2 * N]), &uv(&p[1 + 2 * N..])), &p);
                let p = params(&mut rec.rng, N, REFL, fine);
                len!(REFL refl, 0, Reflection::<S, N>::from_normal_bias(&uv(&p[..N]), &pk(&p[N..], k)), &p);
                let p = params(&mut rec.rng, N, ISO, fine);
                len!(ISO iso, 0, Isometry::<S, N>::from_parts(&Translation::from_vector(&vk(&p[N * N..], k)), &rot(&p[..N * N])), &p);
                let simk = |p: &[Q], m: i32, k: i32| Similarity::<S, N>::from_parts(&Translation::from_vector(&vk(&p[N * N..N * N + N], m + k)), &rot(&p[..N * N]), S::ofq(p[N * N + N]) * pw(m));
                let p = params(&mut rec.rng, N, SIM, fine);
                len!(SIM sim, m, simk(&p, m, k), &p);
            }
            /// products, offsets and factors of any magnitude
            pub fn products<S: Fl>(rec: &mut Rec) {
                let n = S::NAME;
                let fine = n == "f64";
                let nd = N as i64;
                let b = if fine { *rec.rng.pick(&[12, 40, 100]) } else { *rec.rng.pick(&[6, 12]) };
                let k = if rec.rng.chance(2) { b } else { -b };
                let m = *rec.rng.pick(&[-b / 2, b / 2, 0]);
                let pw = |e: i32| S::of(2f64.powi(e));
                let vk = |p: &[Q], e: i32| vec::<S, N>(p) * pw(e);
                let ho = |mut h: M<S>, m: i32, k: i32| { for c in 0..=N { for r in 0..N { h[c][r] = h[c][r] * pw(if c < N { -m } else { -m - k }) } } h };
                let isok = |p: &[Q], k: i32| Isometry::<S, N>::from_parts(&Translation::from_vector(&vk(&p[N * N..], k)), &rot(&p[..N * N]));
                let simk = |p: &[Q], m: i32, k: i32| Similarity::<S, N>::from_parts(&Translation::from_vector(&vk(&p[N * N..N * N + N], m + k)), &rot(&p[..N * N]), S::ofq(p[N * N + N]) * pw(m));
                let tk = |p: &[Q], k: i32| Translation::<S, N>::from_vector(&vk(p, k));
                let rk = |p: &[Q], _: i32| rot::<S>(p);
                macro_rules! pr { ($k1:ident $f1:expr, $k2:ident $f2:expr, $m:expr, $nm:literal) => {{
                    let (p1, p2) = (params(&mut rec.rng, N, $k1, fine), params(&mut rec.rng, N, $k2, fine));
                    let h = mulq(&hom(N, $k1, &p1), &hom(N, $k2, &p2), NP);
                    if lcd(&h) <= if fine { 20000 } else { 200 } {
                        hint(lcd(&h));
                        let (x, y) = ($f1(&p1), $f2(&p2));
                        let (d, a) = ([nd, $k1, $k2], [rr(&p1), rr(&p2)]);
                        rec.call("tf", "comp", $nm, n, &d, &a, 0, || ho((x * y).to_affine_matrix(), $m, k));
                        rec.call("tf", "comp", $nm, n, &d, &a, 0, || ho((&x * y).to_affine_matrix(), $m, k));
                        rec.call("tf", "comp", $nm, n, &d, &a, 0, || ho((x * &y).to_affine_matrix(), $m, k));
                        rec.call("tf", "comp", $nm, n, &d, &a, 0, || ho((&x * &y).to_affine_matrix(), $m, k));
                    }
                    hint(1);
                }} }
                pr!(TRANS |p: &[Q]| tk(p, k), TRANS |p: &[Q]| tk(p, k), 0, "trans*transk");
                pr!(ROT |p: &[Q]| rk(p, 0), TRANS |p: &[Q]| tk(p, k), 0, "rot*transk");
                pr!(TRANS |p: &[Q]| tk(p, k), ROT |p: &[Q]| rk(p, 0), 0, "trans*rotk");
                pr!(ISO |p: &[Q]| isok(p, k), TRANS |p: &[Q]| tk(p, k), 0, "iso*transk");
                pr!(TRANS |p: &[Q]| tk(p, k), ISO |p: &[Q]| isok(p, k), 0, "trans*isok");
                pr!(ISO |p: &[Q]| isok(p, k), ROT |p: &[Q]| rk(p, 0), 0, "iso*rotk");
                pr!(ROT |p: &[Q]| rk(p, 0), ISO |p: &[Q]| isok(p, k), 0, "rot*isok");
                pr!(ISO |p: &[Q]| isok(p, k), ISO |p: &[Q]| isok(p, k), 0, "iso*isok");
                pr!(SIM |p: &[Q]| simk(p, m, k), ISO |p: &[Q]| isok(p, k), m, "sim*isok");
                pr!(SIM |p: &[Q]| simk(p, m, k + m), SIM |p: &[Q]| simk(p, m, k), 2 * m, "sim*simk");
                pr!(SCALE |p: &[Q]| Scale::<S, N>::from_nonuniform_scale(&vk(p, m)), SCALE |p: &[Q]| Scale::<S, N>::from_nonuniform_scale(&vk(p, k)), m + k, "scale*scalek");
            }
            $gen!();
        }
    };
}
macro_rules! rot2 { () => {
    pub fn rot<S: Fl>(p: &[Q]) -> Rotation<S, N> { Rotation2::from_angle(Radians(S::of(p[1].f().atan2(p[0].f())))) }
    pub fn extra<S: Fl>(rec: &mut Rec) {
        let n = S::NAME;
        let fine = n == "f64";
        let p = vecq(&mut rec.rng, 2, fine);
        hint(lcd(&p));
        rec.call("tf", "hom", "tnew", n, &[2, TRANS], &[rr(&p)], 0, || Translation2::new(S::ofq(p[0]), S::ofq(p[1])).to_affine_matrix());
        rec.call("tf", "hom", "snew", n, &[2, SCALE], &[rr(&p)], 0, || Scale2::new(S::ofq(p[0]), S::ofq(p[1])).to_affine_matrix());
        let (c, s, th) = angle(&mut rec.rng, fine);
        let m = [c, s, -s, c];
        let pi = [m.to_vec(), p.clone()].concat();
        let rad = Radians(S::of(th));
        let deg = Degrees(S::of(th.to_degrees()));
        hint(lcd(&pi));
        rec.call("tf", "hom", "iat", n, &[2, ISO], &[rr(&pi)], 0, || Isometry2::from_angle_translation(rad, &vec(&p)).to_affine_matrix());
        rec.call("tf", "hom", "iatd", n, &[2, ISO], &[rr(&pi)], 0, || Isometry2::from_angle_translation(deg, &vec(&p)).to_affine_matrix());
        rec.call("tf", "hom", "ia", n, &[2, ROT], &[rr(&m)], 0, || Isometry2::<S>::from_angle(rad).to_affine_matrix());
        rec.call("tf", "hom", "sa", n, &[2, ROT], &[rr(&m)], 0, || Similarity2::<S>::from_angle(deg).to_affine_matrix());
        // from any direction x to the one (c, s) away from it
        let (c0, s0, _) = angle(&mut rec.rng, fine);
        let x = [c0, s0];
        let [c, s] = [c * c0 - s * s0, c * s0 + s * c0];
        rec.call("tf", "hom", "ibet", n, &[2, ROT], &[rr(&m)], 0, || Isometry2::rotation_between(&(vec::<S, 2>(&x) * S::of(2.0)), &vec::<S, 2>(&[c, s])).to_affine_matrix());
        let mut mag = || S::of(2f64.powi(rec.rng.int(-40, 40) as i32 / if fine { 1 } else { 4 }));
        let (k, l) = (mag(), mag());
        rec.call("tf", "hom", "ibetk", n, &[2, ROT], &[rr(&m)], 0, || Isometry2::rotation_between(&(vec::<S, 2>(&x) * k), &(vec::<S, 2>(&[c, s]) * l)).to_affine_matrix());
        let nil = [q(0), q(0)];
        let one = rr(&[q(1), q(0), q(0), q(1)]);
        rec.call("tf", "hom", "ibetz", n, &[2, ROT], &[one.clone()], 0, || Isometry2::rotation_between(&vec::<S, 2>(&nil), &vec::<S, 2>(&x)).to_affine_matrix());
        rec.call("tf", "hom", "ibetz", n, &[2, ROT], &[one], 0, || Isometry2::rotation_between(&vec::<S, 2>(&x), &vec::<S, 2>(&nil)).to_affine_matrix());
        rec.call("tf", "hom", "ibeta", n, &[2, ROT], &[rr(&m)], 0, || Isometry2::rotation_between_axis(&uv::<S>(&x), &uv::<S>(&[c, s])).to_affine_matrix());
        hint(1);
    }
} }
macro_rules! rot3 { () => {
    pub fn rot<S: Fl>(p: &[Q]) -> Rotation<S, N> {
        // through the quaternion, whose ratios are rational
        let m: Vec<f64> = p.iter().map(|x| x.f()).collect();
        let at = |i: usize, j: usize| m[j * 3 + i];
        let t = m[0] + m[4] + m[8];
        // rows of 4 q q^T
        let rows = [
            [1.0 + t, at(2, 1) - at(1, 2), at(0, 2) - at(2, 0), at(1, 0) - at(0, 1)],
            [at(2, 1) - at(1, 2), 1.0 + 2.0 * at(0, 0) - t, at(0, 1) + at(1, 0), at(0, 2) + at(2, 0)],
            [at(0, 2) - at(2, 0), at(0, 1) + at(1, 0), 1.0 + 2.0 * at(1, 1) - t, at(1, 2) + at(2, 1)],
            [at(1, 0) - at(0, 1), at(0, 2) + at(2, 0), at(1, 2) + at(2, 1), 1.0 + 2.0 * at(2, 2) - t],
        ];
        let k = (0..4).fold(0, |b, i| if rows[i][i] > rows[b][b] { i } else { b });
        let l = rows[k].iter().map(|x| x * x).sum::<f64>().sqrt();
        let w = rows[k].map(|x| S::of(x / l));
        Rotation3::from_quaternion(&Quaternion::new(w[0], w[1], w[2], w[3]))
    }
    pub fn extra<S: Fl>(rec: &mut Rec) {
        let n = S::NAME;
        let fine = n == "f64";
        let p = vecq(&mut rec.rng, 3, fine);
        hint(lcd(&p));
        rec.call("tf", "hom", "tnew", n, &[3, TRANS], &[rr(&p)], 0, || Translation3::new(S::ofq(p[0]), S::ofq(p[1]), S::ofq(p[2])).to_affine_matrix());
        rec.call("tf", "hom", "snew", n, &[3, SCALE], &[rr(&p)], 0, || Scale3::new(S::ofq(p[0]), S::ofq(p[1]), S::ofq(p[2])).to_affine_matrix());
        let (c, s, th) = angle(&mut rec.rng, fine);
        let u = uvec(&mut rec.rng, fine);
        let m = rodr(&u, c, s);
        let pi = [m.to_vec(), p.clone()].concat();
        let rad = Radians(S::of(th));
        let deg = Degrees(S::of(th.to_degrees()));
        hint(lcd(&pi));
        rec.call("tf", "hom", "iat", n, &[3, ISO], &[rr(&pi)], 0, || Isometry3::from_axis_angle_translation(&uv(&u), rad, &vec(&p)).to_affine_matrix());
        rec.call("tf", "hom", "ia", n, &[3, ROT], &[rr(&m)], 0, || Isometry3::<S>::from_axis_angle(&uv(&u), deg).to_affine_matrix());
        rec.call("tf", "hom", "sa", n, &[3, ROT], &[rr(&m)], 0, || Similarity3::<S>::from_axis_angle(&uv(&u), rad).to_affine_matrix());
        for k in 0..3usize {
            let e: Vec<Q> = (0..3).map(|i| q((i == k) as i64)).collect();
            let m = rodr(&e, c, s);
            rec.call("tf", "hom", "iax", n, &[3, ROT], &[rr(&m)], 0, || match k { 0 => Isometry3::<S>::from_angle_x(rad), 1 => Isometry3::from_angle_y(rad), _ => Isometry3::from_angle_z(rad) }.to_affine_matrix());
        }
        // between directions: a turn in the plane of two orthogonal unit vectors
        let (v, w) = perp(&mut rec.rng, 3, fine);
        let (c, s, _) = angle(&mut rec.rng, fine);
        if s.0 != 0 {
            let t: Vec<Q> = (0..3).map(|i| c * v[i] + s * w[i]).collect();
            let ax = vec![v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]];
            let m = rodr(&ax, c, s);
            if lcd(&m) <= 20000 {
                hint(lcd(&m));
                rec.call("tf", "hom", "ibet", n, &[3, ROT], &[rr(&m)], 0, || Isometry3::rotation_between(&(vec::<S, 3>(&v) * S::of(2.0)), &vec::<S, 3>(&t)).map(|x| x.to_affine_matrix()));
                let mut mag = || S::of(2f64.powi(rec.rng.int(-40, 40) as i32 / if fine { 1 } else { 4 }));
                let (k, l) = (mag(), mag());
                rec.call("tf", "hom", "ibetk", n, &[3, ROT], &[rr(&m)], 0, || Isometry3::rotation_between(&(vec::<S, 3>(&v) * k), &(vec::<S, 3>(&t) * l)).map(|x| x.to_affine_matrix()));
                rec.call("tf", "hom", "ibeta", n, &[3, ROT], &[rr(&m)], 0, || Isometry3::rotation_between_axis(&uv::<S>(&v), &uv::<S>(&t)).map(|x| x.to_affine_matrix()));
            }
        }
        hint(1);
    }
} }
fn rodr(u: &[Q], c: Q, s: Q) -> Vec<Q> {
    let k = [q(0), u[2], -u[1], -u[2], q(0), u[0], u[1], -u[0], q(0)];
    (0..9).map(|i| {
        let (col, row) = (i / 3, i % 3);
        (if col == row { c } else { q(0) }) + s * k[i] + (q(1) - c) * u[row] * u[col]
    }).collect()
}
dimension!(d2, 2, 3, Matrix3x3, rot2);
dimension!(d3, 3, 4, Matrix4x4, rot3);

/// shears of integers: the object and its action
fn intact<S: Sc + SimdScalarSigned>(rec: &mut Rec) {
    let n = S::NAME;
    let f = if S::FLOAT && rec.rng.chance(2) { let d = if n == "f64" { 64 } else { 16 }; Q::red(rec.rng.int(-d, d), d) } else { q(rec.rng.int(-4, 4)) };
    hint(f.1);
    // the same shear at another magnitude: factor 2^e f, sheared coordinate in units of 2^-e
    let ex = if !S::FLOAT { 0 } else if n == "f64" { rec.rng.int(-30, 30) as i32 } else { rec.rng.int(-9, 9) as i32 };
    let times = |v: i32, x: S| { set_scale(v); let t = S::ofq(q(1)); set_scale(0); x * t };
    let s = times(ex, S::ofq(f));
    macro_rules! sh { ($dim:expr, $o:expr, $i:expr, $j:expr) => {{
        let (e, g): (Vec<Q>, Vec<Q>) = ((0..$dim).map(|x| q((x == $i) as i64)).collect(), (0..$dim).map(|x| q((x == $j) as i64)).collect());
        let p = [vec![f], vec![q(0); $dim], e, g].concat();
        let y = gen(&mut rec.rng, $dim, 9, 1, true);
        let a = [rr(&p), rr(&y)];
        let d = [$dim as i64, SHEAR];
        let (mut yp, mut yv) = (pnt::<S, $dim>(&y), vec::<S, $dim>(&y));
        if ex != 0 {
            yp[$j] = times(-ex, yp[$j]);
            yv[$j] = times(-ex, yv[$j]);
        }
        let bp = |mut r: Point<S, $dim>| { if ex != 0 { r[$j] = times(ex, r[$j]) } r };
        let bv = |mut r: Vector<S, $dim>| { if ex != 0 { r[$j] = times(ex, r[$j]) } r };
        rec.call("tf", "actp", "ishear", n, &d, &a, 0, || bp($o * yp));
        rec.call("tf", "actv", "ishear", n, &d, &a, 0, || bv($o.apply_vector(&yv)));
        rec.call("tf", "invp", "ishear", n, &d, &a, 0, || bp($o.inverse_apply_point(&yp)));
        rec.call("tf", "invv", "ishear", n, &d, &a, 0, || bv($o.inverse() * yv));
    }} }
    sh!(2, Shear2::from_shear_xy(s), 0, 1);
    sh!(2, Shear2::from_shear_yx(s), 1, 0);
    sh!(3, Shear3::from_shear_xy(s), 0, 1);
    sh!(3, Shear3::from_shear_xz(s), 0, 2);
    sh!(3, Shear3::from_shear_yx(s), 1, 0);
    sh!(3, Shear3::from_shear_yz(s), 1, 2);
    sh!(3, Shear3::from_shear_zx(s), 2, 0);
    sh!(3, Shear3::from_shear_zy(s), 2, 1);
    hint(1);
    let p = gen(&mut rec.rng, 3, 9, 1, true);
    let y = gen(&mut rec.rng, 3, 9, 1, true);
    let a = [rr(&p), rr(&y)];
    let t = Translation3::from_vector(&vec::<S, 3>(&p));
    let c = Scale3::from_nonuniform_scale(&vec::<S, 3>(&p));
    rec.call("tf", "actp", "itrans", n, &[3, TRANS], &a, 0, || t * pnt::<S, 3>(&y));
    rec.call("tf", "invp", "itrans", n, &[3, TRANS], &a, 0, || t.inverse() * pnt::<S, 3>(&y));
    rec.call("tf", "invp", "itrans", n, &[3, TRANS], &a, 0, || t.inverse_apply_point(&pnt::<S, 3>(&y)));
    rec.call("tf", "hom", "itrans", n, &[3, TRANS], &a, 0, || t.to_affine_matrix());
    rec.call("tf", "actp", "iscale", n, &[3, SCALE], &a, 0, || c * pnt::<S, 3>(&y));
    rec.call("tf", "actv", "iscale", n, &[3, SCALE], &a, 0, || &c * vec::<S, 3>(&y));
    rec.call("tf", "hom", "iscale", n, &[3, SCALE], &a, 0, || c.to_affine_matrix());
}

/// C20 over any scalar
fn matrices<S: Sc + SimdScalarSigned>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let frac = if S::FLOAT { S::DEN } else { 1 };
    let k = gen(&mut rec.rng, 1, 9, frac, true);
    let f = if fine && rec.rng.chance(3) { Q::red(rec.rng.int(-63, 63), 64) } else { k[0] };
    let ex = if !S::FLOAT || rec.rng.chance(2) { 0 } else if fine { rec.rng.int(-60, 60) as i32 } else { rec.rng.int(-20, 20) as i32 };
    let times = |v: i32, x: S| { set_scale(v); let t = S::ofq(q(1)); set_scale(0); x * t };
    let s = if ex == 0 { S::ofq(f) } else { times(ex, S::ofq(f)) };
    macro_rules! shl { ($dim:expr, $o:expr, $i:expr, $j:expr, $lin:expr) => {{
        let (e, g): (Vec<Q>, Vec<Q>) = ((0..$dim).map(|x| q((x == $i) as i64)).collect(), (0..$dim).map(|x| q((x == $j) as i64)).collect());
        let p = [vec![f], vec![q(0); $dim], e, g].concat();
        rec.call("tf", if $lin { "lin" } else { "hom" }, stringify!($o), n, &[$dim as i64, SHEAR], &[rr(&p)], 0, || { let mut h = $o; if ex != 0 { h[$j][$i] = times(-ex, h[$j][$i]) } h });
    }} }
    hint(f.1);
    shl!(2, Matrix2x2::from_shear_xy(s), 0, 1, true);
    shl!(2, Matrix2x2::from_shear_yx(s), 1, 0, true);
    shl!(2, Matrix3x3::from_affine_shear_xy(s), 0, 1, false);
    shl!(2, Matrix3x3::from_affine_shear_yx(s), 1, 0, false);
    shl!(3, Matrix3x3::from_shear_xy(s), 0, 1, true);
    shl!(3, Matrix3x3::from_shear_xz(s), 0, 2, true);
    shl!(3, Matrix3x3::from_shear_yx(s), 1, 0, true);
    shl!(3, Matrix3x3::from_shear_yz(s), 1, 2, true);
    shl!(3, Matrix3x3::from_shear_zx(s), 2, 0, true);
    shl!(3, Matrix3x3::from_shear_zy(s), 2, 1, true);
    shl!(3, Matrix4x4::from_affine_shear_xy(s), 0, 1, false);
    shl!(3, Matrix4x4::from_affine_shear_xz(s), 0, 2, false);
    shl!(3, Matrix4x4::from_affine_shear_yx(s), 1, 0, false);
    shl!(3, Matrix4x4::from_affine_shear_yz(s), 1, 2, false);
    shl!(3, Matrix4x4::from_affine_shear_zx(s), 2, 0, false);
    shl!(3, Matrix4x4::from_affine_shear_zy(s), 2, 1, false);
    let _ = fine;
    unsigned::<S>(rec, true);
}
/// scales and translations, which exist for unsigned scalars too
fn unsigned<S: Sc + SimdScalar>(rec: &mut Rec, signed: bool) {
    let n = S::NAME;
    let frac = if S::FLOAT { S::DEN } else { 1 };
    macro_rules! st { ($dim:expr, $np:expr, $M:ident, $L:ident) => {{
        let p = gen(&mut rec.rng, $dim, 9, frac, signed);
        let u = vec![p[0]; $dim];
        hint(lcd(&p));
        let v = vec::<S, $dim>(&p);
        let d = [$dim as i64, SCALE];
        rec.call("tf", "hom", "naff", n, &d, &[rr(&p)], 0, || $M::<S>::from_affine_nonuniform_scale(&v));
        rec.call("tf", "hom", "aff", n, &d, &[rr(&u)], 0, || $M::<S>::from_affine_scale(S::ofq(u[0])));
        rec.call("tf", "lin", "nlin", n, &d, &[rr(&p)], 0, || $L::<S>::from_nonuniform_scale(&v));
        rec.call("tf", "lin", "lin", n, &d, &[rr(&u)], 0, || $L::<S>::from_scale(S::ofq(u[0])));
        rec.call("tf", "hom", "trans", n, &[$dim as i64, TRANS], &[rr(&p)], 0, || $M::<S>::from_affine_translation(&v));
        hint(1);
    }} }
    st!(1, 2, Matrix2x2, Matrix1x1);
    st!(2, 3, Matrix3x3, Matrix2x2);
    st!(3, 4, Matrix4x4, Matrix3x3);
    {
        let p = gen(&mut rec.rng, 4, 9, frac, signed);
        let u = vec![p[0]; 4];
        hint(lcd(&p));
        rec.call("tf", "lin", "nlin", n, &[4, SCALE], &[rr(&p)], 0, || Matrix4x4::<S>::from_nonuniform_scale(&vec::<S, 4>(&p)));
        rec.call("tf", "lin", "lin", n, &[4, SCALE], &[rr(&u)], 0, || Matrix4x4::<S>::from_scale(S::ofq(u[0])));
        hint(1);
    }
}
fn general<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let e = if fine { *rec.rng.pick(&[-100, -40, -12, 12, 40, 100]) } else { *rec.rng.pick(&[-12, -6, 6, 12]) };
    let (far, near) = (S::of(2f64.powi(e)), S::of(2f64.powi(-e)));
    macro_rules! g { ($m:ident, $dim:expr, $M:ident, $L:ident) => {{
        let unit = |mut h: $M<S>| { for r in 0..$dim { h[$dim][r] = h[$dim][r] * near } h };
        let p = params(&mut rec.rng, $dim, SHEAR, fine);
        let h = hom($dim, SHEAR, &p);
        let (d, v) = ($m::uv::<S>(&p[1 + $dim..1 + 2 * $dim]), $m::uv::<S>(&p[1 + 2 * $dim..]));
        let (k, o) = (S::ofq(p[0]), pnt::<S, $dim>(&p[1..1 + $dim]));
        hint(lcd(&h));
        rec.call("tf", "hom", "ashear", n, &[$dim, SHEAR], &[rr(&p)], 0, || $M::from_affine_shear(k, &o, &d, &v));
        rec.call("tf", "hom", "asheark", n, &[$dim, SHEAR], &[rr(&p)], 0, || unit($M::from_affine_shear(k, &(o * far), &d, &v)));
        let mut p0 = p.clone();
        for i in 1..=$dim { p0[i] = q(0) }
        rec.call("tf", "lin", "shear", n, &[$dim, SHEAR], &[rr(&p0)], 0, || $L::from_shear(k, &d, &v));
        let p = params(&mut rec.rng, $dim, REFL, fine);
        hint(lcd(&hom($dim, REFL, &p)));
        let u = $m::uv::<S>(&p[..$dim]);
        rec.call("tf", "hom", "arefl", n, &[$dim, REFL], &[rr(&p)], 0, || $M::from_affine_reflection(&u, &pnt::<S, $dim>(&p[$dim..])));
        rec.call("tf", "hom", "areflk", n, &[$dim, REFL], &[rr(&p)], 0, || unit($M::from_affine_reflection(&u, &(pnt::<S, $dim>(&p[$dim..]) * far))));
        rec.call("tf", "lin", "refl", n, &[$dim, REFL], &[rr(&p)], 0, || $L::from_reflection(&u));
        hint(1);
        // mirrors and shears a little off the axes
        let m = if fine { rec.rng.int(12, 120) } else { rec.rng.int(4, 5) };
        let (c, s) = (Q::red(m * m - 1, m * m + 1), Q::red(if rec.rng.chance(2) { 2 * m } else { -2 * m }, m * m + 1));
        let i = rec.rng.below($dim);
        let j = (i + 1 + rec.rng.below($dim - 1)) % $dim;
        let (mut w, mut v) = (vec![q(0); $dim], vec![q(0); $dim]);
        w[i] = s;
        w[j] = if rec.rng.chance(2) { c } else { -c };
        v[i] = -w[j];
        v[j] = w[i];
        let b = gen(&mut rec.rng, $dim, 3, 1, true);
        let p = [w.clone(), b.clone()].concat();
        hint(lcd(&hom($dim, REFL, &p)));
        let u = $m::uv::<S>(&w);
        rec.call("tf", "hom", "areflq", n, &[$dim, REFL], &[rr(&p)], 0, || $M::from_affine_reflection(&u, &pnt::<S, $dim>(&b)));
        rec.call("tf", "lin", "reflq", n, &[$dim, REFL], &[rr(&p)], 0, || $L::from_reflection(&u));
        rec.call("tf", "hom", "reflq", n, &[$dim, REFL], &[rr(&p)], 0, || $m::refl::<S>(&p).to_affine_matrix());
        let k = q(rec.rng.int(1, 3) * if rec.rng.chance(2) { 1 } else { -1 });
        let p = [vec![k], b.clone(), w.clone(), v.clone()].concat();
        hint(lcd(&hom($dim, SHEAR, &p)));
        let (d, v) = ($m::uv::<S>(&w), $m::uv::<S>(&v));
        rec.call("tf", "hom", "ashearq", n, &[$dim, SHEAR], &[rr(&p)], 0, || $M::from_affine_shear(S::ofq(k), &pnt::<S, $dim>(&b), &d, &v));
        let mut p0 = p.clone();
        for i in 1..=$dim { p0[i] = q(0) }
        rec.call("tf", "lin", "shearq", n, &[$dim, SHEAR], &[rr(&p0)], 0, || $L::from_shear(S::ofq(k), &d, &v));
        hint(1);
    }} }
    g!(d2, 2, Matrix3x3, Matrix2x2);
    g!(d3, 3, Matrix4x4, Matrix3x3);
}
fn main() {
    drive(&[
        ("C18", |rec| {
            for i in 0..rec.iters(80, 1500) {
                rec.next();
                d2::act::<f64>(rec);
                d3::act::<f64>(rec);
                d2::extra::<f64>(rec);
                d3::extra::<f64>(rec);
                d2::lengths::<f64>(rec);
                d3::lengths::<f64>(rec);
                if i % 4 == 0 {
                    d2::lengths::<f32>(rec);
                    d3::lengths::<f32>(rec);
                }
                if i % 3 == 0 {
                    d2::act::<f32>(rec);
                    d3::act::<f32>(rec);
                    d2::extra::<f32>(rec);
                    d3::extra::<f32>(rec);
                }
                if i % 8 == 0 {
                    d2::idents::<f64>(rec);
                    d3::idents::<f64>(rec);
                    d2::idents::<f32>(rec);
                    d3::idents::<f32>(rec);
                    intact::<i32>(rec);
                    intact::<i64>(rec);
                }
                intact::<f64>(rec);
                if i % 2 == 0 { intact::<f32>(rec); }
            }
        }),
        ("C19", |rec| {
            for i in 0..rec.iters(120, 3000) {
                rec.next();
                d2::compose::<f64>(rec);
                d3::compose::<f64>(rec);
                d2::products::<f64>(rec);
                d3::products::<f64>(rec);
                if i % 3 == 0 {
                    d2::compose::<f32>(rec);
                    d3::compose::<f32>(rec);
                    d2::products::<f32>(rec);
                    d3::products::<f32>(rec);
                }
            }
        }),
        ("C20", |rec| {
            for i in 0..rec.iters(300, 6000) {
                rec.next();
                general::<f64>(rec);
                if i % 2 == 0 {
                    general::<f32>(rec);
                    matrices::<f64>(rec);
                    matrices::<f32>(rec);
                    matrices::<i32>(rec);
                    matrices::<i8>(rec);
                    matrices::<i64>(rec);
                    unsigned::<u32>(rec, false);
                    unsigned::<u8>(rec, false);
                }
            }
        }),
    ]);
}

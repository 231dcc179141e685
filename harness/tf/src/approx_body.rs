// body of one scalar type's instance of the comparison driver (included twice)
    pub trait Ap: Sized + Copy + PartialEq {
        const NAME: &'static str;
        const N: usize;
        const PAR: Par;
        fn build(p: &[S]) -> Self;
        fn comps(&self) -> Vec<S>;
        fn abs(&self, o: &Self, t: &[S]) -> (bool, bool);
        fn abs_all(&self, o: &Self, t: S) -> (bool, bool);
        fn rel(&self, o: &Self, t: &[S], q: &[S]) -> (bool, bool);
        fn rel_all(&self, o: &Self, t: S, q: S) -> (bool, bool);
        fn ulps(&self, o: &Self, t: &[S], u: &[U]) -> (bool, bool);
        fn ulps_all(&self, o: &Self, t: S, u: U) -> (bool, bool);
        /// what a failed assertion would report
        fn report(&self, o: &Self, k: usize, t: &[S], q: &[S], u: &[U]) -> String;
    }
    macro_rules! ap {
        ($T:ty, $name:expr, $n:expr, $par:expr, |$p:ident| $build:expr, |$x:ident| $comps:expr, |$t:ident| $tol:expr) => {
            impl Ap for $T {
                const NAME: &'static str = $name;
                const N: usize = $n;
                const PAR: Par = $par;
                fn build($p: &[S]) -> Self { $build }
                fn comps(&self) -> Vec<S> { let $x = self; $comps }
                fn abs(&self, o: &Self, t: &[S]) -> (bool, bool) {
                    let $t = t;
                    let w = $tol;
                    (approx_cmp::AbsDiffEq::abs_diff_eq(self, o, &w), approx_cmp::AbsDiffEq::abs_diff_ne(self, o, &w))
                }
                fn abs_all(&self, o: &Self, t: S) -> (bool, bool) {
                    (approx_cmp::AbsDiffAllEq::abs_diff_all_eq(self, o, &t), approx_cmp::AbsDiffAllEq::abs_diff_all_ne(self, o, &t))
                }
                fn rel(&self, o: &Self, t: &[S], q: &[S]) -> (bool, bool) {
                    let $t = t;
                    let w = $tol;
                    let $t = q;
                    let v = $tol;
                    (approx_cmp::RelativeEq::relative_eq(self, o, &w, &v), approx_cmp::RelativeEq::relative_ne(self, o, &w, &v))
                }
                fn rel_all(&self, o: &Self, t: S, q: S) -> (bool, bool) {
                    (approx_cmp::RelativeAllEq::relative_all_eq(self, o, &t, &q), approx_cmp::RelativeAllEq::relative_all_ne(self, o, &t, &q))
                }
                fn ulps(&self, o: &Self, t: &[S], u: &[U]) -> (bool, bool) {
                    let $t = t;
                    let w = $tol;
                    let $t = u;
                    let v = $tol;
                    (approx_cmp::UlpsEq::ulps_eq(self, o, &w, &v), approx_cmp::UlpsEq::ulps_ne(self, o, &w, &v))
                }
                fn ulps_all(&self, o: &Self, t: S, u: U) -> (bool, bool) {
                    (approx_cmp::UlpsAllEq::ulps_all_eq(self, o, &t, &u), approx_cmp::UlpsAllEq::ulps_all_ne(self, o, &t, &u))
                }
                fn report(&self, o: &Self, k: usize, t: &[S], q: &[S], u: &[U]) -> String {
                    use approx_cmp::*;
                    let (t0, q0, u0) = (t[0], q[0], u[0]);
                    let $t = t;
                    let tw = $tol;
                    let $t = q;
                    let qw = $tol;
                    let $t = u;
                    let uw = $tol;
                    match k {
                        0 => format!("{:?}", AssertAbsDiffEq::debug_abs_diff(self, o)),
                        1 => format!("{:?}", AssertAbsDiffEq::debug_abs_diff_tolerance(self, o, &tw)),
                        2 => format!("{:?}", AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(self, o, &t0)),
                        3 => format!("{:?}", AssertRelativeEq::debug_abs_diff(self, o)),
                        4 => format!("{:?}", AssertRelativeEq::debug_abs_diff_tolerance(self, o, &tw)),
                        5 => format!("{:?}", AssertRelativeEq::debug_relative_tolerance(self, o, &qw)),
                        6 => format!("{:?}", AssertRelativeAllEq::debug_abs_diff_all_tolerance(self, o, &t0)),
                        7 => format!("{:?}", AssertRelativeAllEq::debug_relative_all_tolerance(self, o, &q0)),
                        8 => format!("{:?}", AssertUlpsEq::debug_abs_diff(self, o)),
                        9 => format!("{:?}", AssertUlpsEq::debug_ulps_diff(self, o)),
                        10 => format!("{:?}", AssertUlpsEq::debug_abs_diff_tolerance(self, o, &tw)),
                        11 => format!("{:?}", AssertUlpsEq::debug_ulps_tolerance(self, o, &uw)),
                        12 => format!("{:?}", AssertUlpsAllEq::debug_abs_diff_all_tolerance(self, o, &t0)),
                        _ => format!("{:?}", AssertUlpsAllEq::debug_ulps_all_tolerance(self, o, &u0)),
                    }
                }
            }
        };
    }
    fn vof<T: Copy, const N: usize>(t: &[T]) -> Vector<T, N> { Vector::from(<[T; N]>::try_from(&t[..N]).ok().unwrap()) }
    fn pof<const N: usize>(t: &[S]) -> Point<S, N> { Point::from(<[S; N]>::try_from(&t[..N]).ok().unwrap()) }
    fn mof<T: Copy, const R: usize, const C: usize>(t: &[T]) -> Matrix<T, R, C> {
        let a: [[T; R]; C] = std::array::from_fn(|c| std::array::from_fn(|r| t[c * R + r]));
        Matrix::from(a)
    }
    fn vc<const N: usize>(v: &Vector<S, N>) -> Vec<S> { (0..N).map(|i| v[i]).collect() }
    fn pc<const N: usize>(v: &Point<S, N>) -> Vec<S> { (0..N).map(|i| v[i]).collect() }
    fn mc<const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> Vec<S> {
        (0..C).flat_map(|c| (0..R).map(move |r| (c, r))).map(|(c, r)| m[c][r]).collect()
    }
    fn cat(v: Vec<Vec<S>>) -> Vec<S> { v.into_iter().flatten().collect() }
    fn qt(p: &[S]) -> Quaternion<S> { Quaternion::new(p[0], p[1], p[2], p[3]) }
    macro_rules! vecs { ($($n:expr),*) => {$(
        ap!(Vector<S, $n>, concat!("vector", $n), $n, Par::Free, |p| vof(p), |x| vc(x), |t| vof::<_, $n>(t));
        ap!(Point<S, $n>, concat!("point", $n), $n, Par::Free, |p| pof(p), |x| pc(x), |t| vof::<_, $n>(t));
        ap!(Translation<S, $n>, concat!("translation", $n), $n, Par::Free, |p| Translation::from_vector(&vof(p)), |x| vc(x.vector()), |t| { let v = vof::<_, $n>(t); if alt() { TranslationTol::from(&v) } else { TranslationTol::from(v) } });
        ap!(Scale<S, $n>, concat!("scale", $n), $n, Par::Free, |p| Scale::from_nonuniform_scale(&vof(p)), |x| vc(&x.to_vector()), |t| { let v = vof::<_, $n>(t); if alt() { ScaleTol::from(&v) } else { ScaleTol::from(v) } });
        ap!(Reflection<S, $n>, concat!("reflection", $n), 2 * $n, Par::Free,
            |p| Reflection::from_normal_bias(&Unit::from_value_unchecked(vof(p)), &pof(&p[$n..])),
            |x| cat(vec![vc(&x.normal()), pc(&x.bias())]), |t| ReflectionTol::from_parts(vof::<_, $n>(t), vof(&t[$n..])));
        ap!(Shear<S, $n>, concat!("shear", $n), 1 + 3 * $n, Par::Free,
            |p| Shear::from_affine_shear(p[0], &pof(&p[1..]), &Unit::from_value_unchecked(vof(&p[1 + $n..])), &Unit::from_value_unchecked(vof(&p[1 + 2 * $n..]))),
            |x| cat(vec![vec![x.shear_factor()], pc(&x.origin()), vc(&x.direction()), vc(&x.normal())]),
            |t| ShearTol::from_parts(t[0], vof::<_, $n>(&t[1..]), vof(&t[1 + $n..]), vof(&t[1 + 2 * $n..])));
    )*} }
    vecs!(1, 2, 3, 4);
    macro_rules! mats { ($($r:expr, $c:expr);*) => {$(
        ap!(Matrix<S, $r, $c>, concat!("matrix", $r, "x", $c), $r * $c, Par::Free, |p| mof(p), |x| mc(x), |t| mof::<_, $r, $c>(t));
    )*} }
    mats!(1, 1; 1, 2; 1, 3; 1, 4; 2, 2; 2, 3; 2, 4; 3, 2; 3, 3; 3, 4; 4, 2; 4, 3; 4, 4);
    ap!(Transform<S, 2, 3>, "transform2", 9, Par::Free, |p| Transform::from_matrix_unchecked(mof(p)), |x| mc(x.matrix()), |t| { let v = mof::<_, 3, 3>(t); if alt() { TransformTol::from(&v) } else { TransformTol::from(v) } });
    ap!(Transform<S, 3, 4>, "transform3", 16, Par::Free, |p| Transform::from_matrix_unchecked(mof(p)), |x| mc(x.matrix()), |t| { let v = mof::<_, 4, 4>(t); if alt() { TransformTol::from(&v) } else { TransformTol::from(v) } });
    ap!(Quaternion<S>, "quaternion", 4, Par::Free, |p| qt(p), |x| vec![x.scalar(), x.vector()[0], x.vector()[1], x.vector()[2]], |t| vof::<_, 4>(t));
    ap!(Complex<S>, "complex", 2, Par::Free, |p| Complex::new(p[0], p[1]), |x| vec![x.real(), x.imaginary()], |t| Complex::new(t[0], t[1]));
    ap!(Degrees<S>, "degrees", 1, Par::Free, |p| Degrees(p[0]), |x| vec![x.0], |t| t[0]);
    ap!(Radians<S>, "radians", 1, Par::Free, |p| Radians(p[0]), |x| vec![x.0], |t| t[0]);
    ap!(Euler<Degrees<S>>, "eulerd", 3, Par::Free, |p| Euler::new(Degrees(p[0]), Degrees(p[1]), Degrees(p[2])), |x| vec![x.x.0, x.y.0, x.z.0], |t| Euler { x: t[0], y: t[1], z: t[2] });
    ap!(Euler<Radians<S>>, "eulerr", 3, Par::Free, |p| Euler::new(Radians(p[0]), Radians(p[1]), Radians(p[2])), |x| vec![x.x.0, x.y.0, x.z.0], |t| Euler { x: t[0], y: t[1], z: t[2] });
    ap!(Unit<Vector<S, 3>>, "unitvector3", 3, Par::Free, |p| Unit::from_value_unchecked(vof(p)), |x| vc(&x.into_inner()), |t| vof::<_, 3>(t));
    ap!(Unit<Quaternion<S>>, "unitquaternion", 4, Par::Free, |p| Unit::from_value_unchecked(qt(p)), |x| { let x = x.into_inner(); vec![x.scalar(), x.vector()[0], x.vector()[1], x.vector()[2]] }, |t| vof::<_, 4>(t));
    ap!(Unit<Complex<S>>, "unitcomplex", 2, Par::Free, |p| Unit::from_value_unchecked(Complex::new(p[0], p[1])), |x| vec![x.into_inner().real(), x.into_inner().imaginary()], |t| Complex::new(t[0], t[1]));
    ap!(Rotation<S, 3>, "rotation3", 4, Par::Quad, |p| Rotation3::from_quaternion(&qt(p)), |x| mc(x.matrix()), |t| { let v = mof::<_, 3, 3>(t); if alt() { RotationTol::from(&v) } else { RotationTol::from(v) } });
    ap!(Rotation<S, 2>, "rotation2", 1, Par::Free, |p| Rotation2::from_angle(Radians(p[0])), |x| mc(x.matrix()), |t| { let v = mof::<_, 2, 2>(t); if alt() { RotationTol::from(&v) } else { RotationTol::from(v) } });
    ap!(Isometry<S, 3>, "isometry3", 7, Par::Quad, |p| Isometry3::from_parts(&Translation::from_vector(&vof(&p[4..])), &Rotation3::from_quaternion(&qt(p))),
        |x| cat(vec![vc(x.translation().vector()), mc(x.rotation().matrix())]), |t| IsometryTol::from_parts(vof::<_, 3>(t), mof(&t[3..])));
    ap!(Isometry<S, 2>, "isometry2", 3, Par::Free, |p| Isometry2::from_parts(&Translation::from_vector(&vof(&p[1..])), &Rotation2::from_angle(Radians(p[0]))),
        |x| cat(vec![vc(x.translation().vector()), mc(x.rotation().matrix())]), |t| IsometryTol::from_parts(vof::<_, 2>(t), mof(&t[2..])));
    ap!(Similarity<S, 3>, "similarity3", 8, Par::Quad, |p| Similarity3::from_parts(&Translation::from_vector(&vof(&p[4..])), &Rotation3::from_quaternion(&qt(p)), p[7]),
        |x| cat(vec![vc(x.translation().vector()), mc(x.rotation().matrix()), vec![x.scale()]]), |t| SimilarityTol::from_parts(vof::<_, 3>(t), mof(&t[3..]), t[12]));
    ap!(Similarity<S, 2>, "similarity2", 4, Par::Free, |p| Similarity2::from_parts(&Translation::from_vector(&vof(&p[1..])), &Rotation2::from_angle(Radians(p[0])), p[3]),
        |x| cat(vec![vc(x.translation().vector()), mc(x.rotation().matrix()), vec![x.scale()]]), |t| SimilarityTol::from_parts(vof::<_, 2>(t), mof(&t[2..]), t[6]));
    ap!(Perspective3<S>, "perspective3", 6, Par::Frustum, |p| Perspective3::new(p[0], p[1], p[2], p[3], p[4], p[5]), |x| mc(x.matrix()), |t| { let v = mof::<_, 4, 4>(t); if alt() { Perspective3Tol::from(&v) } else { Perspective3Tol::from(v) } });
    ap!(Orthographic3<S>, "orthographic3", 6, Par::Frustum, |p| Orthographic3::new(p[0], p[1], p[2], p[3], p[4], p[5]), |x| mc(x.matrix()), |t| { let v = mof::<_, 4, 4>(t); if alt() { Orthographic3Tol::from(&v) } else { Orthographic3Tol::from(v) } });

    /// eighths
    fn params<T: Ap>(r: &mut Rng) -> Vec<i64> {
        match T::PAR {
            Par::Free => (0..T::N).map(|_| if r.chance(6) { 0 } else { r.int(-60, 60) }).collect(),
            Par::Quad => {
                let exact = r.chance(2);
                let mut v: Vec<i64> = (0..T::N).map(|_| r.int(-60, 60)).collect();
                let h: &[i64] = *r.pick(&[&[4, 4, 4, 4], &[8, 0, 0, 0], &[8, 8, 0, 0]]);
                for i in 0..4 {
                    v[i] = if exact { h[i] * *r.pick(&[1, -1]) } else { 4 * r.int(-4, 4) };
                }
                for i in (1..4).rev() {
                    let j = r.below(i + 1);
                    v.swap(i, j);
                }
                if v[..4].iter().all(|x| *x == 0) { v[0] = 8 }
                v
            }
            Par::Frustum => {
                // widths, heights and depths are powers of two
                let (w, h, d) = (*r.pick(&[8, 16, 32]), *r.pick(&[8, 16, 32]), *r.pick(&[8, 16]));
                let (l, b, n) = (r.int(1, w - 1), r.int(1, h - 1), r.int(1, 8));
                vec![l, w - l, b, h - b, n, n + d]
            }
        }
    }
    fn fl(p: &[i64], k: i32) -> Vec<S> { p.iter().map(|x| *x as S / 8.0 * (2.0 as S).powi(k)).collect() }
    /// the common unit in which all components are modest integers
    fn unit(v: &[&Vec<S>], k: i32) -> Option<S> {
        let mut u: S = (2.0 as S).powi(-k);
        for _ in 0..10 {
            if v.iter().all(|x| x.iter().all(|y| (*y * u).fract() == 0.0)) {
                return if v.iter().all(|x| x.iter().all(|y| (*y * u).abs() < 4096.0)) { Some(u) } else { None };
            }
            u *= 2.0;
        }
        None
    }
    fn two(x: (bool, bool)) -> Raw { Raw(vec![x.0 as i64, x.1 as i64]) }
    fn nudge(x: S, k: i64) -> S { if x == 0.0 { x } else { S::from_bits((x.to_bits() as i64 + k) as U) } }
    fn udist(x: S, y: S) -> i64 {
        if x == y { 0 } else if x.is_sign_negative() != y.is_sign_negative() { -1 } else { (x.abs().to_bits() as i64 - y.abs().to_bits() as i64).abs() }
    }
    pub fn go<T: Ap>(rec: &mut Rec) {
        let n = SN;
        let v = T::NAME;
        let p = params::<T>(&mut rec.rng);
        // values of other magnitudes, where all components scale alike
        let k = if T::PAR == Par::Free && !v.starts_with("rot") && rec.rng.chance(3) { *rec.rng.pick(&[-40, -20, -8, 8, 20, 40]) } else { 0 };
        let mut q = p.clone();
        match rec.rng.below(6) {
            0 => {}
            1 | 2 => q = params::<T>(&mut rec.rng),
            3 => { let z = params::<T>(&mut rec.rng); let i = rec.rng.below(q.len()); if T::PAR != Par::Frustum { q[i] = z[i] } else { q = z } }
            4 if T::PAR == Par::Free => { let i = rec.rng.below(q.len()); q[i] = -q[i] }
            _ if T::PAR == Par::Free => for x in q.iter_mut() { *x += rec.rng.int(-3, 3) },
            _ => {}
        }
        let (x, y) = (T::build(&fl(&p, k)), T::build(&fl(&q, k)));
        let (xc, yc) = (x.comps(), y.comps());
        let m = xc.len();
        if xc.iter().chain(&yc).any(|z| !(z.abs() < 1e20)) { return }
        rec.call("apx", "eq", v, n, &[], &[xc.iter().zip(&yc).map(|(a, b)| (a != b) as i64).collect()], 0, || Raw(vec![(x == y) as i64, (x != y) as i64]));
        if let Some(u) = unit(&[&xc, &yc], k) {
            let ints = |c: &Vec<S>| c.iter().map(|z| (*z * u) as i64).collect::<Vec<i64>>();
            let (xi, yi) = (ints(&xc), ints(&yc));
            let f = |t: &[i64]| t.iter().map(|z| *z as S / u).collect::<Vec<S>>();
            let d: Vec<i64> = xi.iter().zip(&yi).map(|(a, b)| (a - b).abs()).collect();
            // one component at, or just below, its own difference
            let r = &mut rec.rng;
            let i = r.below(m);
            let mut t: Vec<i64> = d.iter().map(|z| z + r.int(0, 3)).collect();
            t[i] = (d[i] - r.int(0, 1)).max(0);
            let top = *d.iter().max().unwrap();
            let ta = *r.pick(&[top, (top - 1).max(0), r_half(top), d[i], 0]);
            let mut tr: Vec<i64> = d.iter().map(|z| if r.chance(4) { *z } else { (*z - r.int(1, 9)).max(0) }).collect();
            let need = |j: usize| { let mx = xi[j].abs().max(yi[j].abs()); if d[j] == 0 { 0 } else { (d[j] * 64 + mx - 1) / mx } };
            let mut q: Vec<i64> = (0..m).map(|j| need(j) + r.int(0, 2)).collect();
            q[i] = (need(i) - r.int(0, 1)).max(0);
            if tr[i] >= d[i] && d[i] > 0 { tr[i] = d[i] - 1 }
            let topq = (0..m).map(need).max().unwrap();
            let qa = *r.pick(&[topq, (topq - 1).max(0), need(i), topq + 1]);
            let tra = *r.pick(&[0, 0, r_half(top), (top - 1).max(0)]);
            let g = |t: &[i64]| t.iter().map(|z| *z as S / 64.0).collect::<Vec<S>>();
            let all = |k: i64| vec![k; m];
            // reports: differences, tolerances, relative tolerances (in 64ths of the unit); parts in any order
            let us: Vec<U> = t.iter().map(|z| *z as U).collect();
            let ud: Vec<i64> = xc.iter().zip(&yc).map(|(a, b)| udist(*a, *b)).collect();
            let bag = ["iso", "sim", "she", "ref"].iter().any(|z| v.starts_with(z)) as i64;
            for k in 0..14 {
                let uf = u as f64;
                let (w, args, sc) = match k {
                    0 | 3 | 8 => ("rdiff", vec![xi.clone(), yi.clone()], uf),
                    1 | 4 | 10 => ("rtol", vec![t.clone()], uf),
                    2 | 6 | 12 => ("rtol", vec![all(t[0])], uf),
                    5 => ("rrel", vec![xi.clone(), yi.clone(), q.clone()], uf * 64.0),
                    7 => ("rrel", vec![xi.clone(), yi.clone(), all(q[0])], uf * 64.0),
                    9 => ("rtol", vec![ud.clone()], 1.0),
                    11 => ("rtol", vec![t.clone()], 1.0),
                    _ => ("rtol", vec![all(t[0])], 1.0),
                };
                if k == 9 && ud.iter().any(|z| *z > 100_000) { continue }
                rec.call("apx", w, v, n, &[bag, k as i64], &args, 0, || Raw(numbers(&x.report(&y, k, &f(&t), &g(&q), &us), sc)));
            }
            rec.call("apx", "abs", v, n, &[], &[xi.clone(), yi.clone(), t.clone()], 0, || two(x.abs(&y, &f(&t))));
            rec.call("apx", "abs", v, n, &[], &[yi.clone(), xi.clone(), t.clone()], 0, || two(y.abs(&x, &f(&t))));
            rec.call("apx", "abs", v, n, &[], &[xi.clone(), xi.clone(), all(0)], 0, || two(x.abs(&x, &f(&all(0)))));
            rec.call("apx", "abs", v, n, &[1], &[xi.clone(), yi.clone(), all(ta)], 0, || two(x.abs_all(&y, ta as S / u)));
            rec.call("apx", "abs", v, n, &[1], &[yi.clone(), xi.clone(), all(ta)], 0, || two(y.abs_all(&x, ta as S / u)));
            rec.call("apx", "rel", v, n, &[], &[xi.clone(), yi.clone(), tr.clone(), q.clone()], 0, || two(x.rel(&y, &f(&tr), &g(&q))));
            rec.call("apx", "rel", v, n, &[], &[yi.clone(), xi.clone(), tr.clone(), q.clone()], 0, || two(y.rel(&x, &f(&tr), &g(&q))));
            rec.call("apx", "rel", v, n, &[1], &[xi.clone(), yi.clone(), all(tra), all(qa)], 0, || two(x.rel_all(&y, tra as S / u, qa as S / 64.0)));
            rec.call("apx", "rel", v, n, &[1], &[yi.clone(), xi.clone(), all(tra), all(qa)], 0, || two(y.rel_all(&x, tra as S / u, qa as S / 64.0)));
        } else {
            // order of difference and tolerance only
            let d: Vec<S> = xc.iter().zip(&yc).map(|(a, b)| (a - b).abs()).collect();
            let i = rec.rng.below(m);
            let low = rec.rng.chance(2) && d[i] > 0.0;
            let t: Vec<S> = (0..m).map(|j| if j == i && low { nudge(d[j], -1) } else { d[j] }).collect();
            let k: Vec<i64> = (0..m).map(|j| (d[j] > t[j]) as i64).collect();
            rec.call("apx", "abs", v, n, &[], &[k.clone(), vec![0; m], vec![0; m]], 0, || two(x.abs(&y, &t)));
            rec.call("apx", "abs", v, n, &[], &[k.clone(), vec![0; m], vec![0; m]], 0, || two(y.abs(&x, &t)));
            let ta = t[i];
            let k: Vec<i64> = (0..m).map(|j| (d[j] > ta) as i64).collect();
            rec.call("apx", "abs", v, n, &[1], &[k.clone(), vec![0; m], vec![0; m]], 0, || two(x.abs_all(&y, ta)));
            rec.call("apx", "rel", v, n, &[1], &[k.clone(), vec![0; m], vec![0; m], vec![0; m]], 0, || two(x.rel_all(&y, ta, 0.0)));
            let mx: Vec<S> = xc.iter().zip(&yc).map(|(a, b)| a.abs().max(b.abs())).collect();
            let q: Vec<S> = (0..m).map(|j| if d[j] == 0.0 { 0.0 } else { nudge(d[j] / mx[j], if j == i && low { -4 } else { 4 }) }).collect();
            let k: Vec<i64> = (0..m).map(|j| (d[j] > mx[j] * q[j]) as i64).collect();
            let z = vec![0.0; m];
            rec.call("apx", "rel", v, n, &[], &[k.clone(), vec![0; m], vec![0; m], vec![0; m]], 0, || two(x.rel(&y, &z, &q)));
            rec.call("apx", "rel", v, n, &[], &[k.clone(), vec![0; m], vec![0; m], vec![0; m]], 0, || two(y.rel(&x, &z, &q)));
            let qa = q[i];
            let k: Vec<i64> = (0..m).map(|j| (d[j] > mx[j] * qa) as i64).collect();
            rec.call("apx", "rel", v, n, &[1], &[k.clone(), vec![0; m], vec![0; m], vec![0; m]], 0, || two(y.rel_all(&x, 0.0, qa)));
        }
        // a few units in the last place apart
        let r = &mut rec.rng;
        let px = fl(&p, k);
        let py: Vec<S> = match r.below(3) {
            0 => { let i = r.below(px.len()); let k = r.int(-40, 40); px.iter().enumerate().map(|(j, z)| if j == i { nudge(*z, k) } else { *z }).collect() }
            1 => px.iter().map(|z| nudge(*z, r.int(-40, 40))).collect(),
            _ => px.iter().map(|z| if r.chance(8) { -*z } else { nudge(*z, r.int(-2, 2)) }).collect(),
        };
        let y = T::build(&py);
        let yc = y.comps();
        if xc.iter().chain(&yc).any(|z| !(z.abs() < 1e20)) { return }
        let d: Vec<i64> = xc.iter().zip(&yc).map(|(a, b)| udist(*a, *b)).collect();
        let i = r.below(m);
        let mut u: Vec<i64> = d.iter().map(|z| (*z).max(0) + r.int(0, 2)).collect();
        u[i] = (d[i] - r.int(0, 1)).max(0);
        let big: Vec<i64> = d.iter().map(|_| r.chance(5) as i64).collect();
        let top = *d.iter().max().unwrap();
        let ua = *r.pick(&[top, (top - 1).max(0), d[i].max(0)]);
        let uu: Vec<U> = u.iter().map(|z| *z as U).collect();
        let bs: Vec<S> = big.iter().map(|z| if *z == 1 { 1e30 } else { 0.0 }).collect();
        // only their order matters
        let mut all: Vec<i64> = d.iter().chain(&u).copied().chain([ua, 0]).filter(|z| *z >= 0).collect();
        all.sort();
        all.dedup();
        let rk = |z: i64| if z < 0 { -1 } else { all.binary_search(&z).unwrap() as i64 };
        let (raw_d, raw_u) = (d.clone(), u.clone());
        let (d, u, uar): (Vec<i64>, Vec<i64>, i64) = (d.iter().map(|z| rk(*z)).collect(), u.iter().map(|z| rk(*z)).collect(), rk(ua));
        if raw_d.iter().all(|z| *z < 100_000) {
            let bag = ["iso", "sim", "she", "ref"].iter().any(|z| v.starts_with(z)) as i64;
            rec.call("apx", "rtol", v, n, &[bag, 9], &[raw_d.clone()], 0, || Raw(numbers(&x.report(&y, 9, &bs, &bs, &uu), 1.0)));
            rec.call("apx", "rtol", v, n, &[bag, 11], &[raw_u.clone()], 0, || Raw(numbers(&x.report(&y, 11, &bs, &bs, &uu), 1.0)));
        }
        rec.call("apx", "ulps", v, n, &[], &[d.clone(), big.clone(), u.clone()], 0, || two(x.ulps(&y, &bs, &uu)));
        rec.call("apx", "ulps", v, n, &[], &[d.clone(), big.clone(), u.clone()], 0, || two(y.ulps(&x, &bs, &uu)));
        rec.call("apx", "ulps", v, n, &[1], &[d.clone(), vec![0; m], vec![uar; m]], 0, || two(x.ulps_all(&y, 0.0, ua as U)));
        rec.call("apx", "ulps", v, n, &[1], &[d.clone(), vec![0; m], vec![uar; m]], 0, || two(y.ulps_all(&x, 0.0, ua as U)));
        rec.call("apx", "ulps", v, n, &[1], &[d.clone(), vec![1; m], vec![0; m]], 0, || two(x.ulps_all(&y, 1e30, 0)));
    }
    /// the numbers in a report, in order; `None` is -1
    fn numbers(t: &str, unit: f64) -> Vec<i64> {
        let c: Vec<char> = t.chars().collect();
        let (mut i, mut out) = (0, vec![]);
        while i < c.len() {
            let j = i;
            if c[i].is_alphabetic() || c[i] == '_' {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 }
                match c[j..i].iter().collect::<String>().as_str() {
                    "None" => out.push(-1),
                    "NaN" | "inf" => out.push(1_900_000_001),
                    _ => {}
                }
            } else if c[i].is_ascii_digit() || c[i] == '-' {
                i += 1;
                while i < c.len() && (c[i].is_ascii_digit() || matches!(c[i], '.' | 'e' | '-' | '+')) { i += 1 }
                let x = c[j..i].iter().collect::<String>().parse::<S>().unwrap_or(S::NAN) as f64 * unit;
                out.push(if x.fract() == 0.0 && x.abs() < 1e9 { x as i64 } else { 1_900_000_002 });
            } else {
                i += 1;
            }
        }
        out
    }
    fn r_half(x: i64) -> i64 { x / 2 }
    pub fn all(rec: &mut Rec) {
        macro_rules! run { ($($T:ty),* $(,)?) => {$( rec.next(); go::<$T>(rec); )*} }
        run!(Vector<S, 1>, Vector<S, 2>, Vector<S, 3>, Vector<S, 4>, Point<S, 1>, Point<S, 2>, Point<S, 3>, Point<S, 4>,
            Translation<S, 2>, Translation<S, 3>, Translation<S, 4>, Scale<S, 2>, Scale<S, 3>, Scale<S, 4>,
            Reflection<S, 2>, Reflection<S, 3>, Shear<S, 2>, Shear<S, 3>,
            Matrix<S, 1, 1>, Matrix<S, 1, 2>, Matrix<S, 1, 3>, Matrix<S, 1, 4>, Matrix<S, 2, 2>, Matrix<S, 2, 3>, Matrix<S, 2, 4>, Matrix<S, 3, 2>, Matrix<S, 3, 3>,
            Matrix<S, 3, 4>, Matrix<S, 4, 2>, Matrix<S, 4, 3>, Matrix<S, 4, 4>, Transform<S, 2, 3>, Transform<S, 3, 4>,
            Quaternion<S>, Complex<S>, Degrees<S>, Radians<S>, Euler<Degrees<S>>, Euler<Radians<S>>,
            Unit<Vector<S, 3>>, Unit<Quaternion<S>>, Unit<Complex<S>>,
            Rotation<S, 3>, Rotation<S, 2>, Isometry<S, 3>, Isometry<S, 2>, Similarity<S, 3>, Similarity<S, 2>, Perspective3<S>, Orthographic3<S>);
    }

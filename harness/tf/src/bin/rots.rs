//! Drivers: rotation constructors (C15), Euler angles (C16), viewing frames (C17).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../../../core/src/pjs.rs"]
mod pjs;
#[path = "../../../core/src/elem.rs"]
mod elem;
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use common::*;
use elem::*;
use pjs::*;
use std::f64::consts::PI;

impl<S: Sc + SimdScalarFloat, const N: usize> Pj for Rotation<S, N> {
    fn pj(&self, o: &mut Vec<i64>) { self.matrix().pj(o) }
}
fn cs(c: Q, s: Q) -> Vec<i64> { vec![c.r(), s.r()] }
/// exact rotation matrix about the unit vector u
fn rodr(u: &[Q], c: Q, s: Q) -> Vec<Q> {
    let k = [q(0), u[2], -u[1], -u[2], q(0), u[0], u[1], -u[0], q(0)];
    (0..9).map(|i| {
        let (col, row) = (i / 3, i % 3);
        (if col == row { c } else { q(0) }) + s * k[i] + (q(1) - c) * u[row] * u[col]
    }).collect()
}
fn mm(a: &[Q], b: &[Q]) -> Vec<Q> {
    (0..9).map(|i| { let (c, r) = (i / 3, i % 3); (0..3).fold(q(0), |t, k| t + a[k * 3 + r] * b[c * 3 + k]) }).collect()
}
fn mv(a: &[Q], v: &[Q]) -> Vec<Q> { (0..3).map(|r| (0..3).fold(q(0), |t, k| t + a[k * 3 + r] * v[k])).collect() }
fn uni<S: Fl>(u: &[Q]) -> Unit<Vector3<S>> { Unit::from_value_unchecked(vec::<S, 3>(u)) }
fn ob<S: Fl>(a: S) -> [i64; 2] { [S::of(a.to().cos()).res(), S::of(a.to().sin()).res()] }
/// an angle, possibly with whole turns added
fn ang(rec: &mut Rec, fine: bool) -> (Q, Q, f64) {
    let (c, s, th) = angle(&mut rec.rng, fine);
    (c, s, if fine && rec.rng.chance(4) { th + 2.0 * PI * rec.rng.int(-2, 2) as f64 } else { th })
}
fn plane<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let (c, s, th) = ang(rec, fine);
    let a = [cs(c, s)];
    hint(c.1);
    let rad = Radians(S::of(th));
    let deg = Degrees(S::of(th.to_degrees()));
    rec.call("rot", "rot2", "mat2", n, &[], &a, 0, || Matrix2x2::from_angle(rad));
    rec.call("rot", "rot2", "mat2d", n, &[], &a, 0, || Matrix2x2::from_angle(deg));
    rec.call("rot", "rot2", "rot2", n, &[], &a, 0, || Rotation2::from_angle(rad));
    rec.call("rot", "rot2", "rot2d", n, &[], &a, 0, || Rotation2::from_angle(deg));
    rec.call("rot", "rot2", "tomat", n, &[], &a, 0, || Rotation2::from_angle(rad).to_matrix());
    rec.call("rot", "rot2", "asref", n, &[], &a, 0, || *AsRef::<Matrix2x2<S>>::as_ref(&Rotation2::from_angle(rad)));
    rec.call("rot", "rot2aff", "mat3", n, &[], &a, 0, || Matrix3x3::from_affine_angle(rad));
    rec.call("rot", "rot2aff", "mat3d", n, &[], &a, 0, || Matrix3x3::from_affine_angle(deg));
    let r2 = Rotation2::<S>::from_angle(rad);
    rec.call("rot", "rot2aff", "aff", n, &[], &a, 0, || r2.to_affine_matrix());
    rec.call("rot", "rot2aff", "tf", n, &[], &a, 0, || *r2.to_transform().matrix());
    rec.call("rot", "rot2aff", "from", n, &[], &a, 0, || Matrix3x3::from(r2));
    rec.call("rot", "rot2aff", "fromr", n, &[], &a, 0, || Matrix3x3::from(&r2));
    rec.call("rot", "angle2", "m", n, &[], &a, 0, || { let x = r2.angle().0; let o = ob(x); Raw(vec![o[0], o[1], in_(x, -PI, PI)]) });
    let m2 = [vec![c.r(), s.r(), (-s).r(), c.r()]];
    rec.call("rot", "inverse", "m", n, &[2], &m2, 0, || r2.inverse());
    rec.call("rot", "inverse", "mut", n, &[2], &m2, 0, || { let mut t = r2; t.inverse_mut(); t });
    // turning one vector into another
    let (c2, s2, _) = ang(rec, fine);
    let (k, l) = (Q(rec.rng.int(1, 6), 1 << rec.rng.below(3)), Q(rec.rng.int(1, 6), 1 << rec.rng.below(3)));
    let (v, w) = (vec![c * k, s * k], vec![c2 * l, s2 * l]);
    hint(c.1 * c2.1);
    let va = [rr(&v), rr(&w), vec![k.r(), l.r()]];
    let (x, y) = (vec::<S, 2>(&v), vec::<S, 2>(&w));
    let ua = [rr(&[c, s]), rr(&[c2, s2]), vec![1, 1]];
    let (ux, uy) = (Unit::from_value(vec::<S, 2>(&[c, s])), Unit::from_value(vec::<S, 2>(&[c2, s2])));
    rec.call("rot", "between2", "mat", n, &[], &va, 0, || Matrix2x2::rotation_between(&x, &y));
    rec.call("rot", "between2", "rot", n, &[], &va, 0, || Rotation2::rotation_between(&x, &y));
    rec.call("rot", "between2", "matu", n, &[], &ua, 0, || Matrix2x2::rotation_between_axis(&ux, &uy));
    rec.call("rot", "between2", "rotu", n, &[], &ua, 0, || Rotation2::rotation_between_axis(&ux, &uy));
    let mut mag = || S::of(2f64.powi(rec.rng.int(-40, 40) as i32 / if fine { 1 } else { 4 }));
    let (xk, yk) = (x * mag(), y * mag());
    rec.call("rot", "between2", "matk", n, &[], &va, 0, || Matrix2x2::rotation_between(&xk, &yk));
    rec.call("rot", "between2", "rotk", n, &[], &va, 0, || Rotation2::rotation_between(&xk, &yk));
    let z = Vector2::<S>::zero();
    rec.call("rot", "ident", "mz", n, &[2], &[], 0, || Matrix2x2::rotation_between(&x, &z));
    rec.call("rot", "ident", "rz", n, &[2], &[], 0, || Rotation2::rotation_between(&z, &y));
    rec.call("rot", "ident", "id2", n, &[2], &[], 0, || Rotation2::<S>::identity());
    rec.call("rot", "ident", "id3", n, &[3], &[], 0, || Rotation3::<S>::identity());
    rec.call("rot", "identaff", "id3", n, &[3], &[], 0, || Rotation3::<S>::identity().to_affine_matrix());
    hint(1);
}
fn space<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let (c, s, th) = ang(rec, fine);
    let u = uvec(&mut rec.rng, fine);
    let m = rodr(&u, c, s);
    let a = [cs(c, s), rr(&u)];
    let (rad, deg) = (Radians(S::of(th)), Degrees(S::of(th.to_degrees())));
    let ax = uni::<S>(&u);
    hint(lcd(&m));
    rec.call("rot", "axis", "mat", n, &[], &a, 0, || Matrix3x3::from_axis_angle(&ax, rad));
    rec.call("rot", "axis", "matd", n, &[], &a, 0, || Matrix3x3::from_axis_angle(&ax, deg));
    rec.call("rot", "axis", "rot", n, &[], &a, 0, || Rotation3::from_axis_angle(&ax, rad));
    rec.call("rot", "axis", "rotd", n, &[], &a, 0, || Rotation3::from_axis_angle(&ax, deg));
    rec.call("rot", "axis", "quat", n, &[], &a, 0, || Quaternion::from_axis_angle(&ax, rad).to_matrix());
    rec.call("rot", "axisaff", "mat", n, &[], &a, 0, || Matrix4x4::from_affine_axis_angle(&ax, rad));
    rec.call("rot", "axisaff", "matd", n, &[], &a, 0, || Matrix4x4::from_affine_axis_angle(&ax, deg));
    let r3 = Rotation3::<S>::from_axis_angle(&ax, rad);
    rec.call("rot", "axisaff", "rot", n, &[], &a, 0, || r3.to_affine_matrix());
    rec.call("rot", "axisaff", "tf", n, &[], &a, 0, || *r3.to_transform().matrix());
    rec.call("rot", "axisaff", "from", n, &[], &a, 0, || Matrix4x4::from(r3));
    rec.call("rot", "axisaff", "fromr", n, &[], &a, 0, || Matrix4x4::from(&r3));
    for k in 1..=3usize {
        let ka = [cs(c, s)];
        hint(c.1);
        rec.call("rot", "axisk", "mat", n, &[k as i64], &ka, 0, || match k { 1 => Matrix3x3::from_angle_x(rad), 2 => Matrix3x3::from_angle_y(rad), _ => Matrix3x3::from_angle_z(rad) });
        rec.call("rot", "axisk", "rotd", n, &[k as i64], &ka, 0, || match k { 1 => Rotation3::from_angle_x(deg), 2 => Rotation3::from_angle_y(deg), _ => Rotation3::from_angle_z(deg) });
        rec.call("rot", "axiskaff", "mat", n, &[k as i64], &ka, 0, || match k { 1 => Matrix4x4::from_affine_angle_x(deg), 2 => Matrix4x4::from_affine_angle_y(deg), _ => Matrix4x4::from_affine_angle_z(deg) });
    }
    hint(lcd(&m));
    let ma = [rr(&m)];
    rec.call("rot", "inverse", "m", n, &[3], &ma, 0, || r3.inverse());
    rec.call("rot", "inverse", "mut", n, &[3], &ma, 0, || { let mut t = r3; t.inverse_mut(); t });
    // the angle and the axis come back; cos alone is well conditioned at 0 and pi
    if s.0 != 0 {
        hint(c.1);
        rec.call("rot", "angle3", "m", n, &[], &a, 0, || { let x = r3.angle().0; let o = ob(x); Raw(vec![o[0], o[1], in_(x, 0.0, PI)]) });
    } else {
        rec.call("rot", "angle3", "m", n, &[], &a, 0, || { let x = r3.angle().0; let o = ob(x); Raw(vec![o[0], if x.to().sin().abs() < 1e-2 { 0 } else { IRR }, in_(x, 0.0, PI)]) });
    }
    hint(lcd(&u));
    let sign = if s.0 < 0 { q(-1) } else { q(1) };
    let aa = [a[0].clone(), a[1].clone(), vec![sign.r()]];
    // at half turns the antisymmetric part is rounding noise
    if s.0 != 0 || c.0 > 0 && th == 0.0 {
        rec.call("rot", "axisof", "m", n, &[], &aa, 0, || r3.axis().map(|x| x.into_inner()));
        hint(lcd(&u) * c.1);
        rec.call("rot", "axang", "m", n, &[], &aa, 0, || r3.axis_angle().map(|(v, t)| { let w = v.into_inner(); let o = ob(t.0); Raw(vec![w[0].res(), w[1].res(), w[2].res(), o[0], o[1], in_(t.0, 0.0, PI)]) }));
    }
    hint(1);
    // quaternions
    let qv = uquat(&mut rec.rng, fine);
    let mq = rotq(&qv);
    hint(lcd(&mq));
    let qa = [rr(&qv)];
    let qq = quat::<S>(&qv);
    rec.call("rot", "fromq", "m", n, &[], &qa, 0, || Rotation3::from_quaternion(&qq));
    rec.call("rot", "fromq", "from", n, &[], &qa, 0, || Rotation3::from(qq));
    rec.call("rot", "fromq", "fromr", n, &[], &qa, 0, || Rotation3::from(&qq));
    let rq = Rotation3::from(qq);
    let l2 = lcd(&qv);
    hint(l2 * l2);
    let mqa = [rr(&mq)];
    rec.call("rot", "toq", "v", n, &[], &mqa, 0, || prods(&Quaternion::from(rq)));
    rec.call("rot", "toq", "r", n, &[], &mqa, 0, || prods(&Quaternion::from(&rq)));
    // turning one vector into another
    let e1 = uvec(&mut rec.rng, fine);
    let (e2, d) = match rec.rng.below(8) {
        0 => (e1.clone(), 0),
        1 => (e1.iter().map(|x| -*x).collect(), 1),
        _ => (uvec(&mut rec.rng, fine), 0),
    };
    let dotp = e1[0] * e2[0] + e1[1] * e2[1] + e1[2] * e2[2];
    let d = if dotp == q(-1) { 1 } else { d };
    let par = dotp == q(1) || dotp == q(-1);
    let pw = |r: &mut Rng| Q(1 << r.below(3), 1 << r.below(3));
    let (k, l) = if par { (pw(&mut rec.rng), pw(&mut rec.rng)) } else { (Q(rec.rng.int(1, 5), 1 << rec.rng.below(2)), Q(rec.rng.int(1, 5), 1 << rec.rng.below(2))) };
    let (k, l) = (Q::red(k.0, k.1), Q::red(l.0, l.1));
    let v: Vec<Q> = e1.iter().map(|x| *x * k).collect();
    let w: Vec<Q> = e2.iter().map(|x| *x * l).collect();
    let cr = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]];
    let den = if par { 1 } else { lcd(&cr) * lcd(&cr) * (q(1) + dotp).0 };
    if den < if fine { 10_000_000 } else { 2000 } {
        hint(den);
        let va = [rr(&v), rr(&w), vec![k.r(), l.r()]];
        let ua = [rr(&e1), rr(&e2), vec![1, 1]];
        let (x, y, ux, uy) = (vec::<S, 3>(&v), vec::<S, 3>(&w), uni::<S>(&e1), uni::<S>(&e2));
        rec.call("rot", "between3", "mat", n, &[d], &va, 0, || Matrix3x3::rotation_between(&x, &y));
        rec.call("rot", "between3", "rot", n, &[d], &va, 0, || Rotation3::rotation_between(&x, &y));
        let mut mag = || S::of(2f64.powi(rec.rng.int(-40, 40) as i32 / if fine { 1 } else { 4 }));
        let (xk, yk) = (x * mag(), y * mag());
        rec.call("rot", "between3", "matk", n, &[d], &va, 0, || Matrix3x3::rotation_between(&xk, &yk));
        rec.call("rot", "between3", "rotk", n, &[d], &va, 0, || Rotation3::rotation_between(&xk, &yk));
        rec.call("rot", "between3", "matu", n, &[d], &ua, 0, || Matrix3x3::rotation_between_axis(&ux, &uy));
        rec.call("rot", "between3", "rotu", n, &[d], &ua, 0, || Rotation3::rotation_between_axis(&ux, &uy));
        hint(1);
    }
    // nearly parallel: the identity, up to rounding
    let x = vec::<S, 3>(&v);
    let ulp = S::machine_epsilon().to();
    let mut y = x;
    for i in 0..3 {
        y[i] = S::of(y[i].to() * (1.0 + ulp * rec.rng.int(-3, 3) as f64));
    }
    let (ux, uy) = (Unit::from_value(x), Unit::from_value(y));
    // (the inverse cosine leaves half of the digits)
    let g = if fine { 1e5 } else { 1e2 };
    let coarse = |m: Matrix3x3<S>| m.map(|t| S::of((t.to() * g).round() / g));
    rec.call("rot", "ident", "near", n, &[3], &[], 0, || Matrix3x3::rotation_between(&x, &y).map(coarse));
    rec.call("rot", "ident", "nearu", n, &[3], &[], 0, || Matrix3x3::rotation_between_axis(&ux, &uy).map(coarse));
    rec.call("rot", "ident", "nearr", n, &[3], &[], 0, || Rotation3::rotation_between(&x, &y).map(|r| coarse(r.to_matrix())));
    let z = Vector3::<S>::zero();
    rec.call("rot", "ident", "mz", n, &[3], &[], 0, || Matrix3x3::rotation_between(&z, &x));
    rec.call("rot", "ident", "rz", n, &[3], &[], 0, || Rotation3::rotation_between(&x, &z));
    // a rotation undone has no angle left
    rec.call("rot", "angle3", "undo", n, &[], &[vec![1, 0]], 0, || { let x = (r3 * r3.inverse()).angle().0; let o = ob(x); Raw(vec![o[0], if x.to().sin().abs() < 1e-2 { 0 } else { IRR }, in_(x, 0.0, PI)]) });
}
/// (R - I) / h
fn tangent<S: Fl>(m: &Matrix3x3<S>, up: f64, l: i64) -> Raw {
    Raw((0..9).map(|i| { let (c, r) = (i / 3, i % 3); linq::<S>((m[c][r].to() - if c == r { 1.0 } else { 0.0 }) * up, l, lintol::<S>() * (1.0 + l as f64 / 8.0)) }).collect())
}
fn tangent4<S: Fl>(m: &Matrix4x4<S>, up: f64, l: i64) -> Raw {
    tangent(&Matrix3x3::new(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]), up, l)
}
fn tangent2<S: Fl>(m: &Matrix2x2<S>, up: f64, l: i64) -> Raw {
    Raw((0..4).map(|i| { let (c, r) = (i / 2, i % 2); linq::<S>((m[c][r].to() - if c == r { 1.0 } else { 0.0 }) * up, l, lintol::<S>() * (1.0 + l as f64 / 8.0)) }).collect())
}
/// rotations by infinitesimal angles, and between nearly (anti)parallel directions
fn tiny<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let u = uvec(&mut rec.rng, fine);
    let ax = uni::<S>(&u);
    let l = lcd(&u);
    let m = rec.rng.int(1, 3) * if rec.rng.chance(2) { 1 } else { -1 };
    let k = rec.rng.int(if fine { 24 } else { 12 }, if fine { 32 } else { 14 }) as i32;
    let (up, h) = (2f64.powi(k), 2f64.powi(-k));
    let th = m as f64 * h;
    let (rad, deg) = (Radians(S::of(th)), Degrees(S::of(th.to_degrees())));
    let a = [rr(&u), vec![md(m as i128)]];
    rec.call("rot", "gen", "mat", n, &[], &a, 0, || tangent(&Matrix3x3::from_axis_angle(&ax, rad), up, l));
    rec.call("rot", "gen", "matd", n, &[], &a, 0, || tangent(&Matrix3x3::from_axis_angle(&ax, deg), up, l));
    let r3 = Rotation3::<S>::from_axis_angle(&ax, rad);
    rec.call("rot", "gen", "rot", n, &[], &a, 0, || tangent(r3.matrix(), up, l));
    rec.call("rot", "gen", "rotd", n, &[], &a, 0, || tangent(Rotation3::from_axis_angle(&ax, deg).matrix(), up, l));
    rec.call("rot", "gen", "aff", n, &[], &a, 0, || tangent4(&Matrix4x4::from_affine_axis_angle(&ax, rad), up, l));
    rec.call("rot", "gen", "quat", n, &[], &a, 0, || tangent(&Quaternion::from_axis_angle(&ax, rad).to_matrix(), up, l));
    rec.call("rot", "gen", "fromq", n, &[], &a, 0, || tangent(Rotation3::from_quaternion(&Quaternion::from_axis_angle(&ax, rad)).matrix(), up, l));
    rec.call("rot", "gen", "inv", n, &[], &[a[0].clone(), vec![md(-m as i128)]], 0, || tangent(r3.inverse().matrix(), up, l));
    rec.call("rot", "gen", "iso", n, &[], &a, 0, || tangent4(&Isometry3::from_axis_angle(&ax, rad).to_affine_matrix(), up, l));
    rec.call("rot", "gen", "sim", n, &[], &a, 0, || tangent4(&Similarity3::from_axis_angle(&ax, rad).to_affine_matrix(), up, l));
    rec.call("rot", "genq", "toq", n, &[], &a, 0, || qtangent(Quaternion::from(r3), up, l));
    rec.call("rot", "genq", "axang", n, &[], &a, 0, || qtangent(Quaternion::from_axis_angle(&ax, rad), up, l));
    for j in 1..=3usize {
        let e = [vec![(j == 1) as i64, (j == 2) as i64, (j == 3) as i64], vec![md(m as i128)]];
        rec.call("rot", "gen", "mk", n, &[], &e, 0, || tangent(&match j { 1 => Matrix3x3::from_angle_x(rad), 2 => Matrix3x3::from_angle_y(rad), _ => Matrix3x3::from_angle_z(rad) }, up, 1));
        rec.call("rot", "gen", "rk", n, &[], &e, 0, || tangent(match j { 1 => Rotation3::from_angle_x(deg), 2 => Rotation3::from_angle_y(deg), _ => Rotation3::from_angle_z(deg) }.matrix(), up, 1));
        rec.call("rot", "gen", "ak", n, &[], &e, 0, || tangent4(&match j { 1 => Matrix4x4::from_affine_angle_x(rad), 2 => Matrix4x4::from_affine_angle_y(rad), _ => Matrix4x4::from_affine_angle_z(rad) }, up, 1));
    }
    // reading them back
    rec.call("rot", "genlen", "m", n, &[], &[vec![m.abs()]], 0, || Raw(vec![linq::<S>(r3.angle().0.to() * up, 1, lintol::<S>())]));
    let us: Vec<Q> = u.iter().map(|x| if m < 0 { -*x } else { *x }).collect();
    rec.call("rot", "same", "axis", n, &[], &[rr(&us)], 0, || r3.axis().map(|x| { let w = x.into_inner(); Raw((0..3).map(|i| linq::<S>(w[i].to(), l, lintol::<S>())).collect()) }));
    rec.call("rot", "same", "axang", n, &[], &[rr(&us)], 0, || r3.axis_angle().map(|(x, _)| { let w = x.into_inner(); Raw((0..3).map(|i| linq::<S>(w[i].to(), l, lintol::<S>())).collect()) }));
    // near half a turn
    if fine {
        let k = rec.rng.int(15, 18) as i32;
        let (up, h) = (2f64.powi(k), 2f64.powi(-k));
        let rp = Rotation3::<S>::from_axis_angle(&ax, Radians(S::of(PI - m as f64 * h)));
        rec.call("rot", "genlen", "half", n, &[], &[vec![m.abs()]], 0, || Raw(vec![linq::<S>((PI - rp.angle().0.to()) * up, 1, 1e-2)]));
        rec.call("rot", "same", "axhalf", n, &[], &[rr(&us)], 0, || rp.axis().map(|x| { let w = x.into_inner(); Raw((0..3).map(|i| linq::<S>(w[i].to(), l, 1e-2)).collect()) }));
    }
    // a frame: the direction v turns about the axis b (perpendicular to it)
    let fr = loop { let fr = rotq(&uquat(&mut rec.rng, fine)); if lcd(&fr) <= if fine { 120 } else { 25 } { break fr } };
    let (v, b): (Vec<Q>, Vec<Q>) = (fr[0..3].to_vec(), fr[3..6].to_vec());
    // b x v = -(third column)
    let t: Vec<f64> = fr[6..9].iter().map(|x| -x.f()).collect();
    let lb = lcd(&fr);
    let mut mag = || 2f64.powi(rec.rng.int(-20, 20) as i32 / if fine { 1 } else { 4 });
    let (g1, g2) = (mag(), mag());
    let wv = |ct: f64, st: f64, g: f64| Vector3::new(S::of(g * (v[0].f() * ct + t[0] * st)), S::of(g * (v[1].f() * ct + t[1] * st)), S::of(g * (v[2].f() * ct + t[2] * st)));
    let ba = [rr(&b), vec![md(m as i128)]];
    let (x, y) = (wv(1.0, 0.0, g1), wv(th.cos(), th.sin(), g2));
    let (ux, uy) = (Unit::from_value(x), Unit::from_value(y));
    rec.call("rot", "gen", "btw", n, &[], &ba, 0, || Matrix3x3::rotation_between(&x, &y).map(|r| tangent(&r, up, lb)));
    rec.call("rot", "gen", "btwu", n, &[], &ba, 0, || Matrix3x3::rotation_between_axis(&ux, &uy).map(|r| tangent(&r, up, lb)));
    rec.call("rot", "gen", "btwr", n, &[], &ba, 0, || Rotation3::rotation_between(&x, &y).map(|r| tangent(r.matrix(), up, lb)));
    rec.call("rot", "gen", "btwru", n, &[], &ba, 0, || Rotation3::rotation_between_axis(&ux, &uy).map(|r| tangent(r.matrix(), up, lb)));
    rec.call("rot", "gen", "btwi", n, &[], &ba, 0, || Isometry3::rotation_between_axis(&ux, &uy).map(|r| tangent4(&r.to_affine_matrix(), up, lb)));
    rec.call("rot", "genq", "btw", n, &[], &ba, 0, || Quaternion::rotation_between(&x, &y).map(|r| qtangent(r, up, lb)));
    rec.call("rot", "genq", "btwu", n, &[], &ba, 0, || Quaternion::rotation_between_axis(&ux, &uy).map(|r| qtangent(r, up, lb)));
    if fine {
        let k = rec.rng.int(15, 18) as i32;
        let (up, h) = (2f64.powi(k), 2f64.powi(-k));
        let y = wv(-(m as f64 * h).cos(), (m as f64 * h).sin(), g2);
        let uy = Unit::from_value(y);
        // (R - (2 b b^T - I)) / h
        let anti = |r: &Matrix3x3<S>| Raw((0..9).map(|i| { let (c, w) = (i / 3, i % 3); linq::<S>((r[c][w].to() - 2.0 * b[c].f() * b[w].f() + if c == w { 1.0 } else { 0.0 }) * up, lb, 1e-2) }).collect());
        if lb < 30 {
            rec.call("rot", "gen", "anti", n, &[], &ba, 0, || Matrix3x3::rotation_between(&x, &y).map(|r| anti(&r)));
            rec.call("rot", "gen", "antiu", n, &[], &ba, 0, || Matrix3x3::rotation_between_axis(&ux, &uy).map(|r| anti(&r)));
            rec.call("rot", "gen", "antir", n, &[], &ba, 0, || Rotation3::rotation_between(&x, &y).map(|r| anti(r.matrix())));
        }
    }
    // the plane
    let ma = [vec![md(m as i128)]];
    let r2 = Rotation2::<S>::from_angle(rad);
    rec.call("rot", "gen2", "mat", n, &[], &ma, 0, || tangent2(&Matrix2x2::from_angle(rad), up, 1));
    rec.call("rot", "gen2", "rotd", n, &[], &ma, 0, || tangent2(Rotation2::from_angle(deg).matrix(), up, 1));
    rec.call("rot", "gen2", "rot", n, &[], &ma, 0, || tangent2(r2.matrix(), up, 1));
    rec.call("rot", "genlen", "rot2", n, &[], &ma, 0, || Raw(vec![linq::<S>(r2.angle().0.to() * up, 1, lintol::<S>())]));
    let (c, s, _) = angle(&mut rec.rng, fine);
    let (x, y) = (Vector2::new(S::of(c.f() * g1), S::of(s.f() * g1)), Vector2::new(S::of((c.f() * th.cos() - s.f() * th.sin()) * g2), S::of((s.f() * th.cos() + c.f() * th.sin()) * g2)));
    let (ux, uy) = (Unit::from_value(x), Unit::from_value(y));
    rec.call("rot", "gen2", "btw", n, &[], &ma, 0, || tangent2(&Matrix2x2::rotation_between(&x, &y), up, 1));
    rec.call("rot", "gen2", "btwu", n, &[], &ma, 0, || tangent2(&Matrix2x2::rotation_between_axis(&ux, &uy), up, 1));
    rec.call("rot", "gen2", "btwr", n, &[], &ma, 0, || tangent2(Rotation2::rotation_between(&x, &y).matrix(), up, 1));
    rec.call("rot", "gen2", "btwru", n, &[], &ma, 0, || tangent2(Rotation2::rotation_between_axis(&ux, &uy).matrix(), up, 1));
}
/// Euler angles of infinitesimal rotations
fn tinyeul<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let k = rec.rng.int(if fine { 24 } else { 12 }, if fine { 32 } else { 14 }) as i32;
    let (up, h) = (2f64.powi(k), 2f64.powi(-k));
    let g = [rec.rng.int(-3, 3), rec.rng.int(-3, 3), rec.rng.int(-3, 3)];
    let a = [vec![md(g[0] as i128), md(g[1] as i128), md(g[2] as i128)], vec![1]];
    let f = |i: usize| Radians(S::of(g[i] as f64 * h));
    let er = Euler::new(f(0), f(1), f(2));
    let dg = |i: usize| Degrees(S::of((g[i] as f64 * h).to_degrees()));
    let ed = Euler::new(dg(0), dg(1), dg(2));
    rec.call("rot", "gen", "eul", n, &[], &a, 0, || tangent(&er.to_matrix(), up, 1));
    rec.call("rot", "gen", "euld", n, &[], &a, 0, || tangent(&ed.to_matrix(), up, 1));
    rec.call("rot", "gen", "eulaff", n, &[], &a, 0, || tangent4(&er.to_affine_matrix(), up, 1));
    rec.call("rot", "gen", "eulrot", n, &[], &a, 0, || tangent(Rotation3::from_euler_angles(&er).matrix(), up, 1));
    let r3 = Rotation3::from(er);
    let back = |e: Euler<Radians<S>>| Raw([e.x, e.y, e.z].iter().map(|t| linq::<S>(t.0.to() * up, 1, lintol::<S>())).collect());
    rec.call("rot", "same", "eulrot", n, &[], &a[..1], 0, || back(r3.euler_angles()));
    rec.call("rot", "same", "eulq", n, &[], &a[..1], 0, || back(Euler::from(Quaternion::from(r3))));
}
/// a turn a little off a quarter turn, a half turn or none: cosine, sine, angle
fn quarter(rec: &mut Rec, fine: bool) -> (Q, Q, f64) {
    let m = if fine { rec.rng.int(20, 2500) } else { rec.rng.int(6, 14) };
    let d = m * m + 1;
    let (mut c, mut s) = (m * m - 1, 2 * m);
    if rec.rng.chance(2) { s = -s; }
    let t = (s as f64).atan2(c as f64);
    let k = rec.rng.int(0, 3);
    for _ in 0..k { let x = c; c = -s; s = x; }
    (Q::red(c, d), Q::red(s, d), t + k as f64 * PI / 2.0)
}
fn nearq<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let (c, s, th) = quarter(rec, n == "f64");
    let (rad, deg) = (Radians(S::of(th)), Degrees(S::of(th.to_degrees())));
    let a = [cs(c, s)];
    hint(c.1);
    rec.call("rot", "rot2", "qmat2", n, &[], &a, 0, || Matrix2x2::from_angle(rad));
    rec.call("rot", "rot2", "qrot2d", n, &[], &a, 0, || Rotation2::from_angle(deg));
    rec.call("rot", "rot2aff", "qmat3", n, &[], &a, 0, || Matrix3x3::from_affine_angle(rad));
    for k in 1..=3usize {
        rec.call("rot", "axisk", "qmat", n, &[k as i64], &a, 0, || match k { 1 => Matrix3x3::from_angle_x(rad), 2 => Matrix3x3::from_angle_y(rad), _ => Matrix3x3::from_angle_z(rad) });
        rec.call("rot", "axisk", "qrot", n, &[k as i64], &a, 0, || match k { 1 => Rotation3::from_angle_x(rad), 2 => Rotation3::from_angle_y(rad), _ => Rotation3::from_angle_z(rad) });
        rec.call("rot", "axiskaff", "qmat", n, &[k as i64], &a, 0, || match k { 1 => Matrix4x4::from_affine_angle_x(rad), 2 => Matrix4x4::from_affine_angle_y(rad), _ => Matrix4x4::from_affine_angle_z(rad) });
    }
    let mut u = qs(&[0, 0, 0]);
    if n == "f64" && rec.rng.chance(2) {
        u = uvec(&mut rec.rng, false);
    } else {
        u[rec.rng.below(3)] = q(if rec.rng.chance(2) { 1 } else { -1 });
    }
    let ax = uni::<S>(&u);
    let a = [cs(c, s), rr(&u)];
    hint(lcd(&rodr(&u, c, s)));
    rec.call("rot", "axis", "qmat", n, &[], &a, 0, || Matrix3x3::from_axis_angle(&ax, rad));
    rec.call("rot", "axis", "qrot", n, &[], &a, 0, || Rotation3::from_axis_angle(&ax, rad));
    rec.call("rot", "axis", "qquat", n, &[], &a, 0, || Quaternion::from_axis_angle(&ax, rad).to_matrix());
    rec.call("rot", "axisaff", "qmat", n, &[], &a, 0, || Matrix4x4::from_affine_axis_angle(&ax, rad));
    let r3 = Rotation3::<S>::from_axis_angle(&ax, rad);
    rec.call("rot", "axis", "qrt", n, &[], &a, 0, || Rotation3::from_quaternion(&Quaternion::from(r3)));
    hint(1);
}
fn nearqeul<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let w = rec.rng.below(3);
    let mut g = [(q(1), q(0), 0.0); 3];
    for i in 0..3 {
        g[i] = if i == w { quarter(rec, fine) } else { angle(&mut rec.rng, false) };
        // few multiples of a small turn apart from the one at hand
        if !fine && i != w {
            let k = rec.rng.int(0, 3);
            let t = [(1, 0), (0, 1), (-1, 0), (0, -1)][k as usize];
            g[i] = (q(t.0), q(t.1), k as f64 * PI / 2.0);
        }
    }
    let ex = [qs(&[1, 0, 0]), qs(&[0, 1, 0]), qs(&[0, 0, 1])];
    let f: Vec<Vec<Q>> = (0..3).map(|i| rodr(&ex[i], g[i].0, g[i].1)).collect();
    let m = mm(&f[0], &mm(&f[1], &f[2]));
    hint(lcd(&m));
    let a = [cs(g[0].0, g[0].1), cs(g[1].0, g[1].1), cs(g[2].0, g[2].1)];
    let er = Euler::new(Radians(S::of(g[0].2)), Radians(S::of(g[1].2)), Radians(S::of(g[2].2)));
    let ed = Euler::new(Degrees(S::of(g[0].2.to_degrees())), Degrees(S::of(g[1].2.to_degrees())), Degrees(S::of(g[2].2.to_degrees())));
    rec.call("rot", "euler", "qrad", n, &[], &a, 0, || er.to_matrix());
    rec.call("rot", "euler", "qdeg", n, &[], &a, 0, || Matrix3x3::from_euler_angles(&ed));
    rec.call("rot", "euler", "qrot", n, &[], &a, 0, || Rotation3::from_euler_angles(&er));
    rec.call("rot", "euleraff", "qrad", n, &[], &a, 0, || er.to_affine_matrix());
    rec.call("rot", "euleraff", "qdeg", n, &[], &a, 0, || Matrix4x4::from_euler_angles(&ed));
    let r3 = Rotation3::from(er);
    let ma = [rr(&m)];
    rec.call("rot", "eulerrt", "qrot", n, &[], &ma, 0, || r3.euler_angles().to_matrix());
    rec.call("rot", "eulerrt", "qquat", n, &[], &ma, 0, || Euler::from(Quaternion::from(r3)).to_matrix());
    hint(1);
}
fn c15(rec: &mut Rec) {
    for it in 0..rec.iters(700, 8000) {
        rec.next();
        if it % 2 == 0 { tiny::<f64>(rec); }
        if it % 4 == 1 { tiny::<f32>(rec); }
        if it % 2 == 1 { nearq::<f64>(rec); }
        if it % 6 == 4 { nearq::<f32>(rec); }
        plane::<f64>(rec);
        space::<f64>(rec);
        if it % 3 == 0 {
            plane::<f32>(rec);
            space::<f32>(rec);
        }
    }
}
fn euler<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let g = [ang(rec, fine), ang(rec, fine), ang(rec, fine)];
    let ex = [qs(&[1, 0, 0]), qs(&[0, 1, 0]), qs(&[0, 0, 1])];
    let f: Vec<Vec<Q>> = (0..3).map(|i| rodr(&ex[i], g[i].0, g[i].1)).collect();
    let m = mm(&f[0], &mm(&f[1], &f[2]));
    hint(lcd(&m));
    let a = [cs(g[0].0, g[0].1), cs(g[1].0, g[1].1), cs(g[2].0, g[2].1)];
    let er = Euler::new(Radians(S::of(g[0].2)), Radians(S::of(g[1].2)), Radians(S::of(g[2].2)));
    let ed = Euler::new(Degrees(S::of(g[0].2.to_degrees())), Degrees(S::of(g[1].2.to_degrees())), Degrees(S::of(g[2].2.to_degrees())));
    rec.call("rot", "euler", "rad", n, &[], &a, 0, || er.to_matrix());
    rec.call("rot", "euler", "deg", n, &[], &a, 0, || ed.to_matrix());
    rec.call("rot", "euler", "from", n, &[], &a, 0, || Matrix3x3::from(er));
    rec.call("rot", "euler", "fromr", n, &[], &a, 0, || Matrix3x3::from(&ed));
    rec.call("rot", "euler", "rot", n, &[], &a, 0, || Rotation3::from_euler_angles(&er));
    rec.call("rot", "euler", "rotd", n, &[], &a, 0, || Rotation3::from_euler_angles(&ed));
    rec.call("rot", "euler", "rotf", n, &[], &a, 0, || Rotation3::from(er));
    rec.call("rot", "euler", "rotfr", n, &[], &a, 0, || Rotation3::from(&ed));
    rec.call("rot", "euler", "m3", n, &[], &a, 0, || Matrix3x3::from_euler_angles(&er));
    rec.call("rot", "euler", "m3d", n, &[], &a, 0, || Matrix3x3::from_euler_angles(&ed));
    rec.call("rot", "euleraff", "m4", n, &[], &a, 0, || Matrix4x4::from_euler_angles(&er));
    rec.call("rot", "euleraff", "m4d", n, &[], &a, 0, || Matrix4x4::from_euler_angles(&ed));
    rec.call("rot", "euleraff", "rad", n, &[], &a, 0, || er.to_affine_matrix());
    rec.call("rot", "euleraff", "deg", n, &[], &a, 0, || ed.to_affine_matrix());
    rec.call("rot", "euleraff", "from", n, &[], &a, 0, || Matrix4x4::from(er));
    rec.call("rot", "euleraff", "fromr", n, &[], &a, 0, || Matrix4x4::from(&ed));
    rec.call("rot", "euler", "prod", n, &[], &a, 0, || Rotation3::from_angle_x(er.x) * Rotation3::from_angle_y(er.y) * Rotation3::from_angle_z(er.z));
    rec.call("rot", "eulzero", "m", n, &[], &[], 0, || { let z = Euler::<Radians<S>>::zero(); [z.x, z.y, z.z] });
    // and back: from the rotation, from a quaternion, also at gimbal lock
    let ma = [rr(&m)];
    let r3 = Rotation3::from(er);
    let qn = Quaternion::from(r3);
    let back = |e: Euler<Radians<S>>| {
        let o = [ob(e.x.0), ob(e.y.0), ob(e.z.0)];
        let ok = in_(e.x.0, -PI, PI) * in_(e.y.0, -PI / 2.0, PI / 2.0) * in_(e.z.0, -PI, PI);
        Raw(vec![o[0][0], o[0][1], o[1][0], o[1][1], o[2][0], o[2][1], ok])
    };
    if g[1].0.0 != 0 {
        let h = g[0].0.1 * g[1].0.1 * g[2].0.1;
        hint(h);
        rec.call("rot", "angles", "rot", n, &[], &ma, 0, || back(r3.euler_angles()));
        rec.call("rot", "angles", "quat", n, &[], &ma, 0, || back(Euler::from(qn)));
        rec.call("rot", "angles", "quatr", n, &[], &ma, 0, || back(Euler::from(&qn)));
    }
    hint(lcd(&m));
    rec.call("rot", "eulerrt", "rot", n, &[], &ma, 0, || r3.euler_angles().to_matrix());
    rec.call("rot", "eulerrt", "quat", n, &[], &ma, 0, || Euler::from(qn).to_matrix());
    // gimbal lock reached by other ways
    let h = S::of(PI / 2.0 * if rec.rng.chance(2) { 1.0 } else { -1.0 });
    let sy = if h.to() > 0.0 { q(1) } else { q(-1) };
    let (c, s, th) = ang(rec, fine);
    let mg = mm(&rodr(&ex[1], q(0), sy), &rodr(&ex[0], c, s));
    hint(c.1);
    let mga = [rr(&mg)];
    let rg = Rotation3::from_angle_y(Radians(h)) * Rotation3::from_angle_x(Radians(S::of(th)));
    let mx = Rotation3::from_quaternion(&Quaternion::from(rg));
    rec.call("rot", "eulerrt", "lock", n, &[], &mga, 0, || rg.euler_angles().to_matrix());
    rec.call("rot", "eulerrt", "lockq", n, &[], &mga, 0, || mx.euler_angles().to_matrix());
    rec.call("rot", "eulerrt", "lockf", n, &[], &mga, 0, || Euler::from(Quaternion::from(rg)).to_matrix());
    hint(1);
}
fn c16(rec: &mut Rec) {
    for it in 0..rec.iters(1000, 12000) {
        rec.next();
        euler::<f64>(rec);
        if it % 4 == 0 { tinyeul::<f64>(rec); }
        if it % 8 == 1 { tinyeul::<f32>(rec); }
        if it % 3 == 1 { nearqeul::<f64>(rec); }
        if it % 9 == 2 { nearqeul::<f32>(rec); }
        if it % 3 == 0 {
            euler::<f32>(rec);
        }
    }
}
fn look<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let qv = uquat(&mut rec.rng, fine);
    // an orthonormal frame: columns of the rotation of qv
    let m = rotq(&qv);
    let (y, z) = (&m[3..6], &m[6..9]);
    let k = if fine { Q(rec.rng.int(1, 5), 1 << rec.rng.below(2)) } else { q(rec.rng.int(2, 4)) };
    let h = Q(rec.rng.int(1, 4), 1 << rec.rng.below(2));
    // (also with the upward vector next to the line of sight)
    let t = q(rec.rng.int(-3, 3) * if fine && rec.rng.chance(2) { 1 << rec.rng.int(4, 9) } else { 1 });
    let k = Q::red(k.0, k.1);
    let h = Q::red(h.0, h.1);
    let dir: Vec<Q> = z.iter().map(|v| *v * k).collect();
    let up: Vec<Q> = (0..3).map(|i| y[i] * h + z[i] * t).collect();
    let eye: Vec<Q> = gen(&mut rec.rng, 3, if fine { 6 } else { 2 }, if fine { 3 } else { 1 }, true);
    let tgt: Vec<Q> = (0..3).map(|i| eye[i] + dir[i]).collect();
    let a = [rr(&dir), rr(&up), vec![k.r(), h.r()], rr(&eye)];
    let (d, u) = (vec::<S, 3>(&dir), vec::<S, 3>(&up));
    let (e, g) = (pnt::<S, 3>(&eye), pnt::<S, 3>(&tgt));
    let mut mag = || S::of(2f64.powi(rec.rng.int(-40, 40) as i32 / if fine { 1 } else { 4 }));
    let (dk, uk) = (d * mag(), u * mag());
    hint(lcd(&m) * lcd(&eye));
    macro_rules! rots { ($o:expr, $v:expr, $T:ty, $f:expr) => {{
        let f = $f;
        rec.call("rot", $o, concat!($v, "to"), n, &[1, 0], &a, 0, || f(<$T>::look_to_lh(&d, &u)));
        rec.call("rot", $o, concat!($v, "to"), n, &[-1, 0], &a, 0, || f(<$T>::look_to_rh(&d, &u)));
        rec.call("rot", $o, concat!($v, "tok"), n, &[1, 0], &a, 0, || f(<$T>::look_to_lh(&dk, &uk)));
        rec.call("rot", $o, concat!($v, "tok"), n, &[-1, 0], &a, 0, || f(<$T>::look_to_rh(&dk, &uk)));
        rec.call("rot", $o, concat!($v, "tok"), n, &[1, 1], &a, 0, || f(<$T>::look_to_lh_inv(&dk, &uk)));
        rec.call("rot", $o, concat!($v, "tok"), n, &[-1, 1], &a, 0, || f(<$T>::look_to_rh_inv(&dk, &uk)));
        rec.call("rot", $o, concat!($v, "at"), n, &[1, 0], &a, 0, || f(<$T>::look_at_lh(&e, &g, &u)));
        rec.call("rot", $o, concat!($v, "at"), n, &[-1, 0], &a, 0, || f(<$T>::look_at_rh(&e, &g, &u)));
        rec.call("rot", $o, concat!($v, "to"), n, &[1, 1], &a, 0, || f(<$T>::look_to_lh_inv(&d, &u)));
        rec.call("rot", $o, concat!($v, "to"), n, &[-1, 1], &a, 0, || f(<$T>::look_to_rh_inv(&d, &u)));
        rec.call("rot", $o, concat!($v, "at"), n, &[1, 1], &a, 0, || f(<$T>::look_at_lh_inv(&e, &g, &u)));
        rec.call("rot", $o, concat!($v, "at"), n, &[-1, 1], &a, 0, || f(<$T>::look_at_rh_inv(&e, &g, &u)));
    }} }
    macro_rules! affs { ($v:expr, $T:ty, $f:expr) => {{
        let f = $f;
        rec.call("rot", "lookaff", concat!($v, "to"), n, &[1, 0], &a, 0, || f(<$T>::look_to_lh(&e, &d, &u)));
        rec.call("rot", "lookaff", concat!($v, "to"), n, &[-1, 0], &a, 0, || f(<$T>::look_to_rh(&e, &d, &u)));
        rec.call("rot", "lookaff", concat!($v, "tok"), n, &[1, 0], &a, 0, || f(<$T>::look_to_lh(&e, &dk, &uk)));
        rec.call("rot", "lookaff", concat!($v, "tok"), n, &[-1, 0], &a, 0, || f(<$T>::look_to_rh(&e, &dk, &uk)));
        rec.call("rot", "lookaff", concat!($v, "at"), n, &[1, 0], &a, 0, || f(<$T>::look_at_lh(&e, &g, &u)));
        rec.call("rot", "lookaff", concat!($v, "at"), n, &[-1, 0], &a, 0, || f(<$T>::look_at_rh(&e, &g, &u)));
        rec.call("rot", "lookaff", concat!($v, "to"), n, &[1, 1], &a, 0, || f(<$T>::look_to_lh_inv(&e, &d, &u)));
        rec.call("rot", "lookaff", concat!($v, "to"), n, &[-1, 1], &a, 0, || f(<$T>::look_to_rh_inv(&e, &d, &u)));
        rec.call("rot", "lookaff", concat!($v, "at"), n, &[1, 1], &a, 0, || f(<$T>::look_at_lh_inv(&e, &g, &u)));
        rec.call("rot", "lookaff", concat!($v, "at"), n, &[-1, 1], &a, 0, || f(<$T>::look_at_rh_inv(&e, &g, &u)));
    }} }
    rots!("look", "m3", Matrix3x3<S>, |x: Matrix3x3<S>| x);
    rots!("look", "rot", Rotation3<S>, |x: Rotation3<S>| x);
    affs!("m4", Matrix4x4<S>, |x: Matrix4x4<S>| x);
    affs!("iso", Isometry3<S>, |x: Isometry3<S>| x.to_affine_matrix());
    affs!("sim", Similarity3<S>, |x: Similarity3<S>| x.to_affine_matrix());
    let l = lcd(&qv);
    hint(2 * l * l);
    rots!("lookq", "quat", Quaternion<S>, |x: Quaternion<S>| prods(&x));
    hint(1);
}
fn c17(rec: &mut Rec) {
    for it in 0..rec.iters(700, 8000) {
        rec.next();
        look::<f64>(rec);
        if it % 4 == 0 {
            look::<f32>(rec);
        }
    }
}
fn main() {
    drive(&[("C15", c15), ("C16", c16), ("C17", c17)]);
}

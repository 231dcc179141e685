//! Driver: projections (C21).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../../../core/src/pjs.rs"]
mod pjs;
#[path = "../../../core/src/elem.rs"]
mod elem;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use common::*;
use elem::*;
use pjs::*;
use std::f64::consts::PI;

fn posq(r: &mut Rng, fine: bool) -> Q {
    if fine { Q::red(r.int(1, 12), 1 << r.below(2)) } else { q(*r.pick(&[1, 2, 3])) }
}
fn volume(r: &mut Rng, fine: bool) -> Vec<Q> {
    let mut v: Vec<Q> = (0..4).map(|_| posq(r, fine)).collect();
    if r.chance(3) { v[0] = v[1] }
    if r.chance(3) { v[2] = v[3] }
    let n = if fine { Q::red(r.int(1, 8), 1 << r.below(3)) } else { q(*r.pick(&[1, 2])) };
    let f = n + if fine { Q::red(r.int(1, 20), 1 << r.below(2)) } else { q(*r.pick(&[1, 2])) };
    // a far plane far away
    let f = if fine && r.chance(6) { n + q(1 << r.int(6, 10)) } else { f };
    v.push(n);
    v.push(f);
    v
}
fn cot<S: Fl>(a: Radians<S>) -> Raw {
    let x = a.0.to();
    Raw(vec![S::of(x.cos() / x.sin()).res(), (x > 0.0 && x < PI) as i64])
}
fn go<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let v = volume(&mut rec.rng, fine);
    // the same volume in other units of length: 2^k
    let k = if rec.rng.chance(3) { *rec.rng.pick(if fine { &[-10, 10, -40, 40, 3, -3, -100, 100] } else { &[-6, 6, 3, -3] }) } else { 0 };
    let (u, iu) = (S::of(2f64.powi(k)), S::of(2f64.powi(-k)));
    let a: [S; 6] = arr::<S, 6>(&v).map(|x| x * u);
    let mp = move |mut m: Matrix4x4<S>| { m[3][2] = m[3][2] * iu; m };
    let mo = move |mut m: Matrix4x4<S>| { for i in 0..3 { m[i][i] = m[i][i] * u } m };
    let va = rr(&v);
    let (w, h, dp) = (v[0] + v[1], v[2] + v[3], v[5] - v[4]);
    let den = w.0 * h.0 * dp.0 * 4;
    let pm = Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[5]);
    let om = Orthographic3::new(a[0], a[1], a[2], a[3], a[4], a[5]);
    hint(den);
    let e = [va.clone()];
    rec.call("prj", "persp", "mat", n, &[], &e, 0, || mp(Matrix4x4::from_perspective(a[0], a[1], a[2], a[3], a[4], a[5])));
    rec.call("prj", "persp", "obj", n, &[], &e, 0, || mp(*pm.matrix()));
    rec.call("prj", "persp", "to", n, &[], &e, 0, || mp(pm.to_projective_matrix()));
    rec.call("prj", "persp", "tf", n, &[], &e, 0, || mp(*pm.to_transform().matrix()));
    rec.call("prj", "persp", "ref", n, &[], &e, 0, || mp(*AsRef::<Matrix4x4<S>>::as_ref(&pm)));
    rec.call("prj", "persp", "from", n, &[], &e, 0, || mp(Matrix4x4::from(pm)));
    rec.call("prj", "ortho", "mat", n, &[], &e, 0, || mo(Matrix4x4::from_orthographic(a[0], a[1], a[2], a[3], a[4], a[5])));
    rec.call("prj", "ortho", "obj", n, &[], &e, 0, || mo(*om.matrix()));
    rec.call("prj", "ortho", "to", n, &[], &e, 0, || mo(om.to_projective_matrix()));
    rec.call("prj", "ortho", "tf", n, &[], &e, 0, || mo(*om.to_transform().matrix()));
    rec.call("prj", "ortho", "ref", n, &[], &e, 0, || mo(*AsRef::<Matrix4x4<S>>::as_ref(&om)));
    rec.call("prj", "ortho", "from", n, &[], &e, 0, || mo(Matrix4x4::from(om)));
    // parameters
    hint(4);
    rec.call("prj", "param", "p", n, &[], &e, 0, || [pm.left(), pm.right(), pm.bottom(), pm.top(), pm.near(), pm.far()].map(|x| x * iu));
    rec.call("prj", "param", "o", n, &[], &e, 0, || [om.left(), om.right(), om.bottom(), om.top(), om.near(), om.far()].map(|x| x * iu));
    hint(w.1 * h.0);
    rec.call("prj", "aspect", "p", n, &[], &e, 0, || pm.aspect_ratio());
    let cq = (v[4] * v[4] - v[2] * v[3]) / (v[4] * h);
    hint(cq.1);
    rec.call("prj", "vfov", "p", n, &[], &e, 0, || cot(pm.vfov()));
    // points
    let x = gen(&mut rec.rng, 3, if fine { 9 } else { 3 }, if fine { 3 } else { 1 }, true);
    let xa = [va.clone(), rr(&x)];
    let ve = vec::<S, 3>(&x) * u;
    let pt = Point3::from_vector(&ve);
    let dn = |p: Point3<S>| p.to_vector() * iu;
    hint(den * 4);
    rec.call("prj", "op", "m", n, &[], &xa, 0, || om.project_point(&pt));
    rec.call("prj", "op", "vv", n, &[], &xa, 0, || om * pt);
    rec.call("prj", "op", "rv", n, &[], &xa, 0, || &om * pt);
    rec.call("prj", "op", "vr", n, &[], &xa, 0, || om * &pt);
    rec.call("prj", "op", "rr", n, &[], &xa, 0, || &om * &pt);
    rec.call("prj", "op", "tf", n, &[], &xa, 0, || om.to_transform() * pt);
    rec.call("prj", "ov", "m", n, &[], &xa, 0, || om.project_vector(&ve));
    rec.call("prj", "ov", "vv", n, &[], &xa, 0, || om * ve);
    rec.call("prj", "ov", "rv", n, &[], &xa, 0, || &om * ve);
    rec.call("prj", "ov", "vr", n, &[], &xa, 0, || om * &ve);
    rec.call("prj", "ov", "rr", n, &[], &xa, 0, || &om * &ve);
    if x[2].0 != 0 {
        hint(den * 4 * x[2].0);
        rec.call("prj", "pp", "m", n, &[], &xa, 0, || pm.project_point(&pt));
        rec.call("prj", "pp", "vv", n, &[], &xa, 0, || pm * pt);
        rec.call("prj", "pp", "rv", n, &[], &xa, 0, || &pm * pt);
        rec.call("prj", "pp", "vr", n, &[], &xa, 0, || pm * &pt);
        rec.call("prj", "pp", "rr", n, &[], &xa, 0, || &pm * &pt);
        rec.call("prj", "pp", "tf", n, &[], &xa, 0, || pm.to_transform() * pt);
        rec.call("prj", "pp", "mv", n, &[], &xa, 0, || pm.project_vector(&ve));
        rec.call("prj", "pp", "vvv", n, &[], &xa, 0, || pm * ve);
        rec.call("prj", "pp", "rvv", n, &[], &xa, 0, || &pm * ve);
        rec.call("prj", "pp", "vrv", n, &[], &xa, 0, || pm * &ve);
        rec.call("prj", "pp", "rrv", n, &[], &xa, 0, || &pm * &ve);
        hint(4);
        rec.call("prj", "param", "rtp", n, &[], &[rr(&x)], 0, || dn(pm.unproject_point(&pm.project_point(&pt))));
        rec.call("prj", "param", "rto", n, &[], &[rr(&x)], 0, || dn(om.unproject_point(&om.project_point(&pt))));
    }
    // from the cube back; z = (f + n)/(f - n) is the image of infinity
    let y: Vec<Q> = (0..3).map(|_| Q::red(rec.rng.int(-4, 4), 4)).collect();
    let ya = [va.clone(), rr(&y)];
    let (yp, yv) = (pnt::<S, 3>(&y), vec::<S, 3>(&y));
    hint(16);
    rec.call("prj", "uop", "m", n, &[], &ya, 0, || dn(om.unproject_point(&yp)));
    rec.call("prj", "uov", "m", n, &[], &ya, 0, || om.unproject_vector(&yv) * iu);
    let wq = (v[4] - v[5]) * y[2] + v[4] + v[5];
    if wq.0 != 0 {
        hint(16 * wq.0);
        rec.call("prj", "upp", "m", n, &[], &ya, 0, || dn(pm.unproject_point(&yp)));
        rec.call("prj", "upp", "mv", n, &[], &ya, 0, || pm.unproject_vector(&yv) * iu);
    }
    // field of view
    let (c, s, th) = loop {
        let (c, s, th) = angle(&mut rec.rng, fine);
        if c.0 > 0 && s.0 > 0 { break (c, s, th); }
    };
    let g = s / c;
    let asp = if fine { Q::red(rec.rng.int(1, 9), rec.rng.int(1, 4)) } else { *rec.rng.pick(&[q(1), q(2), Q(1, 2)]) };
    let fa = [rr(&[g, asp, v[4], v[5]]), rr(&[c, s])];
    hint(g.0 * asp.0 * dp.0 * 4);
    let (rad, deg) = (Radians(S::of(2.0 * th)), Degrees(S::of((2.0 * th).to_degrees())));
    let (sa, sn, sf) = (S::ofq(asp), a[4], a[5]);
    rec.call("prj", "fov", "mat", n, &[], &fa, 0, || mp(Matrix4x4::from_perspective_vfov(rad, sa, sn, sf)));
    rec.call("prj", "fov", "matd", n, &[], &fa, 0, || mp(Matrix4x4::from_perspective_vfov(deg, sa, sn, sf)));
    rec.call("prj", "fov", "obj", n, &[], &fa, 0, || mp(*Perspective3::from_vfov(rad, sa, sn, sf).matrix()));
    rec.call("prj", "fov", "objd", n, &[], &fa, 0, || mp(*Perspective3::from_vfov(deg, sa, sn, sf).matrix()));
    let fm = Perspective3::from_vfov(rad, sa, sn, sf);
    hint(asp.1 * 4 * c.1);
    let (c2, s2) = (c * c - s * s, q(2) * s * c);
    let ea = [[fa[0][1], v[4].r(), v[5].r(), c2.r(), s2.r(), 1].to_vec()];
    hint(c.1 * c.1 * asp.1 * 8);
    rec.call("prj", "fovp", "p", n, &[], &ea, 0, || { let t = fm.vfov().0.to(); Raw(vec![fm.aspect_ratio().res(), (fm.near() * iu).res(), (fm.far() * iu).res(), S::of(t.cos()).res(), S::of(t.sin()).res(), (t > 0.0 && t < PI) as i64]) });
    hint(1);
    rec.call("prj", "axes", "p", n, &[], &[], 0, || [pm.view_unit_right(), pm.view_unit_up(), pm.view_unit_depth(), pm.view_unit_gaze(), pm.clip_unit_right(), pm.clip_unit_up(), pm.clip_unit_depth(), pm.clip_unit_gaze()].map(|u| u.into_inner()));
    rec.call("prj", "axes", "o", n, &[], &[], 0, || [om.view_unit_right(), om.view_unit_up(), om.view_unit_depth(), om.view_unit_gaze(), om.clip_unit_right(), om.clip_unit_up(), om.clip_unit_depth(), om.clip_unit_gaze()].map(|u| u.into_inner()));
    rec.call("prj", "bounds", "p", n, &[], &[], 0, || pm.clip_ndc_bounds());
    rec.call("prj", "bounds", "o", n, &[], &[], 0, || om.clip_ndc_bounds());
}
fn main() {
    drive(&[("C21", |rec| {
        for i in 0..rec.iters(500, 10000) {
            rec.next();
            go::<f64>(rec);
            if i % 3 == 0 { go::<f32>(rec) }
        }
    })]);
}

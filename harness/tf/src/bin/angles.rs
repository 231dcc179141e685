//! Driver: typed angles (C22).
#[macro_use]
#[path = "../../../common/mod.rs"]
mod common;
#[path = "../../../core/src/pjs.rs"]
mod pjs;
#[path = "../../../core/src/elem.rs"]
mod elem;
use cglinalg_trigonometry::*;
use common::*;
use elem::*;
use std::f64::consts::PI;

const BAD: i64 = 1_900_000_003;
/// eighths of a degree
fn deg8<S: Fl>(x: Degrees<S>) -> Raw { snap::<S>(x.0.to() * 8.0) }
fn rad8<S: Fl>(x: Radians<S>) -> Raw { snap::<S>(x.0.to() * 180.0 / PI * 8.0) }
fn snap<S: Fl>(y: f64) -> Raw {
    let tol = if S::NAME == "f64" { 1e-6 } else { 0.03 } * (1.0 + y.abs() / 20000.0);
    Raw(vec![if (y - y.round()).abs() < tol { y.round() as i64 } else { BAD }])
}
fn of8d<S: Fl>(d: i64) -> Degrees<S> { Degrees(S::of(d as f64 / 8.0)) }
fn of8r<S: Fl>(d: i64) -> Radians<S> {
    // small multiples of half a turn are exact
    if d % 1440 == 0 { return Radians(S::of(PI) * S::of((d / 1440) as f64)) }
    Radians(S::of(d as f64 / 8.0 * PI / 180.0))
}
fn measure(r: &mut Rng, fine: bool) -> i64 {
    match r.below(8) {
        0 => 1440 * *r.pick(&[-8, -4, -2, -1, 0, 1, 2, 4, 8]),
        1 => 360 * r.int(-20, 20),
        2 => 1440 * r.int(-5, 5) + r.int(-2, 2),
        3 => r.int(-40, 40),
        4 if fine => r.int(-1_000_000, 1_000_000),
        5 => 120 * r.int(-60, 60),
        _ => r.int(-9000, 9000),
    }
}
/// usable in radians: away from the jumps unless exact
fn rsafe(d: i64) -> bool {
    d % 1440 != 0 || [0, 1, 2, 4, 8].contains(&(d / 1440).abs())
}
fn interior(d: i64) -> bool { d.rem_euclid(1440) != 0 }

fn measures<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let x = measure(&mut rec.rng, fine);
    let mut y = measure(&mut rec.rng, fine);
    if (x + y) % 2 != 0 { y += 1 }
    let (dx, dy, rx, ry) = (of8d::<S>(x), of8d::<S>(y), of8r::<S>(x), of8r::<S>(y));
    let (a, b): (&[Vec<i64>], &[Vec<i64>]) = (&[vec![x]], &[vec![x], vec![y]]);
    rec.call("ang", "norm", "deg", n, &[], a, 0, || deg8(dx.normalize()));
    rec.call("ang", "norms", "deg", n, &[], a, 0, || deg8(dx.normalize_signed()));
    rec.call("ang", "opp", "deg", n, &[], a, 0, || deg8(dx.opposite()));
    rec.call("ang", "bis", "deg", n, &[], b, 0, || deg8(dx.bisect(dy)));
    rec.call("ang", "bis", "degu", n, &[], b, 0, || deg8(Degrees::bisect(dx, dy)));
    if rsafe(x) {
        rec.call("ang", "norm", "rad", n, &[], a, 0, || rad8(rx.normalize()));
        rec.call("ang", "norms", "rad", n, &[], a, 0, || rad8(rx.normalize_signed()));
    }
    if interior(x) { rec.call("ang", "opp", "rad", n, &[], a, 0, || rad8(rx.opposite())) }
    if interior((x + y) / 2) { rec.call("ang", "bis", "rad", n, &[], b, 0, || rad8(rx.bisect(ry))) }
    // the two units
    rec.call("ang", "conv", "d2r", n, &[], a, 0, || rad8(Radians::from(dx)));
    rec.call("ang", "conv", "r2d", n, &[], a, 0, || deg8(Degrees::from(rx)));
    rec.call("ang", "conv", "d2rinto", n, &[], a, 0, || { let r: Radians<S> = dx.into(); rad8(r) });
    rec.call("ang", "conv", "r2dinto", n, &[], a, 0, || { let r: Degrees<S> = rx.into(); deg8(r) });
    rec.call("ang", "conv", "d2r2d", n, &[], a, 0, || deg8(Degrees::from(Radians::from(dx))));
    rec.call("ang", "conv", "r2d2r", n, &[], a, 0, || rad8(Radians::from(Degrees::from(rx))));
    rec.call("ang", "conv", "field", n, &[], a, 0, || deg8(Degrees(dx.0)));
    rec.call("ang", "iszero", "deg", n, &[], a, 0, || Degrees::is_zero(&dx));
    rec.call("ang", "iszero", "rad", n, &[], a, 0, || Radians::is_zero(&rx));
    rec.call("ang", "iszero", "tdeg", n, &[], a, 0, || Angle::is_zero(dx));
    rec.call("ang", "iszero", "trad", n, &[], a, 0, || Angle::is_zero(rx));
    rec.call("ang", "lt", "deg", n, &[], b, 0, || dx < dy);
    rec.call("ang", "lt", "rad", n, &[], b, 0, || rx < ry);
    rec.call("ang", "le", "deg", n, &[], b, 0, || dx <= dy);
    rec.call("ang", "le", "rad", n, &[], b, 0, || rx <= ry);
    rec.call("ang", "eq", "deg", n, &[], b, 0, || dx == dy);
    rec.call("ang", "eq", "rad", n, &[], b, 0, || rx == ry);
    // conversion is linear: the same measures at another magnitude
    let k = rec.rng.int(if fine { -300 } else { -80 }, if fine { 300 } else { 80 }) as i32;
    let (up, dn) = (2f64.powi(k), 2f64.powi(-k));
    rec.call("ang", "conv", "d2rk", n, &[], a, 0, || rad8(Radians(S::of(Radians::from(Degrees(S::of(dx.0.to() * up))).0.to() * dn))));
    rec.call("ang", "conv", "r2dk", n, &[], a, 0, || deg8(Degrees(S::of(Degrees::from(Radians(S::of(rx.0.to() * up))).0.to() * dn))));
    // tiny angles and tiny ratios are proportional
    let m = rec.rng.int(-99, 99);
    let up = 2f64.powi(rec.rng.int(if fine { 45 } else { 25 }, if fine { 300 } else { 60 }) as i32);
    let t = S::of(m as f64 / up);
    let rt = |y: S| snap::<S>(y.to() * up);
    let dt = |y: f64| snap::<S>(y * up);
    let am: &[Vec<i64>] = &[vec![m]];
    rec.call("ang", "conv", "tsinr", n, &[], am, 0, || rt(Radians(t).sin()));
    rec.call("ang", "conv", "ttanr", n, &[], am, 0, || rt(Radians(t).tan()));
    rec.call("ang", "conv", "tsincosr", n, &[], am, 0, || rt(Radians(t).sin_cos().0));
    rec.call("ang", "conv", "tasinr", n, &[], am, 0, || rt(Radians::asin(t).0));
    rec.call("ang", "conv", "tatanr", n, &[], am, 0, || rt(Radians::atan(t).0));
    rec.call("ang", "conv", "tsind", n, &[], am, 0, || dt(Degrees(t).sin().to() * 180.0 / PI));
    rec.call("ang", "conv", "ttand", n, &[], am, 0, || dt(Degrees(t).tan().to() * 180.0 / PI));
    rec.call("ang", "conv", "tsincosd", n, &[], am, 0, || dt(Degrees(t).sin_cos().0.to() * 180.0 / PI));
    rec.call("ang", "conv", "tasind", n, &[], am, 0, || dt(Degrees::asin(t).0.to() * PI / 180.0));
    rec.call("ang", "conv", "tatand", n, &[], am, 0, || dt(Degrees::atan(t).0.to() * PI / 180.0));
    if m != 0 {
        rec.call("ang", "conv", "tcscr", n, &[], am, 0, || dt(1.0 / Radians(t).csc().to()));
        rec.call("ang", "conv", "tcotr", n, &[], am, 0, || dt(1.0 / Radians(t).cot().to()));
        rec.call("ang", "conv", "tcscd", n, &[], am, 0, || dt(1.0 / Degrees(t).csc().to() * 180.0 / PI));
        rec.call("ang", "conv", "tcotd", n, &[], am, 0, || dt(1.0 / Degrees(t).cot().to() * 180.0 / PI));
    }
    // any magnitude, including ones far below and above a turn
    let m = S::of(2f64.powi(rec.rng.int(if fine { -900 } else { -120 }, 12) as i32) * rec.rng.int(-1000, 1000) as f64);
    macro_rules! range { ($t:ident, $full:expr, $eps:expr) => {{
        rec.call("ang", "range", concat!("n", stringify!($t)), n, &[], &[], 0, || {
            let y = $t(m).normalize().0;
            let k = (m.to() - y.to()) / $full;
            Raw(vec![(y >= S::of(0.0)) as i64, (y < $t::<S>::full_turn().0) as i64, ((k - k.round()).abs() < $eps) as i64])
        });
        rec.call("ang", "range", concat!("s", stringify!($t)), n, &[], &[], 0, || {
            let y = $t(m).normalize_signed().0;
            let k = (m.to() - y.to()) / $full;
            Raw(vec![(y >= -$t::<S>::full_turn_div_2().0) as i64, (y < $t::<S>::full_turn_div_2().0) as i64, ((k - k.round()).abs() < $eps) as i64])
        });
    }}}
    let eps = if fine { 1e-9 } else { 1e-6 * m.to().abs().max(10.0) };
    range!(Degrees, 360.0, eps);
    range!(Radians, 2.0 * PI, eps);
}
fn constants<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    macro_rules! c { ($($f:ident $k:expr),*) => {$(
        rec.call("ang", "frac", "deg", n, &[$k], &[], 0, || deg8(Degrees::<S>::$f()));
        rec.call("ang", "frac", "rad", n, &[$k], &[], 0, || rad8(Radians::<S>::$f()));
    )*}}
    c!(full_turn 1, full_turn_div_2 2, full_turn_div_4 4, full_turn_div_6 6, full_turn_div_8 8);
    rec.call("ang", "zero", "deg", n, &[], &[], 0, || deg8(Degrees::<S>::zero()));
    rec.call("ang", "zero", "rad", n, &[], &[], 0, || rad8(Radians::<S>::zero()));
    rec.call("ang", "zero", "tdeg", n, &[], &[], 0, || deg8(<Degrees<S> as Angle>::zero()));
    rec.call("ang", "zero", "trad", n, &[], &[], 0, || rad8(<Radians<S> as Angle>::zero()));
    rec.call("ang", "zero", "ddeg", n, &[], &[], 0, || deg8(Degrees::<S>::default()));
    rec.call("ang", "zero", "drad", n, &[], &[], 0, || rad8(Radians::<S>::default()));
    for x in [0.0, 1.5, -7.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        let k = if x.is_finite() { 0 } else { 1_950_000_000 };
        rec.call("ang", "isfinite", "deg", n, &[], &[vec![k]], 0, || Degrees(S::of(x)).is_finite());
        rec.call("ang", "isfinite", "rad", n, &[], &[vec![k]], 0, || Radians(S::of(x)).is_finite());
    }
}
fn trig<S: Fl>(rec: &mut Rec) {
    let n = S::NAME;
    let fine = n == "f64";
    let (c, s, th) = angle(&mut rec.rng, fine);
    let turns = rec.rng.int(-3, 3) as f64;
    let x = th + 2.0 * PI * if rec.rng.chance(2) { turns } else { 0.0 };
    let (r, d) = (Radians(S::of(x)), Degrees(S::of(x / PI * 180.0)));
    let a: &[Vec<i64>] = &[vec![c.r(), s.r()]];
    macro_rules! t { ($($f:ident $o:expr, $ok:expr);*) => {$(
        if $ok {
            rec.call("ang", $o, "rad", n, &[], a, 0, || r.$f());
            rec.call("ang", $o, "deg", n, &[], a, 0, || d.$f());
        }
    )*}}
    hint(if s.0 == 0 || c.0 == 0 { 1 } else { (s.0 * c.0).abs() * c.1 });
    t!(sin "sin", true; cos "cos", true; tan "tan", c.0 != 0; cot "cot", s.0 != 0; sec "sec", c.0 != 0; csc "csc", s.0 != 0; sin_cos "sincos", true);
    hint(c.1);
    let ob = |r: f64, lo: f64, hi: f64| Raw(vec![S::of(r.cos()).res(), S::of(r.sin()).res(), in_::<S>(S::of(r), lo, hi)]);
    let rd = |x: Radians<S>| x.0.to();
    let dr = |x: Degrees<S>| x.0.to() * PI / 180.0;
    let (ca, sa) = (Q(c.0.abs(), c.1), Q(s.0.abs(), s.1));
    let (h, z) = (PI / 2.0, 0.0);
    let e1: &[Vec<i64>] = &[vec![ca.r(), s.r()]];
    rec.call("ang", "principal", "asinr", n, &[], e1, 0, || ob(rd(Radians::asin(S::of(s.f()))), -h, h));
    rec.call("ang", "principal", "asind", n, &[], e1, 0, || ob(dr(Degrees::asin(S::of(s.f()))), -h, h));
    let e2: &[Vec<i64>] = &[vec![c.r(), sa.r()]];
    rec.call("ang", "principal", "acosr", n, &[], e2, 0, || ob(rd(Radians::acos(S::of(c.f()))), z, PI));
    rec.call("ang", "principal", "acosd", n, &[], e2, 0, || ob(dr(Degrees::acos(S::of(c.f()))), z, PI));
    if c.0 != 0 {
        let t = S::of(s.f() / ca.f());
        rec.call("ang", "principal", "atanr", n, &[], e1, 0, || ob(rd(Radians::atan(t)), -h, h));
        rec.call("ang", "principal", "atand", n, &[], e1, 0, || ob(dr(Degrees::atan(t)), -h, h));
    }
    let k = 2f64.powi(rec.rng.int(-300, 300) as i32 / if fine { 1 } else { 4 });
    let (yy, xx) = (S::of(zadj(k * s.f())), S::of(zadj(k * c.f())));
    rec.call("ang", "principal", "atan2r", n, &[], a, 0, || ob(rd(Radians::atan2(yy, xx)), -PI, PI));
    rec.call("ang", "principal", "atan2d", n, &[], a, 0, || ob(dr(Degrees::atan2(yy, xx)), -PI, PI));
    hint(1);
}
macro_rules! fl { ($rec:expr, $n:expr, $K:ident, $x:expr, $y:expr, $s:expr, $a:expr, $b:expr, $c:expr, $e:expr, $es:expr) => {{
        let (n, x, y, s, a, b, c, e, es) = ($n, $x, $y, $s, $a, $b, $c, &$e, &$es);
        if y.0 != 0 {
            hint(y.0 * 4);
            bin!($rec, "vec", "sdiv", n, &[1], e, 0, $K(a), /, $K(b));
            hint(1);
        }
        if s.0 != 0 {
            hint(s.0 * 4);
            bins!($rec, "vec", "sdiv", n, &[1], es, 0, $K(a), /, c);
            asg!($rec, "vec", "sdiv", n, &[1], es, 0, $K(a), /=, c);
            hint(1);
        }
        if x.1 == 1 && y.1 == 1 && y.0 != 0 {
            let er = [vec![x.0], vec![y.0]];
            let (p, q) = ($K(a), $K(b));
            { let r = run(scale(), true, || p % q); $rec.emit("vec", "remi", "vv", n, &[1], &er, &r); }
            { let r = run(scale(), true, || p % &q); $rec.emit("vec", "remi", "vr", n, &[1], &er, &r); }
            { let r = run(scale(), true, || &p % q); $rec.emit("vec", "remi", "rv", n, &[1], &er, &r); }
            { let r = run(scale(), true, || &p % &q); $rec.emit("vec", "remi", "rr", n, &[1], &er, &r); }
            { let r = run(scale(), true, || { let mut z = p; z %= q; z }); $rec.emit("vec", "remi", "a", n, &[1], &er, &r); }
        }
}}}
macro_rules! nofl { ($($t:tt)*) => {} }
macro_rules! arith { ($name:ident, $S:ty, $neg:ident, $fl:ident, $($k:ident)*) => {
fn $name(rec: &mut Rec) {
    let n = <$S as Sc>::NAME;
    let v = gen(&mut rec.rng, 3, if <$S as Sc>::NAME.ends_with('8') { 7 } else { 60 }, <$S as Sc>::DEN, <$S as Sc>::SIGNED);
    let (mut x, mut y) = (v[0], v[1]);
    if !<$S as Sc>::SIGNED && x.f() < y.f() { (x, y) = (y, x) }
    let s = v[2];
    let (a, b, c) = (<$S as Sc>::ofq(x), <$S as Sc>::ofq(y), <$S as Sc>::ofq(s));
    let e = [vec![x.r()], vec![y.r()]];
    let es = [vec![x.r()], vec![s.r()]];
    $({
        bin!(rec, "vec", "add", n, &[1], &e, 1, $k(a), +, $k(b));
        bin!(rec, "vec", "sub", n, &[1], &e, 1, $k(a), -, $k(b));
        bins!(rec, "vec", "smul", n, &[1], &es, 2, $k(a), *, c);
        asg!(rec, "vec", "add", n, &[1], &e, 1, $k(a), +=, $k(b));
        asg!(rec, "vec", "sub", n, &[1], &e, 1, $k(a), -=, $k(b));
        asg!(rec, "vec", "smul", n, &[1], &es, 2, $k(a), *=, c);
        $fl!(rec, n, $k, x, y, s, a, b, c, e, es);
        $neg!(rec, n, x, $k(a));
    })*
}}}
macro_rules! yes { ($rec:expr, $n:expr, $x:expr, $a:expr) => {{
    let a = $a;
    $rec.call("vec", "neg", "v", $n, &[1], &[vec![$x.r()]], 1, || -a);
    $rec.call("vec", "neg", "r", $n, &[1], &[vec![$x.r()]], 1, || -&a);
}}}
macro_rules! no { ($rec:expr, $n:expr, $x:expr, $a:expr) => {} }
arith!(ar64, f64, yes, fl, Degrees Radians);
arith!(ar32, f32, yes, fl, Degrees Radians);
arith!(ari32, i32, yes, nofl, Degrees Radians);
arith!(ari64, i64, yes, nofl, Degrees Radians);
arith!(aru32, u32, no, nofl, Degrees Radians);

fn main() {
    drive(&[("C22", |rec| {
        constants::<f64>(rec);
        constants::<f32>(rec);
        // every eighth of a degree of one turn and a half either way at the thorough tier
        for _ in 0..rec.iters(900, 12000) {
            rec.next();
            measures::<f64>(rec);
            measures::<f32>(rec);
            trig::<f64>(rec);
            trig::<f32>(rec);
            ar64(rec);
            ar32(rec);
            set_scale(rec.rng.int(-300, 300) as i32);
            ar64(rec);
            set_scale(rec.rng.int(-40, 40) as i32);
            ar32(rec);
            set_scale(0);
            ari32(rec);
            ari64(rec);
            aru32(rec);
        }
    })]);
}

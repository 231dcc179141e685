//! Recording half of the conformance check: typed inputs, the projection from
//! library values to the specification's residues, and the event writer.
#![allow(dead_code)]
#![allow(unused_macros)]

use std::cell::Cell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The specification's prime (see spec/Fld.tla): P*P < 2^31.
pub const P: i64 = 46337;
/// Projection of values that are not (small) rationals.
pub const IRR: i64 = -1;
pub const NAN: i64 = -2;
pub const PINF: i64 = -3;
pub const NINF: i64 = -4;
/// Recorded instead of a result when the library panicked.
pub const PANIC: i64 = -9;

pub fn md(x: i128) -> i64 {
    x.rem_euclid(P as i128) as i64
}
pub fn powmod(b: i64, mut e: i64) -> i64 {
    let mut r: i64 = 1;
    let mut b = b.rem_euclid(P);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
pub fn inv(x: i64) -> i64 {
    powmod(x, P - 2)
}
/// residue of n/d
pub fn rq(n: i64, d: i64) -> i64 {
    md(n as i128) * inv(d) % P
}

/// A small rational, the only kind of input the drivers use.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q(pub i64, pub i64);
impl Q {
    pub fn r(self) -> i64 {
        rq(self.0, self.1)
    }
    pub fn f(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}
fn gcdi(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcdi(b, a % b) }
}
impl Q {
    fn w(self) -> (i128, i128) { (self.0 as i128, self.1 as i128) }
    pub fn red(n: i64, d: i64) -> Q {
        Q::wide(n as i128, d as i128)
    }
    fn wide(n: i128, d: i128) -> Q {
        let (mut a, mut b) = (n, d);
        while b != 0 {
            (a, b) = (b, a % b);
        }
        let g = a.abs() * d.signum();
        Q(i64::try_from(n / g).expect("Q: numerator"), i64::try_from(d / g).expect("Q: denominator"))
    }
}
impl std::ops::Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q { Q::wide(self.w().0 * o.w().1 + o.w().0 * self.w().1, self.w().1 * o.w().1) }
}
impl std::ops::Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q { Q::wide(self.w().0 * o.w().1 - o.w().0 * self.w().1, self.w().1 * o.w().1) }
}
impl std::ops::Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q { Q::wide(self.w().0 * o.w().0, self.w().1 * o.w().1) }
}
impl std::ops::Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q { Q::wide(self.w().0 * o.w().1, self.w().1 * o.w().0) }
}
impl std::ops::Neg for Q {
    type Output = Q;
    fn neg(self) -> Q { Q(-self.0, self.1) }
}
/// common denominator
pub fn lcd(v: &[Q]) -> i64 {
    v.iter().fold(1, |l, x| l / gcdi(l, x.1) * x.1)
}
pub fn q(n: i64) -> Q {
    Q(n, 1)
}
pub fn rr(v: &[Q]) -> Vec<i64> {
    v.iter().map(|x| x.r()).collect()
}
pub fn qs(v: &[i64]) -> Vec<Q> {
    v.iter().map(|x| q(*x)).collect()
}
/// raw integers, for the order-theoretic operations
pub fn raw(v: &[Q]) -> Vec<i64> {
    v.iter().map(|x| { assert!(x.1 == 1); x.0 }).collect()
}

thread_local! {
    static SCALE: Cell<i32> = const { Cell::new(0) };
    static UNSC: Cell<i32> = const { Cell::new(0) };
    static RAWI: Cell<bool> = const { Cell::new(false) };
    static HINT: Cell<i64> = const { Cell::new(1) };
}
/// A common denominator of the components of the next results: sharpens the
/// projection (never changes what a correct result projects to).
pub fn hint(d: i64) {
    HINT.with(|s| s.set(if d == 0 { 1 } else { d.abs() }));
}
fn hinted(x: f64, tol0: f64, rel: f64) -> i64 {
    let h = HINT.with(|s| s.get());
    if h == 1 {
        return proj_f(x, tol0, rel);
    }
    let r = proj_f(x * h as f64, tol0 * h as f64, rel);
    if r < 0 { r } else { r * inv(md(h as i128)) % P }
}
pub fn set_scale(k: i32) {
    SCALE.with(|s| s.set(k));
}
pub fn scale() -> i32 {
    SCALE.with(|s| s.get())
}

/// Simplest rational within tol of x (Stern-Brocot / continued fractions).
pub fn simplest(x: f64, tol: f64) -> (i128, i128) {
    fn go(lo: f64, hi: f64, depth: u32) -> (i128, i128) {
        let fl = lo.floor();
        if fl == lo {
            return (fl as i128, 1);
        }
        if fl + 1.0 <= hi {
            return (fl as i128 + 1, 1);
        }
        if depth > 30 {
            return (0, 0);
        }
        let (n, d) = go(1.0 / (hi - fl), 1.0 / (lo - fl), depth + 1);
        (d + n * (fl as i128), n)
    }
    if x < 0.0 {
        let (n, d) = simplest(-x, tol);
        return (-n, d);
    }
    if x <= tol {
        return (0, 1);
    }
    go(x - tol, x + tol, 0)
}
pub fn proj_f(x: f64, tol0: f64, rel: f64) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    if x.is_infinite() {
        return if x > 0.0 { PINF } else { NINF };
    }
    let tol = tol0.max(rel * x.abs());
    if tol >= 0.2 {
        // beyond the resolution of the projection
        return if x == x.trunc() && x.abs() < 9.0e15 && tol0 < 1e-6 { md(x as i128) } else { IRR };
    }
    let maxq = (0.2 / tol).sqrt().min(30000.0);
    let (n, d) = simplest(x, tol);
    if d == 0 || d as f64 > maxq {
        return IRR;
    }
    md(n) * inv(md(d)) % P
}

pub trait Sc: Copy + Pj + std::panic::RefUnwindSafe + std::panic::UnwindSafe {
    const NAME: &'static str;
    const FLOAT: bool;
    /// largest k such that inputs may have denominator 2^(k-1)
    const DEN: i64;
    const SIGNED: bool;
    fn ofq(x: Q) -> Self;
    /// residue
    fn res(self) -> i64;
    /// plain integer value (order-theoretic operations)
    fn int(self) -> i64;
}
fn unsc() -> f64 {
    let k = UNSC.with(|s| s.get());
    2f64.powi(-k)
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const FLOAT: bool = true;
    const DEN: i64 = 3;
    const SIGNED: bool = true;
    fn ofq(x: Q) -> f64 {
        x.0 as f64 / x.1 as f64 * 2f64.powi(scale())
    }
    fn res(self) -> i64 {
        hinted(self * unsc(), 1e-10, 1e-13)
    }
    fn int(self) -> i64 {
        intf(self * unsc(), 1e-12)
    }
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const FLOAT: bool = true;
    const DEN: i64 = 2;
    const SIGNED: bool = true;
    fn ofq(x: Q) -> f32 {
        (x.0 as f64 / x.1 as f64 * 2f64.powi(scale())) as f32
    }
    fn res(self) -> i64 {
        hinted(self as f64 * unsc(), 2e-5, 1e-6)
    }
    fn int(self) -> i64 {
        intf(self as f64 * unsc(), 1e-6)
    }
}
/// the integer a floating-point result stands for, up to a few roundings
fn intf(x: f64, rel: f64) -> i64 {
    if x.is_nan() {
        1_900_000_001
    } else if x.is_infinite() {
        if x > 0.0 { 1_900_000_002 } else { -1_900_000_002 }
    } else if (x - x.round()).abs() <= rel * x.abs() && x.abs() < 1.8e9 {
        x.round() as i64
    } else {
        1_900_000_003
    }
}
macro_rules! sc_int { ($($t:ident $s:expr),*) => {$(
    impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = false;
        const DEN: i64 = 1;
        const SIGNED: bool = $s;
        fn ofq(x: Q) -> $t { assert!(x.1 == 1); <$t>::try_from(x.0).expect("driver input out of range") }
        fn res(self) -> i64 { md(self as i128) }
        fn int(self) -> i64 { if self as i128 > 1_800_000_000 || (self as i128) < -1_800_000_000 { 1_900_000_003 } else { self as i64 } }
    })*}
}
sc_int!(i8 true, i16 true, i32 true, i64 true, i128 true, isize true, u8 false, u16 false, u32 false, u64 false, u128 false, usize false);

/// Projection of a library value: its components, in the specification's
/// order, as residues (or plain integers in raw mode).
pub trait Pj {
    fn pj(&self, o: &mut Vec<i64>);
}
pub fn put<S: Sc>(s: S, o: &mut Vec<i64>) {
    o.push(if RAWI.with(|r| r.get()) { s.int() } else { s.res() })
}
macro_rules! pj_sc { ($($t:ident),*) => {$( impl Pj for $t { fn pj(&self, o: &mut Vec<i64>) { put(*self, o) } } )*} }
pj_sc!(f64, f32, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
impl Pj for bool {
    fn pj(&self, o: &mut Vec<i64>) {
        o.push(*self as i64)
    }
}
/// integers that are already projected
#[derive(Clone)]
pub struct Raw(pub Vec<i64>);
impl Pj for Raw {
    fn pj(&self, o: &mut Vec<i64>) {
        o.extend(&self.0)
    }
}
impl<T: Pj> Pj for Option<T> {
    fn pj(&self, o: &mut Vec<i64>) {
        if let Some(x) = self {
            x.pj(o)
        }
    }
}
impl<T: Pj> Pj for &T {
    fn pj(&self, o: &mut Vec<i64>) {
        (*self).pj(o)
    }
}
impl<A: Pj, B: Pj> Pj for (A, B) {
    fn pj(&self, o: &mut Vec<i64>) {
        self.0.pj(o);
        self.1.pj(o)
    }
}
impl<A: Pj, B: Pj, C: Pj> Pj for (A, B, C) {
    fn pj(&self, o: &mut Vec<i64>) {
        self.0.pj(o);
        self.1.pj(o);
        self.2.pj(o)
    }
}
impl<T: Pj> Pj for [T] {
    fn pj(&self, o: &mut Vec<i64>) {
        for x in self {
            x.pj(o)
        }
    }
}
impl<T: Pj, const N: usize> Pj for [T; N] {
    fn pj(&self, o: &mut Vec<i64>) {
        for x in self {
            x.pj(o)
        }
    }
}
impl<T: Pj> Pj for Vec<T> {
    fn pj(&self, o: &mut Vec<i64>) {
        for x in self {
            x.pj(o)
        }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() % n as u64) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u() % (hi - lo + 1) as u64) as i64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

/// Input family: mixture of shapes that make special entries likely.
pub fn gen(r: &mut Rng, n: usize, mag: i64, frac: i64, signed: bool) -> Vec<Q> {
    let lo = if signed { -mag } else { 0 };
    let k = r.below(12);
    let mut v: Vec<Q> = match k {
        0 => (0..n).map(|_| q(r.int(if signed { -1 } else { 0 }, 1))).collect(),
        1 => {
            let mut v = vec![q(0); n];
            let i = r.below(n);
            v[i] = q(r.int(lo, mag));
            v
        }
        2 => {
            let c = q(r.int(lo, mag));
            vec![c; n]
        }
        3 => (0..n).map(|_| if r.chance(2) { q(0) } else { q(r.int(lo, mag)) }).collect(),
        4 => (0..n).map(|i| q((i as i64 + 1).min(mag))).collect(),
        5 if signed => (0..n).map(|_| q(r.int(-mag, -1))).collect(),
        _ => (0..n).map(|_| q(r.int(lo, mag))).collect(),
    };
    if frac > 1 && r.chance(3) {
        for x in v.iter_mut() {
            *x = Q(x.0, 1 << r.below(frac as usize));
        }
    }
    v
}

pub struct Rec {
    outs: Vec<BufWriter<File>>,
    cur: usize,
    pub n: usize,
    pub thorough: bool,
    pub rng: Rng,
    pub seed: u64,
    only: Option<String>,
}
pub fn jarr(v: &[i64]) -> String {
    let mut s = String::with_capacity(v.len() * 6 + 2);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}
pub const NOSCALE: i32 = 99;

impl Rec {
    pub fn new(dir: &str, shards: usize, seed: u64, thorough: bool) -> Rec {
        let outs = (0..shards)
            .map(|i| BufWriter::with_capacity(1 << 20, File::create(format!("{dir}/t{i}.ndjson")).expect("create trace")))
            .collect();
        Rec { outs, cur: 0, n: 0, thorough, rng: Rng::new(seed), seed, only: std::env::var("VERIF_ONLY").ok() }
    }
    /// Events recorded from here to the next call go to one trace.
    pub fn next(&mut self) {
        self.cur = (self.cur + 1) % self.outs.len();
    }
    /// q iterations at quick tier, t at thorough
    pub fn iters(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn emit(&mut self, f: &str, o: &str, v: &str, s: &str, d: &[i64], a: &[Vec<i64>], r: &[i64]) {
        if let Some(x) = &self.only {
            if x != o { return; }
        }
        let mut line = format!("{{\"f\":\"{f}\",\"o\":\"{o}\",\"v\":\"{v}\",\"s\":\"{s}\",\"d\":{},\"a\":[", jarr(d));
        for (i, x) in a.iter().enumerate() {
            if i > 0 {
                line.push(',');
            }
            line.push_str(&jarr(x));
        }
        line.push_str(&format!("],\"r\":{}}}\n", jarr(r)));
        self.outs[self.cur].write_all(line.as_bytes()).expect("write trace");
        self.n += 1;
    }
    /// a call whose arguments and result are strings
    #[allow(dead_code)]
    pub fn emit_str(&mut self, f: &str, o: &str, v: &str, s: &str, a: &[Vec<String>], r: &str) {
        let esc = |t: &str| -> String {
            let mut z = String::from("\"");
            for c in t.chars() {
                match c {
                    '"' | '\\' => { z.push('\\'); z.push(c) }
                    c if c.is_ascii() && !c.is_ascii_control() => z.push(c),
                    _ => z.push_str("<?>"),
                }
            }
            z.push('"');
            z
        };
        let args: Vec<String> = a.iter().map(|x| format!("[{}]", x.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","))).collect();
        let line = format!("{{\"f\":\"{f}\",\"o\":\"{o}\",\"v\":\"{v}\",\"s\":\"{s}\",\"d\":[],\"a\":[{}],\"r\":[{}]}}\n", args.join(","), esc(r));
        self.outs[self.cur].write_all(line.as_bytes()).expect("write trace");
        self.n += 1;
    }
    pub fn emit_ses(&mut self, o: &str, k: &str, d: &[i64], x: &[i64], t: i64, a: &[Vec<i64>], r: &[i64]) {
        self.emit_in("ses", o, k, d, x, t, a, r)
    }
    pub fn emit_in(&mut self, f: &str, o: &str, k: &str, d: &[i64], x: &[i64], t: i64, a: &[Vec<i64>], r: &[i64]) {
        let mut line = format!("{{\"f\":\"{f}\",\"o\":\"{o}\",\"v\":\"{k}\",\"s\":\"f64\",\"d\":{},\"x\":{},\"t\":{t},\"a\":[", jarr(d), jarr(x));
        for (i, x) in a.iter().enumerate() {
            if i > 0 {
                line.push(',');
            }
            line.push_str(&jarr(x));
        }
        line.push_str(&format!("],\"r\":{}}}\n", jarr(r)));
        self.outs[self.cur].write_all(line.as_bytes()).expect("write trace");
        self.n += 1;
    }
    /// Perform one library call and record it.  `deg`: homogeneity degree of
    /// the result when all inputs are scaled by a power of two.
    pub fn call<R: Pj>(&mut self, f: &str, o: &str, v: &str, s: &str, d: &[i64], a: &[Vec<i64>], deg: i32, g: impl FnOnce() -> R) {
        let k = scale();
        if k != 0 && deg == NOSCALE {
            return;
        }
        let un = if deg == NOSCALE { 0 } else { k * deg };
        let mut g = Some(g);
        let r = run_dyn(&mut |out: &mut Vec<i64>| {
            let x = (g.take().unwrap())();
            pre(un, false);
            x.pj(out);
        });
        self.emit(f, o, v, s, d, a, &r);
    }
    /// As `call`, projecting to plain integers.
    pub fn rawcall<R: Pj>(&mut self, f: &str, o: &str, v: &str, s: &str, d: &[i64], a: &[Vec<i64>], g: impl FnOnce() -> R) {
        if scale() != 0 {
            return;
        }
        let r = run(0, true, g);
        self.emit(f, o, v, s, d, a, &r);
    }
    pub fn finish(&mut self) {
        for o in self.outs.iter_mut() {
            o.flush().expect("flush trace");
        }
        println!("EVENTS {}", self.n);
    }
}
fn pre(un: i32, rawi: bool) {
    UNSC.with(|s| s.set(un));
    RAWI.with(|s| s.set(rawi));
}
fn run_dyn(g: &mut dyn FnMut(&mut Vec<i64>)) -> Vec<i64> {
    let mut o = Vec::new();
    let ok = catch_unwind(AssertUnwindSafe(|| g(&mut o))).is_ok();
    pre(0, false);
    if ok { o } else { vec![PANIC] }
}
pub fn run<R: Pj>(unscale: i32, rawi: bool, g: impl FnOnce() -> R) -> Vec<i64> {
    let mut g = Some(g);
    run_dyn(&mut |out: &mut Vec<i64>| {
        let x = (g.take().unwrap())();
        pre(unscale, rawi);
        x.pj(out);
    })
}

/// all ownership forms of a binary operator
macro_rules! bin {
    ($rec:expr, $f:expr, $o:expr, $s:expr, $d:expr, $a:expr, $deg:expr, $x:expr, $op:tt, $y:expr) => {{
        let (x, y) = ($x, $y);
        $rec.call($f, $o, "vv", $s, $d, $a, $deg, || x $op y);
        $rec.call($f, $o, "rv", $s, $d, $a, $deg, || &x $op y);
        $rec.call($f, $o, "vr", $s, $d, $a, $deg, || x $op &y);
        $rec.call($f, $o, "rr", $s, $d, $a, $deg, || &x $op &y);
    }};
}
/// both ownership forms of an operator with a scalar on the right
macro_rules! bins {
    ($rec:expr, $f:expr, $o:expr, $s:expr, $d:expr, $a:expr, $deg:expr, $x:expr, $op:tt, $y:expr) => {{
        let (x, y) = ($x, $y);
        $rec.call($f, $o, "v", $s, $d, $a, $deg, || x $op y);
        $rec.call($f, $o, "r", $s, $d, $a, $deg, || &x $op y);
    }};
}
/// compound assignment; the right-hand side by value and, with `ref`, by reference
macro_rules! asg {
    ($rec:expr, $f:expr, $o:expr, $s:expr, $d:expr, $a:expr, $deg:expr, $x:expr, $op:tt, $y:expr, ref) => {{
        let (x, y) = ($x, $y);
        $rec.call($f, $o, "av", $s, $d, $a, $deg, || { let mut z = x; z $op y; z });
        $rec.call($f, $o, "ar", $s, $d, $a, $deg, || { let mut z = x; z $op &y; z });
    }};
    ($rec:expr, $f:expr, $o:expr, $s:expr, $d:expr, $a:expr, $deg:expr, $x:expr, $op:tt, $y:expr) => {{
        let (x, y) = ($x, $y);
        $rec.call($f, $o, "av", $s, $d, $a, $deg, || { let mut z = x; z $op y; z });
    }};
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
}
thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// PROP TIER SEED DIR SHARDS
pub fn drive(t: &[(&str, fn(&mut Rec))]) {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, seed, dir, shards) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), &a[4], a[5].parse::<usize>().unwrap());
    quiet_panics();
    let mut rec = Rec::new(dir, shards, seed, tier == "thorough");
    let f = t.iter().find(|x| x.0 == prop).expect("unknown property").1;
    // a panic outside any recorded call ends the driver; say where it came from
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut rec))) {
        LAST.with(|l| eprintln!("{}", l.borrow()));
        std::panic::resume_unwind(e);
    }
    rec.finish();
}

"""Programs that ask rustc which dimension judgments the library's type-level
calculus accepts.  Everything here is generated text; the answers of the
compiler are recorded as events for spec/Shape.tla."""
import json, os, random, re, subprocess

CONSTRAINT = "/repo/crates/cglinalg_core/src/constraint.rs"
HEAD = '#![allow(warnings)]\n#[path = "%s"]\nmod constraint;\nuse constraint::*;\n' % CONSTRAINT
U = {1001: "U1", 1002: "U2", 1003: "U3", 2000: "ShapeConstraint"}

def ty(d):
    return U[d] if d in U else "Const<%d>" % d

PROFILES = ((), ("-C", "debug-assertions=off", "-C", "overflow-checks=off"))

def rustc(src, out, json_errors=False, emit=None, profile=()):
    cmd = ["rustc", "--edition", "2021", "--cap-lints", "allow", "-A", "warnings", src] + list(profile)
    if emit:
        cmd += ["--crate-type", "lib", "--emit", emit, "-o", out]
    else:
        cmd += ["-C", "debuginfo=0", "-C", "codegen-units=8", "-o", out]
    if json_errors:
        cmd += ["--error-format", "json"]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

def module_compiles(work):
    src = work + "/alone.rs"
    open(src, "w").write(HEAD)
    return rustc(src, work + "/alone.rmeta", emit="metadata")

# ---- concrete judgments: one query per line, answered at run time ----------
PRE = HEAD + r'''
enum U1 {} impl Dim for U1 {}
enum U2 {} impl Dim for U2 {}
enum U3 {} impl Dim for U3 {}
struct W<T: ?Sized>(core::marker::PhantomData<T>);
impl<T: ?Sized> W<T> { fn w() -> Self { W(core::marker::PhantomData) } }
fn code<T: ?Sized>() -> i64 {
    let n = core::any::type_name::<T>();
    if n.ends_with("::U1") { return 1001 }
    if n.ends_with("::U2") { return 1002 }
    if n.ends_with("::U3") { return 1003 }
    if n.ends_with("::ShapeConstraint") { return 2000 }
    if let Some(i) = n.rfind("Const<") {
        let s = &n[i + 6..n.len() - 1];
        return s.trim_end_matches("usize").trim_end_matches('_').parse().unwrap_or(-1);
    }
    -1
}
fn show(o: &str, v: &str, d: &[i64], r: Vec<i64>) {
    println!("{{\"f\":\"shp\",\"o\":\"{}\",\"v\":\"{}\",\"s\":\"\",\"d\":{:?},\"a\":[],\"r\":{:?}}}", o, v, d, r);
}
// the inherent method exists exactly when the bound holds, and wins
trait No { fn ans(&self) -> Vec<i64> { vec![] } }
impl<T: ?Sized> No for W<T> {}
trait NoB { fn yes(&self) -> Vec<i64> { vec![0] } }
impl<T: ?Sized> NoB for W<T> {}
struct QAdd<S: ?Sized, A, B>(core::marker::PhantomData<(A, B)>, core::marker::PhantomData<S>);
struct QSub<S: ?Sized, A, B>(core::marker::PhantomData<(A, B)>, core::marker::PhantomData<S>);
struct QMul<S: ?Sized, A, B>(core::marker::PhantomData<(A, B)>, core::marker::PhantomData<S>);
struct QLt<S: ?Sized, A, B>(core::marker::PhantomData<(A, B)>, core::marker::PhantomData<S>);
struct QEq<S: ?Sized, A, B>(core::marker::PhantomData<(A, B)>, core::marker::PhantomData<S>);
struct QCm<S: ?Sized, A, B, C, D>(core::marker::PhantomData<(A, B, C, D)>, core::marker::PhantomData<S>);
struct QCt<S: ?Sized, A, B, C, D>(core::marker::PhantomData<(A, B, C, D)>, core::marker::PhantomData<S>);
struct QEx<S: ?Sized, A, B>(core::marker::PhantomData<(A, B)>, core::marker::PhantomData<S>);
struct QCo<S: ?Sized, A, B>(core::marker::PhantomData<(A, B)>, core::marker::PhantomData<S>);
struct QDim<A>(core::marker::PhantomData<A>);
impl<A: Dim, B: Dim, S: ?Sized + DimAdd<A, B>> W<QAdd<S, A, B>> { fn ans(&self) -> Vec<i64> { vec![code::<S::Output>()] } }
impl<A: Dim, B: Dim, S: ?Sized + DimSub<A, B>> W<QSub<S, A, B>> { fn ans(&self) -> Vec<i64> { vec![code::<S::Output>()] } }
impl<A: Dim, B: Dim, S: ?Sized + DimMul<A, B>> W<QMul<S, A, B>> { fn ans(&self) -> Vec<i64> { vec![code::<S::Output>()] } }
impl<A: Dim, B: Dim, S: ?Sized + DimEq<A, B>> W<QEq<S, A, B>> { fn ans(&self) -> Vec<i64> { vec![code::<S::Representative>()] } }
impl<A: Dim, B: Dim, S: ?Sized + DimLt<A, B>> W<QLt<S, A, B>> { fn yes(&self) -> Vec<i64> { vec![1] } }
impl<A: Dim, B: Dim, C: Dim, D: Dim, S: ?Sized + CanMultiply<A, B, C, D>> W<QCm<S, A, B, C, D>> { fn yes(&self) -> Vec<i64> { vec![1] } }
impl<A: Dim, B: Dim, C: Dim, D: Dim, S: ?Sized + CanTransposeMultiply<A, B, C, D>> W<QCt<S, A, B, C, D>> { fn yes(&self) -> Vec<i64> { vec![1] } }
impl<A: Dim, B: Dim, S: ?Sized + CanExtend<A, B>> W<QEx<S, A, B>> { fn yes(&self) -> Vec<i64> { vec![1] } }
impl<A: Dim, B: Dim, S: ?Sized + CanContract<A, B>> W<QCo<S, A, B>> { fn yes(&self) -> Vec<i64> { vec![1] } }
impl<A: Dim> W<QDim<A>> { fn yes(&self) -> Vec<i64> { vec![1] } }
'''
QN = {"add": ("QAdd", "ans"), "sub": ("QSub", "ans"), "mul": ("QMul", "ans"), "eq": ("QEq", "ans"), "lt": ("QLt", "yes"),
      "canmul": ("QCm", "yes"), "cantmul": ("QCt", "yes"), "ext": ("QEx", "yes"), "con": ("QCo", "yes")}

def mentioned():
    """numbers the source mentions: only a source of further inputs"""
    try:
        t = open(CONSTRAINT).read()
    except OSError:
        return []
    ns = {int(x.replace("_", "")) for x in re.findall(r"(?<![\w.])\d[\d_]*", t)} | {int(x.replace("_", ""), 16) for x in re.findall(r"(?<![\w.])0x([0-9a-fA-F_]+)", t)}
    ns = sorted(ns - set(range(13)))
    return [n for n in ns if n < 2 ** 30][:16]

def queries_c01(tier, rng):
    top = 17 if tier == "quick" else 40
    qs = []
    for m in range(top + 1):
        for n in range(top + 1):
            for o in ("add", "sub", "mul", "lt"):
                qs.append((o, "SC", [m, n]))
    big = [15, 16, 17, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536] + mentioned()
    for m in big:
        for n in list(range(13)) + rng.sample(big, 3) + mentioned() + [m]:
            for o in ("add", "sub", "mul", "lt"):
                qs.append((o, "SC", [m, n])); qs.append((o, "SC", [n, m]))
    for _ in range(300 if tier == "quick" else 3000):
        m, n = rng.randint(0, 64), rng.randint(0, 64)
        for o in ("add", "sub", "mul", "lt"):
            qs.append((o, "SC", [m, n]))
    us = [1001, 1002, 2000]
    for u in us:
        for k in [0, 1, 2, 3, 4, 5] + us:
            for o in ("add", "sub", "mul", "lt"):
                qs.append((o, "SC", [u, k])); qs.append((o, "SC", [k, u]))
    for self_ in ("Const<0>", "Const<1>", "Const<3>", "Const<4>", "u8", "str", "U1", "()"):
        for m in range(6):
            for n in range(6):
                for o in ("add", "sub", "mul", "lt"):
                    qs.append((o, self_, [m, n]))
    return qs

def queries_c02(tier, rng):
    top = 12 if tier == "quick" else 40
    sq = 4 if tier == "quick" else 6
    qs = []
    for m in range(top + 1):
        for n in range(top + 1):
            for o in ("eq", "ext", "con"):
                qs.append((o, "SC", [m, n]))
    big = [15, 16, 17, 31, 32, 63, 64, 65, 100, 255, 256, 1000, 65535, 65536] + mentioned()
    for m in big:
        for n in [0, 1, 2, 3, 4, 5, m - 1, m, m + 1] + mentioned():
            for o in ("eq", "ext", "con"):
                qs.append((o, "SC", [m, n])); qs.append((o, "SC", [n, m]))
    for a in range(sq + 1):
        for b in range(sq + 1):
            for c in range(sq + 1):
                for d in range(sq + 1):
                    qs.append(("canmul", "SC", [a, b, c, d])); qs.append(("cantmul", "SC", [a, b, c, d]))
    us = [1001, 1002, 1003, 2000]
    for u in us:
        for k in [0, 1, 2, 3, 4, 5] + us:
            for o in ("eq", "ext", "con"):
                qs.append((o, "SC", [u, k])); qs.append((o, "SC", [k, u]))
    pool = list(range(0, 10)) + us + [16, 255]
    for _ in range(400 if tier == "quick" else 3000):
        t = [rng.choice(pool) for _ in range(4)]
        k = rng.randint(0, 3)
        if k == 0: t[2] = t[1]
        if k == 1: t[2] = t[0]
        if k == 2: t[3] = t[1]
        qs.append(("canmul", "SC", t)); qs.append(("cantmul", "SC", t))
    for self_ in ("Const<0>", "Const<1>", "Const<3>", "u8", "str", "U1", "()"):
        for m in range(6):
            for n in range(6):
                for o in ("eq", "ext", "con"):
                    qs.append((o, self_, [m, n]))
                for o in ("canmul", "cantmul"):
                    qs.append((o, self_, [m, n, m, n])); qs.append((o, self_, [n, n, m, m])); qs.append((o, self_, [m, m, n, n]))
    return qs

def concrete_source(qs):
    out = [PRE]
    fns = []
    for i in range(0, len(qs), 200):
        fns.append("q%d" % i)
        out.append("fn q%d() {" % i)
        for o, v, d in qs[i:i + 200]:
            name, m = QN[o]
            s = "ShapeConstraint" if v == "SC" else v
            out.append('    show("%s", "%s", &%s, W::<%s<%s, %s>>::w().%s());' % (o, v, d, name, s, ", ".join(ty(x) for x in d), m))
        out.append("}")
    out.append("fn main() { %s }" % " ".join(f + "();" for f in fns))
    return "\n".join(out)

# ---- what may be a dimension, and that dimensions are not values -----------
def values_source():
    out = [PRE, "fn main() {"]
    for t, c in [("Const<%d>" % k, k) for k in (0, 1, 2, 3, 4, 5, 17, 255)] + [("ShapeConstraint", 2000), ("U1", 1001)]:
        out.append('    show("dimtype", "", &[%d], { let mut v = W::<QDim<%s>>::w().yes(); v.push(core::mem::size_of::<%s>() as i64); v.push(core::mem::size_of::<Option<%s>>() as i64); v });' % (c, t, t, t))
    prim = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "()"]
    made = []
    for e in ("U1", "Const<3>", "ShapeConstraint", "u8"):
        made += [f % e for f in ("Option<%s>", "Box<%s>", "Vec<%s>", "[%s; 0]", "[%s; 3]", "&'static %s", "&'static [%s]", "*const %s", "(%s,)", "core::marker::PhantomData<%s>", "core::cell::Cell<%s>",
                                 "core::mem::MaybeUninit<%s>", "core::num::Wrapping<%s>", "core::mem::ManuallyDrop<%s>", "std::rc::Rc<%s>", "Result<%s, u8>", "fn() -> %s", "fn(%s)", "W<%s>")]
    for t in prim + made + ["&'static str", "String", "(U1, U2)", "(Const<1>, Const<2>)", "(u8, u8)", "fn()", "core::num::NonZeroUsize", "core::ops::Range<usize>", "core::cmp::Ordering", "core::time::Duration"]:
        out.append('    show("valtype", "%s", &[], W::<QDim<%s>>::w().yes());' % (t.replace("'", ""), t))
    out.append("}")
    return "\n".join(out)

# ---- generic programs: hypotheses |- goal, for symbolic dimensions ----------
# judgment = (kind, args...); symbolic dimensions are 1001.. and constants < 1000
KIND = {"add": 1, "sub": 2, "mul": 3, "lt": 4, "eq": 5, "canmul": 6, "cantmul": 7, "ext": 8, "con": 9, "dimself": 10, "rep": 11, "outdim": 12, "addx": 13, "subx": 14, "mulx": 15}
def bound(j):
    k, a = j[0], [gty(x) for x in j[1:]]
    return {"add": lambda: "DimAdd<%s, %s, Output = %s>" % tuple(a), "sub": lambda: "DimSub<%s, %s, Output = %s>" % tuple(a),
            "mul": lambda: "DimMul<%s, %s, Output = %s>" % tuple(a), "lt": lambda: "DimLt<%s, %s>" % tuple(a),
            "eq": lambda: "DimEq<%s, %s>" % tuple(a), "rep": lambda: "DimEq<%s, %s, Representative = %s>" % tuple(a),
            "canmul": lambda: "CanMultiply<%s, %s, %s, %s>" % tuple(a),
            "cantmul": lambda: "CanTransposeMultiply<%s, %s, %s, %s>" % tuple(a), "ext": lambda: "CanExtend<%s, %s>" % tuple(a),
            "con": lambda: "CanContract<%s, %s>" % tuple(a), "dimself": lambda: "Dim",
            "addx": lambda: "DimAdd<%s, %s>" % tuple(a), "subx": lambda: "DimSub<%s, %s>" % tuple(a), "mulx": lambda: "DimMul<%s, %s>" % tuple(a)}[k]()
V = {1001: "A", 1002: "B", 1003: "C", 1004: "D"}
def gty(x):
    return V[x] if x in V else "Const<%d>" % x
A, B_, C, D = 1001, 1002, 1003, 1004

def entailments():
    """(self is generic?, hypotheses, goal) - the specification decides which hold."""
    hyps = [[], [("eq", A, B_)], [("eq", B_, A)], [("eq", A, B_), ("eq", B_, A)],
            [("eq", B_, C), ("eq", C, B_)], [("eq", A, C), ("eq", C, A)],
            [("canmul", A, B_, C, D)], [("cantmul", A, B_, C, D)],
            [("ext", A, B_)], [("con", A, B_)], [("add", A, 1, B_)], [("sub", A, 1, B_)], [("add", A, 2, B_)], [("sub", A, 2, B_)],
            [("mul", A, 1, B_)], [("lt", A, B_)], [("lt", A, B_), ("lt", B_, C)], [("add", A, B_, C)], [("sub", A, B_, C)],
            [("mul", A, B_, C)], [("lt", A, 4)], [("rep", A, B_, C)], [("addx", A, B_)], [("subx", A, B_)], [("mulx", A, B_)]]
    goals = [("eq", A, A), ("rep", A, A, A), ("eq", A, B_), ("eq", B_, A), ("eq", B_, C), ("eq", C, B_), ("eq", A, C), ("eq", C, A), ("eq", A, D), ("eq", B_, D),
             ("canmul", A, B_, C, D), ("canmul", A, B_, B_, C), ("canmul", A, A, A, A), ("canmul", A, B_, A, B_), ("canmul", C, A, B_, D), ("canmul", A, B_, A, C),
             ("cantmul", A, B_, C, D), ("cantmul", A, B_, A, C), ("cantmul", A, A, A, A), ("cantmul", A, B_, B_, A), ("cantmul", A, C, B_, D), ("cantmul", A, B_, C, B_),
             ("ext", A, B_), ("con", A, B_), ("add", A, 1, B_), ("sub", A, 1, B_), ("sub", B_, 1, A), ("add", B_, 1, A), ("ext", B_, A), ("con", B_, A),
             ("ext", A, A), ("con", A, A), ("lt", A, A), ("lt", A, B_), ("lt", B_, A), ("lt", A, C), ("add", A, 1, A), ("add", A, B_, C), ("sub", A, B_, C), ("mul", A, B_, C),
             ("mul", A, 1, A), ("add", 1, A, B_), ("add", A, 2, B_), ("sub", A, 0, A), ("mul", 1, A, A), ("lt", 0, A),
             ("rep", A, B_, A), ("rep", A, B_, B_), ("eq", 3, 3), ("eq", 3, 4), ("add", 2, 1, 3), ("lt", 4, 3), ("ext", 3, 4), ("ext", 3, 3), ("con", 4, 3), ("con", 3, 4),
             ("outdim", "add", A, B_), ("outdim", "sub", A, B_), ("outdim", "mul", A, B_), ("outdim", "eq", A, B_), ("outdim", "add", A, 1), ("outdim", "sub", A, 1),
             ("outdim", "eq", B_, C), ("outdim", "eq", A, C), ("outdim", "eq", A, A), ("outdim", "add", 4, 4), ("outdim", "sub", 4, 4), ("outdim", "mul", 4, 4), ("outdim", "add", B_, A)]
    for gen in (0, 1):
        for h in hyps:
            for g in goals:
                yield gen, h, g

def entail_source(progs):
    lines = HEAD.split("\n")
    for i, (gen, h, g) in enumerate(progs):
        s = "T" if gen else "ShapeConstraint"
        gens = "A: Dim, B: Dim, C: Dim, D: Dim" + (", T" if gen else "")
        w = ", ".join("%s: %s" % (s, bound(j)) for j in h)
        if g[0] == "outdim":
            t = {"add": "DimAdd<%s, %s>>::Output", "sub": "DimSub<%s, %s>>::Output", "mul": "DimMul<%s, %s>>::Output", "eq": "DimEq<%s, %s>>::Representative"}[g[1]] % (gty(g[2]), gty(g[3]))
            lines.append("fn p%d<%s>() %s { fn d<X: Dim>() {} d::<<%s as %s>() }" % (i, gens, ("where " + w) if w else "", s, t))
            continue
        # the goal mentions the outer type parameters, so state it inline
        lines.append("fn p%d<%s>() %s { struct N<A, B, C, D, T: ?Sized>(core::marker::PhantomData<(A, B, C, D)>, core::marker::PhantomData<T>); impl<A: Dim, B: Dim, C: Dim, D: Dim, T: ?Sized + %s> N<A, B, C, D, T> { fn need() {} } N::<A, B, C, D, %s>::need() }"
                     % (i, gens, ("where " + w) if w else "", bound(g), s))
    return "\n".join(lines) + "\n", len(HEAD.split("\n"))

# ---- only dimensions take part: the same bound with and without `X: Dim` ----
TRAITS = [("add", "DimAdd<%s, %s>", 2), ("sub", "DimSub<%s, %s>", 2), ("mul", "DimMul<%s, %s>", 2), ("lt", "DimLt<%s, %s>", 2), ("eq", "DimEq<%s, %s>", 2),
          ("canmul", "CanMultiply<%s, %s, %s, %s>", 4), ("cantmul", "CanTransposeMultiply<%s, %s, %s, %s>", 4), ("ext", "CanExtend<%s, %s>", 2), ("con", "CanContract<%s, %s>", 2)]
def formed_events(work, prop, profile=()):
    progs = []
    for k, t, n in TRAITS:
        if (k in ("add", "sub", "mul", "lt")) != (prop == "C01"):
            continue
        for i in range(n):
            for b in (0, 1):
                v = ["X%d" % j for j in range(n)]
                g = ", ".join(x + (": Dim" if j != i or b else "") for j, x in enumerate(v))
                for w in ("ShapeConstraint", "T"):
                    progs.append(([KIND[k], i + 1, b], w, "fn f%d<%s, T>() where %s: %s {}" % (len(progs), g, w, t % tuple(v))))
    p = work + "/formed%d.rs" % len(profile)
    off = len(HEAD.split("\n"))
    open(p, "w").write("\n".join(HEAD.split("\n") + [x[2] for x in progs]) + "\n")
    r = rustc(p, work + "/formed%d.rmeta" % len(profile), json_errors=True, emit="metadata", profile=profile)
    bad = error_lines(r.stderr)
    return [{"f": "shp", "o": "formed", "v": w, "s": "", "d": d, "a": [], "r": [0 if off + 1 + i in bad else 1]} for i, (d, w, _) in enumerate(progs)], bad, off

def error_lines(stderr):
    bad = {}
    for l in stderr.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") != "error":
            continue
        for sp in m.get("spans", []):
            if sp.get("is_primary"):
                bad.setdefault(sp["line_start"], m["message"][:200])
    return bad

def entail_events(work, prop, profile=()):
    c01 = ("add", "sub", "mul", "lt")
    head = lambda g: g[1] if g[0] == "outdim" else g[0]
    # what a predicate grants its user belongs to the predicate's property too
    pred = lambda h: any(j[0] in ("canmul", "cantmul", "ext", "con") for j in h)
    progs = [x for x in entailments() if (head(x[2]) in c01) == (prop == "C01") or (prop == "C02" and pred(x[1]))]
    src, off = entail_source(progs)
    p = work + "/entail%d.rs" % len(profile)
    open(p, "w").write(src)
    r = rustc(p, work + "/entail%d.rmeta" % len(profile), json_errors=True, emit="metadata", profile=profile)
    bad = error_lines(r.stderr)
    ev = []
    for i, (gen, h, g) in enumerate(progs):
        ok = 0 if (off + 1 + i) in bad else 1
        a = [[KIND[g[0]]] + [KIND.get(x, x) for x in g[1:]]] + [[KIND[j[0]]] + list(j[1:]) for j in h]
        ev.append({"f": "shp", "o": "entail", "v": "T" if gen else "SC", "s": "", "d": [gen], "a": a, "r": [ok]})
    return ev, bad, off

def run_bin(src_text, work, name, profile=()):
    """-> (events, error text)"""
    p = "%s/%s.rs" % (work, name)
    open(p, "w").write(src_text)
    r = rustc(p, "%s/%s" % (work, name), profile=profile)
    if r.returncode != 0:
        return None, r.stderr
    x = subprocess.run(["%s/%s" % (work, name)], stdout=subprocess.PIPE, text=True)
    return x.stdout, None

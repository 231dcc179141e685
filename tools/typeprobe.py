"""Programs put to the compiler for C03: each is one function over typed
arguments with a claimed result type; spec/Typing.tla says which must compile.
A type is [kind, rows, columns]."""
import itertools, json, os, re, shutil

ANY, MAT, VEC, PNT, SCA, QUA, CPX, ARR, BOO, UNI = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9
TRA, ROT, SCL, SHR, REF, ISO, SIM, TFM = 10, 11, 12, 13, 14, 15, 16, 17
TNAME = {TRA: "Translation", ROT: "Rotation", SCL: "Scale", SHR: "Shear", REF: "Reflection", ISO: "Isometry", SIM: "Similarity", TFM: "Transform"}


def rust(t):
    k, r, c = t
    if k in TNAME:
        return "%s%d<f64>" % (TNAME[k], r)
    return {ANY: "_", MAT: "Matrix<f64, %d, %d>" % (r, c), VEC: "Vector<f64, %d>" % r, PNT: "Point<f64, %d>" % r, SCA: "f64", QUA: "Quaternion<f64>",
            CPX: "Complex<f64>", ARR: "[f64; %d]" % r, BOO: "bool", UNI: "()"}[k]


EXPR = {
    "mul": "x * y", "add": "x + y", "sub": "x - y", "eq": "x == y", "dot": "x.dot(&y)", "cross": "x.cross(&y)", "trmul": "x.tr_mul(&y)",
    "trdot": "x.tr_dot(&y)", "cmul": "x.component_mul(&y)", "addasg": "{ let mut x = x; x += y; }", "subasg": "{ let mut x = x; x -= y; }", "mulasg": "{ let mut x = x; x *= y; }",
    "lerp": "x.lerp(&y, 0.5)",
    "transpose": "x.transpose()", "trmut": "{ let mut x = x; x.transpose_mut(); }", "trace": "x.trace()", "det": "x.determinant()", "inverse": "x.inverse()",
    "diagonal": "x.diagonal()", "row": "x.row(0)", "column": "x.column(0)", "neg": "-x",
    "extend": "x.extend(1.0)", "contract": "x.contract()", "tohom": "x.to_homogeneous()", "vfromhom": "x.from_homogeneous().unwrap()",
    "pfromhom": "Point::from_homogeneous(&x).unwrap()",
    "identity": "Matrix::identity()", "fromdiag": "Matrix::from_diagonal(&x)", "fromcols": "Matrix::from_columns(&[x; %d])", "fromrows": "Matrix::from_rows(&[x; %d])",
    "embed": "From::from(&x)", "asarr": "*AsRef::as_ref(&x)", "fromarr": "From::from(x)",
    "toaffine": "x.to_affine_matrix()", "applyp": "x.apply_point(&y)", "applyv": "x.apply_vector(&y)", "compose": "x * y",
}
REFX = {"mul": ["x * y", "&x * y", "x * &y", "&x * &y"], "add": ["x + y", "&x + y", "x + &y", "&x + &y"], "sub": ["x - y", "&x - y", "x - &y", "&x - &y"]}

D4 = (1, 2, 3, 4)
MATS = [[MAT, r, c] for r in D4 for c in D4]
SQ = [[MAT, r, r] for r in D4]
VECS = [[VEC, r, 0] for r in D4]
PNTS = [[PNT, r, 0] for r in (1, 2, 3)]
OTHERS = [[SCA, 0, 0], [QUA, 0, 0], [CPX, 0, 0]]
ALL = MATS + VECS + PNTS + OTHERS
BIG = [[MAT, r, c] for r in (2, 5, 6) for c in (3, 5, 6) if 5 in (r, c) or 6 in (r, c)] + [[VEC, 5, 0], [VEC, 6, 0]]
TFS = [[k, n, 0] for k in TNAME for n in (2, 3)]
NOTYPE = [ANY, 0, 0]


def programs(tier, rng):
    out = []
    add = lambda o, a, d=NOTYPE: out.append((o, a, d))
    # binary operators and binary methods over every pair of types
    for x, y in itertools.product(ALL, ALL):
        for o in ("mul", "add", "sub"):
            add(o, [x, y])
        if x[0] == y[0]:
            for o in ("eq", "dot", "cmul", "addasg", "subasg", "lerp", "mulasg"):
                add(o, [x, y])
            if x[0] == MAT:
                add("trmul", [x, y])
                add("trdot", [x, y])
            if x[0] == VEC:
                add("cross", [x, y])
        elif (x[0], y[0]) in ((PNT, VEC), (VEC, PNT)):
            add("addasg", [x, y])
            add("subasg", [x, y])
    # claimed result shapes
    for x, y in itertools.product(MATS, MATS):
        if x[2] == y[1]:
            for z in MATS:
                add("mul", [x, y], z)
        if x[1] == y[1]:
            zs = MATS if tier == "thorough" else rng.sample(MATS, 4) + [[MAT, x[2], y[2]]]
            for z in zs:
                add("trmul", [x, y], z)
    for x in MATS:
        for v in VECS:
            if x[2] == v[1]:
                for z in VECS:
                    add("mul", [x, v], z)
        for z in MATS:
            add("transpose", [x], z)
            add("add", [x, x], z)
            add("embed", [x], z)
        for z in VECS:
            add("row", [x], z)
            add("column", [x], z)
            add("diagonal", [x], z)
            add("mul", [x, z], [VEC, x[1], 0])
        for n in range(1, 17):
            add("asarr", [x], [ARR, n, 0])
        for o in ("trace", "det", "inverse", "diagonal", "trmut", "neg", "transpose", "row", "column"):
            add(o, [x])
        for n in D4:
            add("fromcols", [[VEC, x[1], 0], [ARR, n, 0]], x)
            add("fromrows", [[VEC, x[2], 0], [ARR, n, 0]], x)
        add("identity", [], x)
        for v in VECS:
            add("fromdiag", [v], x)
    for x in VECS + PNTS:
        for z in VECS + PNTS:
            for o in ("extend", "contract", "tohom", "vfromhom", "pfromhom", "add"):
                add(o, [x, x] if o == "add" else [x], z)
            add("sub", [x, x], z)
        for n in (1, 2, 3, 4, 5):
            add("asarr", [x], [ARR, n, 0])
            add("fromarr", [[ARR, n, 0]], x)
    for n in range(1, 6):
        add("asarr", [[QUA, 0, 0]], [ARR, n, 0])
        add("fromarr", [[ARR, n, 0]], [QUA, 0, 0])
        add("asarr", [[CPX, 0, 0]], [ARR, n, 0])
        add("fromarr", [[ARR, n, 0]], [CPX, 0, 0])
    # sizes without a dimension instance: only the negative direction is decided
    for x, y in itertools.product(BIG, MATS + BIG + VECS):
        if tier == "thorough" or rng.random() < 0.4:
            for o in ("mul", "add", "trmul"):
                add(o, [x, y])
                if x[0] == VEC:
                    break
    # transformations of one dimension never meet objects of the other
    for t in TFS:
        for n in (1, 2, 3):
            add("applyp", [t, [PNT, n, 0]])
            add("applyp", [t, [PNT, n, 0]], [PNT, t[1], 0])
            add("applyv", [t, [VEC, n, 0]])
            add("applyv", [t, [VEC, n, 0]], [VEC, t[1], 0])
        for n in D4 if t[0] != TFM else ():
            add("toaffine", [t], [MAT, n, n])
        add("inverse", [t])
        for u in TFS:
            if t[1] != u[1] or (t[0] == u[0] and t[0] != REF):
                add("compose", [t, u])
            if t[0] == u[0] and t[1] == u[1] and t[0] != REF:
                for z in (2, 3):
                    add("compose", [t, u], [t[0], z, 0])
    # each distinct question once
    seen, uniq = set(), []
    for p in out:
        k = json.dumps(p)
        if k not in seen:
            seen.add(k)
            uniq.append(p)
    return uniq


HEAD = "#![allow(unused, clippy::all)]\nuse cglinalg::*;\nuse cglinalg_core::*;\nuse cglinalg_transform::*;\n"


def source(progs, rng):
    lines = HEAD.rstrip("\n").split("\n")
    off = len(lines)
    for i, (o, a, d) in enumerate(progs):
        e = rng.choice(REFX[o]) if o in REFX and not any(t[0] == SCA for t in a) else EXPR[o]
        if o in ("fromcols", "fromrows"):
            e = e % a[1][1]
        args = ", ".join("%s: %s" % (n, rust(t)) for n, t in zip("xy", a[:1] if o in ("fromcols", "fromrows") else a))
        lines.append("fn p%d(%s) { let _z: %s = %s; }" % (i, args, rust(d), e))
    return "\n".join(lines) + "\n", off


CARGO = """[package]
name = "hprobe"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
[dependencies]
cglinalg = { path = "/repo" }
cglinalg_core = { path = "/repo/crates/cglinalg_core" }
cglinalg_transform = { path = "/repo/crates/cglinalg_transform" }
approx_cmp = { git = "https://github.com/lambdaxymox/approx_cmp/" }
[workspace]
"""


def events(R, work, tier, rng):
    progs = programs(tier, rng)
    src, off = source(progs, rng)
    d = work + "/probe"
    os.makedirs(d, exist_ok=True)
    open(d + "/Cargo.toml", "w").write(CARGO)
    lock = open(R.VERIF + "/harness/tf/Cargo.lock").read()
    open(d + "/Cargo.lock", "w").write(lock.replace('name = "htf"', 'name = "hprobe"'))
    # the library, then an empty program, must be accepted
    open(d + "/lib.rs", "w").write(HEAD)
    R.fresh_target()
    cmd = ["cargo", "check", "--offline", "--manifest-path", d + "/Cargo.toml", "--message-format", "short"]
    r = R.sh(cmd, cwd=R.VERIF + "/harness/tf")
    if r.returncode != 0:
        # with no library no conforming program is accepted either; only a
        # compiler error inside it counts, not a failure of the toolchain
        if re.search(r"crates/cglinalg\w*/src/\S+:\d+:\d+: error", r.stdout + r.stderr):
            raise R.Violation("the library is rejected by the compiler, so no shape-conforming program over it is accepted", {"compiler": r.stderr[-5000:]})
        raise R.Tool("the library does not build:\n" + r.stderr[-3000:])
    open(d + "/lib.rs", "w").write(src)
    r = R.sh(cmd, cwd=R.VERIF + "/harness/tf")
    bad = set()
    for l in (r.stdout + "\n" + r.stderr).splitlines():
        m = re.match(r".*?lib\.rs:(\d+):\d+: error", l)
        if m:
            bad.add(int(m.group(1)))
    if any(b <= off for b in bad) or not bad or "could not compile" not in r.stderr:
        raise R.Tool("the programs were not judged one by one:\n" + r.stderr[-3000:])
    return [{"f": "typ", "o": o, "v": "", "s": "", "d": d_, "a": a, "r": [0 if off + 1 + i in bad else 1]} for i, (o, a, d_) in enumerate(progs)]

"""Which model, driver and trace source decides each property."""
import concurrent.futures, json, os, random
import shapeprobe, typeprobe


class Plan:
    """trace validation of one driver binary, plus laws"""
    def __init__(self, crate, binary, laws=(), shards=8):
        self.crate, self.binary, self.laws, self.shards = crate, binary, laws, shards

    def models(self, tier):
        out = []
        for l in self.laws:
            name, quick, thorough, invs = l[:4]
            props = l[4] if len(l) > 4 else ()
            out.append((name, quick if tier == "quick" else thorough, invs, props))
        return out

    def record(self, R, prop, tier, seed, work):
        b = R.build(self.crate, self.binary)
        n = self.shards if tier == "quick" else 2 * self.shards
        R.recorded(b, prop, tier, seed, work, n)
        return ["%s/t%d.ndjson" % (work, i) for i in range(n)], "calls of the library recorded by driver %s" % self.binary


def shard(lines, work, n):
    out = []
    for i in range(n):
        part = lines[i::n]
        if part:
            p = "%s/t%d.ndjson" % (work, i)
            open(p, "w").write("\n".join(part) + "\n")
            out.append(p)
    return out


class ShapePlan(Plan):
    """C01, C02: the compiler's answers about constraint.rs"""
    def __init__(self, laws):
        super().__init__(None, None, laws)

    def record(self, R, prop, tier, seed, work):
        rng = random.Random(seed)
        r = shapeprobe.module_compiles(work)
        if r.returncode != 0:
            raise R.Tool("constraint.rs does not compile: " + r.stderr[-3000:])
        lines = []
        qs = (shapeprobe.queries_c01 if prop == "C01" else shapeprobe.queries_c02)(tier, rng)
        units = [("concrete%d" % (i // 4000), shapeprobe.concrete_source(qs[i:i + 4000])) for i in range(0, len(qs), 4000)]
        if prop == "C02":
            units.append(("values", shapeprobe.values_source()))
        # judgments may not depend on the build profile
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            bins = [ex.submit(shapeprobe.run_bin, src, work, "%s_%d" % (name, k), pr) for name, src in units for k, pr in enumerate(shapeprobe.PROFILES)]
            ents = [ex.submit(f, work, prop, pr) for pr in shapeprobe.PROFILES for f in (shapeprobe.entail_events, shapeprobe.formed_events)]
        for x in bins:
            out, err = x.result()
            if out is None:
                raise R.Violation("constraint.rs compiles, but programs using its traits no longer do", {"compiler": err[-5000:]})
            lines += out.splitlines()
        for x in ents:
            ev, bad, off = x.result()
            if any(l <= off for l in bad):
                raise R.Violation("constraint.rs compiles, but programs using its traits no longer do", {"compiler": bad})
            lines += [json.dumps(e, separators=(",", ":")) for e in ev]
        lines = sorted(set(lines))
        rng.shuffle(lines)
        return shard(lines, work, 8), "%d judgments put to rustc over /repo's constraint.rs" % len(lines)


class TypePlan(Plan):
    """C03: the compiler's verdict on generated programs over shaped objects"""
    def record(self, R, prop, tier, seed, work):
        ev = typeprobe.events(R, work, tier, random.Random(seed))
        lines = [json.dumps(e, separators=(",", ":")) for e in ev]
        return shard(lines, work, 8), "%d programs put to the compiler" % len(lines)


class SessionPlan(Plan):
    """C29, C34: client programs generated from Session.tla or XSession.tla, replayed on the library"""
    def __init__(self, crate, binary, gen, what, laws):
        super().__init__(crate, binary, laws)
        self.gen, self.what = gen, what

    def record(self, R, prop, tier, seed, work):
        b = R.build(self.crate, self.binary)
        num, depth = (36, 80) if tier == "quick" else (500, 160)
        r = R.tlc(self.gen, self.gen + ".cfg", work + "/gen", args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)))
        prog = [json.loads(json.loads(l)) for l in r.stdout.splitlines() if l.startswith('"[')]
        if len(prog) != num * depth:
            raise R.Tool("program generation failed: " + r.stdout[-2000:])
        script = work + "/programs.txt"
        with open(script, "w") as f:
            for o, t, s, p in prog:
                f.write(" ".join([o, str(t), str(len(s))] + [str(x) for x in s] + [str(x) for x in p]) + "\n")
        n = self.shards if tier == "quick" else 2 * self.shards
        os.environ["SCRIPT"] = script
        R.recorded(b, prop, tier, seed, work, n)
        return ["%s/t%d.ndjson" % (work, i) for i in range(n)], "%d client programs of %d calls generated by TLC from %s and replayed on %s" % (num, depth, self.gen, self.what)


SH_Q, SH_T = {"MaxSteps": 1, "Top": 5}, {"MaxSteps": 2, "Top": 5}
SHAPE_LAWS = [("MC_Shape", SH_Q, SH_T, ("Sound", "Chain", "RoundTrip"))]
MC_TYPING = ("MC_Typing", {"Depth": 2}, {"Depth": 3}, ("Shaped", "Reassociate", "Transposes", "Distribute", "Affine", "Homogeneous"))
VEC_I = ("Determined", "AffineLaws", "DotLaws", "CrossLaws", "GeometryLaws")
MC_VEC = ("MC_Vec", {"P": 3, "N": 3}, {"P": 5, "N": 3}, VEC_I)
MC_VEC2 = ("MC_Vec", {"P": 5, "N": 2}, {"P": 11, "N": 2}, VEC_I)
MAT_I = ("RingLaws", "TransposeLaws", "DetLaws", "InverseLaws", "EmbedLaws", "CrossMatLaw")
MC_MAT2 = ("MC_Mat", {"P": 3, "N": 2, "Depth": 1, "Few": "FALSE"}, {"P": 5, "N": 2, "Depth": 1, "Few": "FALSE"}, MAT_I)
MC_MAT3 = ("MC_Mat", {"P": 2, "N": 3, "Depth": 1, "Few": "TRUE"}, {"P": 2, "N": 3, "Depth": 1, "Few": "TRUE"}, MAT_I)
CPX_I = ("FieldLaws", "ConjLaws", "PowLaws", "ExpLaws", "TrigLaws", "RootLaws", "TangentLaws")
MC_CPX = ("MC_Cpx", {"P": 3}, {"P": 7}, CPX_I)
QUAT_I = ("AlgebraLaws", "ConjNormLaws", "InverseLaws", "DivLaws", "RotationLaws", "ProdLaws", "PowLaws")
MC_QUAT = ("MC_Quat", {"P": 3, "Depth": 1}, {"P": 3, "Depth": 1}, QUAT_I)
MC_ROT = ("MC_Rot", {"P": 7, "Depth": 1}, {"P": 11, "Depth": 1},
          ("Additive", "Rigid", "FixesAxis", "Inverts", "Readable", "HalfAngle", "Conjugates", "Plane", "Euler", "Turns", "Looks"))
MC_XFORM = ("MC_Xform", {"P": 3, "Depth": 1}, {"P": 5, "Depth": 1},
            ("LegalPars", "Pipeline", "Undone", "VectorLaws", "SelfInverse", "Lengths", "Factors", "Fixed", "Determined"), ("Composes",))
MC_PROJ = ("MC_Proj", {"P": 7, "Wide": "FALSE"}, {"P": 11, "Wide": "TRUE"}, ("Match", "Regular", "Tight", "Rays", "Parallel", "Symmetric", "Fov", "Inverts"))
MC_ANG = ("MC_Ang", {"P": 7, "Reach": 3000, "Steps": "<- OddSteps"}, {"P": 7, "Reach": 100000, "Steps": "<- OddSteps"},
          ("Ranged", "Congruent", "Additive", "Idempotent", "OppositeLaw", "BisectLaw"))
NRM_I = ("Definite", "Homogeneous", "Triangle", "Cauchy", "Ordered", "Symmetric", "Threshold", "ClampLaw", "MinMax", "Induced", "SignLaw")
MC_NRM3 = ("MC_Nrm", {"P": 10007, "N": 3, "Hi": 2}, {"P": 10007, "N": 3, "Hi": 4}, NRM_I)
MC_NRM4 = ("MC_Nrm", {"P": 10007, "N": 4, "Hi": 1}, {"P": 10007, "N": 4, "Hi": 2}, NRM_I)
MC_CAST = ("MC_Cast", {"P": 7}, {"P": 7}, ("Bounded", "Refuses", "NotNumbers", "Idempotent", "Widens", "Signs", "Bounds"))
MC_APX = ("MC_Apx", {"P": 7, "Hi": 20}, {"P": 7, "Hi": 100}, ("Reflexive", "SymmetricLaw", "Monotone", "Exact", "RelWeaker", "Translation", "Scaling", "Conjunctive", "Reported"))
FRM_I = ("Elementwise", "Division", "Products", "Noticed", "Projection", "Faithful")
MC_FRM2 = ("MC_Frm", {"P": 7, "N": 2, "Hi": 3}, {"P": 23, "N": 2, "Hi": 9}, FRM_I)
MC_FRM4 = ("MC_Frm", {"P": 7, "N": 4, "Hi": 1}, {"P": 7, "N": 4, "Hi": 2}, FRM_I)
MC_LAYOUT = ("MC_Layout", {"P": 7, "R": 2, "C": 3}, {"P": 7, "R": 3, "C": 3}, ("ReadsBack", "ViewsAgree", "SizeLaw", "Swizzles"), ("Frame",))
MC_HOMOG = ("MC_Homog", {"P": 5, "N": 2}, {"P": 7, "N": 3}, ("RoundTrip", "Apart", "Scale", "Differences"))
SES_I = ("Typedness", "Undo", "Involutions", "SwapTranspose", "Anti", "NormMul", "DetMul", "Linear", "CrossLaw", "RoundTrips")


MC_SPC = ("MC_Spc", {"P": 7, "Hi": 2}, {"P": 7, "Hi": 9}, ("Defined", "ConjugateSymmetric", "Odd", "Even", "Complementary", "Turns", "Total", "Traced", "Ranges",
                                                         "Decided", "EqNe", "Reflexive", "Leibniz", "Structure"))


MC_SFN = ("MC_Sfn", {"P": 7, "Reach": 40}, {"P": 11, "Reach": 200}, ("Rounding", "ExpHom", "ExpInv", "Hyp", "Trig", "Determined", "Const", "Formats"))
MC_SHOW = ("MC_Show", {"Words": '{"0", "-1", "12"}', "MaxN": 4}, {"Words": '{"0", "-1", "12", "1"}', "MaxN": 4}, ("Faithful", "MatrixFaithful", "Shapes", "Structure"))


def ses(tab, quick, thorough, d=1):
    c = lambda v, d: {"Tab": "<- " + tab, "P": 7, "Vals": "<- " + v, "Depth": d}
    return ("MC_Session", c(quick, 1), c(thorough, d), SES_I, ("Frame",))


MC_SES = [ses("TabV", "Bits", "Trits"), ses("TabM", "Bits", "Trits"), ses("TabMV", "Bits", "Odd"), ses("TabR", "Bits", "Bits"),
          ses("TabC", "Odd", "Odd", 2), ses("TabQ", "Bits", "Trits"), ses("TabX", "Bits", "Bits")]
XSES_I = ("Dims", "Proper", "Homomorphism", "Twice", "Undo", "Reversed", "Forgets", "Embeds")


def xses(tab, quick, thorough, facs="Two1", tfacs="Facs2"):
    c = lambda v, f: {"XTab": "<- " + tab, "XU": 16, "P": 7, "Vals": "<- " + v, "Facs": "<- " + f, "Depth": 1}
    return ("MC_XSession", c(quick, facs), c(thorough, tfacs), XSES_I, ("Frame",))


MC_XSES = [xses("XTabA", "One", "Bits"), xses("XTabB", "One", "Bits"), xses("XTabC", "One", "Bits", "Pair", "Pair"), xses("XTabD", "One", "Bits", "Pair", "Pair"),
           xses("XTabE", "One", "One", "Two1", "Pair"), xses("XTabF", "One", "One"), xses("XTabG", "One", "Bits", "Pair", "Two1")]
PLAN = {
    "C01": ShapePlan(SHAPE_LAWS),
    "C02": ShapePlan(SHAPE_LAWS),
    "C03": TypePlan(None, None, [MC_TYPING]),
    "C04": Plan("core", "vecs", [MC_VEC, MC_VEC2]),
    "C05": Plan("core", "vecs", [MC_VEC, MC_VEC2]),
    "C06": Plan("core", "mats", [MC_MAT2, MC_MAT3]),
    "C07": Plan("core", "mats", [MC_MAT2]),
    "C08": Plan("core", "layout", [MC_LAYOUT]),
    "C09": Plan("core", "homog", [MC_MAT2, MC_HOMOG]),
    "C10": Plan("core", "complexes", [MC_CPX]),
    "C11": Plan("core", "complexes", [MC_CPX]),
    "C12": Plan("core", "quats", [MC_QUAT]),
    "C13": Plan("core", "quats", [MC_QUAT]),
    "C14": Plan("core", "quats", [MC_QUAT]),
    "C15": Plan("tf", "rots", [MC_ROT]),
    "C16": Plan("tf", "rots", [MC_ROT]),
    "C17": Plan("tf", "rots", [MC_ROT]),
    "C18": Plan("tf", "tfs", [MC_XFORM]),
    "C19": Plan("tf", "tfs", [MC_XFORM]),
    "C20": Plan("tf", "tfs", [MC_XFORM]),
    "C21": Plan("tf", "projs", [MC_PROJ]),
    "C22": Plan("tf", "angles", [MC_ANG]),
    "C23": Plan("core", "norms", [MC_NRM3, MC_NRM4]),
    "C24": Plan("core", "norms", [MC_NRM3, MC_NRM4]),
    "C25": Plan("tf", "approx", [MC_APX]),
    "C26": Plan("core", "casts", [MC_CAST]),
    "C27": Plan("core", "forms", [MC_FRM2, MC_FRM4]),
    "C28": Plan("core", "layout", [MC_LAYOUT]),
    "C29": SessionPlan("core", "sessions", "SessionGen", "f64, f32, i32, i64", MC_SES),
    "C30": Plan("core", "specials", [MC_SPC]),
    "C31": Plan("tf", "show", [MC_SHOW]),
    "C32": Plan("core", "specials", [MC_SPC]),
    "C33": Plan("core", "scalars", [MC_SFN]),
    "C34": SessionPlan("tf", "xsessions", "XSessionGen", "f64 (whole) and f32 (first calls)", MC_XSES),
}
NOTES = {"*": "The specification's laws are model-checked exhaustively over small scalar fields and shapes; the code is bound to the specification by validating recorded calls (inputs chosen by seeded drivers and small exhaustive families, f64/f32/integer scalars projected to residues of exact rationals). Assumes results of the tested inputs determine the polynomial/rational identities involved, the projection, TLC, rustc and the approx_cmp stand-in."}

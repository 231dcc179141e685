"""Generates harness/core/src/swz.rs: one call per swizzle the library names."""
import re
out = ['//! Generated by tools/genswz.py: every swizzle, every named component.',
       'use crate::common::*;', 'use crate::pjs::*;', 'use cglinalg_numeric::*;', '',
       'fn name(s: &str) -> Vec<i64> { s.chars().map(|c| "xyzw".find(c).unwrap() as i64 + 1).collect() }', '']
fns = []
for f, con in (("vector", "vec"), ("point", "pnt")):
    src = open("/repo/crates/cglinalg_core/src/%s.rs" % f).read()
    by = {}
    for n, t, o in re.findall(r"impl_swizzle!\(\s*(\w+)\(\)\s*=>\s*(\w+)\s*=>\s*(\w+)", src):
        by.setdefault(t, []).append(n)
    for t, names in sorted(by.items()):
        n = int(t[-1])
        fn = "swz_" + t.lower()
        fns.append(fn)
        out.append("fn %s<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {" % fn)
        out.append("    let v = %s::<S, %d>(a);" % (con, n))
        out.append("    let a = [rr(a)];")
        for nm in names:
            out.append('    rec.call("lay", "swz", "%s.%s", S::NAME, &name("%s"), &a, 0, || v.%s());' % (t, nm, nm, nm))
        for nm in "xyzw"[:n]:
            out.append('    rec.call("lay", "swz", "%s.%s field", S::NAME, &name("%s"), &a, 0, || v.%s);' % (t, nm, nm, nm))
        if f == "vector":
            for i, nm in enumerate("xyzw"[:n]):
                out.append('    rec.call("vec", "unit", "m", S::NAME, &[%d, %d], &[], 0, || cglinalg_core::%s::<S>::unit_%s());' % (n, i + 1, t, nm))
        out.append("}")
out.append("pub fn all<S: Sc + SimdScalar>(rec: &mut Rec, gen: &dyn Fn(&mut Rng, usize) -> Vec<Q>) {")
for fn in fns:
    out.append("    let a = gen(&mut rec.rng, %s); %s::<S>(rec, &a);" % (fn[-1], fn))
out.append("}")
open("/verif/harness/core/src/swz.rs", "w").write("\n".join(out) + "\n")
print(sum(x.count('"swz"') for x in out))

"""Planted bugs: edits of /repo, and a program that behaves with the unchanged
tree and misbehaves with the edit.  mkseed.py turns them into seeded/<id>/."""
CON = "crates/cglinalg_core/src/constraint.rs"
MAT = "crates/cglinalg_core/src/matrix.rs"
QUA = "crates/cglinalg_core/src/quaternion.rs"
CPX = "crates/cglinalg_core/src/complex.rs"
VEC = "crates/cglinalg_core/src/vector.rs"
EUL = "crates/cglinalg_core/src/euler.rs"
UNI = "crates/cglinalg_core/src/unit.rs"
NRM = "crates/cglinalg_core/src/norm.rs"
POI = "crates/cglinalg_core/src/point.rs"
TF = "crates/cglinalg_transform/src/"
MOD = '#[path = "@REPO@/crates/cglinalg_core/src/constraint.rs"]\nmod constraint;\nuse constraint::*;\n'
SEEDS = [
 dict(id="shape-transpose-multiply-columns", property="C02", kind="rej",
      needs="a transposed product of two matrices with different row counts and equal column counts; the trait and its blanket impl changed together",
      breaks="tr_mul's shape predicate compares column counts instead of row counts",
      edits=[(CON, "pub trait CanTransposeMultiply<R1: Dim, C1: Dim, R2: Dim, C2: Dim>: DimEq<R1, R2> + DimEq<R2, R1> {}",
                   "pub trait CanTransposeMultiply<R1: Dim, C1: Dim, R2: Dim, C2: Dim>: DimEq<C1, C2> + DimEq<C2, C1> {}"),
             (CON, "    ShapeConstraint: DimEq<R1, R2> + DimEq<R2, R1>", "    ShapeConstraint: DimEq<C1, C2> + DimEq<C2, C1>")],
      demo=MOD + "fn ok<const A: usize, const B: usize, const C: usize, const D: usize>() where ShapeConstraint: CanTransposeMultiply<Const<A>, Const<B>, Const<C>, Const<D>> {}\nfn main() { ok::<3, 2, 3, 2>(); ok::<2, 2, 2, 2>(); }\n",
      bad=MOD + "fn ok<const A: usize, const B: usize, const C: usize, const D: usize>() where ShapeConstraint: CanTransposeMultiply<Const<A>, Const<B>, Const<C>, Const<D>> {}\nfn main() { ok::<2, 3, 4, 3>(); }\n"),
 dict(id="shape-extend-any-output", property="C02", kind="rej",
      needs="naming a wrong extended dimension",
      breaks="CanExtend<N1, N2> no longer fixes N2 = N1 + 1",
      edits=[(CON, "pub trait CanExtend<N1: Dim, N2: Dim>: DimAdd<N1, Const<1>, Output = N2> {}", "pub trait CanExtend<N1: Dim, N2: Dim>: DimAdd<N1, Const<1>> {}"),
             (CON, "    ShapeConstraint: DimAdd<N1, Const<1>, Output = N2>", "    ShapeConstraint: DimAdd<N1, Const<1>>")],
      demo=MOD + "fn ok<const A: usize, const B: usize>() where ShapeConstraint: CanExtend<Const<A>, Const<B>> {}\nfn main() { ok::<2, 3>(); }\n",
      bad=MOD + "fn ok<const A: usize, const B: usize>() where ShapeConstraint: CanExtend<Const<A>, Const<B>> {}\nfn main() { ok::<3, 2>(); }\n"),
 dict(id="shape-lt-reflexive", property="C01", kind="rej",
      needs="comparing a dimension with itself",
      breaks="3 < 3 holds for the type-level comparison",
      edits=[(CON, "// impl_dim_lt!(3, 3);", "impl_dim_lt!(3, 3);")],
      demo=MOD + "fn lt<const A: usize, const B: usize>() where ShapeConstraint: DimLt<Const<A>, Const<B>> {}\nfn main() { lt::<2, 3>(); }\n",
      bad=MOD + "fn lt<const A: usize, const B: usize>() where ShapeConstraint: DimLt<Const<A>, Const<B>> {}\nfn main() { lt::<3, 3>(); }\n"),
 dict(id="matrix4-inverse-negative-determinant", property="C07",
      needs="a 4x4 matrix whose determinant is negative",
      breaks="try_inverse of an invertible matrix returns None when its determinant is negative",
      edits=[(MAT, "        let det = self.determinant();\n        if det.is_zero() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n            let _c0r0",
                   "        let det = self.determinant();\n        if det <= S::zero() {\n            None\n        } else {\n            let det_inv = S::one() / det;\n            let _c0r0")],
      demo="""use cglinalg::Matrix4x4;
fn main() {
    let m: Matrix4x4<f64> = Matrix4x4::new(0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0);
    let i = m.try_inverse().expect("invertible");
    assert_eq!(m * i, Matrix4x4::identity());
}
"""),
 dict(id="complex-powi-even-negative", property="C10", nth=1,
      needs="a negative exponent with at least two one-bits below its leading bit",
      breaks="z^n for such exponents multiplies by the wrong power",
      edits=[(CPX, "            if _exponent % 2 == 1 {\n                result *= base;", "            if _exponent % 2 == 1 && (exponent > 0 || _exponent > 1) {\n                result *= base;")],
      demo="""use cglinalg::Complex;
fn main() {
    let z: Complex<f64> = Complex::new(0.0, 2.0);
    for n in -7i32..=7 {
        let mut want = Complex::new(1.0, 0.0);
        for _ in 0..n.abs() { want = if n > 0 { want * z } else { want / z }; }
        let got = z.powi(n);
        assert!((got - want).norm() < 1e-9 * want.norm().max(1.0), "z^{} = {} instead of {}", n, got, want);
    }
}
"""),
 dict(id="quaternion-slerp-long-arc", property="C14",
      needs="slerp between unit quaternions more than 180 degrees apart as quaternions",
      breaks="slerp's weights are computed for the unflipped pair, so the result leaves the shorter arc",
      edits=[(QUA, "            (_result, (_result).dot(other))\n        } else {", "            (_result, self.dot(other))\n        } else {")],
      demo="""use cglinalg::{Quaternion, Vector3};
fn main() {
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let a: Quaternion<f64> = Quaternion::from_parts(1.0, Vector3::zero());
    let b: Quaternion<f64> = Quaternion::from_parts(-h, Vector3::new(-h, 0.0, 0.0));
    let m = a.slerp(&b, 0.5);
    assert!((m.norm() - 1.0).abs() < 1e-9);
    assert!((m.dot(&a).abs() - (std::f64::consts::PI / 8.0).cos()).abs() < 1e-9, "{}", m);
}
"""),
 dict(id="shape-sub-saturating", property="C01", kind="rej",
      needs="a difference whose subtrahend is the larger one by exactly one",
      breaks="1 - 2 is accepted and yields dimension 0",
      edits=[(CON, "impl_dim_sub!(2, 1);\n", "impl_dim_sub!(2, 1);\nimpl DimSub<Const<1>, Const<2>> for ShapeConstraint {\n    type Output = Const<{ 1_usize.saturating_sub(2) }>;\n}\n")],
      demo=MOD + "fn ok<const A: usize, const B: usize, const C: usize>() where ShapeConstraint: DimSub<Const<A>, Const<B>, Output = Const<C>> {}\nfn main() { ok::<2, 1, 1>(); ok::<4, 4, 0>(); }\n",
      bad=MOD + "fn any<const A: usize, const B: usize>() where ShapeConstraint: DimSub<Const<A>, Const<B>> {}\nfn main() { any::<1, 2>(); }\n"),
 dict(id="shape-mul-byte", property="C01", kind="rej",
      needs="a product of dimensions outside the supported range",
      breaks="the product 16 x 16 is accepted and yields dimension 0 (computed in a byte)",
      edits=[(CON, "impl_dim_mul!(4, 4);\n", "impl_dim_mul!(4, 4);\nimpl DimMul<Const<16>, Const<16>> for ShapeConstraint {\n    type Output = Const<{ 16_u8.wrapping_mul(16) as usize }>;\n}\n")],
      demo=MOD + "fn ok<const A: usize, const B: usize, const C: usize>() where ShapeConstraint: DimMul<Const<A>, Const<B>, Output = Const<C>> {}\nfn main() { ok::<4, 4, 16>(); }\n",
      bad=MOD + "fn ok<const A: usize, const B: usize, const C: usize>() where ShapeConstraint: DimMul<Const<A>, Const<B>, Output = Const<C>> {}\nfn main() { ok::<16, 16, 0>(); }\n"),
 dict(id="shape-broadcast-equality", property="C02", kind="rej",
      needs="comparing dimension 1 with a larger dimension",
      breaks="dimension 1 is accepted as equal to dimension 4 (broadcasting), but only in one direction",
      edits=[(CON, "impl Dim for ShapeConstraint {}\n", "impl Dim for ShapeConstraint {}\n\nimpl DimEq<Const<1>, Const<4>> for ShapeConstraint {\n    type Representative = Const<4>;\n}\n")],
      demo=MOD + "fn eq<const A: usize, const B: usize>() where ShapeConstraint: DimEq<Const<A>, Const<B>> {}\nfn main() { eq::<4, 4>(); }\n",
      bad=MOD + "fn eq<const A: usize, const B: usize>() where ShapeConstraint: DimEq<Const<A>, Const<B>> {}\nfn main() { eq::<1, 4>(); }\n"),
 dict(id="shape-contract-forgets-output", property="C02", kind="shape",
      needs="a generic program that uses what CanContract implies",
      breaks="CanContract<N1, N2> no longer tells a generic program that N2 is N1 - 1 (any smaller dimension will do)",
      edits=[(CON, "pub trait CanContract<N1: Dim, N2: Dim>: DimSub<N1, Const<1>, Output = N2> {}", "pub trait CanContract<N1: Dim, N2: Dim>: DimSub<N1, Const<1>> {}")],
      demo=MOD + "fn need<A: Dim, B: Dim>() where ShapeConstraint: DimSub<A, Const<1>, Output = B> {}\nfn gen<A: Dim, B: Dim>() where ShapeConstraint: CanContract<A, B> { need::<A, B>() }\nfn main() { gen::<Const<4>, Const<3>>(); }\n"),
 dict(id="shape-dimension-inhabited", property="C02", kind="shape",
      needs="looking at the representation of a dimension type",
      breaks="dimension types have a value and an Option of one takes storage",
      edits=[(CON, "pub enum Const<const D: usize> {}", "pub struct Const<const D: usize>;")],
      demo=MOD + "fn main() { assert_eq!(core::mem::size_of::<Option<Const<3>>>(), 0); }\n"),
 dict(id="point-from-homogeneous-negative-weight", property="C09",
      needs="a homogeneous vector whose weight is negative",
      breaks="a point with negative weight is refused as if it were a direction",
      edits=[(POI, "        if !vector[N].is_zero() {\n            let mut result = Point::default();", "        if vector[N] > S::zero() {\n            let mut result = Point::default();")],
      demo="""use cglinalg::{Point3, Vector4};
fn main() {
    let v: Vector4<f64> = Vector4::new(2.0, -4.0, 6.0, -2.0);
    assert_eq!(Point3::from_homogeneous(&v), Some(Point3::new(-1.0, 2.0, -3.0)));
    assert_eq!(Point3::from_homogeneous(&Vector4::new(1.0, 2.0, 3.0, 0.0_f64)), None);
}
"""),
 dict(id="quaternion-from-matrix-z-branch", property="C13",
      needs="a rotation by more than 120 degrees about an axis closest to z and not in the x-z plane",
      breaks="the z-dominant branch of matrix to quaternion conversion has a wrong sign in the y component",
      edits=[(QUA, "            let qx = (matrix[0][2] + matrix[2][0]) * s;\n            let qy = (matrix[2][1] + matrix[1][2]) * s;", "            let qx = (matrix[0][2] + matrix[2][0]) * s;\n            let qy = (matrix[2][1] - matrix[1][2]) * s;")],
      demo="""use cglinalg::{Matrix3x3, Quaternion};
fn main() {
    // half turn about (0, 3/5, 4/5)
    let q: Quaternion<f64> = Quaternion::new(0.0, 0.0, 0.6, 0.8);
    let m: Matrix3x3<f64> = q.to_matrix();
    let n = Quaternion::from_matrix(&m).to_matrix();
    for c in 0..3 { for r in 0..3 { assert!((m[c][r] - n[c][r]).abs() < 1e-9, "{:?} {:?}", m, n); } }
}
"""),
 dict(id="similarity-inverse-rescales-late", property="C18",
      needs="a similarity with scale other than one and a translation, inverted as an object",
      breaks="inverse() of a similarity has the wrong translation",
      edits=[(TF + "similarity.rs", "        self.scale = S::one() / self.scale;\n        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= self.scale;", "        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= self.scale;\n        self.scale = S::one() / self.scale;")],
      demo="""use cglinalg::{Point2, Similarity2, Translation2, Rotation2, Radians, Vector2};
fn main() {
    let s: Similarity2<f64> = Similarity2::from_parts(&Translation2::from_vector(&Vector2::new(1.0, 2.0)), &Rotation2::from_angle(Radians(0.5)), 2.0);
    let p = Point2::new(3.0, -1.0);
    let q = s.inverse().apply_point(&s.apply_point(&p));
    assert!((q - p).norm() < 1e-9, "{} {}", p, q);
}
""" .replace("Similarity2, Translation2", "Normed, Similarity2, Translation2")),
 dict(id="similarity-product-borrowed", property="C19",
      needs="the product of two borrowed similarities, the left one with scale other than one and the right one with a translation",
      breaks="&a * &b does not scale the translation of b",
      edits=[(TF + "similarity.rs", "    fn mul(self, other: &'a Similarity<S, N>) -> Self::Output {\n        let mut result = self * other.isometry;\n        result.scale *= other.scale();\n\n        result\n    }", "    fn mul(self, other: &'a Similarity<S, N>) -> Self::Output {\n        Similarity {\n            isometry: self.isometry * other.isometry,\n            scale: self.scale * other.scale,\n        }\n    }")],
      demo="""use cglinalg::{Normed, Point2, Similarity2, Translation2, Rotation2, Radians, Vector2};
fn main() {
    let a: Similarity2<f64> = Similarity2::from_parts(&Translation2::from_vector(&Vector2::new(1.0, 2.0)), &Rotation2::from_angle(Radians(0.5)), 3.0);
    let b: Similarity2<f64> = Similarity2::from_parts(&Translation2::from_vector(&Vector2::new(-1.0, 4.0)), &Rotation2::from_angle(Radians(1.5)), 2.0);
    let p = Point2::new(3.0, -1.0);
    let want = a.apply_point(&b.apply_point(&p));
    assert!(((a * b).apply_point(&p) - want).norm() < 1e-9);
    assert!(((&a * &b).apply_point(&p) - want).norm() < 1e-9);
}
"""),
 dict(id="perspective-unproject-off-centre", property="C21",
      needs="a frustum that is not symmetric vertically",
      breaks="unproject_point ignores the vertical asymmetry's sign",
      edits=[(TF + "projection.rs", "        let c3r1 = (self.top() - self.bottom()) / (two * self.near());\n        let c3r2 = -one;", "        let c3r1 = if self.top() < self.bottom() { self.bottom() - self.top() } else { self.top() - self.bottom() } / (two * self.near());\n        let c3r2 = -one;")],
      demo="""use cglinalg::{Normed, Perspective3, Point3};
fn main() {
    let p: Perspective3<f64> = Perspective3::new(1.0, 2.0, 3.0, 1.0, 1.0, 10.0);
    let x = Point3::new(0.5, -0.25, -4.0);
    assert!((p.unproject_point(&p.project_point(&x)) - x).norm() < 1e-9);
}
"""),
 dict(id="unit-threshold-not-squared", property="C23",
      needs="a value whose norm lies between the threshold and its square root",
      breaks="try_from_value compares the squared norm with the threshold itself",
      edits=[(UNI, "        if norm_squared > threshold * threshold {", "        if norm_squared > threshold {")],
      demo="""use cglinalg::{Unit, Vector3};
fn main() {
    let v: Vector3<f64> = Vector3::new(0.0, 0.5, 0.0);
    assert!(Unit::try_from_value(v, 0.4).is_some());
    assert!(Unit::try_from_value(v, 0.6).is_none());
}
"""),
 dict(id="matrix-linf-last-column", property="C24",
      needs="a matrix with more columns than rows whose largest row sum comes from the last column",
      breaks="the maximum row sum skips columns beyond the number of rows",
      edits=[(MAT, "            let mut row_sum = S::zero();\n            for c in 0..C {\n                row_sum +=", "            let mut row_sum = S::zero();\n            for c in 0..C.min(R + 1) {\n                row_sum +=")],
      demo="""use cglinalg::Matrix2x4;
fn main() {
    let m: Matrix2x4<f64> = Matrix2x4::new(1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 70.0, 80.0);
    assert_eq!(m.linf_norm(), 92.0);
}
"""),
 dict(id="similarity-approx-scale-tolerance", property="C25",
      needs="two similarities whose scales differ by more than the scale tolerance and less than a looser one",
      breaks="absolute comparison forgets to compare scales when the rotations are bitwise equal",
      edits=[(TF + "similarity.rs", "            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_scale, rhs_scale, max_abs_diff)", "            && (lhs_rotation == rhs_rotation || approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_scale, rhs_scale, max_abs_diff))")],
      demo="""use cglinalg::{Similarity2, Translation2, Rotation2, Radians, Vector2};
fn main() {
    let t = Translation2::from_vector(&Vector2::new(1.0_f64, 2.0));
    let r = Rotation2::from_angle(Radians(0.5));
    let a = Similarity2::from_parts(&t, &r, 3.0);
    let b = Similarity2::from_parts(&t, &r, 4.0);
    assert!(approx_cmp::abs_diff_ne!(a, b, abs_diff_all <= 0.5) || !approx_cmp::abs_diff_eq!(a, b, abs_diff_all <= 0.5));
}
"""),
 dict(id="matrix-try-cast-corner", property="C26",
      needs="a matrix whose last element alone is not representable in the target type",
      breaks="try_cast succeeds with a zero in the last place instead of failing",
      edits=[(MAT, "                    Some(value) => value,\n                    None => return None,", "                    Some(value) => value,\n                    None if c + 1 == C && r + 1 == R => continue,\n                    None => return None,")],
      demo="""use cglinalg::Matrix2x2;
fn main() {
    let m: Matrix2x2<i32> = Matrix2x2::new(1, 2, 3, 300);
    assert!(m.try_cast::<u8>().is_none());
}
"""),
 dict(id="point-swizzle-zxy", property="C28",
      needs="one particular swizzle of a point",
      breaks="Point3::zxy returns the components in the wrong order",
      edits=[(POI, "impl_swizzle!(zxy() => Point3 => Point3 { 2, 0, 1 });", "impl_swizzle!(zxy() => Point3 => Point3 { 2, 1, 0 });")],
      demo="""use cglinalg::Point3;
fn main() { assert_eq!(Point3::new(1, 2, 3).zxy(), Point3::new(3, 1, 2)); }
"""),
 dict(id="matrix-swap-adjacent-alias", property="C29",
      needs="a sequence of operations that swaps two elements of the same column after other writes",
      breaks="swap of two elements in one column leaves a stale copy when the second comes first",
      edits=[(MAT, "        let element_a = self.data[a.0][a.1];\n        self.data[a.0][a.1] = self.data[b.0][b.1];\n        self.data[b.0][b.1] = element_a;", "        if a.0 == b.0 && b.1 < a.1 {\n            self.data[a.0].copy_within(b.1..b.1 + 1, a.1);\n            return;\n        }\n        let element_a = self.data[a.0][a.1];\n        self.data[a.0][a.1] = self.data[b.0][b.1];\n        self.data[b.0][b.1] = element_a;")],
      demo="""use cglinalg::Matrix3x3;
fn main() {
    let mut m = Matrix3x3::new(1, 2, 3, 4, 5, 6, 7, 8, 9);
    m.swap((0, 2), (0, 0));
    assert_eq!(m, Matrix3x3::new(3, 2, 1, 4, 5, 6, 7, 8, 9));
}
"""),
 dict(id="look-to-lh-up-parallelish", property="C17",
      needs="a 4x4 left-handed view whose eye is not at the origin and whose up vector is not perpendicular to the direction",
      breaks="the eye's y coordinate is taken along the up hint instead of the camera's y axis",
      edits=[(MAT, "        let neg_eye_y = -eye_vec.dot(&y_axis);\n", "        let neg_eye_y = -eye_vec.dot(&up.normalize());\n")],
      demo="""use cglinalg::{Matrix4x4, Point3, Vector3, Vector4};
fn main() {
    let eye: Point3<f64> = Point3::new(1.0, 2.0, 3.0);
    let m = Matrix4x4::look_to_lh(&eye, &Vector3::new(0.0, 1.0, 1.0), &Vector3::new(0.0, 1.0, 0.0));
    let o = m * Vector4::new(1.0, 2.0, 3.0, 1.0);
    assert!(o[0].abs() + o[1].abs() + o[2].abs() < 1e-9, "{}", o);
}
"""),
 dict(id="angle-bisect-unnormalised", property="C22",
      needs="two angles whose midpoint is negative",
      breaks="the bisector of angles with a negative midpoint is not normalised into [0, full turn)",
      edits=[("crates/cglinalg_trigonometry/src/lib.rs", "        Self::normalize((other - self) * one_half + self)", "        let middle = (other - self) * one_half + self;\n        if middle <= Self::full_turn() {\n            return middle;\n        }\n        Self::normalize(middle)")],
      demo="""use cglinalg::{Angle, Degrees};
fn main() {
    let m: Degrees<f64> = Degrees(-60.0).bisect(Degrees(-30.0));
    assert!((m.0 - 315.0).abs() < 1e-9, "{}", m);
}
"""),

 dict(id="tr-mul-any-row-count", property="C03", kind="librej",
      needs="a transposed product whose right factor has a different row count than the left one",
      breaks="tr_mul accepts factors with different row counts (and reads out of bounds or truncates)",
      edits=[(MAT, "        ShapeConstraint: CanTransposeMultiply<Const<R1>, Const<C1>, Const<R2>, Const<C2>>,\n        ShapeConstraint: DimMul<Const<C1>, Const<C2>, Output = Const<C1C2>>,",
                   "        ShapeConstraint: CanTransposeMultiply<Const<R1>, Const<C1>, Const<R1>, Const<C2>>,\n        ShapeConstraint: DimMul<Const<C1>, Const<C2>, Output = Const<C1C2>>,")],
      demo="""use cglinalg::{Matrix3x2, Matrix2x2};
fn main() {
    let a: Matrix3x2<i32> = Matrix3x2::new(1, 2, 3, 4, 5, 6);
    let m: Matrix2x2<i32> = a.tr_mul(&a);
    assert_eq!(m, Matrix2x2::new(14, 32, 32, 77));
}
""",
      bad="""use cglinalg::{Matrix3x2, Matrix4x2, Matrix2x2};
fn main() {
    let a: Matrix3x2<i32> = Matrix3x2::new(1, 2, 3, 4, 5, 6);
    let b: Matrix4x2<i32> = Matrix4x2::new(1, 2, 3, 4, 5, 6, 7, 8);
    let _: Matrix2x2<i32> = a.tr_mul(&b);
}
"""),
 dict(id="vector-div-assign-reciprocal", property="C04",
      needs="in-place division of an integer vector by a scalar other than one",
      breaks="v /= s multiplies by the reciprocal, which is zero for integers",
      edits=[(VEC, "    fn div_assign(&mut self, other: S) {\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        for i in 0..N {\n            self.data[i] /= other;",
                   "    fn div_assign(&mut self, other: S) {\n        let reciprocal = S::one() / other;\n        // PERFORMANCE: The const loop should get unrolled during optimization.\n        for i in 0..N {\n            self.data[i] *= reciprocal;")],
      demo="""use cglinalg::Vector3;
fn main() {
    let mut v: Vector3<i32> = Vector3::new(8, -9, 10);
    v /= 2;
    assert_eq!(v, Vector3::new(4, -4, 5));
}
"""),
 dict(id="vector-project-opposite", property="C05",
      needs="projecting onto a vector that points away",
      breaks="the projection onto a vector at an obtuse angle points the wrong way",
      edits=[(VEC, "        other * (self.dot(other) / other.norm_squared())\n", "        other * ((self.dot(other) * self.dot(other)).sqrt() / other.norm_squared())\n")],
      demo="""use cglinalg::Vector3;
fn main() {
    let v: Vector3<f64> = Vector3::new(-2.0, 5.0, 1.0);
    assert_eq!(v.project(&Vector3::new(4.0, 0.0, 0.0)), Vector3::new(-2.0, 0.0, 0.0));
    let v: Vector3<f64> = Vector3::new(2.0, 5.0, 1.0);
    assert_eq!(v.project(&Vector3::new(4.0, 0.0, 0.0)), Vector3::new(2.0, 0.0, 0.0));
}
"""),
 dict(id="matrix-symmetric-neighbours-only", property="C06",
      needs="a matrix of size at least 3 asymmetric only away from the first off-diagonals",
      breaks="is_symmetric looks only at the first off-diagonals",
      edits=[(MAT, "        for i in 0..N {\n            for j in 0..i {\n                result &= ulps_eq!(\n                    self.data[i][j],\n                    self.data[j][i],",
                   "        for i in 0..N {\n            for j in i.saturating_sub(1)..i {\n                result &= ulps_eq!(\n                    self.data[i][j],\n                    self.data[j][i],")],
      demo="""use cglinalg::Matrix3x3;
fn main() {
    let m: Matrix3x3<f64> = Matrix3x3::new(1.0, 2.0, 3.0, 2.0, 5.0, 6.0, 4.0, 6.0, 9.0);
    assert!(!m.is_symmetric());
    let m: Matrix3x3<f64> = Matrix3x3::new(1.0, 2.0, 3.0, 2.0, 5.0, 6.0, 3.0, 6.0, 9.0);
    assert!(m.is_symmetric());
}
"""),
 dict(id="matrix-index-mut-transposed", property="C08",
      needs="writing an element through a (column, row) pair",
      breaks="m[(c, r)] = x writes element (r, c) of a square matrix",
      edits=[(MAT, "        let v: &mut [[S; R]; C] = self.as_mut();\n        &mut v[column][row]", "        let v: &mut [[S; R]; C] = self.as_mut();\n        if R == C { &mut v[row][column] } else { &mut v[column][row] }")],
      demo="""use cglinalg::Matrix3x3;
fn main() {
    let mut m: Matrix3x3<i32> = Matrix3x3::zero();
    m[(2, 0)] = 7;
    assert_eq!(m.c2r0, 7);
    assert_eq!(m[(2, 0)], 7);
}
"""),
 dict(id="complex-sqrt-third-quadrant", property="C11",
      needs="a square root of a number in the open third quadrant",
      breaks="the square root of a number with negative real and imaginary part is not the principal one",
      edits=[(CPX, "        let angle = self.arg();\n        let (sin_angle_over_two, cos_angle_over_two) = (angle / two).sin_cos();\n\n        Self::new(sqrt_norm * cos_angle_over_two",
                   "        let mut angle = self.arg();\n        if self.re < S::zero() && self.im < S::zero() {\n            angle += two * S::pi();\n        }\n        let (sin_angle_over_two, cos_angle_over_two) = (angle / two).sin_cos();\n\n        Self::new(sqrt_norm * cos_angle_over_two")],
      demo="""use cglinalg::Complex;
fn main() {
    for (x, y) in [(-3.0, -4.0), (-3.0, 4.0), (3.0, -4.0), (3.0, 4.0)] {
        let z: Complex<f64> = Complex::new(x, y);
        let r = z.sqrt();
        assert!((r * r - z).norm() < 1e-12);
        assert!(r.re >= 0.0, "sqrt({}) = {}", z, r);
    }
}
"""),
 dict(id="quaternion-inverse-near-unit", property="C12",
      needs="inverting a quaternion whose norm is close to, but not, one",
      breaks="the inverse of an almost-unit quaternion is its conjugate",
      edits=[(QUA, "            Some(self.conjugate() / norm_squared)\n        }\n    }\n\n    /// Determine whether a quaternion is invertible.",
                   "            let one = S::one();\n            let two = one + one;\n            let tolerance = one / (two * (two + two));\n            if (norm_squared - one).abs() < tolerance {\n                return Some(self.conjugate());\n            }\n            Some(self.conjugate() / norm_squared)\n        }\n    }\n\n    /// Determine whether a quaternion is invertible.")],
      demo="""use cglinalg::Quaternion;
fn main() {
    let q: Quaternion<f64> = Quaternion::new(0.5, 0.5, 0.5, 0.55);
    let p = q * q.try_inverse().unwrap();
    assert!((p - Quaternion::unit_s()).norm() < 1e-9, "{}", p);
}
"""),
 dict(id="rotation2-angle-half-plane", property="C15",
      needs="reading the angle of a rotation beyond a quarter turn clockwise",
      breaks="Rotation2::angle is half a turn off for rotations in the third quadrant",
      edits=[(TF + "rotation.rs", "        Radians::atan2(self.matrix.c0r1, self.matrix.c0r0)\n", "        if self.matrix.c0r1 < S::zero() && self.matrix.c0r0 < S::zero() {\n            return Radians::atan(self.matrix.c0r1 / self.matrix.c0r0);\n        }\n        Radians::atan2(self.matrix.c0r1, self.matrix.c0r0)\n")],
      demo="""use cglinalg::{Angle, Degrees, Radians, Rotation2};
fn main() {
    for d in [-170, -120, -100, -60, 0, 45, 100, 170] {
        let a: Radians<f64> = Degrees(d as f64).into();
        let r = Rotation2::from_angle(a);
        assert!((r.angle().0 - a.0).abs() < 1e-9, "{} degrees read back as {}", d, r.angle());
    }
}
"""),
 dict(id="euler-affine-matrix-sign", property="C16",
      needs="Euler angles that all differ from zero, converted to a 4x4 matrix",
      breaks="one entry of the affine matrix of Euler angles has the wrong sign in its three-angle term",
      edits=[(EUL, "        let c1r2 =  cos_pitch * sin_roll + cos_roll * sin_yaw * sin_pitch;\n        let c1r3 =  zero;", "        let c1r2 =  cos_pitch * sin_roll - cos_roll * sin_yaw * sin_pitch;\n        let c1r3 =  zero;")],
      demo="""use cglinalg::{Degrees, Euler, Matrix3x3, Matrix4x4};
fn main() {
    let e: Euler<Degrees<f64>> = Euler::new(Degrees(30.0), Degrees(40.0), Degrees(50.0));
    let a: Matrix3x3<f64> = (&Euler::new(e.x.into(), e.y.into(), e.z.into()) as &Euler<cglinalg::Radians<f64>>).to_matrix();
    let b: Matrix4x4<f64> = (&Euler::new(e.x.into(), e.y.into(), e.z.into()) as &Euler<cglinalg::Radians<f64>>).to_affine_matrix();
    for c in 0..3 { for r in 0..3 { assert!((a[c][r] - b[c][r]).abs() < 1e-12, "column {} row {}", c, r); } }
}
"""),
 dict(id="affine-shear-origin-direction", property="C20",
      needs="a planar shear about an origin off the shear line",
      breaks="the fixed line of the affine shear does not pass through its origin",
      edits=[(MAT, "        let translation = direction.into_inner() * (-shear_factor * origin.to_vector().dot(normal));\n\n        let c0r0 = one + shear_factor * direction[0] * normal[0];\n        let c0r1 = shear_factor * direction[1] * normal[0];\n        let c0r2 = zero;\n\n        let c1r0 = shear_factor * direction[0] * normal[1];",
                   "        let translation = normal.into_inner() * (-shear_factor * origin.to_vector().dot(direction));\n\n        let c0r0 = one + shear_factor * direction[0] * normal[0];\n        let c0r1 = shear_factor * direction[1] * normal[0];\n        let c0r2 = zero;\n\n        let c1r0 = shear_factor * direction[0] * normal[1];")],
      demo="""use cglinalg::{Matrix3x3, Point2, Unit, Vector2, Vector3};
fn main() {
    let d: Unit<Vector2<f64>> = Unit::from_value(Vector2::new(1.0, 0.0));
    let n: Unit<Vector2<f64>> = Unit::from_value(Vector2::new(0.0, 1.0));
    let m = Matrix3x3::from_affine_shear(2.0, &Point2::new(5.0, 3.0), &d, &n);
    let q = m * Vector3::new(5.0, 3.0, 1.0);
    assert_eq!(q, Vector3::new(5.0, 3.0, 1.0));
}
"""),
 dict(id="point-ref-rem-scalar", property="C27",
      needs="the remainder of a borrowed point with a negative component",
      breaks="&p % s takes the non-negative remainder while p % s takes the truncated one",
      edits=[(POI, "impl<S, const N: usize> ops::Rem<S> for &Point<S, N>\nwhere\n    S: SimdScalar,\n{\n    type Output = Point<S, N>;\n\n    #[inline]\n    fn rem(self, other: S) -> Self::Output {\n        Self::Output {\n            coords: self.coords % other,",
                   "impl<S, const N: usize> ops::Rem<S> for &Point<S, N>\nwhere\n    S: SimdScalar,\n{\n    type Output = Point<S, N>;\n\n    #[inline]\n    fn rem(self, other: S) -> Self::Output {\n        Self::Output {\n            coords: ((self.coords % other).map(|x| x + other)) % other,")],
      demo="""use cglinalg::Point3;
fn main() {
    let p: Point3<i32> = Point3::new(-7, 8, 9);
    assert_eq!(&p % 4, p % 4);
}
"""),
 dict(id="complex-tanh-infinity-sign", property="C30",
      needs="tanh at negative infinity with finite imaginary part",
      breaks="tanh(-inf + iy) is +1",
      edits=[(CPX, "            return Self::new(S::copysign(S::one(), self.re), S::copysign(S::zero(), S::sin(two * self.im)));",
                   "            return Self::new(S::one(), S::copysign(S::zero(), S::sin(two * self.im)));")],
      demo="""use cglinalg::Complex;
fn main() {
    let z: Complex<f64> = Complex::new(f64::NEG_INFINITY, 1.0).tanh();
    assert_eq!(z.re, -1.0);
}
"""),
 dict(id="matrix-display-wide", property="C31",
      needs="printing a matrix with more columns than rows",
      breaks="the header of a non-square matrix names its dimensions in the wrong order when it is wide",
      edits=[(MAT, "        write!(formatter, \"Matrix{}x{} [\", R, C).unwrap();", "        write!(formatter, \"Matrix{}x{} [\", R.max(C), R.min(C)).unwrap();")],
      demo="""use cglinalg::Matrix2x3;
fn main() {
    let m: Matrix2x3<i32> = Matrix2x3::new(1, 2, 3, 4, 5, 6);
    assert_eq!(format!("{}", m), "Matrix2x3 [[1, 2], [3, 4], [5, 6]]");
}
"""),
 dict(id="matrix-finite-square-part", property="C32",
      needs="a matrix with more columns than rows and an infinite entry in a late column",
      breaks="is_finite overlooks the entries of the columns beyond the row count",
      edits=[(MAT, "        let mut result = true;\n        for c in 0..C {\n            for r in 0..R {\n                result &= self.data[c][r].is_finite();", "        let mut result = true;\n        for c in 0..C.min(R) {\n            for r in 0..R {\n                result &= self.data[c][r].is_finite();")],
      demo="""use cglinalg::Matrix2x4;
fn main() {
    let mut m: Matrix2x4<f64> = Matrix2x4::zero();
    assert!(m.is_finite());
    m[3][1] = f64::INFINITY;
    assert!(!m.is_finite());
}
"""),
 dict(id="scalar-round-half-even", property="C33",
      needs="rounding an exact half through the scalar trait",
      breaks="halves round to even instead of away from zero",
      edits=[("crates/cglinalg_numeric/src/lib.rs", "                num_traits::Float::round(self)", "                let nearest = num_traits::Float::round(self);\n                if num_traits::Float::abs(self - num_traits::Float::trunc(self)) == 0.5 {\n                    return 2.0 * num_traits::Float::round(self / 2.0);\n                }\n                nearest")],
      demo="""use cglinalg::SimdScalarFloat;
fn main() {
    for (x, y) in [(0.5, 1.0), (1.5, 2.0), (2.5, 3.0), (-2.5, -3.0), (4.5, 5.0)] {
        assert_eq!(<f64 as SimdScalarFloat>::round(x), y, "round({})", x);
    }
}
"""),
 dict(id="isometry-inverse-mut-order", property="C34",
      needs="inverting in place an isometry with both a rotation and a translation",
      breaks="inverse_mut rotates the translation with the uninverted rotation",
      edits=[(TF + "isometry.rs", "        self.rotation.inverse_mut();\n        self.translation.inverse_mut();\n        self.translation.vector = self.rotation.apply_vector(&self.translation.vector);\n",
                   "        self.translation.inverse_mut();\n        self.translation.vector = self.rotation.apply_vector(&self.translation.vector);\n        self.rotation.inverse_mut();\n")],
      demo="""use cglinalg::{Degrees, Isometry2, Point2, Radians, Vector2};
fn main() {
    let mut m: Isometry2<f64> = Isometry2::from_angle_translation(Radians::from(Degrees(90.0)), &Vector2::new(3.0, 1.0));
    let p = Point2::new(2.0, 5.0);
    let q = m.apply_point(&p);
    m.inverse_mut();
    let r = m.apply_point(&q);
    assert!((r - p).norm() < 1e-9, "{}", r);
}
"""),
]

//! Generated by tools/genswz.py: every swizzle, every named component.
use crate::common::*;
use crate::pjs::*;
use cglinalg_numeric::*;

fn name(s: &str) -> Vec<i64> { s.chars().map(|c| "xyzw".find(c).unwrap() as i64 + 1).collect() }

fn swz_vector1<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {
    let v = vec::<S, 1>(a);
    let a = [rr(a)];
    rec.call("lay", "swz", "Vector1.x", S::NAME, &name("x"), &a, 0, || v.x());
    rec.call("lay", "swz", "Vector1.x field", S::NAME, &name("x"), &a, 0, || v.x);
    rec.call("vec", "unit", "m", S::NAME, &[1, 1], &[], 0, || cglinalg_core::Vector1::<S>::unit_x());
}
fn swz_vector2<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {
    let v = vec::<S, 2>(a);
    let a = [rr(a)];
    rec.call("lay", "swz", "Vector2.x", S::NAME, &name("x"), &a, 0, || v.x());
    rec.call("lay", "swz", "Vector2.y", S::NAME, &name("y"), &a, 0, || v.y());
    rec.call("lay", "swz", "Vector2.xx", S::NAME, &name("xx"), &a, 0, || v.xx());
    rec.call("lay", "swz", "Vector2.xy", S::NAME, &name("xy"), &a, 0, || v.xy());
    rec.call("lay", "swz", "Vector2.yx", S::NAME, &name("yx"), &a, 0, || v.yx());
    rec.call("lay", "swz", "Vector2.yy", S::NAME, &name("yy"), &a, 0, || v.yy());
    rec.call("lay", "swz", "Vector2.x field", S::NAME, &name("x"), &a, 0, || v.x);
    rec.call("lay", "swz", "Vector2.y field", S::NAME, &name("y"), &a, 0, || v.y);
    rec.call("vec", "unit", "m", S::NAME, &[2, 1], &[], 0, || cglinalg_core::Vector2::<S>::unit_x());
    rec.call("vec", "unit", "m", S::NAME, &[2, 2], &[], 0, || cglinalg_core::Vector2::<S>::unit_y());
}
fn swz_vector3<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {
    let v = vec::<S, 3>(a);
    let a = [rr(a)];
    rec.call("lay", "swz", "Vector3.x", S::NAME, &name("x"), &a, 0, || v.x());
    rec.call("lay", "swz", "Vector3.y", S::NAME, &name("y"), &a, 0, || v.y());
    rec.call("lay", "swz", "Vector3.z", S::NAME, &name("z"), &a, 0, || v.z());
    rec.call("lay", "swz", "Vector3.xx", S::NAME, &name("xx"), &a, 0, || v.xx());
    rec.call("lay", "swz", "Vector3.xy", S::NAME, &name("xy"), &a, 0, || v.xy());
    rec.call("lay", "swz", "Vector3.xz", S::NAME, &name("xz"), &a, 0, || v.xz());
    rec.call("lay", "swz", "Vector3.yx", S::NAME, &name("yx"), &a, 0, || v.yx());
    rec.call("lay", "swz", "Vector3.yy", S::NAME, &name("yy"), &a, 0, || v.yy());
    rec.call("lay", "swz", "Vector3.yz", S::NAME, &name("yz"), &a, 0, || v.yz());
    rec.call("lay", "swz", "Vector3.zx", S::NAME, &name("zx"), &a, 0, || v.zx());
    rec.call("lay", "swz", "Vector3.zy", S::NAME, &name("zy"), &a, 0, || v.zy());
    rec.call("lay", "swz", "Vector3.zz", S::NAME, &name("zz"), &a, 0, || v.zz());
    rec.call("lay", "swz", "Vector3.xxx", S::NAME, &name("xxx"), &a, 0, || v.xxx());
    rec.call("lay", "swz", "Vector3.xxy", S::NAME, &name("xxy"), &a, 0, || v.xxy());
    rec.call("lay", "swz", "Vector3.xxz", S::NAME, &name("xxz"), &a, 0, || v.xxz());
    rec.call("lay", "swz", "Vector3.xyx", S::NAME, &name("xyx"), &a, 0, || v.xyx());
    rec.call("lay", "swz", "Vector3.xyy", S::NAME, &name("xyy"), &a, 0, || v.xyy());
    rec.call("lay", "swz", "Vector3.xyz", S::NAME, &name("xyz"), &a, 0, || v.xyz());
    rec.call("lay", "swz", "Vector3.xzx", S::NAME, &name("xzx"), &a, 0, || v.xzx());
    rec.call("lay", "swz", "Vector3.xzy", S::NAME, &name("xzy"), &a, 0, || v.xzy());
    rec.call("lay", "swz", "Vector3.xzz", S::NAME, &name("xzz"), &a, 0, || v.xzz());
    rec.call("lay", "swz", "Vector3.yxx", S::NAME, &name("yxx"), &a, 0, || v.yxx());
    rec.call("lay", "swz", "Vector3.yxy", S::NAME, &name("yxy"), &a, 0, || v.yxy());
    rec.call("lay", "swz", "Vector3.yxz", S::NAME, &name("yxz"), &a, 0, || v.yxz());
    rec.call("lay", "swz", "Vector3.yyx", S::NAME, &name("yyx"), &a, 0, || v.yyx());
    rec.call("lay", "swz", "Vector3.yyy", S::NAME, &name("yyy"), &a, 0, || v.yyy());
    rec.call("lay", "swz", "Vector3.yyz", S::NAME, &name("yyz"), &a, 0, || v.yyz());
    rec.call("lay", "swz", "Vector3.yzx", S::NAME, &name("yzx"), &a, 0, || v.yzx());
    rec.call("lay", "swz", "Vector3.yzy", S::NAME, &name("yzy"), &a, 0, || v.yzy());
    rec.call("lay", "swz", "Vector3.yzz", S::NAME, &name("yzz"), &a, 0, || v.yzz());
    rec.call("lay", "swz", "Vector3.zxx", S::NAME, &name("zxx"), &a, 0, || v.zxx());
    rec.call("lay", "swz", "Vector3.zxy", S::NAME, &name("zxy"), &a, 0, || v.zxy());
    rec.call("lay", "swz", "Vector3.zxz", S::NAME, &name("zxz"), &a, 0, || v.zxz());
    rec.call("lay", "swz", "Vector3.zyx", S::NAME, &name("zyx"), &a, 0, || v.zyx());
    rec.call("lay", "swz", "Vector3.zyy", S::NAME, &name("zyy"), &a, 0, || v.zyy());
    rec.call("lay", "swz", "Vector3.zyz", S::NAME, &name("zyz"), &a, 0, || v.zyz());
    rec.call("lay", "swz", "Vector3.zzx", S::NAME, &name("zzx"), &a, 0, || v.zzx());
    rec.call("lay", "swz", "Vector3.zzy", S::NAME, &name("zzy"), &a, 0, || v.zzy());
    rec.call("lay", "swz", "Vector3.zzz", S::NAME, &name("zzz"), &a, 0, || v.zzz());
    rec.call("lay", "swz", "Vector3.x field", S::NAME, &name("x"), &a, 0, || v.x);
    rec.call("lay", "swz", "Vector3.y field", S::NAME, &name("y"), &a, 0, || v.y);
    rec.call("lay", "swz", "Vector3.z field", S::NAME, &name("z"), &a, 0, || v.z);
    rec.call("vec", "unit", "m", S::NAME, &[3, 1], &[], 0, || cglinalg_core::Vector3::<S>::unit_x());
    rec.call("vec", "unit", "m", S::NAME, &[3, 2], &[], 0, || cglinalg_core::Vector3::<S>::unit_y());
    rec.call("vec", "unit", "m", S::NAME, &[3, 3], &[], 0, || cglinalg_core::Vector3::<S>::unit_z());
}
fn swz_vector4<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {
    let v = vec::<S, 4>(a);
    let a = [rr(a)];
    rec.call("lay", "swz", "Vector4.x", S::NAME, &name("x"), &a, 0, || v.x());
    rec.call("lay", "swz", "Vector4.y", S::NAME, &name("y"), &a, 0, || v.y());
    rec.call("lay", "swz", "Vector4.z", S::NAME, &name("z"), &a, 0, || v.z());
    rec.call("lay", "swz", "Vector4.w", S::NAME, &name("w"), &a, 0, || v.w());
    rec.call("lay", "swz", "Vector4.xx", S::NAME, &name("xx"), &a, 0, || v.xx());
    rec.call("lay", "swz", "Vector4.xy", S::NAME, &name("xy"), &a, 0, || v.xy());
    rec.call("lay", "swz", "Vector4.xz", S::NAME, &name("xz"), &a, 0, || v.xz());
    rec.call("lay", "swz", "Vector4.xw", S::NAME, &name("xw"), &a, 0, || v.xw());
    rec.call("lay", "swz", "Vector4.yx", S::NAME, &name("yx"), &a, 0, || v.yx());
    rec.call("lay", "swz", "Vector4.yy", S::NAME, &name("yy"), &a, 0, || v.yy());
    rec.call("lay", "swz", "Vector4.yz", S::NAME, &name("yz"), &a, 0, || v.yz());
    rec.call("lay", "swz", "Vector4.yw", S::NAME, &name("yw"), &a, 0, || v.yw());
    rec.call("lay", "swz", "Vector4.zx", S::NAME, &name("zx"), &a, 0, || v.zx());
    rec.call("lay", "swz", "Vector4.zy", S::NAME, &name("zy"), &a, 0, || v.zy());
    rec.call("lay", "swz", "Vector4.zz", S::NAME, &name("zz"), &a, 0, || v.zz());
    rec.call("lay", "swz", "Vector4.zw", S::NAME, &name("zw"), &a, 0, || v.zw());
    rec.call("lay", "swz", "Vector4.wx", S::NAME, &name("wx"), &a, 0, || v.wx());
    rec.call("lay", "swz", "Vector4.wy", S::NAME, &name("wy"), &a, 0, || v.wy());
    rec.call("lay", "swz", "Vector4.wz", S::NAME, &name("wz"), &a, 0, || v.wz());
    rec.call("lay", "swz", "Vector4.ww", S::NAME, &name("ww"), &a, 0, || v.ww());
    rec.call("lay", "swz", "Vector4.xxx", S::NAME, &name("xxx"), &a, 0, || v.xxx());
    rec.call("lay", "swz", "Vector4.xxy", S::NAME, &name("xxy"), &a, 0, || v.xxy());
    rec.call("lay", "swz", "Vector4.xxz", S::NAME, &name("xxz"), &a, 0, || v.xxz());
    rec.call("lay", "swz", "Vector4.xxw", S::NAME, &name("xxw"), &a, 0, || v.xxw());
    rec.call("lay", "swz", "Vector4.xyx", S::NAME, &name("xyx"), &a, 0, || v.xyx());
    rec.call("lay", "swz", "Vector4.xyy", S::NAME, &name("xyy"), &a, 0, || v.xyy());
    rec.call("lay", "swz", "Vector4.xyz", S::NAME, &name("xyz"), &a, 0, || v.xyz());
    rec.call("lay", "swz", "Vector4.xyw", S::NAME, &name("xyw"), &a, 0, || v.xyw());
    rec.call("lay", "swz", "Vector4.xzx", S::NAME, &name("xzx"), &a, 0, || v.xzx());
    rec.call("lay", "swz", "Vector4.xzy", S::NAME, &name("xzy"), &a, 0, || v.xzy());
    rec.call("lay", "swz", "Vector4.xzz", S::NAME, &name("xzz"), &a, 0, || v.xzz());
    rec.call("lay", "swz", "Vector4.xzw", S::NAME, &name("xzw"), &a, 0, || v.xzw());
    rec.call("lay", "swz", "Vector4.xwx", S::NAME, &name("xwx"), &a, 0, || v.xwx());
    rec.call("lay", "swz", "Vector4.xwy", S::NAME, &name("xwy"), &a, 0, || v.xwy());
    rec.call("lay", "swz", "Vector4.xwz", S::NAME, &name("xwz"), &a, 0, || v.xwz());
    rec.call("lay", "swz", "Vector4.xww", S::NAME, &name("xww"), &a, 0, || v.xww());
    rec.call("lay", "swz", "Vector4.yxx", S::NAME, &name("yxx"), &a, 0, || v.yxx());
    rec.call("lay", "swz", "Vector4.yxy", S::NAME, &name("yxy"), &a, 0, || v.yxy());
    rec.call("lay", "swz", "Vector4.yxz", S::NAME, &name("yxz"), &a, 0, || v.yxz());
    rec.call("lay", "swz", "Vector4.yxw", S::NAME, &name("yxw"), &a, 0, || v.yxw());
    rec.call("lay", "swz", "Vector4.yyx", S::NAME, &name("yyx"), &a, 0, || v.yyx());
    rec.call("lay", "swz", "Vector4.yyy", S::NAME, &name("yyy"), &a, 0, || v.yyy());
    rec.call("lay", "swz", "Vector4.yyz", S::NAME, &name("yyz"), &a, 0, || v.yyz());
    rec.call("lay", "swz", "Vector4.yyw", S::NAME, &name("yyw"), &a, 0, || v.yyw());
    rec.call("lay", "swz", "Vector4.yzx", S::NAME, &name("yzx"), &a, 0, || v.yzx());
    rec.call("lay", "swz", "Vector4.yzy", S::NAME, &name("yzy"), &a, 0, || v.yzy());
    rec.call("lay", "swz", "Vector4.yzz", S::NAME, &name("yzz"), &a, 0, || v.yzz());
    rec.call("lay", "swz", "Vector4.yzw", S::NAME, &name("yzw"), &a, 0, || v.yzw());
    rec.call("lay", "swz", "Vector4.ywx", S::NAME, &name("ywx"), &a, 0, || v.ywx());
    rec.call("lay", "swz", "Vector4.ywy", S::NAME, &name("ywy"), &a, 0, || v.ywy());
    rec.call("lay", "swz", "Vector4.ywz", S::NAME, &name("ywz"), &a, 0, || v.ywz());
    rec.call("lay", "swz", "Vector4.yww", S::NAME, &name("yww"), &a, 0, || v.yww());
    rec.call("lay", "swz", "Vector4.zxx", S::NAME, &name("zxx"), &a, 0, || v.zxx());
    rec.call("lay", "swz", "Vector4.zxy", S::NAME, &name("zxy"), &a, 0, || v.zxy());
    rec.call("lay", "swz", "Vector4.zxz", S::NAME, &name("zxz"), &a, 0, || v.zxz());
    rec.call("lay", "swz", "Vector4.zxw", S::NAME, &name("zxw"), &a, 0, || v.zxw());
    rec.call("lay", "swz", "Vector4.zyx", S::NAME, &name("zyx"), &a, 0, || v.zyx());
    rec.call("lay", "swz", "Vector4.zyy", S::NAME, &name("zyy"), &a, 0, || v.zyy());
    rec.call("lay", "swz", "Vector4.zyz", S::NAME, &name("zyz"), &a, 0, || v.zyz());
    rec.call("lay", "swz", "Vector4.zyw", S::NAME, &name("zyw"), &a, 0, || v.zyw());
    rec.call("lay", "swz", "Vector4.zzx", S::NAME, &name("zzx"), &a, 0, || v.zzx());
    rec.call("lay", "swz", "Vector4.zzy", S::NAME, &name("zzy"), &a, 0, || v.zzy());
    rec.call("lay", "swz", "Vector4.zzz", S::NAME, &name("zzz"), &a, 0, || v.zzz());
    rec.call("lay", "swz", "Vector4.zzw", S::NAME, &name("zzw"), &a, 0, || v.zzw());
    rec.call("lay", "swz", "Vector4.zwx", S::NAME, &name("zwx"), &a, 0, || v.zwx());
    rec.call("lay", "swz", "Vector4.zwy", S::NAME, &name("zwy"), &a, 0, || v.zwy());
    rec.call("lay", "swz", "Vector4.zwz", S::NAME, &name("zwz"), &a, 0, || v.zwz());
    rec.call("lay", "swz", "Vector4.zww", S::NAME, &name("zww"), &a, 0, || v.zww());
    rec.call("lay", "swz", "Vector4.wxx", S::NAME, &name("wxx"), &a, 0, || v.wxx());
    rec.call("lay", "swz", "Vector4.wxy", S::NAME, &name("wxy"), &a, 0, || v.wxy());
    rec.call("lay", "swz", "Vector4.wxz", S::NAME, &name("wxz"), &a, 0, || v.wxz());
    rec.call("lay", "swz", "Vector4.wxw", S::NAME, &name("wxw"), &a, 0, || v.wxw());
    rec.call("lay", "swz", "Vector4.wyx", S::NAME, &name("wyx"), &a, 0, || v.wyx());
    rec.call("lay", "swz", "Vector4.wyy", S::NAME, &name("wyy"), &a, 0, || v.wyy());
    rec.call("lay", "swz", "Vector4.wyz", S::NAME, &name("wyz"), &a, 0, || v.wyz());
    rec.call("lay", "swz", "Vector4.wyw", S::NAME, &name("wyw"), &a, 0, || v.wyw());
    rec.call("lay", "swz", "Vector4.wzx", S::NAME, &name("wzx"), &a, 0, || v.wzx());
    rec.call("lay", "swz", "Vector4.wzy", S::NAME, &name("wzy"), &a, 0, || v.wzy());
    rec.call("lay", "swz", "Vector4.wzz", S::NAME, &name("wzz"), &a, 0, || v.wzz());
    rec.call("lay", "swz", "Vector4.wzw", S::NAME, &name("wzw"), &a, 0, || v.wzw());
    rec.call("lay", "swz", "Vector4.wwx", S::NAME, &name("wwx"), &a, 0, || v.wwx());
    rec.call("lay", "swz", "Vector4.wwy", S::NAME, &name("wwy"), &a, 0, || v.wwy());
    rec.call("lay", "swz", "Vector4.wwz", S::NAME, &name("wwz"), &a, 0, || v.wwz());
    rec.call("lay", "swz", "Vector4.www", S::NAME, &name("www"), &a, 0, || v.www());
    rec.call("lay", "swz", "Vector4.xxxx", S::NAME, &name("xxxx"), &a, 0, || v.xxxx());
    rec.call("lay", "swz", "Vector4.xxxy", S::NAME, &name("xxxy"), &a, 0, || v.xxxy());
    rec.call("lay", "swz", "Vector4.xxxz", S::NAME, &name("xxxz"), &a, 0, || v.xxxz());
    rec.call("lay", "swz", "Vector4.xxxw", S::NAME, &name("xxxw"), &a, 0, || v.xxxw());
    rec.call("lay", "swz", "Vector4.xxyx", S::NAME, &name("xxyx"), &a, 0, || v.xxyx());
    rec.call("lay", "swz", "Vector4.xxyy", S::NAME, &name("xxyy"), &a, 0, || v.xxyy());
    rec.call("lay", "swz", "Vector4.xxyz", S::NAME, &name("xxyz"), &a, 0, || v.xxyz());
    rec.call("lay", "swz", "Vector4.xxyw", S::NAME, &name("xxyw"), &a, 0, || v.xxyw());
    rec.call("lay", "swz", "Vector4.xxzx", S::NAME, &name("xxzx"), &a, 0, || v.xxzx());
    rec.call("lay", "swz", "Vector4.xxzy", S::NAME, &name("xxzy"), &a, 0, || v.xxzy());
    rec.call("lay", "swz", "Vector4.xxzz", S::NAME, &name("xxzz"), &a, 0, || v.xxzz());
    rec.call("lay", "swz", "Vector4.xxzw", S::NAME, &name("xxzw"), &a, 0, || v.xxzw());
    rec.call("lay", "swz", "Vector4.xxwx", S::NAME, &name("xxwx"), &a, 0, || v.xxwx());
    rec.call("lay", "swz", "Vector4.xxwy", S::NAME, &name("xxwy"), &a, 0, || v.xxwy());
    rec.call("lay", "swz", "Vector4.xxwz", S::NAME, &name("xxwz"), &a, 0, || v.xxwz());
    rec.call("lay", "swz", "Vector4.xxww", S::NAME, &name("xxww"), &a, 0, || v.xxww());
    rec.call("lay", "swz", "Vector4.xyxx", S::NAME, &name("xyxx"), &a, 0, || v.xyxx());
    rec.call("lay", "swz", "Vector4.xyxy", S::NAME, &name("xyxy"), &a, 0, || v.xyxy());
    rec.call("lay", "swz", "Vector4.xyxz", S::NAME, &name("xyxz"), &a, 0, || v.xyxz());
    rec.call("lay", "swz", "Vector4.xyxw", S::NAME, &name("xyxw"), &a, 0, || v.xyxw());
    rec.call("lay", "swz", "Vector4.xyyx", S::NAME, &name("xyyx"), &a, 0, || v.xyyx());
    rec.call("lay", "swz", "Vector4.xyyy", S::NAME, &name("xyyy"), &a, 0, || v.xyyy());
    rec.call("lay", "swz", "Vector4.xyyz", S::NAME, &name("xyyz"), &a, 0, || v.xyyz());
    rec.call("lay", "swz", "Vector4.xyyw", S::NAME, &name("xyyw"), &a, 0, || v.xyyw());
    rec.call("lay", "swz", "Vector4.xyzx", S::NAME, &name("xyzx"), &a, 0, || v.xyzx());
    rec.call("lay", "swz", "Vector4.xyzy", S::NAME, &name("xyzy"), &a, 0, || v.xyzy());
    rec.call("lay", "swz", "Vector4.xyzz", S::NAME, &name("xyzz"), &a, 0, || v.xyzz());
    rec.call("lay", "swz", "Vector4.xyzw", S::NAME, &name("xyzw"), &a, 0, || v.xyzw());
    rec.call("lay", "swz", "Vector4.xywx", S::NAME, &name("xywx"), &a, 0, || v.xywx());
    rec.call("lay", "swz", "Vector4.xywy", S::NAME, &name("xywy"), &a, 0, || v.xywy());
    rec.call("lay", "swz", "Vector4.xywz", S::NAME, &name("xywz"), &a, 0, || v.xywz());
    rec.call("lay", "swz", "Vector4.xyww", S::NAME, &name("xyww"), &a, 0, || v.xyww());
    rec.call("lay", "swz", "Vector4.xzxx", S::NAME, &name("xzxx"), &a, 0, || v.xzxx());
    rec.call("lay", "swz", "Vector4.xzxy", S::NAME, &name("xzxy"), &a, 0, || v.xzxy());
    rec.call("lay", "swz", "Vector4.xzxz", S::NAME, &name("xzxz"), &a, 0, || v.xzxz());
    rec.call("lay", "swz", "Vector4.xzxw", S::NAME, &name("xzxw"), &a, 0, || v.xzxw());
    rec.call("lay", "swz", "Vector4.xzyx", S::NAME, &name("xzyx"), &a, 0, || v.xzyx());
    rec.call("lay", "swz", "Vector4.xzyy", S::NAME, &name("xzyy"), &a, 0, || v.xzyy());
    rec.call("lay", "swz", "Vector4.xzyz", S::NAME, &name("xzyz"), &a, 0, || v.xzyz());
    rec.call("lay", "swz", "Vector4.xzyw", S::NAME, &name("xzyw"), &a, 0, || v.xzyw());
    rec.call("lay", "swz", "Vector4.xzzx", S::NAME, &name("xzzx"), &a, 0, || v.xzzx());
    rec.call("lay", "swz", "Vector4.xzzy", S::NAME, &name("xzzy"), &a, 0, || v.xzzy());
    rec.call("lay", "swz", "Vector4.xzzz", S::NAME, &name("xzzz"), &a, 0, || v.xzzz());
    rec.call("lay", "swz", "Vector4.xzzw", S::NAME, &name("xzzw"), &a, 0, || v.xzzw());
    rec.call("lay", "swz", "Vector4.xzwx", S::NAME, &name("xzwx"), &a, 0, || v.xzwx());
    rec.call("lay", "swz", "Vector4.xzwy", S::NAME, &name("xzwy"), &a, 0, || v.xzwy());
    rec.call("lay", "swz", "Vector4.xzwz", S::NAME, &name("xzwz"), &a, 0, || v.xzwz());
    rec.call("lay", "swz", "Vector4.xzww", S::NAME, &name("xzww"), &a, 0, || v.xzww());
    rec.call("lay", "swz", "Vector4.xwxx", S::NAME, &name("xwxx"), &a, 0, || v.xwxx());
    rec.call("lay", "swz", "Vector4.xwxy", S::NAME, &name("xwxy"), &a, 0, || v.xwxy());
    rec.call("lay", "swz", "Vector4.xwxz", S::NAME, &name("xwxz"), &a, 0, || v.xwxz());
    rec.call("lay", "swz", "Vector4.xwxw", S::NAME, &name("xwxw"), &a, 0, || v.xwxw());
    rec.call("lay", "swz", "Vector4.xwyx", S::NAME, &name("xwyx"), &a, 0, || v.xwyx());
    rec.call("lay", "swz", "Vector4.xwyy", S::NAME, &name("xwyy"), &a, 0, || v.xwyy());
    rec.call("lay", "swz", "Vector4.xwyz", S::NAME, &name("xwyz"), &a, 0, || v.xwyz());
    rec.call("lay", "swz", "Vector4.xwyw", S::NAME, &name("xwyw"), &a, 0, || v.xwyw());
    rec.call("lay", "swz", "Vector4.xwzx", S::NAME, &name("xwzx"), &a, 0, || v.xwzx());
    rec.call("lay", "swz", "Vector4.xwzy", S::NAME, &name("xwzy"), &a, 0, || v.xwzy());
    rec.call("lay", "swz", "Vector4.xwzz", S::NAME, &name("xwzz"), &a, 0, || v.xwzz());
    rec.call("lay", "swz", "Vector4.xwzw", S::NAME, &name("xwzw"), &a, 0, || v.xwzw());
    rec.call("lay", "swz", "Vector4.xwwx", S::NAME, &name("xwwx"), &a, 0, || v.xwwx());
    rec.call("lay", "swz", "Vector4.xwwy", S::NAME, &name("xwwy"), &a, 0, || v.xwwy());
    rec.call("lay", "swz", "Vector4.xwwz", S::NAME, &name("xwwz"), &a, 0, || v.xwwz());
    rec.call("lay", "swz", "Vector4.xwww", S::NAME, &name("xwww"), &a, 0, || v.xwww());
    rec.call("lay", "swz", "Vector4.yxxx", S::NAME, &name("yxxx"), &a, 0, || v.yxxx());
    rec.call("lay", "swz", "Vector4.yxxy", S::NAME, &name("yxxy"), &a, 0, || v.yxxy());
    rec.call("lay", "swz", "Vector4.yxxz", S::NAME, &name("yxxz"), &a, 0, || v.yxxz());
    rec.call("lay", "swz", "Vector4.yxxw", S::NAME, &name("yxxw"), &a, 0, || v.yxxw());
    rec.call("lay", "swz", "Vector4.yxyx", S::NAME, &name("yxyx"), &a, 0, || v.yxyx());
    rec.call("lay", "swz", "Vector4.yxyy", S::NAME, &name("yxyy"), &a, 0, || v.yxyy());
    rec.call("lay", "swz", "Vector4.yxyz", S::NAME, &name("yxyz"), &a, 0, || v.yxyz());
    rec.call("lay", "swz", "Vector4.yxyw", S::NAME, &name("yxyw"), &a, 0, || v.yxyw());
    rec.call("lay", "swz", "Vector4.yxzx", S::NAME, &name("yxzx"), &a, 0, || v.yxzx());
    rec.call("lay", "swz", "Vector4.yxzy", S::NAME, &name("yxzy"), &a, 0, || v.yxzy());
    rec.call("lay", "swz", "Vector4.yxzz", S::NAME, &name("yxzz"), &a, 0, || v.yxzz());
    rec.call("lay", "swz", "Vector4.yxzw", S::NAME, &name("yxzw"), &a, 0, || v.yxzw());
    rec.call("lay", "swz", "Vector4.yxwx", S::NAME, &name("yxwx"), &a, 0, || v.yxwx());
    rec.call("lay", "swz", "Vector4.yxwy", S::NAME, &name("yxwy"), &a, 0, || v.yxwy());
    rec.call("lay", "swz", "Vector4.yxwz", S::NAME, &name("yxwz"), &a, 0, || v.yxwz());
    rec.call("lay", "swz", "Vector4.yxww", S::NAME, &name("yxww"), &a, 0, || v.yxww());
    rec.call("lay", "swz", "Vector4.yyxx", S::NAME, &name("yyxx"), &a, 0, || v.yyxx());
    rec.call("lay", "swz", "Vector4.yyxy", S::NAME, &name("yyxy"), &a, 0, || v.yyxy());
    rec.call("lay", "swz", "Vector4.yyxz", S::NAME, &name("yyxz"), &a, 0, || v.yyxz());
    rec.call("lay", "swz", "Vector4.yyxw", S::NAME, &name("yyxw"), &a, 0, || v.yyxw());
    rec.call("lay", "swz", "Vector4.yyyx", S::NAME, &name("yyyx"), &a, 0, || v.yyyx());
    rec.call("lay", "swz", "Vector4.yyyy", S::NAME, &name("yyyy"), &a, 0, || v.yyyy());
    rec.call("lay", "swz", "Vector4.yyyz", S::NAME, &name("yyyz"), &a, 0, || v.yyyz());
    rec.call("lay", "swz", "Vector4.yyyw", S::NAME, &name("yyyw"), &a, 0, || v.yyyw());
    rec.call("lay", "swz", "Vector4.yyzx", S::NAME, &name("yyzx"), &a, 0, || v.yyzx());
    rec.call("lay", "swz", "Vector4.yyzy", S::NAME, &name("yyzy"), &a, 0, || v.yyzy());
    rec.call("lay", "swz", "Vector4.yyzz", S::NAME, &name("yyzz"), &a, 0, || v.yyzz());
    rec.call("lay", "swz", "Vector4.yyzw", S::NAME, &name("yyzw"), &a, 0, || v.yyzw());
    rec.call("lay", "swz", "Vector4.yywx", S::NAME, &name("yywx"), &a, 0, || v.yywx());
    rec.call("lay", "swz", "Vector4.yywy", S::NAME, &name("yywy"), &a, 0, || v.yywy());
    rec.call("lay", "swz", "Vector4.yywz", S::NAME, &name("yywz"), &a, 0, || v.yywz());
    rec.call("lay", "swz", "Vector4.yyww", S::NAME, &name("yyww"), &a, 0, || v.yyww());
    rec.call("lay", "swz", "Vector4.yzxx", S::NAME, &name("yzxx"), &a, 0, || v.yzxx());
    rec.call("lay", "swz", "Vector4.yzxy", S::NAME, &name("yzxy"), &a, 0, || v.yzxy());
    rec.call("lay", "swz", "Vector4.yzxz", S::NAME, &name("yzxz"), &a, 0, || v.yzxz());
    rec.call("lay", "swz", "Vector4.yzxw", S::NAME, &name("yzxw"), &a, 0, || v.yzxw());
    rec.call("lay", "swz", "Vector4.yzyx", S::NAME, &name("yzyx"), &a, 0, || v.yzyx());
    rec.call("lay", "swz", "Vector4.yzyy", S::NAME, &name("yzyy"), &a, 0, || v.yzyy());
    rec.call("lay", "swz", "Vector4.yzyz", S::NAME, &name("yzyz"), &a, 0, || v.yzyz());
    rec.call("lay", "swz", "Vector4.yzyw", S::NAME, &name("yzyw"), &a, 0, || v.yzyw());
    rec.call("lay", "swz", "Vector4.yzzx", S::NAME, &name("yzzx"), &a, 0, || v.yzzx());
    rec.call("lay", "swz", "Vector4.yzzy", S::NAME, &name("yzzy"), &a, 0, || v.yzzy());
    rec.call("lay", "swz", "Vector4.yzzz", S::NAME, &name("yzzz"), &a, 0, || v.yzzz());
    rec.call("lay", "swz", "Vector4.yzzw", S::NAME, &name("yzzw"), &a, 0, || v.yzzw());
    rec.call("lay", "swz", "Vector4.yzwx", S::NAME, &name("yzwx"), &a, 0, || v.yzwx());
    rec.call("lay", "swz", "Vector4.yzwy", S::NAME, &name("yzwy"), &a, 0, || v.yzwy());
    rec.call("lay", "swz", "Vector4.yzwz", S::NAME, &name("yzwz"), &a, 0, || v.yzwz());
    rec.call("lay", "swz", "Vector4.yzww", S::NAME, &name("yzww"), &a, 0, || v.yzww());
    rec.call("lay", "swz", "Vector4.ywxx", S::NAME, &name("ywxx"), &a, 0, || v.ywxx());
    rec.call("lay", "swz", "Vector4.ywxy", S::NAME, &name("ywxy"), &a, 0, || v.ywxy());
    rec.call("lay", "swz", "Vector4.ywxz", S::NAME, &name("ywxz"), &a, 0, || v.ywxz());
    rec.call("lay", "swz", "Vector4.ywxw", S::NAME, &name("ywxw"), &a, 0, || v.ywxw());
    rec.call("lay", "swz", "Vector4.ywyx", S::NAME, &name("ywyx"), &a, 0, || v.ywyx());
    rec.call("lay", "swz", "Vector4.ywyy", S::NAME, &name("ywyy"), &a, 0, || v.ywyy());
    rec.call("lay", "swz", "Vector4.ywyz", S::NAME, &name("ywyz"), &a, 0, || v.ywyz());
    rec.call("lay", "swz", "Vector4.ywyw", S::NAME, &name("ywyw"), &a, 0, || v.ywyw());
    rec.call("lay", "swz", "Vector4.ywzx", S::NAME, &name("ywzx"), &a, 0, || v.ywzx());
    rec.call("lay", "swz", "Vector4.ywzy", S::NAME, &name("ywzy"), &a, 0, || v.ywzy());
    rec.call("lay", "swz", "Vector4.ywzz", S::NAME, &name("ywzz"), &a, 0, || v.ywzz());
    rec.call("lay", "swz", "Vector4.ywzw", S::NAME, &name("ywzw"), &a, 0, || v.ywzw());
    rec.call("lay", "swz", "Vector4.ywwx", S::NAME, &name("ywwx"), &a, 0, || v.ywwx());
    rec.call("lay", "swz", "Vector4.ywwy", S::NAME, &name("ywwy"), &a, 0, || v.ywwy());
    rec.call("lay", "swz", "Vector4.ywwz", S::NAME, &name("ywwz"), &a, 0, || v.ywwz());
    rec.call("lay", "swz", "Vector4.ywww", S::NAME, &name("ywww"), &a, 0, || v.ywww());
    rec.call("lay", "swz", "Vector4.zxxx", S::NAME, &name("zxxx"), &a, 0, || v.zxxx());
    rec.call("lay", "swz", "Vector4.zxxy", S::NAME, &name("zxxy"), &a, 0, || v.zxxy());
    rec.call("lay", "swz", "Vector4.zxxz", S::NAME, &name("zxxz"), &a, 0, || v.zxxz());
    rec.call("lay", "swz", "Vector4.zxxw", S::NAME, &name("zxxw"), &a, 0, || v.zxxw());
    rec.call("lay", "swz", "Vector4.zxyx", S::NAME, &name("zxyx"), &a, 0, || v.zxyx());
    rec.call("lay", "swz", "Vector4.zxyy", S::NAME, &name("zxyy"), &a, 0, || v.zxyy());
    rec.call("lay", "swz", "Vector4.zxyz", S::NAME, &name("zxyz"), &a, 0, || v.zxyz());
    rec.call("lay", "swz", "Vector4.zxyw", S::NAME, &name("zxyw"), &a, 0, || v.zxyw());
    rec.call("lay", "swz", "Vector4.zxzx", S::NAME, &name("zxzx"), &a, 0, || v.zxzx());
    rec.call("lay", "swz", "Vector4.zxzy", S::NAME, &name("zxzy"), &a, 0, || v.zxzy());
    rec.call("lay", "swz", "Vector4.zxzz", S::NAME, &name("zxzz"), &a, 0, || v.zxzz());
    rec.call("lay", "swz", "Vector4.zxzw", S::NAME, &name("zxzw"), &a, 0, || v.zxzw());
    rec.call("lay", "swz", "Vector4.zxwx", S::NAME, &name("zxwx"), &a, 0, || v.zxwx());
    rec.call("lay", "swz", "Vector4.zxwy", S::NAME, &name("zxwy"), &a, 0, || v.zxwy());
    rec.call("lay", "swz", "Vector4.zxwz", S::NAME, &name("zxwz"), &a, 0, || v.zxwz());
    rec.call("lay", "swz", "Vector4.zxww", S::NAME, &name("zxww"), &a, 0, || v.zxww());
    rec.call("lay", "swz", "Vector4.zyxx", S::NAME, &name("zyxx"), &a, 0, || v.zyxx());
    rec.call("lay", "swz", "Vector4.zyxy", S::NAME, &name("zyxy"), &a, 0, || v.zyxy());
    rec.call("lay", "swz", "Vector4.zyxz", S::NAME, &name("zyxz"), &a, 0, || v.zyxz());
    rec.call("lay", "swz", "Vector4.zyxw", S::NAME, &name("zyxw"), &a, 0, || v.zyxw());
    rec.call("lay", "swz", "Vector4.zyyx", S::NAME, &name("zyyx"), &a, 0, || v.zyyx());
    rec.call("lay", "swz", "Vector4.zyyy", S::NAME, &name("zyyy"), &a, 0, || v.zyyy());
    rec.call("lay", "swz", "Vector4.zyyz", S::NAME, &name("zyyz"), &a, 0, || v.zyyz());
    rec.call("lay", "swz", "Vector4.zyyw", S::NAME, &name("zyyw"), &a, 0, || v.zyyw());
    rec.call("lay", "swz", "Vector4.zyzx", S::NAME, &name("zyzx"), &a, 0, || v.zyzx());
    rec.call("lay", "swz", "Vector4.zyzy", S::NAME, &name("zyzy"), &a, 0, || v.zyzy());
    rec.call("lay", "swz", "Vector4.zyzz", S::NAME, &name("zyzz"), &a, 0, || v.zyzz());
    rec.call("lay", "swz", "Vector4.zyzw", S::NAME, &name("zyzw"), &a, 0, || v.zyzw());
    rec.call("lay", "swz", "Vector4.zywx", S::NAME, &name("zywx"), &a, 0, || v.zywx());
    rec.call("lay", "swz", "Vector4.zywy", S::NAME, &name("zywy"), &a, 0, || v.zywy());
    rec.call("lay", "swz", "Vector4.zywz", S::NAME, &name("zywz"), &a, 0, || v.zywz());
    rec.call("lay", "swz", "Vector4.zyww", S::NAME, &name("zyww"), &a, 0, || v.zyww());
    rec.call("lay", "swz", "Vector4.zzxx", S::NAME, &name("zzxx"), &a, 0, || v.zzxx());
    rec.call("lay", "swz", "Vector4.zzxy", S::NAME, &name("zzxy"), &a, 0, || v.zzxy());
    rec.call("lay", "swz", "Vector4.zzxz", S::NAME, &name("zzxz"), &a, 0, || v.zzxz());
    rec.call("lay", "swz", "Vector4.zzxw", S::NAME, &name("zzxw"), &a, 0, || v.zzxw());
    rec.call("lay", "swz", "Vector4.zzyx", S::NAME, &name("zzyx"), &a, 0, || v.zzyx());
    rec.call("lay", "swz", "Vector4.zzyy", S::NAME, &name("zzyy"), &a, 0, || v.zzyy());
    rec.call("lay", "swz", "Vector4.zzyz", S::NAME, &name("zzyz"), &a, 0, || v.zzyz());
    rec.call("lay", "swz", "Vector4.zzyw", S::NAME, &name("zzyw"), &a, 0, || v.zzyw());
    rec.call("lay", "swz", "Vector4.zzzx", S::NAME, &name("zzzx"), &a, 0, || v.zzzx());
    rec.call("lay", "swz", "Vector4.zzzy", S::NAME, &name("zzzy"), &a, 0, || v.zzzy());
    rec.call("lay", "swz", "Vector4.zzzz", S::NAME, &name("zzzz"), &a, 0, || v.zzzz());
    rec.call("lay", "swz", "Vector4.zzzw", S::NAME, &name("zzzw"), &a, 0, || v.zzzw());
    rec.call("lay", "swz", "Vector4.zzwx", S::NAME, &name("zzwx"), &a, 0, || v.zzwx());
    rec.call("lay", "swz", "Vector4.zzwy", S::NAME, &name("zzwy"), &a, 0, || v.zzwy());
    rec.call("lay", "swz", "Vector4.zzwz", S::NAME, &name("zzwz"), &a, 0, || v.zzwz());
    rec.call("lay", "swz", "Vector4.zzww", S::NAME, &name("zzww"), &a, 0, || v.zzww());
    rec.call("lay", "swz", "Vector4.zwxx", S::NAME, &name("zwxx"), &a, 0, || v.zwxx());
    rec.call("lay", "swz", "Vector4.zwxy", S::NAME, &name("zwxy"), &a, 0, || v.zwxy());
    rec.call("lay", "swz", "Vector4.zwxz", S::NAME, &name("zwxz"), &a, 0, || v.zwxz());
    rec.call("lay", "swz", "Vector4.zwxw", S::NAME, &name("zwxw"), &a, 0, || v.zwxw());
    rec.call("lay", "swz", "Vector4.zwyx", S::NAME, &name("zwyx"), &a, 0, || v.zwyx());
    rec.call("lay", "swz", "Vector4.zwyy", S::NAME, &name("zwyy"), &a, 0, || v.zwyy());
    rec.call("lay", "swz", "Vector4.zwyz", S::NAME, &name("zwyz"), &a, 0, || v.zwyz());
    rec.call("lay", "swz", "Vector4.zwyw", S::NAME, &name("zwyw"), &a, 0, || v.zwyw());
    rec.call("lay", "swz", "Vector4.zwzx", S::NAME, &name("zwzx"), &a, 0, || v.zwzx());
    rec.call("lay", "swz", "Vector4.zwzy", S::NAME, &name("zwzy"), &a, 0, || v.zwzy());
    rec.call("lay", "swz", "Vector4.zwzz", S::NAME, &name("zwzz"), &a, 0, || v.zwzz());
    rec.call("lay", "swz", "Vector4.zwzw", S::NAME, &name("zwzw"), &a, 0, || v.zwzw());
    rec.call("lay", "swz", "Vector4.zwwx", S::NAME, &name("zwwx"), &a, 0, || v.zwwx());
    rec.call("lay", "swz", "Vector4.zwwy", S::NAME, &name("zwwy"), &a, 0, || v.zwwy());
    rec.call("lay", "swz", "Vector4.zwwz", S::NAME, &name("zwwz"), &a, 0, || v.zwwz());
    rec.call("lay", "swz", "Vector4.zwww", S::NAME, &name("zwww"), &a, 0, || v.zwww());
    rec.call("lay", "swz", "Vector4.wxxx", S::NAME, &name("wxxx"), &a, 0, || v.wxxx());
    rec.call("lay", "swz", "Vector4.wxxy", S::NAME, &name("wxxy"), &a, 0, || v.wxxy());
    rec.call("lay", "swz", "Vector4.wxxz", S::NAME, &name("wxxz"), &a, 0, || v.wxxz());
    rec.call("lay", "swz", "Vector4.wxxw", S::NAME, &name("wxxw"), &a, 0, || v.wxxw());
    rec.call("lay", "swz", "Vector4.wxyx", S::NAME, &name("wxyx"), &a, 0, || v.wxyx());
    rec.call("lay", "swz", "Vector4.wxyy", S::NAME, &name("wxyy"), &a, 0, || v.wxyy());
    rec.call("lay", "swz", "Vector4.wxyz", S::NAME, &name("wxyz"), &a, 0, || v.wxyz());
    rec.call("lay", "swz", "Vector4.wxyw", S::NAME, &name("wxyw"), &a, 0, || v.wxyw());
    rec.call("lay", "swz", "Vector4.wxzx", S::NAME, &name("wxzx"), &a, 0, || v.wxzx());
    rec.call("lay", "swz", "Vector4.wxzy", S::NAME, &name("wxzy"), &a, 0, || v.wxzy());
    rec.call("lay", "swz", "Vector4.wxzz", S::NAME, &name("wxzz"), &a, 0, || v.wxzz());
    rec.call("lay", "swz", "Vector4.wxzw", S::NAME, &name("wxzw"), &a, 0, || v.wxzw());
    rec.call("lay", "swz", "Vector4.wxwx", S::NAME, &name("wxwx"), &a, 0, || v.wxwx());
    rec.call("lay", "swz", "Vector4.wxwy", S::NAME, &name("wxwy"), &a, 0, || v.wxwy());
    rec.call("lay", "swz", "Vector4.wxwz", S::NAME, &name("wxwz"), &a, 0, || v.wxwz());
    rec.call("lay", "swz", "Vector4.wxww", S::NAME, &name("wxww"), &a, 0, || v.wxww());
    rec.call("lay", "swz", "Vector4.wyxx", S::NAME, &name("wyxx"), &a, 0, || v.wyxx());
    rec.call("lay", "swz", "Vector4.wyxy", S::NAME, &name("wyxy"), &a, 0, || v.wyxy());
    rec.call("lay", "swz", "Vector4.wyxz", S::NAME, &name("wyxz"), &a, 0, || v.wyxz());
    rec.call("lay", "swz", "Vector4.wyxw", S::NAME, &name("wyxw"), &a, 0, || v.wyxw());
    rec.call("lay", "swz", "Vector4.wyyx", S::NAME, &name("wyyx"), &a, 0, || v.wyyx());
    rec.call("lay", "swz", "Vector4.wyyy", S::NAME, &name("wyyy"), &a, 0, || v.wyyy());
    rec.call("lay", "swz", "Vector4.wyyz", S::NAME, &name("wyyz"), &a, 0, || v.wyyz());
    rec.call("lay", "swz", "Vector4.wyyw", S::NAME, &name("wyyw"), &a, 0, || v.wyyw());
    rec.call("lay", "swz", "Vector4.wyzx", S::NAME, &name("wyzx"), &a, 0, || v.wyzx());
    rec.call("lay", "swz", "Vector4.wyzy", S::NAME, &name("wyzy"), &a, 0, || v.wyzy());
    rec.call("lay", "swz", "Vector4.wyzz", S::NAME, &name("wyzz"), &a, 0, || v.wyzz());
    rec.call("lay", "swz", "Vector4.wyzw", S::NAME, &name("wyzw"), &a, 0, || v.wyzw());
    rec.call("lay", "swz", "Vector4.wywx", S::NAME, &name("wywx"), &a, 0, || v.wywx());
    rec.call("lay", "swz", "Vector4.wywy", S::NAME, &name("wywy"), &a, 0, || v.wywy());
    rec.call("lay", "swz", "Vector4.wywz", S::NAME, &name("wywz"), &a, 0, || v.wywz());
    rec.call("lay", "swz", "Vector4.wyww", S::NAME, &name("wyww"), &a, 0, || v.wyww());
    rec.call("lay", "swz", "Vector4.wzxx", S::NAME, &name("wzxx"), &a, 0, || v.wzxx());
    rec.call("lay", "swz", "Vector4.wzxy", S::NAME, &name("wzxy"), &a, 0, || v.wzxy());
    rec.call("lay", "swz", "Vector4.wzxz", S::NAME, &name("wzxz"), &a, 0, || v.wzxz());
    rec.call("lay", "swz", "Vector4.wzxw", S::NAME, &name("wzxw"), &a, 0, || v.wzxw());
    rec.call("lay", "swz", "Vector4.wzyx", S::NAME, &name("wzyx"), &a, 0, || v.wzyx());
    rec.call("lay", "swz", "Vector4.wzyy", S::NAME, &name("wzyy"), &a, 0, || v.wzyy());
    rec.call("lay", "swz", "Vector4.wzyz", S::NAME, &name("wzyz"), &a, 0, || v.wzyz());
    rec.call("lay", "swz", "Vector4.wzyw", S::NAME, &name("wzyw"), &a, 0, || v.wzyw());
    rec.call("lay", "swz", "Vector4.wzzx", S::NAME, &name("wzzx"), &a, 0, || v.wzzx());
    rec.call("lay", "swz", "Vector4.wzzy", S::NAME, &name("wzzy"), &a, 0, || v.wzzy());
    rec.call("lay", "swz", "Vector4.wzzz", S::NAME, &name("wzzz"), &a, 0, || v.wzzz());
    rec.call("lay", "swz", "Vector4.wzzw", S::NAME, &name("wzzw"), &a, 0, || v.wzzw());
    rec.call("lay", "swz", "Vector4.wzwx", S::NAME, &name("wzwx"), &a, 0, || v.wzwx());
    rec.call("lay", "swz", "Vector4.wzwy", S::NAME, &name("wzwy"), &a, 0, || v.wzwy());
    rec.call("lay", "swz", "Vector4.wzwz", S::NAME, &name("wzwz"), &a, 0, || v.wzwz());
    rec.call("lay", "swz", "Vector4.wzww", S::NAME, &name("wzww"), &a, 0, || v.wzww());
    rec.call("lay", "swz", "Vector4.wwxx", S::NAME, &name("wwxx"), &a, 0, || v.wwxx());
    rec.call("lay", "swz", "Vector4.wwxy", S::NAME, &name("wwxy"), &a, 0, || v.wwxy());
    rec.call("lay", "swz", "Vector4.wwxz", S::NAME, &name("wwxz"), &a, 0, || v.wwxz());
    rec.call("lay", "swz", "Vector4.wwxw", S::NAME, &name("wwxw"), &a, 0, || v.wwxw());
    rec.call("lay", "swz", "Vector4.wwyx", S::NAME, &name("wwyx"), &a, 0, || v.wwyx());
    rec.call("lay", "swz", "Vector4.wwyy", S::NAME, &name("wwyy"), &a, 0, || v.wwyy());
    rec.call("lay", "swz", "Vector4.wwyz", S::NAME, &name("wwyz"), &a, 0, || v.wwyz());
    rec.call("lay", "swz", "Vector4.wwyw", S::NAME, &name("wwyw"), &a, 0, || v.wwyw());
    rec.call("lay", "swz", "Vector4.wwzx", S::NAME, &name("wwzx"), &a, 0, || v.wwzx());
    rec.call("lay", "swz", "Vector4.wwzy", S::NAME, &name("wwzy"), &a, 0, || v.wwzy());
    rec.call("lay", "swz", "Vector4.wwzz", S::NAME, &name("wwzz"), &a, 0, || v.wwzz());
    rec.call("lay", "swz", "Vector4.wwzw", S::NAME, &name("wwzw"), &a, 0, || v.wwzw());
    rec.call("lay", "swz", "Vector4.wwwx", S::NAME, &name("wwwx"), &a, 0, || v.wwwx());
    rec.call("lay", "swz", "Vector4.wwwy", S::NAME, &name("wwwy"), &a, 0, || v.wwwy());
    rec.call("lay", "swz", "Vector4.wwwz", S::NAME, &name("wwwz"), &a, 0, || v.wwwz());
    rec.call("lay", "swz", "Vector4.wwww", S::NAME, &name("wwww"), &a, 0, || v.wwww());
    rec.call("lay", "swz", "Vector4.x field", S::NAME, &name("x"), &a, 0, || v.x);
    rec.call("lay", "swz", "Vector4.y field", S::NAME, &name("y"), &a, 0, || v.y);
    rec.call("lay", "swz", "Vector4.z field", S::NAME, &name("z"), &a, 0, || v.z);
    rec.call("lay", "swz", "Vector4.w field", S::NAME, &name("w"), &a, 0, || v.w);
    rec.call("vec", "unit", "m", S::NAME, &[4, 1], &[], 0, || cglinalg_core::Vector4::<S>::unit_x());
    rec.call("vec", "unit", "m", S::NAME, &[4, 2], &[], 0, || cglinalg_core::Vector4::<S>::unit_y());
    rec.call("vec", "unit", "m", S::NAME, &[4, 3], &[], 0, || cglinalg_core::Vector4::<S>::unit_z());
    rec.call("vec", "unit", "m", S::NAME, &[4, 4], &[], 0, || cglinalg_core::Vector4::<S>::unit_w());
}
fn swz_point1<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {
    let v = pnt::<S, 1>(a);
    let a = [rr(a)];
    rec.call("lay", "swz", "Point1.x", S::NAME, &name("x"), &a, 0, || v.x());
    rec.call("lay", "swz", "Point1.x field", S::NAME, &name("x"), &a, 0, || v.x);
}
fn swz_point2<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {
    let v = pnt::<S, 2>(a);
    let a = [rr(a)];
    rec.call("lay", "swz", "Point2.x", S::NAME, &name("x"), &a, 0, || v.x());
    rec.call("lay", "swz", "Point2.y", S::NAME, &name("y"), &a, 0, || v.y());
    rec.call("lay", "swz", "Point2.xx", S::NAME, &name("xx"), &a, 0, || v.xx());
    rec.call("lay", "swz", "Point2.xy", S::NAME, &name("xy"), &a, 0, || v.xy());
    rec.call("lay", "swz", "Point2.yx", S::NAME, &name("yx"), &a, 0, || v.yx());
    rec.call("lay", "swz", "Point2.yy", S::NAME, &name("yy"), &a, 0, || v.yy());
    rec.call("lay", "swz", "Point2.x field", S::NAME, &name("x"), &a, 0, || v.x);
    rec.call("lay", "swz", "Point2.y field", S::NAME, &name("y"), &a, 0, || v.y);
}
fn swz_point3<S: Sc + SimdScalar>(rec: &mut Rec, a: &[Q]) {
    let v = pnt::<S, 3>(a);
    let a = [rr(a)];
    rec.call("lay", "swz", "Point3.x", S::NAME, &name("x"), &a, 0, || v.x());
    rec.call("lay", "swz", "Point3.y", S::NAME, &name("y"), &a, 0, || v.y());
    rec.call("lay", "swz", "Point3.z", S::NAME, &name("z"), &a, 0, || v.z());
    rec.call("lay", "swz", "Point3.xx", S::NAME, &name("xx"), &a, 0, || v.xx());
    rec.call("lay", "swz", "Point3.xy", S::NAME, &name("xy"), &a, 0, || v.xy());
    rec.call("lay", "swz", "Point3.xz", S::NAME, &name("xz"), &a, 0, || v.xz());
    rec.call("lay", "swz", "Point3.yx", S::NAME, &name("yx"), &a, 0, || v.yx());
    rec.call("lay", "swz", "Point3.yy", S::NAME, &name("yy"), &a, 0, || v.yy());
    rec.call("lay", "swz", "Point3.yz", S::NAME, &name("yz"), &a, 0, || v.yz());
    rec.call("lay", "swz", "Point3.zx", S::NAME, &name("zx"), &a, 0, || v.zx());
    rec.call("lay", "swz", "Point3.zy", S::NAME, &name("zy"), &a, 0, || v.zy());
    rec.call("lay", "swz", "Point3.zz", S::NAME, &name("zz"), &a, 0, || v.zz());
    rec.call("lay", "swz", "Point3.xxx", S::NAME, &name("xxx"), &a, 0, || v.xxx());
    rec.call("lay", "swz", "Point3.xxy", S::NAME, &name("xxy"), &a, 0, || v.xxy());
    rec.call("lay", "swz", "Point3.xxz", S::NAME, &name("xxz"), &a, 0, || v.xxz());
    rec.call("lay", "swz", "Point3.xyx", S::NAME, &name("xyx"), &a, 0, || v.xyx());
    rec.call("lay", "swz", "Point3.xyy", S::NAME, &name("xyy"), &a, 0, || v.xyy());
    rec.call("lay", "swz", "Point3.xyz", S::NAME, &name("xyz"), &a, 0, || v.xyz());
    rec.call("lay", "swz", "Point3.xzx", S::NAME, &name("xzx"), &a, 0, || v.xzx());
    rec.call("lay", "swz", "Point3.xzy", S::NAME, &name("xzy"), &a, 0, || v.xzy());
    rec.call("lay", "swz", "Point3.xzz", S::NAME, &name("xzz"), &a, 0, || v.xzz());
    rec.call("lay", "swz", "Point3.yxx", S::NAME, &name("yxx"), &a, 0, || v.yxx());
    rec.call("lay", "swz", "Point3.yxy", S::NAME, &name("yxy"), &a, 0, || v.yxy());
    rec.call("lay", "swz", "Point3.yxz", S::NAME, &name("yxz"), &a, 0, || v.yxz());
    rec.call("lay", "swz", "Point3.yyx", S::NAME, &name("yyx"), &a, 0, || v.yyx());
    rec.call("lay", "swz", "Point3.yyy", S::NAME, &name("yyy"), &a, 0, || v.yyy());
    rec.call("lay", "swz", "Point3.yyz", S::NAME, &name("yyz"), &a, 0, || v.yyz());
    rec.call("lay", "swz", "Point3.yzx", S::NAME, &name("yzx"), &a, 0, || v.yzx());
    rec.call("lay", "swz", "Point3.yzy", S::NAME, &name("yzy"), &a, 0, || v.yzy());
    rec.call("lay", "swz", "Point3.yzz", S::NAME, &name("yzz"), &a, 0, || v.yzz());
    rec.call("lay", "swz", "Point3.zxx", S::NAME, &name("zxx"), &a, 0, || v.zxx());
    rec.call("lay", "swz", "Point3.zxy", S::NAME, &name("zxy"), &a, 0, || v.zxy());
    rec.call("lay", "swz", "Point3.zxz", S::NAME, &name("zxz"), &a, 0, || v.zxz());
    rec.call("lay", "swz", "Point3.zyx", S::NAME, &name("zyx"), &a, 0, || v.zyx());
    rec.call("lay", "swz", "Point3.zyy", S::NAME, &name("zyy"), &a, 0, || v.zyy());
    rec.call("lay", "swz", "Point3.zyz", S::NAME, &name("zyz"), &a, 0, || v.zyz());
    rec.call("lay", "swz", "Point3.zzx", S::NAME, &name("zzx"), &a, 0, || v.zzx());
    rec.call("lay", "swz", "Point3.zzy", S::NAME, &name("zzy"), &a, 0, || v.zzy());
    rec.call("lay", "swz", "Point3.zzz", S::NAME, &name("zzz"), &a, 0, || v.zzz());
    rec.call("lay", "swz", "Point3.x field", S::NAME, &name("x"), &a, 0, || v.x);
    rec.call("lay", "swz", "Point3.y field", S::NAME, &name("y"), &a, 0, || v.y);
    rec.call("lay", "swz", "Point3.z field", S::NAME, &name("z"), &a, 0, || v.z);
}
pub fn all<S: Sc + SimdScalar>(rec: &mut Rec, gen: &dyn Fn(&mut Rng, usize) -> Vec<Q>) {
    let a = gen(&mut rec.rng, 1); swz_vector1::<S>(rec, &a);
    let a = gen(&mut rec.rng, 2); swz_vector2::<S>(rec, &a);
    let a = gen(&mut rec.rng, 3); swz_vector3::<S>(rec, &a);
    let a = gen(&mut rec.rng, 4); swz_vector4::<S>(rec, &a);
    let a = gen(&mut rec.rng, 1); swz_point1::<S>(rec, &a);
    let a = gen(&mut rec.rng, 2); swz_point2::<S>(rec, &a);
    let a = gen(&mut rec.rng, 3); swz_point3::<S>(rec, &a);
}

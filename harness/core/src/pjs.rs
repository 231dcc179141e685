//! Projections and constructors for the library's core types.
use crate::common::*;
use cglinalg_core::*;
use cglinalg_trigonometry::*;

impl<S: Sc, const N: usize> Pj for Vector<S, N> {
    fn pj(&self, o: &mut Vec<i64>) {
        for i in 0..N {
            put(self[i], o)
        }
    }
}
impl<S: Sc, const N: usize> Pj for Point<S, N> {
    fn pj(&self, o: &mut Vec<i64>) {
        for i in 0..N {
            put(self[i], o)
        }
    }
}
impl<S: Sc, const R: usize, const C: usize> Pj for Matrix<S, R, C> {
    fn pj(&self, o: &mut Vec<i64>) {
        for c in 0..C {
            for r in 0..R {
                put(self[c][r], o)
            }
        }
    }
}
/// Specification order of a quaternion: scalar, then x, y, z.
impl<S: Sc + cglinalg_numeric::SimdScalar> Pj for Quaternion<S> {
    fn pj(&self, o: &mut Vec<i64>) {
        put(self.scalar(), o);
        self.vector().pj(o)
    }
}
impl<S: Sc + cglinalg_numeric::SimdScalar> Pj for Complex<S> {
    fn pj(&self, o: &mut Vec<i64>) {
        put(self.real(), o);
        put(self.imaginary(), o)
    }
}
impl<S: Sc + cglinalg_numeric::SimdScalar> Pj for Radians<S> {
    fn pj(&self, o: &mut Vec<i64>) {
        put(self.0, o)
    }
}
impl<S: Sc + cglinalg_numeric::SimdScalar> Pj for Degrees<S> {
    fn pj(&self, o: &mut Vec<i64>) {
        put(self.0, o)
    }
}

pub fn arr<S: Sc, const N: usize>(v: &[Q]) -> [S; N] {
    assert!(v.len() == N);
    core::array::from_fn(|i| S::ofq(v[i]))
}
pub fn vec<S: Sc + cglinalg_numeric::SimdScalar, const N: usize>(v: &[Q]) -> Vector<S, N> {
    Vector::from(arr::<S, N>(v))
}
pub fn pnt<S: Sc + cglinalg_numeric::SimdScalar, const N: usize>(v: &[Q]) -> Point<S, N> {
    Point::from(arr::<S, N>(v))
}
pub fn mat<S: Sc + cglinalg_numeric::SimdScalar, const R: usize, const C: usize>(v: &[Q]) -> Matrix<S, R, C> {
    assert!(v.len() == R * C);
    let a: [[S; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| S::ofq(v[c * R + r])));
    Matrix::from(a)
}
/// (scalar, x, y, z)
pub fn quat<S: Sc + cglinalg_numeric::SimdScalar>(v: &[Q]) -> Quaternion<S> {
    Quaternion::new(S::ofq(v[0]), S::ofq(v[1]), S::ofq(v[2]), S::ofq(v[3]))
}
pub fn cpx<S: Sc + cglinalg_numeric::SimdScalar>(v: &[Q]) -> Complex<S> {
    Complex::new(S::ofq(v[0]), S::ofq(v[1]))
}

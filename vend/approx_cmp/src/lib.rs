//! Stand-in for `approx_cmp` 1.0: absolute-difference, relative and units-in-
//! the-last-place comparison of floating point numbers and fixed size arrays.
#![no_std]

use core::fmt::Debug;

pub trait AbsDiffEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance: Sized;

    fn abs_diff_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool;

    fn abs_diff_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool {
        !self.abs_diff_eq(other, max_abs_diff)
    }
}

pub trait AbsDiffAllEq<Rhs = Self>: AbsDiffEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance: Sized;

    fn abs_diff_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool;

    fn abs_diff_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool {
        !self.abs_diff_all_eq(other, max_abs_diff)
    }
}

pub trait AssertAbsDiffEq<Rhs = Self>: AbsDiffEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: Debug;
    type DebugTolerance: Debug;

    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertAbsDiffAllEq<Rhs = Self>: AbsDiffAllEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: Debug;

    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait RelativeEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance: Sized;

    fn relative_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool;

    fn relative_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        !self.relative_eq(other, max_abs_diff, max_relative)
    }
}

pub trait RelativeAllEq<Rhs = Self>: RelativeEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance: Sized;

    fn relative_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool;

    fn relative_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        !self.relative_all_eq(other, max_abs_diff, max_relative)
    }
}

pub trait AssertRelativeEq<Rhs = Self>: RelativeEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: Debug;
    type DebugTolerance: Debug;

    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_relative_tolerance(&self, other: &Rhs, max_relative: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertRelativeAllEq<Rhs = Self>: RelativeAllEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: Debug;

    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_relative_all_tolerance(&self, other: &Rhs, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait UlpsEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance: Sized;
    type UlpsTolerance: Sized;

    fn ulps_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool;

    fn ulps_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        !self.ulps_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait UlpsAllEq<Rhs = Self>: UlpsEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance: Sized;
    type AllUlpsTolerance: Sized;

    fn ulps_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool;

    fn ulps_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        !self.ulps_all_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait AssertUlpsEq<Rhs = Self>: UlpsEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: Debug;
    type DebugUlpsDiff: Debug;
    type DebugTolerance: Debug;
    type DebugUlpsTolerance: Debug;

    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_ulps_diff(&self, other: &Rhs) -> Self::DebugUlpsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_ulps_tolerance(&self, other: &Rhs, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance;
}

pub trait AssertUlpsAllEq<Rhs = Self>: UlpsAllEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: Debug;
    type AllDebugUlpsTolerance: Debug;

    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_ulps_all_tolerance(&self, other: &Rhs, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance;
}

macro_rules! impl_float {
    ($T:ident, $U:ident) => {
        impl AbsDiffEq for $T {
            type Tolerance = $T;

            #[inline]
            fn abs_diff_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self == other || (self - other).abs() <= *max_abs_diff
            }
        }

        impl AbsDiffAllEq for $T {
            type AllTolerance = $T;

            #[inline]
            fn abs_diff_all_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self.abs_diff_eq(other, max_abs_diff)
            }
        }

        impl AssertAbsDiffEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;

            #[inline]
            fn debug_abs_diff(&self, other: &$T) -> $T {
                (self - other).abs()
            }

            #[inline]
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
        }

        impl AssertAbsDiffAllEq for $T {
            type AllDebugTolerance = $T;

            #[inline]
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
        }

        impl RelativeEq for $T {
            type Tolerance = $T;

            #[inline]
            fn relative_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                if self == other {
                    return true;
                }
                if self.is_infinite() || other.is_infinite() {
                    return false;
                }
                let abs_diff = (self - other).abs();
                if abs_diff <= *max_abs_diff {
                    return true;
                }
                let (a, b) = (self.abs(), other.abs());
                let largest = if b > a { b } else { a };

                abs_diff <= largest * max_relative
            }
        }

        impl RelativeAllEq for $T {
            type AllTolerance = $T;

            #[inline]
            fn relative_all_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                self.relative_eq(other, max_abs_diff, max_relative)
            }
        }

        impl AssertRelativeEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;

            #[inline]
            fn debug_abs_diff(&self, other: &$T) -> $T {
                (self - other).abs()
            }

            #[inline]
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }

            #[inline]
            fn debug_relative_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                let (a, b) = (self.abs(), other.abs());
                let largest = if b > a { b } else { a };

                largest * max_relative
            }
        }

        impl AssertRelativeAllEq for $T {
            type AllDebugTolerance = $T;

            #[inline]
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }

            #[inline]
            fn debug_relative_all_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                AssertRelativeEq::debug_relative_tolerance(self, other, max_relative)
            }
        }

        impl UlpsEq for $T {
            type Tolerance = $T;
            type UlpsTolerance = $U;

            #[inline]
            fn ulps_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                if self.abs_diff_eq(other, max_abs_diff) {
                    return true;
                }
                match AssertUlpsEq::debug_ulps_diff(self, other) {
                    Some(ulps) => ulps <= *max_ulps,
                    None => false,
                }
            }
        }

        impl UlpsAllEq for $T {
            type AllTolerance = $T;
            type AllUlpsTolerance = $U;

            #[inline]
            fn ulps_all_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                self.ulps_eq(other, max_abs_diff, max_ulps)
            }
        }

        impl AssertUlpsEq for $T {
            type DebugAbsDiff = $T;
            type DebugUlpsDiff = Option<$U>;
            type DebugTolerance = $T;
            type DebugUlpsTolerance = $U;

            #[inline]
            fn debug_abs_diff(&self, other: &$T) -> $T {
                (self - other).abs()
            }

            #[inline]
            fn debug_ulps_diff(&self, other: &$T) -> Option<$U> {
                if self == other {
                    Some(0)
                } else if self.is_nan() || other.is_nan() {
                    None
                } else if self.is_sign_positive() != other.is_sign_positive() {
                    None
                } else {
                    Some(self.to_bits().abs_diff(other.to_bits()))
                }
            }

            #[inline]
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }

            #[inline]
            fn debug_ulps_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U {
                *max_ulps
            }
        }

        impl AssertUlpsAllEq for $T {
            type AllDebugTolerance = $T;
            type AllDebugUlpsTolerance = $U;

            #[inline]
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }

            #[inline]
            fn debug_ulps_all_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U {
                *max_ulps
            }
        }
    };
}

impl_float!(f32, u32);
impl_float!(f64, u64);

macro_rules! impl_integer {
    ($($T:ident),*) => {$(
        impl AbsDiffEq for $T {
            type Tolerance = $T;

            #[inline]
            fn abs_diff_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                let diff = if self > other { self.wrapping_sub(*other) } else { other.wrapping_sub(*self) };

                diff <= *max_abs_diff
            }
        }

        impl AbsDiffAllEq for $T {
            type AllTolerance = $T;

            #[inline]
            fn abs_diff_all_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self.abs_diff_eq(other, max_abs_diff)
            }
        }
    )*};
}

impl_integer!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

impl<T: AbsDiffEq, const N: usize> AbsDiffEq for [T; N] {
    type Tolerance = [T::Tolerance; N];

    #[inline]
    fn abs_diff_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_eq(&other[i], &max_abs_diff[i]))
    }
}

impl<T: AbsDiffAllEq, const N: usize> AbsDiffAllEq for [T; N] {
    type AllTolerance = T::AllTolerance;

    #[inline]
    fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_all_eq(&other[i], max_abs_diff))
    }
}

impl<T: AssertAbsDiffEq, const N: usize> AssertAbsDiffEq for [T; N] {
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];

    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }

    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }
}

impl<T: AssertAbsDiffAllEq, const N: usize> AssertAbsDiffAllEq for [T; N] {
    type AllDebugTolerance = [T::AllDebugTolerance; N];

    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }
}

impl<T: RelativeEq, const N: usize> RelativeEq for [T; N] {
    type Tolerance = [T::Tolerance; N];

    #[inline]
    fn relative_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].relative_eq(&other[i], &max_abs_diff[i], &max_relative[i]))
    }
}

impl<T: RelativeAllEq, const N: usize> RelativeAllEq for [T; N] {
    type AllTolerance = T::AllTolerance;

    #[inline]
    fn relative_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].relative_all_eq(&other[i], max_abs_diff, max_relative))
    }
}

impl<T: AssertRelativeEq, const N: usize> AssertRelativeEq for [T; N] {
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];

    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }

    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }

    #[inline]
    fn debug_relative_tolerance(&self, other: &Self, max_relative: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_tolerance(&other[i], &max_relative[i]))
    }
}

impl<T: AssertRelativeAllEq, const N: usize> AssertRelativeAllEq for [T; N] {
    type AllDebugTolerance = [T::AllDebugTolerance; N];

    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }

    #[inline]
    fn debug_relative_all_tolerance(&self, other: &Self, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_all_tolerance(&other[i], max_relative))
    }
}

impl<T: UlpsEq, const N: usize> UlpsEq for [T; N] {
    type Tolerance = [T::Tolerance; N];
    type UlpsTolerance = [T::UlpsTolerance; N];

    #[inline]
    fn ulps_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_eq(&other[i], &max_abs_diff[i], &max_ulps[i]))
    }
}

impl<T: UlpsAllEq, const N: usize> UlpsAllEq for [T; N] {
    type AllTolerance = T::AllTolerance;
    type AllUlpsTolerance = T::AllUlpsTolerance;

    #[inline]
    fn ulps_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_all_eq(&other[i], max_abs_diff, max_ulps))
    }
}

impl<T: AssertUlpsEq, const N: usize> AssertUlpsEq for [T; N] {
    type DebugAbsDiff = [T::DebugAbsDiff; N];
    type DebugUlpsDiff = [T::DebugUlpsDiff; N];
    type DebugTolerance = [T::DebugTolerance; N];
    type DebugUlpsTolerance = [T::DebugUlpsTolerance; N];

    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }

    #[inline]
    fn debug_ulps_diff(&self, other: &Self) -> Self::DebugUlpsDiff {
        core::array::from_fn(|i| self[i].debug_ulps_diff(&other[i]))
    }

    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }

    #[inline]
    fn debug_ulps_tolerance(&self, other: &Self, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_tolerance(&other[i], &max_ulps[i]))
    }
}

impl<T: AssertUlpsAllEq, const N: usize> AssertUlpsAllEq for [T; N] {
    type AllDebugTolerance = [T::AllDebugTolerance; N];
    type AllDebugUlpsTolerance = [T::AllDebugUlpsTolerance; N];

    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }

    #[inline]
    fn debug_ulps_all_tolerance(&self, other: &Self, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_all_tolerance(&other[i], max_ulps))
    }
}

impl<A: AbsDiffEq<B> + ?Sized, B: ?Sized> AbsDiffEq<&B> for &A {
    type Tolerance = A::Tolerance;

    #[inline]
    fn abs_diff_eq(&self, other: &&B, max_abs_diff: &Self::Tolerance) -> bool {
        AbsDiffEq::abs_diff_eq(*self, *other, max_abs_diff)
    }
}

impl<A: AbsDiffAllEq<B> + ?Sized, B: ?Sized> AbsDiffAllEq<&B> for &A {
    type AllTolerance = A::AllTolerance;

    #[inline]
    fn abs_diff_all_eq(&self, other: &&B, max_abs_diff: &Self::AllTolerance) -> bool {
        AbsDiffAllEq::abs_diff_all_eq(*self, *other, max_abs_diff)
    }
}

impl<A: AssertAbsDiffEq<B> + ?Sized, B: ?Sized> AssertAbsDiffEq<&B> for &A {
    type DebugAbsDiff = A::DebugAbsDiff;
    type DebugTolerance = A::DebugTolerance;

    #[inline]
    fn debug_abs_diff(&self, other: &&B) -> Self::DebugAbsDiff {
        AssertAbsDiffEq::debug_abs_diff(*self, *other)
    }

    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &&B, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        AssertAbsDiffEq::debug_abs_diff_tolerance(*self, *other, max_abs_diff)
    }
}

impl<A: AssertAbsDiffAllEq<B> + ?Sized, B: ?Sized> AssertAbsDiffAllEq<&B> for &A {
    type AllDebugTolerance = A::AllDebugTolerance;

    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &&B, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(*self, *other, max_abs_diff)
    }
}

impl<A: RelativeEq<B> + ?Sized, B: ?Sized> RelativeEq<&B> for &A {
    type Tolerance = A::Tolerance;

    #[inline]
    fn relative_eq(&self, other: &&B, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        RelativeEq::relative_eq(*self, *other, max_abs_diff, max_relative)
    }
}

impl<A: RelativeAllEq<B> + ?Sized, B: ?Sized> RelativeAllEq<&B> for &A {
    type AllTolerance = A::AllTolerance;

    #[inline]
    fn relative_all_eq(&self, other: &&B, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        RelativeAllEq::relative_all_eq(*self, *other, max_abs_diff, max_relative)
    }
}

impl<A: AssertRelativeEq<B> + ?Sized, B: ?Sized> AssertRelativeEq<&B> for &A {
    type DebugAbsDiff = A::DebugAbsDiff;
    type DebugTolerance = A::DebugTolerance;

    #[inline]
    fn debug_abs_diff(&self, other: &&B) -> Self::DebugAbsDiff {
        AssertRelativeEq::debug_abs_diff(*self, *other)
    }

    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &&B, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        AssertRelativeEq::debug_abs_diff_tolerance(*self, *other, max_abs_diff)
    }

    #[inline]
    fn debug_relative_tolerance(&self, other: &&B, max_relative: &Self::Tolerance) -> Self::DebugTolerance {
        AssertRelativeEq::debug_relative_tolerance(*self, *other, max_relative)
    }
}

impl<A: AssertRelativeAllEq<B> + ?Sized, B: ?Sized> AssertRelativeAllEq<&B> for &A {
    type AllDebugTolerance = A::AllDebugTolerance;

    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &&B, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        AssertRelativeAllEq::debug_abs_diff_all_tolerance(*self, *other, max_abs_diff)
    }

    #[inline]
    fn debug_relative_all_tolerance(&self, other: &&B, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance {
        AssertRelativeAllEq::debug_relative_all_tolerance(*self, *other, max_relative)
    }
}

impl<A: UlpsEq<B> + ?Sized, B: ?Sized> UlpsEq<&B> for &A {
    type Tolerance = A::Tolerance;
    type UlpsTolerance = A::UlpsTolerance;

    #[inline]
    fn ulps_eq(&self, other: &&B, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        UlpsEq::ulps_eq(*self, *other, max_abs_diff, max_ulps)
    }
}

impl<A: UlpsAllEq<B> + ?Sized, B: ?Sized> UlpsAllEq<&B> for &A {
    type AllTolerance = A::AllTolerance;
    type AllUlpsTolerance = A::AllUlpsTolerance;

    #[inline]
    fn ulps_all_eq(&self, other: &&B, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        UlpsAllEq::ulps_all_eq(*self, *other, max_abs_diff, max_ulps)
    }
}

impl<A: AssertUlpsEq<B> + ?Sized, B: ?Sized> AssertUlpsEq<&B> for &A {
    type DebugAbsDiff = A::DebugAbsDiff;
    type DebugUlpsDiff = A::DebugUlpsDiff;
    type DebugTolerance = A::DebugTolerance;
    type DebugUlpsTolerance = A::DebugUlpsTolerance;

    #[inline]
    fn debug_abs_diff(&self, other: &&B) -> Self::DebugAbsDiff {
        AssertUlpsEq::debug_abs_diff(*self, *other)
    }

    #[inline]
    fn debug_ulps_diff(&self, other: &&B) -> Self::DebugUlpsDiff {
        AssertUlpsEq::debug_ulps_diff(*self, *other)
    }

    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &&B, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        AssertUlpsEq::debug_abs_diff_tolerance(*self, *other, max_abs_diff)
    }

    #[inline]
    fn debug_ulps_tolerance(&self, other: &&B, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance {
        AssertUlpsEq::debug_ulps_tolerance(*self, *other, max_ulps)
    }
}

impl<A: AssertUlpsAllEq<B> + ?Sized, B: ?Sized> AssertUlpsAllEq<&B> for &A {
    type AllDebugTolerance = A::AllDebugTolerance;
    type AllDebugUlpsTolerance = A::AllDebugUlpsTolerance;

    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &&B, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        AssertUlpsAllEq::debug_abs_diff_all_tolerance(*self, *other, max_abs_diff)
    }

    #[inline]
    fn debug_ulps_all_tolerance(&self, other: &&B, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance {
        AssertUlpsAllEq::debug_ulps_all_tolerance(*self, *other, max_ulps)
    }
}

#[macro_export]
macro_rules! abs_diff_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr $(,)?) => { $crate::AbsDiffEq::abs_diff_eq(&$l, &$r, &$t) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr $(,)?) => { $crate::AbsDiffAllEq::abs_diff_all_eq(&$l, &$r, &$t) };
}

#[macro_export]
macro_rules! abs_diff_ne {
    ($($t:tt)*) => { !$crate::abs_diff_eq!($($t)*) };
}

#[macro_export]
macro_rules! relative_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, relative <= $u:expr $(,)?) => { $crate::RelativeEq::relative_eq(&$l, &$r, &$t, &$u) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, relative_all <= $u:expr $(,)?) => { $crate::RelativeAllEq::relative_all_eq(&$l, &$r, &$t, &$u) };
}

#[macro_export]
macro_rules! relative_ne {
    ($($t:tt)*) => { !$crate::relative_eq!($($t)*) };
}

#[macro_export]
macro_rules! ulps_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, ulps <= $u:expr $(,)?) => { $crate::UlpsEq::ulps_eq(&$l, &$r, &$t, &$u) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, ulps_all <= $u:expr $(,)?) => { $crate::UlpsAllEq::ulps_all_eq(&$l, &$r, &$t, &$u) };
}

#[macro_export]
macro_rules! ulps_ne {
    ($($t:tt)*) => { !$crate::ulps_eq!($($t)*) };
}

#[macro_export]
macro_rules! assert_abs_diff_eq {
    ($l:expr, $r:expr, $k:ident <= $t:expr $(, $($m:tt)*)?) => {
        match (&$l, &$r) { (l, r) => assert!($crate::abs_diff_eq!(*l, *r, $k <= $t), "abs_diff_eq: left = {:?}, right = {:?}", l, r) }
    };
}

#[macro_export]
macro_rules! assert_abs_diff_ne {
    ($l:expr, $r:expr, $k:ident <= $t:expr $(, $($m:tt)*)?) => {
        match (&$l, &$r) { (l, r) => assert!(!$crate::abs_diff_eq!(*l, *r, $k <= $t), "abs_diff_ne: left = {:?}, right = {:?}", l, r) }
    };
}

#[macro_export]
macro_rules! assert_relative_eq {
    ($l:expr, $r:expr, $k:ident <= $t:expr, $j:ident <= $u:expr $(, $($m:tt)*)?) => {
        match (&$l, &$r) { (l, r) => assert!($crate::relative_eq!(*l, *r, $k <= $t, $j <= $u), "relative_eq: left = {:?}, right = {:?}", l, r) }
    };
}

#[macro_export]
macro_rules! assert_relative_ne {
    ($l:expr, $r:expr, $k:ident <= $t:expr, $j:ident <= $u:expr $(, $($m:tt)*)?) => {
        match (&$l, &$r) { (l, r) => assert!(!$crate::relative_eq!(*l, *r, $k <= $t, $j <= $u), "relative_ne: left = {:?}, right = {:?}", l, r) }
    };
}

#[macro_export]
macro_rules! assert_ulps_eq {
    ($l:expr, $r:expr, $k:ident <= $t:expr, $j:ident <= $u:expr $(, $($m:tt)*)?) => {
        match (&$l, &$r) { (l, r) => assert!($crate::ulps_eq!(*l, *r, $k <= $t, $j <= $u), "ulps_eq: left = {:?}, right = {:?}", l, r) }
    };
}

#[macro_export]
macro_rules! assert_ulps_ne {
    ($l:expr, $r:expr, $k:ident <= $t:expr, $j:ident <= $u:expr $(, $($m:tt)*)?) => {
        match (&$l, &$r) { (l, r) => assert!(!$crate::ulps_eq!(*l, *r, $k <= $t, $j <= $u), "ulps_ne: left = {:?}, right = {:?}", l, r) }
    };
}

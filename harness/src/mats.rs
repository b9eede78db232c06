//! The vectors and matrices of every size behind one trait, calling the library's public operations.
use crate::num_t::*;
use num::{One, Zero};
use static_math::matrix2x2::M22;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::traits::LinearAlgebra;
use static_math::vector2::V2;
use static_math::vector3::V3;
use static_math::vector4::V4;
use static_math::vector5::V5;
use static_math::vector6::V6;
use std::fmt::{Debug, Display};

pub trait Vx<T: Sc>: Copy + PartialEq + Debug + Display + Zero {
    const N: usize;
    fn mk(x: &[T]) -> Self;
    fn mk_new_from(x: &[T]) -> Self;
    fn mk_from(x: &[T]) -> Self;
    fn v(&self) -> Vec<T>;
    fn to_array(&self) -> Vec<T>;
    fn set(&mut self, k: usize, x: T);
    fn get(&self, k: usize) -> T;
    fn ones_() -> Self;
    fn zeros_() -> Self;
    fn add_(self, o: Self) -> Self;
    fn sub_(self, o: Self) -> Self;
    fn add_a(&mut self, o: Self);
    fn sub_a(&mut self, o: Self);
    fn neg_(self) -> Self;
    fn muls(self, s: T) -> Self;
    fn divs(self, s: T) -> Self;
    fn dot_(self, o: Self) -> T;
    fn norm_inf_(&self) -> T;
    fn norm_l_(&self) -> T;
}
pub trait VxF<T: Fl>: Vx<T> {
    fn norm2_(&self) -> T;
    /// (result, what the vector itself is after the call)
    fn normalize_(&self) -> (Option<Self>, Self);
}
pub trait Ma<T: Sc>: Copy + PartialEq + Debug + Display + Zero + One {
    const N: usize;
    type V: Vx<T>;
    fn mk(x: &[T]) -> Self;
    fn mk_from(x: &[T]) -> Self;
    /// by (i, j) indexing
    fn v(&self) -> Vec<T>;
    /// by row indexing
    fn v_rows(&self) -> Vec<T>;
    /// by dereferencing
    fn v_deref(&self) -> Vec<T>;
    fn set(&mut self, i: usize, j: usize, x: T);
    fn get(&self, i: usize, j: usize) -> T;
    fn set_row(&mut self, i: usize, j: usize, x: T);
    fn set_deref(&mut self, i: usize, j: usize, x: T);
    fn identity_() -> Self;
    fn zeros_() -> Self;
    fn add_(self, o: Self) -> Self;
    fn sub_(self, o: Self) -> Self;
    fn add_a(&mut self, o: Self);
    fn sub_a(&mut self, o: Self);
    fn neg_(self) -> Self;
    fn muls(self, s: T) -> Self;
    fn divs(self, s: T) -> Self;
    fn mul_(self, o: Self) -> Self;
    fn mulv(self, v: Self::V) -> Self::V;
    fn vmul(v: Self::V, m: Self) -> Self::V;
    fn as_vec_(&self) -> Vec<T>;
    fn rows_(&self) -> usize;
    fn cols_(&self) -> usize;
    fn from_cols(c: &[Vec<T>]) -> Self;
    fn get_rows_(&self) -> Vec<Vec<T>>;
    fn get_cols_(&self) -> Vec<Vec<T>>;
    fn get_diagonal_(&self) -> Vec<T>;
    fn for_each_(&self, f: &dyn Fn(T) -> T) -> Self;
    /// None for the sizes that do not offer it
    fn upper(&self) -> Option<Vec<T>>;
    fn lower(&self) -> Option<Vec<T>>;
}
pub trait MaF<T: Fl>: Ma<T> {
    fn transpose_(&self) -> Self;
    fn trace_(&self) -> T;
    fn norm2_(&self) -> T;
    fn det_(&self) -> T;
    fn inverse_(&self) -> Option<Self>;
    fn qr_(&self) -> Option<(Self, Self)>;
    fn lu_(&self) -> (Self, T, Vec<usize>);
    fn shape_(&self) -> (usize, usize, usize, usize);
}

macro_rules! size {
    ($V:ident, $M:ident, $n:expr, [$($k:expr),*], $up:expr, $lo:expr) => {
        impl<T: Sc> Vx<T> for $V<T> {
            const N: usize = $n;
            fn mk(x: &[T]) -> Self { $V::new([$(x[$k]),*]) }
            fn mk_new_from(x: &[T]) -> Self { $V::new_from($(x[$k]),*) }
            fn mk_from(x: &[T]) -> Self { $V::from([$(x[$k]),*]) }
            fn v(&self) -> Vec<T> { (0..$n).map(|k| self[k]).collect() }
            fn to_array(&self) -> Vec<T> { let a: [T; $n] = **self; a.to_vec() }
            fn set(&mut self, k: usize, x: T) { self[k] = x; }
            fn get(&self, k: usize) -> T { self[k] }
            fn ones_() -> Self { $V::ones() }
            fn zeros_() -> Self { $V::zeros() }
            fn add_(self, o: Self) -> Self { self + o }
            fn sub_(self, o: Self) -> Self { self - o }
            fn add_a(&mut self, o: Self) { *self += o; }
            fn sub_a(&mut self, o: Self) { *self -= o; }
            fn neg_(self) -> Self { -self }
            fn muls(self, s: T) -> Self { self * s }
            fn divs(self, s: T) -> Self { self / s }
            fn dot_(self, o: Self) -> T { self * o }
            fn norm_inf_(&self) -> T { self.norm_inf() }
            fn norm_l_(&self) -> T { self.norm_l() }
        }
        impl<T: Fl> VxF<T> for $V<T> {
            fn norm2_(&self) -> T { self.norm2() }
            #[allow(unused_mut)]
            fn normalize_(&self) -> (Option<Self>, Self) {
                let mut x = *self;
                let r = x.normalize().ok();
                (r, x)
            }
        }
        impl<T: Sc> Ma<T> for $M<T> {
            const N: usize = $n;
            type V = $V<T>;
            fn mk(x: &[T]) -> Self {
                let mut a = [[T::zero(); $n]; $n];
                for i in 0..$n { for j in 0..$n { a[i][j] = x[i * $n + j]; } }
                $M::new(a)
            }
            fn mk_from(x: &[T]) -> Self {
                let mut a = [[T::zero(); $n]; $n];
                for i in 0..$n { for j in 0..$n { a[i][j] = x[i * $n + j]; } }
                $M::from(a)
            }
            fn v(&self) -> Vec<T> { (0..$n * $n).map(|k| self[(k / $n, k % $n)]).collect() }
            fn v_rows(&self) -> Vec<T> { (0..$n * $n).map(|k| self[k / $n][k % $n]).collect() }
            fn v_deref(&self) -> Vec<T> { self.iter().flatten().copied().collect() }
            fn set(&mut self, i: usize, j: usize, x: T) { self[(i, j)] = x; }
            fn get(&self, i: usize, j: usize) -> T { self[(i, j)] }
            fn set_row(&mut self, i: usize, j: usize, x: T) { self[i][j] = x; }
            fn set_deref(&mut self, i: usize, j: usize, x: T) { let a: &mut [[T; $n]; $n] = &mut *self; a[i][j] = x; }
            fn identity_() -> Self { $M::identity() }
            fn zeros_() -> Self { $M::zeros() }
            fn add_(self, o: Self) -> Self { self + o }
            fn sub_(self, o: Self) -> Self { self - o }
            fn add_a(&mut self, o: Self) { *self += o; }
            fn sub_a(&mut self, o: Self) { *self -= o; }
            fn neg_(self) -> Self { -self }
            fn muls(self, s: T) -> Self { self * s }
            fn divs(self, s: T) -> Self { self / s }
            fn mul_(self, o: Self) -> Self { self * o }
            fn mulv(self, v: $V<T>) -> $V<T> { self * v }
            fn vmul(v: $V<T>, m: Self) -> $V<T> { v * m }
            fn as_vec_(&self) -> Vec<T> { self.as_vec().to_vec() }
            fn rows_(&self) -> usize { $M::rows(self) }
            fn cols_(&self) -> usize { $M::cols(self) }
            fn from_cols(c: &[Vec<T>]) -> Self { $M::new_from_vecs($V::new([$(<$V<T> as Vx<T>>::mk(&c[$k])),*])) }
            fn get_rows_(&self) -> Vec<Vec<T>> { let r = self.get_rows(); (0..$n).map(|k| Vx::v(&r[k])).collect() }
            fn get_cols_(&self) -> Vec<Vec<T>> { let r = self.get_cols(); (0..$n).map(|k| Vx::v(&r[k])).collect() }
            fn get_diagonal_(&self) -> Vec<T> { Vx::v(&self.get_diagonal()) }
            fn for_each_(&self, f: &dyn Fn(T) -> T) -> Self { self.for_each(|x| f(x)) }
            fn upper(&self) -> Option<Vec<T>> { let f: fn(&Self) -> Option<Vec<T>> = $up; f(self) }
            fn lower(&self) -> Option<Vec<T>> { let f: fn(&Self) -> Option<Vec<T>> = $lo; f(self) }
        }
        impl<T: Fl> MaF<T> for $M<T> {
            fn transpose_(&self) -> Self { self.transpose() }
            fn trace_(&self) -> T { self.trace() }
            fn norm2_(&self) -> T { self.norm2() }
            fn det_(&self) -> T { self.det() }
            fn inverse_(&self) -> Option<Self> { self.inverse() }
            fn qr_(&self) -> Option<(Self, Self)> { self.qr() }
            fn lu_(&self) -> (Self, T, Vec<usize>) { let (a, d, p) = self.lu(); (a, d, p.to_vec()) }
            fn shape_(&self) -> (usize, usize, usize, usize) {
                let (a, b) = self.shape();
                (a, b, LinearAlgebra::<T>::rows(self), LinearAlgebra::<T>::cols(self))
            }
        }
    };
}
size!(V2, M22, 2, [0, 1], |_| None, |_| None);
size!(V3, M33, 3, [0, 1, 2], |m| Some(m.get_upper_triagular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));
size!(V4, M44, 4, [0, 1, 2, 3], |m| Some(m.get_upper_triagular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));
size!(V5, M55, 5, [0, 1, 2, 3, 4], |m| Some(m.get_upper_triagular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));
size!(V6, M66, 6, [0, 1, 2, 3, 4, 5], |m| Some(m.get_upper_triangular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));

pub fn cs<T: Sc>(x: &[f64]) -> Vec<T> {
    x.iter().map(|v| T::c(*v)).collect()
}
pub fn ds<T: Sc>(x: &[T]) -> Vec<f64> {
    x.iter().map(|v| v.d()).collect()
}
pub fn ci<T: Sc>(x: &[i64]) -> Vec<T> {
    x.iter().map(|v| T::c(*v as f64)).collect()
}

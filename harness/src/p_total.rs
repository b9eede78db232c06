//! C27: total on every float, IEEE element by element, NaN never hidden, requests without an answer refused.
use crate::engine::*;
use crate::mats::*;
use crate::num_t::*;
use crate::{assume, ck, each, one, types};
use num::{One, Zero};
use static_math::matrix2x2::M22;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::slices_methods as sm;
use static_math::traits::LinearAlgebra;
use static_math::transformations::*;
use static_math::utils::*;
use static_math::vector2::V2;
use static_math::vector5::V5;
use static_math::{DualQuaternion, Quaternion, M33, M44, V3, V4, V6};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// any float: NaN, infinities, zeros, the ends of the range, subnormals, every magnitude
fn wild<T: Fl>(s: &mut Src, mode: i64) -> T {
    let lim = if T::NAME == "f32" { (-45.2, 38.6) } else { (-324.0, 308.3) };
    let k = match mode {
        // ordinary ones only, with a few special ones, all of them
        0 => 20,
        1 => s.int(0, 40),
        _ => s.int(0, 20),
    };
    match k {
        0 | 1 => T::nan(),
        2 => T::infinity(),
        3 => T::neg_infinity(),
        4 => T::max_value(),
        5 => -T::max_value(),
        6 => T::min_positive_value(),
        7 => -T::min_positive_value(),
        8 => T::c(0.0),
        9 => T::c(-0.0),
        10 => T::epsilon(),
        11 => T::one(),
        12 => -T::one(),
        13 => T::c(s.log(lim.0, lim.0 + 7.0)),
        14 => T::c(s.log(lim.1 - 7.0, lim.1 - 0.1)),
        15 => T::c(s.log(lim.0, lim.1)),
        _ => T::c(s.real(3.0)),
    }
}
fn wilds<T: Fl>(s: &mut Src, n: usize) -> Vec<T> {
    let mode = [0, 1, 1, 2][s.idx(4)];
    (0..n).map(|_| wild(s, mode)).collect()
}
fn special<T: Fl>(x: &[T]) -> bool {
    x.iter().any(|x| !x.is_normal() && !x.is_zero())
}
fn nan<T: Fl>(x: &[T]) -> bool {
    x.iter().any(|x| x.is_nan())
}
fn finite<T: Fl>(x: &[T]) -> bool {
    x.iter().all(|x| x.is_finite())
}
/// the same number, or both NaN (the sign of a zero is not looked at)
fn same<T: Fl>(a: &[T], b: &[T], what: &str) -> R<()> {
    ck!(a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())), "{}: got {:?}, expected {:?}", what, a, b);
    Ok(())
}
/// run it; a panic is a failure
fn runs<X>(what: &str, f: impl FnOnce() -> X) -> R<X> {
    match catch_unwind(AssertUnwindSafe(|| black_box(f()))) {
        Ok(x) => Ok(x),
        Err(_) => fail(format!("{} panicked", what)),
    }
}
/// run it; not to panic is a failure
fn refused<X>(what: &str, f: impl FnOnce() -> X) -> R<()> {
    match catch_unwind(AssertUnwindSafe(|| {
        black_box(f());
    })) {
        Ok(()) => fail(format!("{} was not refused", what)),
        Err(_) => Ok(()),
    }
}
macro_rules! go {
    ($($e:expr),* $(,)?) => { $( runs(stringify!($e), || $e)?; )* };
}

fn total_vec<T: Fl, X: VxF<T>>(s: &mut Src) -> R {
    let n = X::N;
    let (x, y, c) = (wilds::<T>(s, n), wilds::<T>(s, n), wild::<T>(s, 2));
    let (a, b) = (X::mk(&x), X::mk(&y));
    let z = |f: &dyn Fn(T, T) -> T| x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect::<Vec<T>>();
    same(&runs("+", || a.add_(b))?.v(), &z(&|a, b| a + b), "a + b")?;
    same(&runs("-", || a.sub_(b))?.v(), &z(&|a, b| a - b), "a - b")?;
    same(&runs("-a", || a.neg_())?.v(), &z(&|a, _| -a), "-a")?;
    same(&runs("a * c", || a.muls(c))?.v(), &z(&|a, _| a * c), "a * c")?;
    same(&runs("a / c", || a.divs(c))?.v(), &z(&|a, _| a / c), "a / c")?;
    let mut w = a;
    runs("+=", || w.add_a(b))?;
    same(&w.v(), &z(&|a, b| a + b), "+=")?;
    let mut w = a;
    runs("-=", || w.sub_a(b))?;
    same(&w.v(), &z(&|a, b| a - b), "-=")?;
    let (d, n2, n1) = (runs("dot", || a.dot_(b))?, runs("norm2", || a.norm2_())?, runs("norm_l", || a.norm_l_())?);
    go!(a.norm_inf_(), a.is_zero(), a == b, format!("{:?} {}", a, a));
    if nan(&x) {
        ck!(d.is_nan() && n2.is_nan() && n1.is_nan(), "{:?} with a NaN has dot product {:?}, norm2 {:?}, norm_l {:?}", x, d, n2, n1);
        ck!(!a.is_zero() && !(a == a), "{:?} with a NaN is zero, or equal to itself", x);
    }
    let (u, _) = runs("normalize", || a.normalize_())?;
    if let (Some(u), true) = (u, nan(&x)) {
        ck!(!finite(&u.v()), "{:?} is normalized to {:?}", x, u.v());
    }
    Ok(special(&x) || special(&y))
}
fn total_mat<T: Fl, X: MaF<T>>(s: &mut Src) -> R
where
    X::V: VxF<T>,
{
    let n = X::N;
    let (x, y, c) = (wilds::<T>(s, n * n), wilds::<T>(s, n * n), wild::<T>(s, 2));
    let v = wilds::<T>(s, n);
    let (a, b, w) = (X::mk(&x), X::mk(&y), <X::V as Vx<T>>::mk(&v));
    let z = |f: &dyn Fn(T, T) -> T| x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect::<Vec<T>>();
    same(&runs("+", || a.add_(b))?.v(), &z(&|a, b| a + b), "a + b")?;
    same(&runs("-", || a.sub_(b))?.v(), &z(&|a, b| a - b), "a - b")?;
    same(&runs("-a", || a.neg_())?.v(), &z(&|a, _| -a), "-a")?;
    same(&runs("a * c", || a.muls(c))?.v(), &z(&|a, _| a * c), "a * c")?;
    same(&runs("a / c", || a.divs(c))?.v(), &z(&|a, _| a / c), "a / c")?;
    let t = runs("transpose", || a.transpose_())?;
    same(&t.v(), &(0..n * n).map(|k| x[k % n * n + k / n]).collect::<Vec<T>>(), "transpose")?;
    let p = runs("a * b", || a.mul_(b))?.v();
    let mv = runs("a * v", || a.mulv(w))?.v();
    let vm = runs("v * a", || X::vmul(w, a))?.v();
    for i in 0..n {
        let (row, col): (Vec<T>, Vec<T>) = ((0..n).map(|j| x[i * n + j]).collect(), (0..n).map(|j| x[j * n + i]).collect());
        let bcol: Vec<T> = (0..n).map(|j| y[j * n + i]).collect();
        for j in 0..n {
            ck!(!nan(&row) || p[i * n + j].is_nan(), "the NaN of row {} is not in element {},{} of the product: {:?} * {:?} = {:?}", i, i, j, x, y, p);
            ck!(!nan(&bcol) || p[j * n + i].is_nan(), "the NaN of column {} is not in element {},{} of the product: {:?} * {:?} = {:?}", i, j, i, x, y, p);
        }
        ck!(!nan(&row) && !nan(&v) || mv[i].is_nan(), "a NaN is not in element {} of {:?} * {:?} = {:?}", i, x, v, mv);
        ck!(!nan(&col) && !nan(&v) || vm[i].is_nan(), "a NaN is not in element {} of {:?} * {:?} = {:?}", i, v, x, vm);
    }
    let (det, inv, qr) = (runs("det", || a.det_())?, runs("inverse", || a.inverse_())?, runs("qr", || a.qr_())?);
    let (n2, tr) = (runs("norm2", || a.norm2_())?, runs("trace", || a.trace_())?);
    if nan(&x) {
        ck!(det.is_nan() && n2.is_nan(), "{:?} with a NaN has determinant {:?}, norm2 {:?}", x, det, n2);
        ck!(!inv.map_or(false, |m| finite(&m.v())), "the inverse of {:?} is {:?}", x, inv);
        ck!(!qr.map_or(false, |(q, r)| finite(&q.v()) && finite(&r.v())), "qr of {:?} is {:?}", x, qr);
        ck!(!a.is_zero() && !a.is_one(), "{:?} with a NaN is zero or one", x);
    }
    let diagonal: Vec<T> = (0..n).map(|k| x[k * n + k]).collect();
    ck!(!nan(&diagonal) || tr.is_nan(), "the trace of {:?} is {:?}", x, tr);
    // every row with something to pivot on
    if (0..n).all(|i| x[i * n..i * n + n].iter().any(|x| x.abs() > T::zero())) {
        go!(a.lu_());
    }
    go!(a.get_diagonal_(), a.upper(), a.lower(), a == b, a.for_each_(&|x| x.sqrt()));
    Ok(special(&x) || special(&y))
}
fn total_display<T: Fl, X: MaF<T>>(s: &mut Src) -> R {
    let x = wilds::<T>(s, X::N * X::N);
    let a = X::mk(&x);
    go!(format!("{:?}", a), format!("{}", a));
    Ok(special(&x))
}
fn quat<T: Fl>(x: &[T]) -> Quaternion<T> {
    Quaternion::new(x[0], V3::new([x[1], x[2], x[3]]))
}
fn parts<T: Fl>(q: &Quaternion<T>) -> [T; 4] {
    let v = q.imag();
    [q.real(), v[0], v[1], v[2]]
}
/// a zero quaternion is refused: these are far enough from it
fn clear<T: Fl>(x: &[T]) -> bool {
    x.iter().any(|x| x.is_nan() || x.abs() > T::c(1e-2))
}
fn total_eigen<T: Fl>(s: &mut Src) -> R {
    let x = wilds::<T>(s, 4);
    let a = <M22<T> as Ma<T>>::mk(&x);
    let e = runs("real_eigenvals", || a.real_eigenvals())?;
    if let (Some(e), true) = (e, nan(&x)) {
        ck!(!finite(&e.v()), "the eigenvalues of {:?} are {:?}", x, e.v());
    }
    Ok(special(&x))
}
fn total_quat<T: Fl>(s: &mut Src) -> R {
    let (x, y, v, c) = (wilds::<T>(s, 4), wilds::<T>(s, 4), wilds::<T>(s, 3), wild::<T>(s, 2));
    let (a, b, u) = (quat(&x), quat(&y), V3::new([v[0], v[1], v[2]]));
    let z = |f: &dyn Fn(T, T) -> T| x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect::<Vec<T>>();
    same(&parts(&(a + b)), &z(&|a, b| a + b), "a + b")?;
    same(&parts(&(a - b)), &z(&|a, b| a - b), "a - b")?;
    same(&parts(&-a), &z(&|a, _| -a), "-a")?;
    same(&parts(&(a * c)), &z(&|a, _| a * c), "a * c")?;
    same(&parts(&(a / c)), &z(&|a, _| a / c), "a / c")?;
    let p = runs("a * b", || a * b)?;
    let r = runs("a * v", || a * u)?;
    let (d, n) = (runs("dot", || a.dot(b))?, runs("norm2", || a.norm2())?);
    if nan(&x) {
        ck!(parts(&p).iter().all(|x| x.is_nan()), "{:?} * {:?} = {:?} does not show the NaN", x, y, p);
        ck!(d.is_nan() && n.is_nan(), "{:?} with a NaN has dot product {:?}, norm2 {:?}", x, d, n);
        ck!(!(a == a), "{:?} with a NaN is equal to itself", x);
        ck!(!a.normalize().map_or(false, |q| finite(&parts(&q))), "{:?} is normalized to {:?}", x, a.normalize());
        ck!(!a.inverse().map_or(false, |q| finite(&parts(&q))), "the inverse of {:?} is {:?}", x, a.inverse());
    }
    ck!(!(nan(&x) || nan(&v)) || r.v().iter().all(|x| x.is_nan()) || !finite(&r.v()), "{:?} * {:?} = {:?} does not show the NaN", x, v, r);
    go!(
        a.conj(), a.abs2(), a.real(), a.imag(), a.abs_imag(), a.normalize(), a.inverse(), a.normalize_q(), a.argq(), a.to_rotation(), a.exp(), a.ln(), a.sqrt(), a.sin(), a.cos(),
        a.get_angle(), a.get_axis(), a.axis_angle(), a.to_euler_angles(), a.derivative(&u), Quaternion::slerp(a, b, c), Quaternion::new_real(c), Quaternion::new_imag(&u),
        Quaternion::rotation_norm_encoded(&u), Quaternion::from_euler_angles(v[0], v[1], v[2]), format!("{} {:?}", a, a), a.is_zero(), a.is_one(),
    );
    if clear(&x) {
        go!(a.pow(b), b / a);
    }
    // far enough from the zero axis
    if clear(&v) {
        go!(Quaternion::rotation(c, &u), axis_angle(&u));
    }
    Ok(special(&x) || special(&y) || special(&v))
}
fn total_dq<T: Fl>(s: &mut Src) -> R {
    let (x, y, v, c) = (wilds::<T>(s, 8), wilds::<T>(s, 8), wilds::<T>(s, 3), wild::<T>(s, 2));
    let (a, b, u) = (DualQuaternion::new(quat(&x), quat(&x[4..])), DualQuaternion::new(quat(&y), quat(&y[4..])), V3::new([v[0], v[1], v[2]]));
    let z = |f: &dyn Fn(T, T) -> T| x.iter().zip(&y).map(|(a, b)| f(*a, *b)).collect::<Vec<T>>();
    let ps = |d: &DualQuaternion<T>| [parts(&d.real()), parts(&d.dual())].concat();
    same(&ps(&(a + b)), &z(&|a, b| a + b), "a + b")?;
    same(&ps(&(a - b)), &z(&|a, b| a - b), "a - b")?;
    same(&ps(&-a), &z(&|a, _| -a), "-a")?;
    same(&ps(&(a * c)), &z(&|a, _| a * c), "a * c")?;
    let p = ps(&runs("a * b", || a * b)?);
    if nan(&x) {
        ck!(p[4..].iter().all(|x| x.is_nan()), "{:?} * {:?} = {:?} does not show the NaN", x, y, p);
        ck!(!(a == a), "{:?} with a NaN is equal to itself", x);
        if nan(&x[..4]) {
            ck!(!a.is_normalized(), "{:?} is normalized", x);
        }
        ck!(!compare_dual_quaternions(a, a, T::c(1e-3)), "compare_dual_quaternions takes the NaN of {:?} for equal", x);
        ck!(!a.normalize().map_or(false, |q| finite(&ps(&q))), "{:?} is normalized to {:?}", x, a.normalize());
    }
    go!(
        a.conj(), a.conj_as_dual(), a.conj_combined(), a.norm(), a.normalize(), a.is_normalized(), a.to_rotation_translation(), a.to_quaternion_translation(), a.get_translation(),
        a.to_homogeneous(), a.get_screw_parameters(), a.pow(c), a.log(), a.transform_point(&u), DualQuaternion::new_from_point(&u), DualQuaternion::new_from_translation(&u),
        DualQuaternion::new_from_screw_parameters(&u, &V3::new([x[0], x[1], x[2]]), c, y[0]), format!("{} {:?}", a, a), a.is_zero(), a.is_one(),
        DualQuaternion::new_from_vecs(&V4::new([x[0], x[1], x[2], x[3]]), &V4::new([x[4], x[5], x[6], x[7]])),
    );
    if clear(&x[..4]) {
        let q = quat(&x);
        go!(a.inverse(), b / a, DualQuaternion::new_from_rot_trans(&q, &u), DualQuaternion::new_from_array([x[0], x[1], x[2], x[3], x[4], x[5], x[6]]));
        // the beginning is inverted
        go!(DualQuaternion::screw_lerp(&a, &b, c));
    }
    Ok(special(&x) || special(&y) || special(&v))
}
fn total_tr<T: Fl>(s: &mut Src) -> R {
    let (x, y, v, c) = (wilds::<T>(s, 9), wilds::<T>(s, 16), wilds::<T>(s, 6), wilds::<T>(s, 3));
    let (m, h) = (<M33<T> as Ma<T>>::mk(&x), <M44<T> as Ma<T>>::mk(&y));
    let (p, w) = (V3::new([v[0], v[1], v[2]]), V6::new([v[0], v[1], v[2], v[3], v[4], v[5]]));
    let q = quat(&y);
    let seqs = [None, Some(EulerSeq::XYX), Some(EulerSeq::XYZ), Some(EulerSeq::XZX), Some(EulerSeq::XZY), Some(EulerSeq::YXY), Some(EulerSeq::YXZ), Some(EulerSeq::YZX), Some(EulerSeq::YZY), Some(EulerSeq::ZXY), Some(EulerSeq::ZXZ)];
    for e in seqs {
        runs("euler_to_rotation", || euler_to_rotation(c[0], c[1], c[2], e))?;
    }
    go!(
        rot2(c[0]), rotx(c[0]), roty(c[0]), rotz(c[0]), rotation_to_euler(&m), homogeneous_from_rotation(&m, &p), se3_from_parts(&m, &p), se3_get_parts(&h),
        homogeneous_from_quaternion(&q, &p), get_parts(&h), get_parts_raw(&h), homogeneous_inverse(&h), homogeneous_inverse_transform(&h, &p), skew_from_vec(&p), skew_to_vec(&m),
        skew_scalar(c[0]), ksi(c[0], c[1], c[2]), skew_from_vec_aug(p), skew_v6(w), translation_2d(c[0], c[1]), translation_3d(c[0], c[1], c[2]),
        rotation_from_axis_angle(&p, c[0]), matrix_exponential(&m), matrix_log(&m), rotation_inverse(&m), twist_to_se3(&w), se3_to_twist(&h), adjoint(&h),
        screw_to_axis(&p, &V3::new([c[0], c[1], c[2]]), c[0]), axis_angle6(&w), matrix_exponential6(&h), matrix_log6(&h), distance_to_manifold(&m), is_rotation(m), is_rotation_h(h),
        Quaternion::from_rotation(&m),
    );
    let d = distance_to_manifold(&m);
    if nan(&x) {
        ck!(!is_rotation(m), "{:?} with a NaN is a rotation", x);
        ck!(!d.is_finite(), "distance_to_manifold of {:?} is {:?}", x, d);
    }
    let not_translation: Vec<T> = (0..16).filter(|k| k % 4 < 3 || *k == 15).map(|k| y[k]).collect();
    if nan(&not_translation) {
        ck!(!is_rotation_h(h), "{:?} with a NaN is a rigid transform", y);
    }
    // a proper one with only one element spoiled
    let mut g = <M44<T> as Ma<T>>::mk(&M44::<T>::identity().v());
    let k = s.idx(16);
    g.set(k / 4, k % 4, if s.flag() { T::nan() } else { T::infinity() });
    let translation = k % 4 == 3 && k < 12;
    if !translation {
        ck!(!is_rotation_h(g), "{:?} is a rigid transform", g);
    }
    if k / 4 < 3 && k % 4 < 3 {
        let (r, _) = get_parts_raw(&g);
        ck!(!is_rotation(r), "{:?} is a rotation", r);
        ck!(!distance_to_manifold(&r).is_finite(), "distance_to_manifold of {:?} is {:?}", r, distance_to_manifold(&r));
    }
    Ok(special(&x) || special(&y) || special(&v))
}
fn total_slices<T: Fl>(s: &mut Src) -> R {
    let n = s.int(1, 20) as usize;
    let (x, y, t) = (wilds::<T>(s, n), wilds::<T>(s, n), wild::<T>(s, 2));
    let mm = runs("find_max_min", || sm::find_max_min(&x))?;
    for ((v, k), what) in [(mm.max, "max"), (mm.min, "min")] {
        ck!(k < n && (x[k] == v || (x[k].is_nan() && v.is_nan())), "find_max_min of {:?}: {} {:?} at {}", x, what, v, k);
    }
    go!(sm::norm_inf(&x), sm::project_x_over_y(&x, &y), sm::check_elements(&x, t), compare_vecs(&x, &y, t), nearly_equal(x[0], y[0], t), nearly_zero(x[0]), compare_floats(x[0], y[0], t));
    let mut z = x.clone();
    runs("normalize", || sm::normalize(&mut z))?;
    if nan(&x) {
        let r = [runs("dot", || sm::dot(&x, &y))?, runs("norm2", || sm::norm2(&x))?, runs("norm_l", || sm::norm_l(&x))?];
        ck!(r.iter().all(|x| x.is_nan()), "dot, norm2, norm_l of {:?} with a NaN are {:?}", x, r);
        ck!(z.iter().all(|x| x.is_nan()), "{:?} is normalized to {:?}", x, z);
        ck!(!compare_vecs(&x, &y, T::c(1e-3)) && !compare_vecs(&y, &x, T::c(1e-3)), "compare_vecs takes the NaN of {:?} for equal to {:?}", x, y);
    }
    Ok(special(&x))
}

// ---------------------------------------------------------------- refusals

/// an index outside of a vector or a matrix is not another element
fn refuse_index<T: Fl, X: MaF<T>>(s: &mut Src) -> R {
    let n = X::N;
    let x: Vec<T> = (0..n * n).map(|k| T::c(k as f64 + 1.0)).collect();
    let big = |s: &mut Src| [n, n + 1, n * n - 1, n * n, 2 * n, usize::MAX][s.idx(6)].max(n);
    let (mut i, mut j) = (s.idx(n), s.idx(n));
    match s.idx(3) {
        0 => i = big(s),
        1 => j = big(s),
        _ => {
            i = big(s);
            j = big(s);
        }
    }
    let a = X::mk(&x);
    let mut b = a;
    let zero = T::zero();
    refused(&format!("writing ({}, {})", i, j), || b.set(i, j, zero))?;
    ck!(b.v() == x, "the refused write of ({}, {}) left {:?}", i, j, b);
    refused(&format!("writing row {}, {}", i, j), || b.set_row(i, j, zero))?;
    ck!(b.v() == x, "the refused write of row {}, {} left {:?}", i, j, b);
    refused(&format!("reading ({}, {})", i, j), || a.get(i, j))?;
    let k = big(s);
    let w0 = <X::V as Vx<T>>::mk(&x[..n]);
    let mut w = w0;
    refused(&format!("writing element {} of a vector", k), || w.set(k, zero))?;
    ck!(w == w0, "the refused write of {} left {:?}", k, w);
    refused(&format!("reading element {} of a vector", k), || w0.get(k))?;
    Ok(true)
}
fn refuse_zero<T: Fl>(s: &mut Src) -> R {
    let x: Vec<T> = (0..8).map(|_| T::c(s.real(3.0))).collect();
    let (q, d, v) = (quat(&x), DualQuaternion::new(quat(&x), quat(&x[4..])), V3::new([x[0], x[1], x[2]]));
    let (z, zd) = (Quaternion::<T>::zero(), DualQuaternion::new(Quaternion::zero(), quat(&x[4..])));
    // the zero may be the result of an operation
    let k = s.idx(4);
    let z = match k {
        0 => z,
        1 => q - q,
        2 => q * T::zero(),
        _ => Quaternion::new(T::c(-0.0), V3::zeros()),
    };
    refused("q / 0", || q / z)?;
    refused("d / (0 + eps d)", || d / zd)?;
    refused("inverse of 0 + eps d", || zd.inverse())?;
    refused("a rotation about the zero vector", || Quaternion::rotation(x[0], &V3::zeros()))?;
    refused("new_from_rot_trans with the zero quaternion", || DualQuaternion::new_from_rot_trans(&z, &v))?;
    ck!(z.inverse().is_none() && z.normalize().is_none(), "the zero quaternion has inverse {:?}, normalized {:?}", z.inverse(), z.normalize());
    ck!(zd.normalize().is_none(), "{:?} is normalized to {:?}", zd, zd.normalize());
    ck!(z.get_axis().is_none() && z.axis_angle().0.is_none(), "the zero quaternion has the axis {:?}", z.get_axis());
    Ok(x[0] != T::zero())
}
fn refuse_lu<T: Fl, X: MaF<T>>(_: &mut Src) -> R {
    refused("LU of the zero matrix", || X::zeros_().lu_())?;
    ck!(X::zeros_().inverse_().is_none() && X::zeros_().qr_().is_none(), "the zero matrix has an inverse or a QR factorization");
    Ok(true)
}
fn refuse_slices(s: &mut Src) -> R {
    let (n, m) = (s.idx(12), s.idx(12));
    assume!(n != m);
    let x: Vec<f64> = (0..n).map(|_| s.real(3.0)).collect();
    let y: Vec<f64> = (0..m).map(|_| s.real(3.0)).collect();
    refused(&format!("dot of {} and {} elements", n, m), || sm::dot(&x, &y))?;
    refused(&format!("project_x_over_y of {} and {} elements", n, m), || sm::project_x_over_y(&x, &y))?;
    let e: [f64; 0] = [];
    refused("find_max_min of nothing", || sm::find_max_min(&e))?;
    Ok(n > 0 && m > 0)
}
fn refuse_quadrant<T: Fl>(s: &mut Src) -> R {
    let x: Vec<T> = (0..36).map(|_| T::c(s.real(3.0))).collect();
    let r = M33::new([[T::one(); 3]; 3]);
    let a = <M66<T> as Ma<T>>::mk(&x);
    let mut b = a;
    let k = [0, 5, 6, 7, 8, usize::MAX][s.idx(6)];
    refused(&format!("quadrant {}", k), || b.copy_elements_from(&r, k))?;
    ck!(b == a, "the refused quadrant {} left {:?}", k, b);
    let h = <M44<T> as Ma<T>>::mk(&x[..16]);
    let (i, j) = (s.idx(6), s.idx(6));
    assume!(i > 3 || j > 3);
    refused(&format!("get_submatrix without ({}, {})", i, j), || h.get_submatrix((i, j)))?;
    Ok(true)
}

pub fn checks(o: &mut Vec<Check>) {
    let rule = "elements that are NaN, infinite, zeros, greatest and least values, subnormal, of every magnitude or ordinary; non-trivial: some element NaN, infinite or subnormal";
    each!(o, "C27", total_vec, 10000, rule, [V2, V3, V4, V5, V6], [f32, f64]);
    each!(o, "C27", total_mat, 6000, rule, [M22, M33, M44, M55, M66], [f32, f64]);
    each!(o, "C27", total_display, 500, rule, [M22, M33, M44, M55, M66], [f32, f64]);
    types!(o, "C27", total_eigen, 20000, rule, [f32, f64]);
    types!(o, "C27", total_quat, 20000, rule, [f32, f64]);
    types!(o, "C27", total_dq, 20000, rule, [f32, f64]);
    types!(o, "C27", total_tr, 20000, rule, [f32, f64]);
    types!(o, "C27", total_slices, 20000, rule, [f32, f64]);
    each!(o, "C27", refuse_index, 500, "an index outside in one or both dimensions", [M22, M33, M44, M55, M66], [f32, f64]);
    each!(o, "C27", refuse_lu, 10, "the zero matrix", [M22, M33, M44, M55, M66], [f32, f64]);
    types!(o, "C27", refuse_zero, 2000, "zeros, fresh or computed; non-trivial: the other operand is not zero", [f32, f64]);
    types!(o, "C27", refuse_quadrant, 1000, "a quadrant not in 1..4, a row or column not in 0..3", [f32, f64]);
    one!(o, "C27", refuse_slices, "f64", 2000, "slices of different lengths; non-trivial: none empty");
}

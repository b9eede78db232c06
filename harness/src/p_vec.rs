//! C01, C02: vectors and slices.
use crate::engine::*;
use crate::gen::*;
use crate::mats::*;
use crate::model::{cross, dot, V};
use crate::num_t::*;
use crate::{ck, each, one, types};
use num::Zero;
use static_math::slices_methods as sl;
use static_math::{vector2, vector3, V2, V2_ZEROS, V3, V3_ZEROS, V4, V4_ZEROS, V5, V5_ZEROS, V6, V6_ZEROS};

/// components exact in every element type
fn exact_parts(s: &mut Src, n: usize, float: bool) -> Vec<f64> {
    let m = if float { 1000 } else { 1000 };
    let k = if float { 2f64.powi(s.int(-6, 6) as i32) } else { 1.0 };
    s.ints(n, m).iter().map(|x| *x as f64 * k).collect()
}

/// integer-valued (exactly representable) components: everything is exact
fn vec_exact<T: Sc, X: Vx<T>>(s: &mut Src) -> R {
    let float = T::EPS != 0.0;
    let n = X::N;
    let a: Vec<T> = cs(&exact_parts(s, n, float));
    let b: Vec<T> = cs(&exact_parts(s, n, float));
    let c = T::c(s.small(50) as f64);
    let (x, y) = (X::mk(&a), X::mk(&b));
    let two = |f: &dyn Fn(T, T) -> T| -> Vec<T> { (0..n).map(|k| f(a[k], b[k])).collect() };
    eqv(&x.v(), &a, "new and indexing")?;
    eqv(&X::mk_new_from(&a).v(), &a, "new_from")?;
    eqv(&X::mk_from(&a).v(), &a, "from array")?;
    eqv(&X::to_array(&x), &a, "to array")?;
    eqv(&x.add_(y).v(), &two(&|p, q| p + q), "a + b")?;
    eqv(&x.sub_(y).v(), &two(&|p, q| p - q), "a - b")?;
    let mut z = x;
    z.add_a(y);
    eqv(&z.v(), &two(&|p, q| p + q), "a += b")?;
    let mut z = x;
    z.sub_a(y);
    eqv(&z.v(), &two(&|p, q| p - q), "a -= b")?;
    eqv(&x.v(), &a, "the operand is not modified")?;
    eqv(&x.neg_().v(), &two(&|p, _| -p), "-a")?;
    eqv(&x.muls(c).v(), &two(&|p, _| p * c), "a * s")?;
    if c != T::zero() {
        if float {
            close_rel(&ds(&x.divs(c).v()), &ds(&two(&|p, _| p / c)), &ds(&two(&|p, _| (p / c).abs())), 4.0 * T::EPS, "a / s")?;
        } else {
            eqv(&x.divs(c).v(), &two(&|p, _| p / c), "a / s")?;
        }
    }
    let d = two(&|p, q| p * q).into_iter().fold(T::zero(), |m, e| m + e);
    eqv(&[x.dot_(y)], &[d], "a * b")?;
    eqv(&[y.dot_(x)], &[d], "b * a")?;
    let k = s.idx(n);
    let mut z = x;
    z.set(k, c);
    let mut e = a.clone();
    e[k] = c;
    eqv(&z.v(), &e, "assignment of an element")?;
    eqv(&X::ones_().v(), &vec![T::one(); n], "ones")?;
    eqv(&X::zeros_().v(), &vec![T::zero(); n], "zeros")?;
    eqv(&X::zero().v(), &vec![T::zero(); n], "zero")?;
    ck!(X::zeros_().is_zero(), "is_zero of zeros()");
    ck!(x.is_zero() == a.iter().all(|q| *q == T::zero()), "is_zero of {:?} is {}", a, x.is_zero());
    // only one component different from zero
    let mut z = X::zeros_();
    z.set(k, c);
    ck!(z.is_zero() == (c == T::zero()), "is_zero of {:?} is {}", z.v(), z.is_zero());
    ck!((x == y) == (a == b), "{:?} == {:?} is {}", a, b, x == y);
    ck!((x == X::mk(&e)) == (a == e), "{:?} == {:?} is {}", a, e, x == X::mk(&e));
    Ok(a.iter().any(|q| *q != T::zero()) && a != b && c != T::zero())
}

/// generic floats
fn vec_float<T: Fl, X: VxF<T>>(s: &mut Src) -> R {
    let n = X::N;
    let e = if T::NAME == "f32" { 15.0 } else { 140.0 };
    let a: Vec<T> = cs(&s.reals(n, e));
    let b: Vec<T> = cs(&s.reals(n, e));
    let c = T::c(s.real(10.0));
    let (x, y) = (X::mk(&a), X::mk(&b));
    let two = |f: &dyn Fn(T, T) -> T| -> Vec<f64> { (0..n).map(|k| f(a[k], b[k]).d()).collect() };
    let t = 4.0 * T::EPS;
    let sum = two(&|p, q| p.abs() + q.abs());
    close_rel(&ds(&x.add_(y).v()), &two(&|p, q| p + q), &sum, t, "a + b")?;
    close_rel(&ds(&x.sub_(y).v()), &two(&|p, q| p - q), &sum, t, "a - b")?;
    let mut z = x;
    z.add_a(y);
    close_rel(&ds(&z.v()), &two(&|p, q| p + q), &sum, t, "a += b")?;
    let mut z = x;
    z.sub_a(y);
    close_rel(&ds(&z.v()), &two(&|p, q| p - q), &sum, t, "a -= b")?;
    eqv(&ds(&x.neg_().v()), &two(&|p, _| -p), "-a")?;
    close_rel(&ds(&x.muls(c).v()), &two(&|p, _| p * c), &two(&|p, _| (p * c).abs()), t, "a * s")?;
    if c != T::zero() && c.d().abs() > 1e-8 {
        close_rel(&ds(&x.divs(c).v()), &two(&|p, _| p / c), &two(&|p, _| (p / c).abs()), t, "a / s")?;
    }
    let d: f64 = two(&|p, q| p * q).iter().sum();
    let da: f64 = two(&|p, q| (p * q).abs()).iter().sum();
    let tiny = if T::NAME == "f32" { 1e-43 } else { 0.0 };
    close(x.dot_(y).d(), d, 16.0 * T::EPS * da + tiny, "a * b")?;
    ck!(x.is_zero() == a.iter().all(|q| *q == T::zero()), "is_zero of {:?} is {}", a, x.is_zero());
    // only one component different from zero, down to the least number and up to the greatest
    let k = s.idx(n);
    let lim = if T::NAME == "f32" { (-44.8, 38.5) } else { (-323.0, 308.2) };
    let c = T::c(s.log(lim.0, lim.1));
    let mut z = X::zeros_();
    z.set(k, c);
    ck!(z.is_zero() == (c == T::zero()), "is_zero of {:?} is {}", z.v(), z.is_zero());
    ck!((z == X::zeros_()) == (c == T::zero()), "{:?} == 0 is {}", z.v(), z == X::zeros_());
    Ok(a.iter().any(|q| *q != T::zero()) && d != 0.0)
}

/// & of the vectors of four booleans
fn and_bool(s: &mut Src) -> R {
    let a: Vec<bool> = (0..4).map(|_| s.flag()).collect();
    let b: Vec<bool> = (0..4).map(|_| s.flag()).collect();
    let (x, y) = (V4::new([a[0], a[1], a[2], a[3]]), V4::new([b[0], b[1], b[2], b[3]]));
    let r = x & y;
    for k in 0..4 {
        ck!(r[k] == (a[k] && b[k]), "{:?} & {:?} is {:?}", a, b, r);
    }
    Ok(a != b)
}
fn v3e<T: Sc>(a: &[f64]) -> V3<T> {
    V3::new([T::c(a[0]), T::c(a[1]), T::c(a[2])])
}
fn d3<T: Sc>(v: V3<T>) -> V {
    [v[0].d(), v[1].d(), v[2].d()]
}
/// integers (exact in f32 too)
fn cross_exact<T: Sc>(s: &mut Src) -> R {
    let i3 = |s: &mut Src| -> V { let v = s.ints(3, 100); [v[0] as f64, v[1] as f64, v[2] as f64] };
    let (a, b, c) = (i3(s), i3(s), i3(s));
    let (x, y, z) = (v3e::<T>(&a), v3e::<T>(&b), v3e::<T>(&c));
    let k = x.cross(y);
    eqv(&d3(k), &cross(&a, &b), "a x b")?;
    eqv(&d3(-y.cross(x)), &d3(k), "-(b x a)")?;
    ck!(x * k == T::zero() && y * k == T::zero(), "a x b = {:?} is not orthogonal to a = {:?} and b = {:?}", d3(k), a, b);
    ck!(x.cross(x).is_zero(), "a x a = {:?}", d3(x.cross(x)));
    eqv(&d3(x.cross(y + z)), &d3(x.cross(y) + x.cross(z)), "a x (b + c)")?;
    ck!(V3::<T>::x_axis().cross(V3::y_axis()) == V3::z_axis(), "x cross y is not z");
    ck!(V3::<T>::y_axis().cross(V3::z_axis()) == V3::x_axis(), "y cross z is not x");
    ck!(V3::<T>::z_axis().cross(V3::x_axis()) == V3::y_axis(), "z cross x is not y");
    Ok(cross(&a, &b) != [0.0; 3])
}
fn cross_float<T: Fl>(s: &mut Src) -> R {
    let e = if T::NAME == "f32" { 8.0 } else { 60.0 };
    let (x, y) = (v3e::<T>(&s.reals(3, e)), v3e::<T>(&s.reals(3, e)));
    let (a, b) = (d3(x), d3(y));
    let k = d3(x.cross(y));
    let r = cross(&a, &b);
    for i in 0..3 {
        let (j, l) = ((i + 1) % 3, (i + 2) % 3);
        close(k[i], r[i], 8.0 * T::EPS * ((a[j] * b[l]).abs() + (a[l] * b[j]).abs()), "a x b")?;
    }
    Ok(dot(&r, &r) > 0.0)
}

/// scalars on the left side, axes and constants
fn left_and_constants(s: &mut Src) -> R {
    let c = s.small(50) as f64;
    let a: Vec<f64> = s.ints(6, 1000).iter().map(|x| *x as f64).collect();
    let e: Vec<f64> = a.iter().map(|x| x * c).collect();
    let f = |x: &[f64]| -> Vec<f32> { cs(x) };
    eqv(&ds(&(c as f32 * <V2<f32> as Vx<f32>>::mk(&f(&a[..2]))).v()), &e[..2], "s * V2")?;
    eqv(&ds(&(c as f32 * <V3<f32> as Vx<f32>>::mk(&f(&a[..3]))).v()), &e[..3], "s * V3<f32>")?;
    eqv(&ds(&(c as f32 * <V4<f32> as Vx<f32>>::mk(&f(&a[..4]))).v()), &e[..4], "s * V4")?;
    eqv(&ds(&(c as f32 * <V5<f32> as Vx<f32>>::mk(&f(&a[..5]))).v()), &e[..5], "s * V5")?;
    eqv(&ds(&(c as f32 * <V6<f32> as Vx<f32>>::mk(&f(&a[..6]))).v()), &e[..6], "s * V6")?;
    eqv(&(c * <V3<f64> as Vx<f64>>::mk(&a[..3])).v(), &e[..3], "s * V3<f64>")?;
    eqv(&*V2_ZEROS, &[0.0; 2], "V2_ZEROS")?;
    eqv(&*V3_ZEROS, &[0.0; 3], "V3_ZEROS")?;
    eqv(&*V4_ZEROS, &[0.0; 4], "V4_ZEROS")?;
    eqv(&*V5_ZEROS, &[0.0; 5], "V5_ZEROS")?;
    eqv(&*V6_ZEROS, &[0.0; 6], "V6_ZEROS")?;
    eqv(&*vector2::X_AXIS, &[1.0, 0.0], "vector2::X_AXIS")?;
    eqv(&*vector2::Y_AXIS, &[0.0, 1.0], "vector2::Y_AXIS")?;
    eqv(&*vector3::X_AXIS, &[1.0, 0.0, 0.0], "vector3::X_AXIS")?;
    eqv(&*vector3::Y_AXIS, &[0.0, 1.0, 0.0], "vector3::Y_AXIS")?;
    eqv(&*vector3::Z_AXIS, &[0.0, 0.0, 1.0], "vector3::Z_AXIS")?;
    eqv(&*V3::<f64>::x_axis(), &[1.0, 0.0, 0.0], "x_axis()")?;
    eqv(&*V3::<i64>::y_axis(), &[0, 1, 0], "y_axis()")?;
    eqv(&*V3::<f32>::z_axis(), &[0.0, 0.0, 1.0], "z_axis()")?;
    Ok(c != 0.0 && a.iter().any(|x| *x != 0.0))
}

// ---------------------------------------------------------------- C02

fn norms_int<T: Sc, X: Vx<T>>(s: &mut Src) -> R {
    let a: Vec<T> = ci(&s.ints(X::N, 1000));
    let x = X::mk(&a);
    let ab: Vec<f64> = ds(&a).iter().map(|q| q.abs()).collect();
    eqv(&[x.norm_l_().d()], &[ab.iter().sum::<f64>()], "norm_l")?;
    eqv(&[x.norm_inf_().d()], &[maxabs(&ab)], "norm_inf")?;
    Ok(maxabs(&ab) > 0.0)
}
fn vec_mags<T: Fl>(s: &mut Src, n: usize) -> Vec<T> {
    let e = if T::NAME == "f32" { 15.0 } else { 140.0 };
    match s.ig(0, 6, |r| r.below(7) as i64) {
        // all of the same (large or small) magnitude
        0 => {
            let k = 10f64.powf(s.uni(-e, e));
            (0..n).map(|_| T::c(s.uni(-1.0, 1.0) * k)).collect()
        }
        // one component
        1 => {
            let mut v = vec![T::zero(); n];
            let k = s.idx(n);
            v[k] = T::c(s.real(e));
            v
        }
        2 => ci(&s.ints(n, 20)),
        // of norm one, or nearly so
        6 => {
            let v: Vec<f64> = (0..n).map(|_| s.uni(-1.0, 1.0)).collect();
            let (k, m) = (s.near_one(), v.iter().map(|x| x * x).sum::<f64>().sqrt());
            v.iter().map(|x| T::c(if m > 1e-3 { k * x / m } else { *x })).collect()
        }
        _ => cs(&s.reals(n, e)),
    }
}
fn norms_float<T: Fl, X: VxF<T>>(s: &mut Src) -> R {
    let n = X::N;
    let a: Vec<T> = vec_mags(s, n);
    let x = X::mk(&a);
    let d = ds(&a);
    let big = maxabs(&d);
    // computed with the greatest taken out
    let n2 = if big == 0.0 { 0.0 } else { big * d.iter().map(|q| (q / big).powi(2)).sum::<f64>().sqrt() };
    let t = 16.0 * T::EPS;
    let n1: f64 = d.iter().map(|q| q.abs()).sum();
    close(x.norm2_().d(), n2, t * n2, "norm2")?;
    close(sl::norm2(&a).d(), n2, t * n2, "slice norm2")?;
    close(x.norm_l_().d(), n1, t * n1, "norm_l")?;
    close(sl::norm_l(&a).d(), n1, t * n1, "slice norm_l")?;
    eqv(&[x.norm_inf_().d()], &[big], "norm_inf")?;
    eqv(&[sl::norm_inf(&a).d()], &[big], "slice norm_inf")?;
    let (u, after) = x.normalize_();
    eqv(&after.v(), &a, "the vector after normalize")?;
    match u {
        None => ck!(big == 0.0, "normalize of {:?} is an error", a),
        Some(u) => {
            ck!(big != 0.0, "normalize of the zero vector is not an error: {:?}", u.v());
            let w = ds(&u.v());
            let e: Vec<f64> = d.iter().map(|q| q / n2).collect();
            close_v(&w, &e, t, "normalize")?;
            let mut b = a.clone();
            sl::normalize(&mut b);
            close_v(&ds(&b), &e, t, "slice normalize")?;
        }
    }
    Ok(big > 0.0)
}
fn len(s: &mut Src) -> usize {
    s.ig(1, 300, |r| match r.below(24) {
        0 => 1 + r.below(300) as i64,
        1..=7 => 1 + r.below(40) as i64,
        _ => 1 + r.below(8) as i64,
    }) as usize
}
fn slices_int(s: &mut Src) -> R {
    let n = len(s);
    let m = if s.flag() { 3 } else { 1000 };
    let a = s.ints(n, m);
    let b = s.ints(n, m);
    let ab: Vec<i64> = a.iter().map(|x| x.abs()).collect();
    eqv(&[sl::norm_inf(&a)], &[*ab.iter().max().unwrap()], "norm_inf")?;
    eqv(&[sl::norm_l(&a)], &[ab.iter().sum::<i64>()], "norm_l")?;
    eqv(&[sl::dot(&a, &b)], &[(0..n).map(|k| a[k] * b[k]).sum::<i64>()], "dot")?;
    max_min(&a)?;
    Ok(n > 1 && a.iter().any(|x| *x != a[0]))
}
fn max_min<T: PartialOrd + Copy + std::fmt::Debug>(a: &[T]) -> R<()> {
    let r = sl::find_max_min(a);
    let first = |better: &dyn Fn(T, T) -> bool| (0..a.len()).find(|k| !a.iter().any(|x| better(*x, a[*k]))).unwrap();
    let (i, j) = (first(&|p, q| p > q), first(&|p, q| p < q));
    ck!(r.max.0 == a[i] && r.max.1 == i, "find_max_min of {:?}: the maximum is {:?} at {}, got {:?}", a, a[i], i, r.max);
    ck!(r.min.0 == a[j] && r.min.1 == j, "find_max_min of {:?}: the minimum is {:?} at {}, got {:?}", a, a[j], j, r.min);
    Ok(())
}
fn slices_float<T: Fl>(s: &mut Src) -> R {
    let n = len(s);
    let mut a: Vec<T> = vec_mags(s, n);
    let b: Vec<T> = vec_mags(s, n);
    if n > 1 && s.flag() {
        // a repeated element
        let (i, j) = (s.idx(n), s.idx(n));
        a[i] = a[j];
    }
    max_min(&a)?;
    let (x, y) = (ds(&a), ds(&b));
    let t = 4.0 * n as f64 * T::EPS + 16.0 * T::EPS;
    let big = maxabs(&x);
    let n2 = if big == 0.0 { 0.0 } else { big * x.iter().map(|q| (q / big).powi(2)).sum::<f64>().sqrt() };
    close(sl::norm2(&a).d(), n2, t * n2, "norm2")?;
    let n1: f64 = x.iter().map(|q| q.abs()).sum();
    close(sl::norm_l(&a).d(), n1, t * n1, "norm_l")?;
    eqv(&[sl::norm_inf(&a).d()], &[big], "norm_inf")?;
    if big > 0.0 {
        let e: Vec<f64> = x.iter().map(|q| q / n2).collect();
        let mut u = a.clone();
        sl::normalize(&mut u);
        close_v(&ds(&u), &e, t, "normalize")?;
    }
    let d: f64 = (0..n).map(|k| x[k] * y[k]).sum();
    let da: f64 = (0..n).map(|k| (x[k] * y[k]).abs()).sum();
    close(sl::dot(&a, &b).d(), d, t * da, "dot")?;
    let yy: f64 = y.iter().map(|q| q * q).sum();
    let lim = if T::NAME == "f32" { 1e30 } else { 1e250 };
    let inside = |x: f64| x > 1.0 / lim && x < lim;
    if inside(yy) && (inside(da / yy) || da == 0.0) {
        close(sl::project_x_over_y(&a, &b).d(), d / yy, 4.0 * t * da / yy, "project_x_over_y")?;
    }
    Ok(n > 1 && d != 0.0)
}
fn check_elements<T: Fl>(s: &mut Src) -> R {
    let n = len(s);
    let tol = 10f64.powf(s.uni(-6.0, 0.0));
    let mut a: Vec<T> = vec![];
    let mut any = false;
    for _ in 0..n {
        // clearly under, or clearly above the tolerance (an exact zero is under)
        let x = match s.ig(0, 7, |r| if r.below(n as u64) == 0 { r.below(2) as i64 } else { 2 + r.below(6) as i64 }) {
            4 if s.idx(8) == 0 => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][s.idx(3)],
            0 => 0.0,
            1 => tol * s.uni(-0.9, 0.9),
            2 => tol * s.uni(1.1, 3.0),
            3 => -tol * s.uni(1.1, 3.0),
            _ => {
                let x = s.uni(-100.0, 100.0);
                if x.abs() < 1.1 * tol { 2.0 } else { x }
            }
        };
        any |= x.abs() <= 0.95 * tol;
        a.push(T::c(x));
    }
    let r = sl::check_elements(&a, T::c(tol));
    ck!(r == any, "check_elements of {:?} with tolerance {:e} is {}", a, tol, r);
    Ok(n > 1)
}

/// slices as long as they come, of small integers made from a seed: every sum is exact in any order
fn slices_long<T: Fl>(s: &mut Src) -> R {
    let n = s.ig(1, 70000, |r| {
        let k = 1 + r.below(16);
        ((1i64 << k) + r.below(7) as i64 - 3).clamp(1, 70000)
    }) as usize;
    let make = |seed: i64| -> Vec<i64> {
        let mut x = seed as u64;
        (0..n)
            .map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 33) as i64 % 7 - 3
            })
            .collect()
    };
    let (mut a, b) = (make(s.int(0, 1 << 30)), make(s.int(0, 1 << 30)));
    // the greatest and the least, once or several times
    for _ in 0..s.int(0, 3) {
        let (i, j) = (s.idx(n), s.idx(n));
        a[i] = 50;
        a[j] = -60;
    }
    let pick = |less: fn(i64, i64) -> bool| (0..n).fold(0, |k, i| if less(a[i], a[k]) { i } else { k });
    let (i, j) = (pick(|p, q| p > q), pick(|p, q| p < q));
    let f = |x: &[i64]| -> Vec<T> { x.iter().map(|v| T::c(*v as f64)).collect() };
    let (x, y) = (f(&a), f(&b));
    let r = sl::find_max_min(&a);
    ck!((r.max, r.min) == ((a[i], i), (a[j], j)), "find_max_min of {} elements is {:?}, expected {:?}", n, r, ((a[i], i), (a[j], j)));
    let r = sl::find_max_min(&x);
    ck!((r.max.1, r.min.1) == (i, j) && r.max.0 == x[i] && r.min.0 == x[j], "find_max_min of {} elements is {:?}, expected {:?}", n, r, ((a[i], i), (a[j], j)));
    let d: i64 = (0..n).map(|k| a[k] * b[k]).sum();
    let l: i64 = a.iter().map(|v| v.abs()).sum();
    let q: i64 = a.iter().map(|v| v * v).sum();
    ck!(sl::dot(&a, &b) == d && sl::dot(&x, &y).d() == d as f64, "dot of {} elements", n);
    ck!(sl::norm_l(&a) == l && sl::norm_l(&x).d() == l as f64, "norm_l of {} elements", n);
    ck!(sl::norm_inf(&a) == a[i].max(-a[j]) && sl::norm_inf(&x).d() == a[i].max(-a[j]) as f64, "norm_inf of {} elements", n);
    let n2 = (q as f64).sqrt();
    close(sl::norm2(&x).d(), n2, 4.0 * T::EPS * n2, &format!("norm2 of {} elements", n))?;
    if q > 0 {
        let mut u = x.clone();
        sl::normalize(&mut u);
        for k in 0..n {
            close(u[k].d(), a[k] as f64 / n2, 8.0 * T::EPS, &format!("element {} of {} of normalize", k, n))?;
        }
        close(sl::project_x_over_y(&y, &x).d(), d as f64 / q as f64, 4.0 * T::EPS * (d as f64 / q as f64).abs(), &format!("project_x_over_y of {} elements", n))?;
    }
    // one element decides
    let k = s.idx(n);
    let mut c: Vec<T> = x.iter().map(|v| *v * *v + T::one()).collect();
    ck!(!sl::check_elements(&c, T::c(0.1)), "check_elements of {} elements", n);
    c[k] = T::zero();
    ck!(sl::check_elements(&c, T::c(0.1)), "check_elements of {} elements with a zero at {}", n, k);
    Ok(n > 1)
}

pub fn checks(o: &mut Vec<Check>) {
    types!(o, "C02", slices_long, 60, "slices of 1 to 65540 small integers, near of the powers of two; non-trivial: length > 1", [f32, f64]);
    let rule = "operands of random integer or dyadic components (zeros, repeats, signs); non-trivial: nonzero different operands and a nonzero scalar";
    each!(o, "C01", vec_exact, 30000, rule, [V2, V3, V4, V5, V6], [i32, i64, f32, f64]);
    each!(o, "C01", vec_float, 30000, "floats of mixed magnitudes; non-trivial: nonzero dot product", [V2, V3, V4, V5, V6], [f32, f64]);
    one!(o, "C01", and_bool, "V4<bool>", 2000, "pairs of four booleans; non-trivial: different operands");
    types!(o, "C01", cross_exact, 60000, "integer triples; non-trivial: not parallel", [i32, i64, f32, f64]);
    types!(o, "C01", cross_float, 60000, "floats of mixed magnitudes; non-trivial: not parallel", [f32, f64]);
    one!(o, "C01", left_and_constants, "f32/f64", 20000, "integer components; non-trivial: nonzero scalar and vector");
    each!(o, "C02", norms_int, 30000, "integer vectors; non-trivial: not zero", [V2, V3, V4, V5, V6], [i32, i64]);
    each!(o, "C02", norms_float, 40000, "vectors of one or mixed magnitudes, single components, zeros; non-trivial: not zero", [V2, V3, V4, V5, V6], [f32, f64]);
    one!(o, "C02", slices_int, "i64", 100000, "integer slices of length 1..300 with repeated elements; non-trivial: not constant");
    types!(o, "C02", slices_float, 80000, "float slices of length 1..300, mixed magnitudes, repeated elements; non-trivial: length > 1 and nonzero dot product", [f32, f64]);
    types!(o, "C02", check_elements, 60000, "slices with elements clearly under or over the tolerance; non-trivial: length > 1", [f32, f64]);
}

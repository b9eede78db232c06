//! C18 to C22: transformations and comparison helpers.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::num_t::*;
use crate::p_dq::{dh_, h_};
use crate::p_quat::*;
use crate::{assume, ck, types};
use static_math::matrix6x6::M66;
use static_math::transformations::*;
use static_math::utils::*;
use static_math::{DualQuaternion, M22, M33, M44, V3, V4, V6};
use std::f64::consts::PI;

const X: V = [1.0, 0.0, 0.0];
const Y: V = [0.0, 1.0, 0.0];
const Z: V = [0.0, 0.0, 1.0];

pub fn rm<T: Sc>(m: &M3) -> M3 {
    m.map(|r| r.map(|x| rnd::<T>(x)))
}
fn d44<T: Sc>(m: &M44<T>) -> Vec<f64> {
    m.iter().flatten().map(|x| x.d()).collect()
}
pub fn d6<T: Sc>(v: &V6<T>) -> Vec<f64> {
    (0..6).map(|k| v[k].d()).collect()
}
pub fn v6_<T: Sc>(a: &[f64]) -> V6<T> {
    V6::new([0, 1, 2, 3, 4, 5].map(|k| T::c(a[k])))
}
/// x modulo 2 pi, in [-pi, pi]
fn wrap(x: f64) -> f64 {
    x - (x / (2.0 * PI)).round() * 2.0 * PI
}

// ---------------------------------------------------------------- C18

fn elementary<T: Fl>(s: &mut Src) -> R {
    let a = rnd::<T>(s.angle());
    let (x, y, z) = (rnd::<T>(s.real(4.0)), rnd::<T>(s.real(4.0)), rnd::<T>(s.real(4.0)));
    let (ta, t) = (T::c(a), 8.0 * T::EPS);
    close_m(&dm_(&rotx(ta)), &rot(&X, a), t, "rotx")?;
    close_m(&dm_(&roty(ta)), &rot(&Y, a), t, "roty")?;
    let rz = rot(&Z, a);
    close_m(&dm_(&rotz(ta)), &rz, t, "rotz")?;
    let r2 = rot2(ta);
    close_v(&[r2[(0, 0)].d(), r2[(0, 1)].d(), r2[(1, 0)].d(), r2[(1, 1)].d()], &[rz[0][0], rz[0][1], rz[1][0], rz[1][1]], t, "rot2")?;
    let k = dm_(&ksi(ta, T::c(x), T::c(y)));
    for i in 0..2 {
        for j in 0..2 {
            close(k[i][j], rz[i][j], t, "ksi (rotation)")?;
        }
    }
    eqv(&[k[0][2], k[1][2], k[2][0], k[2][1], k[2][2]], &[x, y, 0.0, 0.0, 1.0], "ksi (position and last row)")?;
    eqv(&flat3(&dm_(&translation_2d(T::c(x), T::c(y)))), &[1.0, 0.0, x, 0.0, 1.0, y, 0.0, 0.0, 1.0], "translation_2d")?;
    let t3 = d44(&translation_3d(T::c(x), T::c(y), T::c(z)));
    eqv(&t3, &[1.0, 0.0, 0.0, x, 0.0, 1.0, 0.0, y, 0.0, 0.0, 1.0, z, 0.0, 0.0, 0.0, 1.0], "translation_3d")?;
    Ok(a != 0.0 && x != y)
}
fn seq(k: usize) -> (Option<EulerSeq>, [V; 3]) {
    match k {
        0 => (Some(EulerSeq::XYX), [X, Y, X]),
        1 => (Some(EulerSeq::XYZ), [X, Y, Z]),
        2 => (Some(EulerSeq::XZX), [X, Z, X]),
        3 => (Some(EulerSeq::XZY), [X, Z, Y]),
        4 => (Some(EulerSeq::YXY), [Y, X, Y]),
        5 => (Some(EulerSeq::YXZ), [Y, X, Z]),
        6 => (Some(EulerSeq::YZX), [Y, Z, X]),
        7 => (Some(EulerSeq::YZY), [Y, Z, Y]),
        8 => (Some(EulerSeq::ZXY), [Z, X, Y]),
        9 => (Some(EulerSeq::ZXZ), [Z, X, Z]),
        _ => (None, [Z, Y, X]),
    }
}
fn euler_sequences<T: Fl>(s: &mut Src) -> R {
    let (sq, ax) = seq(s.idx(11));
    let a = [rnd::<T>(s.angle()), rnd::<T>(s.angle()), rnd::<T>(s.angle())];
    let m = mm(&mm(&rot(&ax[0], a[0]), &rot(&ax[1], a[1])), &rot(&ax[2], a[2]));
    let r = euler_to_rotation(T::c(a[0]), T::c(a[1]), T::c(a[2]), sq);
    close_m(&dm_(&r), &m, 32.0 * T::EPS, &format!("euler_to_rotation{:?} about {:?}", a, ax))?;
    Ok(a.iter().all(|x| x.sin().abs() > 1e-3))
}
fn zyx(a: f64, b: f64, c: f64) -> M3 {
    mm(&mm(&rot(&Z, a), &rot(&Y, b)), &rot(&X, c))
}
/// pitch, with the neighbourhood of the singularity
fn pitch(s: &mut Src) -> f64 {
    s.f(|r| match r.below(6) {
        0 => r.sign() * PI / 2.0,
        1 | 2 => r.sign() * (PI / 2.0 - 10f64.powf(r.range(-16.0, -1.0))),
        3 => 0.0,
        _ => r.range(-PI / 2.0, PI / 2.0),
    })
    .clamp(-PI / 2.0, PI / 2.0)
}
fn rotation_euler_roundtrip<T: Fl>(s: &mut Src) -> R {
    // from angles, or any rotation
    let m = if s.flag() {
        let (a, p, c) = (s.angle(), pitch(s), s.angle());
        zyx(a, p, c)
    } else {
        let (u, th) = s.ro();
        rot(&u, th)
    };
    let m = rm::<T>(&m);
    let (a, b, c) = rotation_to_euler(&m_::<T>(&m));
    let (a, b, c) = (a.d(), b.d(), c.d());
    ck!(b.abs() <= PI / 2.0 + 2.0 * T::EPS, "pitch {} is not in [-pi/2, pi/2]", b);
    ck!(a.abs() <= PI + 4.0 * T::EPS && c.abs() <= PI + 4.0 * T::EPS, "yay {} or roll {} is not in [-pi, pi]", a, c);
    close_m(&zyx(a, b, c), &m, 64.0 * T::EPS, "rotation of the angles of rotation_to_euler")?;
    Ok(b.cos() < 0.1 || a.cos() < 0.0 || c.cos() < 0.0)
}
fn euler_angles_back<T: Fl>(s: &mut Src) -> R {
    let (a, p, c) = (rnd::<T>(s.angle()), rnd::<T>(pitch(s)), rnd::<T>(s.angle()));
    // (the turns of a big angle are taken off in double precision)
    let tol = 64.0 * T::EPS / p.cos().abs() + 4.0 * f64::EPSILON * (a.abs() + c.abs());
    assume!(tol < 0.05);
    let m = zyx(a, p, c);
    let (x, y, z) = rotation_to_euler(&m_::<T>(&m));
    close(wrap(x.d() - a), 0.0, tol, "yay (modulo a turn)")?;
    close(y.d(), p, tol, "pitch")?;
    close(wrap(z.d() - c), 0.0, tol, "roll (modulo a turn)")?;
    let (x, y, z) = rotation_to_euler(&euler_to_rotation(T::c(a), T::c(p), T::c(c), None));
    close(wrap(x.d() - a), 0.0, tol, "yay of the rotation from angles")?;
    close(y.d(), p, tol, "pitch of the rotation from angles")?;
    close(wrap(z.d() - c), 0.0, tol, "roll of the rotation from angles")?;
    Ok(a.cos() < 0.0 || c.cos() < 0.0 || p.cos() < 0.1)
}
fn euler_singular<T: Fl>(s: &mut Src) -> R {
    let (u, up) = (s.angle(), s.flag());
    let (sn, cs) = (rnd::<T>(u.sin()), rnd::<T>(u.cos()));
    // R = rotz(u) * roty(+-pi/2), with exact zeros
    let m = if up { [[0.0, -sn, cs], [0.0, cs, sn], [-1.0, 0.0, 0.0]] } else { [[0.0, -sn, -cs], [0.0, cs, -sn], [1.0, 0.0, 0.0]] };
    let (a, b, c) = rotation_to_euler(&m_::<T>(&m));
    ck!(c == T::zero(), "roll {:?} at the singularity", c);
    close(b.d(), if up { PI / 2.0 } else { -PI / 2.0 }, 2.0 * T::EPS, "pitch at the singularity")?;
    close_m(&zyx(a.d(), b.d(), 0.0), &m, 16.0 * T::EPS, "rotation of the angles at the singularity")?;
    Ok(sn.abs() > 1e-3 && cs.abs() > 1e-3)
}

// ---------------------------------------------------------------- C19

fn arb_m3<T: Sc>(s: &mut Src) -> M3 {
    let v = s.reals(9, 5.0);
    let mut m = [[0.0; 3]; 3];
    for k in 0..9 {
        m[k / 3][k % 3] = rnd::<T>(v[k]);
    }
    m
}
fn homogeneous_parts<T: Fl>(s: &mut Src) -> R {
    let m = arb_m3::<T>(s);
    let t = rv::<T>(&s.tra(6.0));
    let row = [rnd::<T>(s.real(2.0)), rnd::<T>(s.real(2.0)), rnd::<T>(s.real(2.0)), rnd::<T>(s.real(2.0))];
    let h = homogeneous_from_rotation(&m_::<T>(&m), &v_::<T>(&t));
    let (a, b, c) = dh_(&h);
    ck!(a == m && b == t && c == [0.0, 0.0, 0.0, 1.0], "homogeneous_from_rotation({:?}, {:?}) is {:?}", m, t, d44(&h));
    let e = se3_from_parts(&m_::<T>(&m), &v_::<T>(&t));
    let (a, b, c) = dh_(&e);
    ck!(a == m && b == t && c == [0.0; 4], "se3_from_parts({:?}, {:?}) is {:?}", m, t, d44(&e));
    // the parts do not depend on the last row
    let mut g = h_::<T>(&m, &t);
    for j in 0..4 {
        g[(3, j)] = T::c(row[j]);
    }
    for x in [h, e, g] {
        let (r, p) = get_parts_raw(&x);
        ck!(dm_(&r) == m && dv_(p) == t, "get_parts_raw gives {:?}, {:?}, expected {:?}, {:?}", dm_(&r), dv_(p), m, t);
        let (r, p) = se3_get_parts(&x);
        ck!(dm_(&r) == m && dv_(p) == t, "se3_get_parts gives {:?}, {:?}, expected {:?}, {:?}", dm_(&r), dv_(p), m, t);
    }
    Ok(t[0] != t[1] && m[0][1] != m[1][0])
}
fn homogeneous_quaternion<T: Fl>(s: &mut Src) -> R {
    let q = rq::<T>(&s.uq());
    let t = rv::<T>(&s.tra(6.0));
    let m = qrot(&q);
    let h = homogeneous_from_quaternion(&q_::<T>(&q), &v_::<T>(&t));
    let (a, b, c) = dh_(&h);
    close_m(&a, &m, 16.0 * T::EPS, "rotation of homogeneous_from_quaternion")?;
    ck!(b == t && c == [0.0, 0.0, 0.0, 1.0], "homogeneous_from_quaternion({:?}, {:?}) is {:?}", q, t, d44(&h));
    for (x, w) in [(h, "homogeneous_from_quaternion"), (h_::<T>(&m, &t), "rounded")] {
        let (p, u) = get_parts(&x);
        ck!(dv_(u) == t, "translation of get_parts is {:?}, expected {:?}", dv_(u), t);
        close_pm(&dq_(p), &qs(&q, 1.0 / qn(&q)), 64.0 * T::EPS, &format!("quaternion of get_parts ({})", w))?;
    }
    Ok(q[0].abs() < 0.9 && t != [0.0; 3])
}
fn homogeneous_inverses<T: Fl>(s: &mut Src) -> R {
    let (u, th) = s.ro();
    let m = rm::<T>(&rot(&u, th));
    let t = rv::<T>(&s.tra(4.0));
    let p = rv::<T>(&s.tra(4.0));
    let (h, e) = (h_::<T>(&m, &t), T::EPS);
    let sc = nrm(&t);
    let inv = homogeneous_inverse(&h);
    let (a, b, c) = dh_(&inv);
    close_m(&a, &tr(&m), 8.0 * e, "rotation of homogeneous_inverse")?;
    close_v(&b, &mv(&tr(&m), &[-t[0], -t[1], -t[2]]), 16.0 * e * sc, "translation of homogeneous_inverse")?;
    eqv(&c, &[0.0, 0.0, 0.0, 1.0], "last row of homogeneous_inverse")?;
    for (x, w) in [(h * inv, "T * homogeneous_inverse(T)"), (inv * h, "homogeneous_inverse(T) * T")] {
        let (a, b, c) = dh_(&x);
        close_m(&a, &I3, 64.0 * e, w)?;
        close_v(&b, &[0.0; 3], 64.0 * e * sc, w)?;
        close_v(&c, &[0.0, 0.0, 0.0, 1.0], 0.0, w)?;
    }
    let sp = sc + nrm(&p);
    let x = dv_(homogeneous_inverse_transform(&h, &v_::<T>(&p)));
    close_v(&x, &mv(&tr(&m), &sub(&p, &t)), 32.0 * e * sp, "homogeneous_inverse_transform")?;
    close_v(&add(&mv(&m, &x), &t), &p, 64.0 * e * sp, "T maps homogeneous_inverse_transform(T, p) to p")?;
    let img = h * V4::new([T::c(p[0]), T::c(p[1]), T::c(p[2]), T::one()]);
    let back = dv_(homogeneous_inverse_transform(&h, &V3::new([img[0], img[1], img[2]])));
    close_v(&back, &p, 64.0 * e * sp, "homogeneous_inverse_transform(T, T p)")?;
    let r = m_::<T>(&m);
    close_m(&dm_(&rotation_inverse(&r)), &tr(&m), 8.0 * e, "rotation_inverse")?;
    close_m(&dm_(&(r * rotation_inverse(&r))), &I3, 64.0 * e, "R * rotation_inverse(R)")?;
    Ok(th.sin() > 1e-3 && t != [0.0; 3] && p != [0.0; 3])
}

// ---------------------------------------------------------------- C20

/// length of the exponential coordinates: zero, tiny, special, beyond a turn
fn len(s: &mut Src) -> f64 {
    s.f(|r| match r.below(8) {
        0 => 0.0,
        1 | 2 => 10f64.powf(r.range(-12.0, 0.0)),
        3 => (r.below(9) as f64) * PI / 2.0,
        4 => (1 + r.below(4)) as f64 * PI / 1.0 + r.log(-14.0, -1.0),
        5 => r.range(0.0, 30.0),
        _ => r.range(0.0, PI),
    })
    .abs()
}
/// (sum of W^k / k!, sum of W^k / (k+1)!) for W = skew(w)
pub fn exp_so3(w: &V) -> (M3, M3) {
    let th = nrm(w);
    let k = skew(w);
    let k2 = mm(&k, &k);
    // sin(t)/t, (1 - cos t)/t^2, (t - sin t)/t^3
    let h = th / 2.0;
    let (a, b, c);
    if th < 0.5 {
        let x = th * th;
        let series = |k: u32| {
            // 1/k! - x/(k+2)! + x^2/(k+4)! ...
            let (mut s, mut t) = (0.0, 1.0 / (1..=k).map(|i| i as f64).product::<f64>());
            let mut n = k as f64;
            for _ in 0..12 {
                s += t;
                t *= -x / ((n + 1.0) * (n + 2.0));
                n += 2.0;
            }
            s
        };
        a = series(1);
        b = series(2);
        c = series(3);
    } else {
        a = th.sin() / th;
        b = 2.0 * h.sin() * h.sin() / (th * th);
        c = (th - th.sin()) / (th * th * th);
    }
    let comb = |x: f64, y: f64| {
        let mut r = I3;
        for i in 0..3 {
            for j in 0..3 {
                r[i][j] += x * k[i][j] + y * k2[i][j];
            }
        }
        r
    };
    (comb(a, b), comb(b, c))
}
fn exp_rotation<T: Fl>(s: &mut Src) -> R {
    let (u, th) = (s.axis(), len(s));
    let w = rv::<T>(&sc(&u, th));
    let e = T::EPS;
    let m = exp_so3(&w).0;
    close_m(&dm_(&matrix_exponential(&m_::<T>(&skew(&w)))), &m, 16.0 * e * (1.0 + th), "matrix_exponential")?;
    let x = Mx::new(3, flat3(&skew(&w))).expm();
    close_v(&flat3(&dm_(&matrix_exponential(&m_::<T>(&skew(&w))))), &x.a, 64.0 * e * (1.0 + th), "matrix_exponential (series)")?;
    let (ur, tr_) = (rv::<T>(&u), rnd::<T>(s.angle()));
    close_m(&dm_(&rotation_from_axis_angle(&v_::<T>(&ur), T::c(tr_))), &rot(&u, tr_), 32.0 * e, "rotation_from_axis_angle")?;
    let so3 = skew_from_vec(&(v_::<T>(&ur) * T::c(tr_)));
    close_m(&dm_(&matrix_exponential(&so3)), &rot(&u, tr_), 32.0 * e * (1.0 + tr_.abs()), "matrix_exponential(theta [w])")?;
    // one-parameter subgroup
    let (a, b) = (matrix_exponential(&m_::<T>(&skew(&w))), matrix_exponential(&m_::<T>(&skew(&sc(&w, -1.0)))));
    close_m(&dm_(&(a * b)), &I3, 64.0 * e * (1.0 + th), "exp(W) exp(-W)")?;
    Ok(th > 1e-6)
}
fn se3_model(w: &V, v: &V) -> (M3, V) {
    let (r, g) = exp_so3(w);
    (r, mv(&g, v))
}
fn exp_motion<T: Fl>(s: &mut Src) -> R {
    let (u, th) = (s.axis(), len(s));
    let (w, v) = (rv::<T>(&sc(&u, th)), rv::<T>(&s.tra(4.0)));
    let e = T::EPS;
    let mut se3 = h_::<T>(&skew(&w), &v);
    se3[(3, 3)] = T::zero();
    let (m, t) = se3_model(&w, &v);
    let h = matrix_exponential6(&se3);
    let (a, b, c) = dh_(&h);
    close_m(&a, &m, 16.0 * e * (1.0 + th), "rotation of matrix_exponential6")?;
    close_v(&b, &t, 64.0 * e * (1.0 + th) * nrm(&v), "translation of matrix_exponential6")?;
    eqv(&c, &[0.0, 0.0, 0.0, 1.0], "last row of matrix_exponential6")?;
    // the series itself, with a linear part of ordinary size (the translation is linear in it)
    let k = if nrm(&v) > 1.0 { nrm(&v) } else { 1.0 };
    let mut x = Mx::new(4, d44(&se3));
    (0..3).for_each(|i| x.a[4 * i + 3] /= k);
    let mut x = x.expm();
    (0..3).for_each(|i| x.a[4 * i + 3] *= k);
    close_m(&dh_(&h).0, &std::array::from_fn(|i| std::array::from_fn(|j| x.a[4 * i + j])), 256.0 * e * (1.0 + th), "matrix_exponential6 (series, rotation)")?;
    close_v(&dh_(&h).1, &[x.a[3], x.a[7], x.a[11]], 1024.0 * e * (1.0 + th) * nrm(&v), "matrix_exponential6 (series, translation)")?;
    let tw = V6::new([w[0], w[1], w[2], v[0], v[1], v[2]].map(T::c));
    let h2 = matrix_exponential6(&twist_to_se3(&tw));
    eqv(&d44(&h2), &d44(&h), "matrix_exponential6(twist_to_se3)")?;
    Ok(v != [0.0; 3])
}
fn check_skew<T: Fl>(m: &M3, what: &str) -> R<V> {
    for i in 0..3 {
        for j in 0..=i {
            close(m[i][j], -m[j][i], 16.0 * T::EPS, &format!("{} is not skew symmetric", what))?;
        }
    }
    let w = [m[2][1], m[0][2], m[1][0]];
    ck!(nrm(&w) <= PI + 16.0 * T::EPS, "angle {} of {} is over pi", nrm(&w), what);
    Ok(w)
}
fn log_rotation<T: Fl>(s: &mut Src) -> R {
    let (u, th) = s.ro();
    let e = T::EPS;
    let m = rm::<T>(&rot(&u, th));
    let l = matrix_log(&m_::<T>(&m));
    let w = check_skew::<T>(&dm_(&l), "matrix_log")?;
    close_m(&exp_so3(&w).0, &m, 64.0 * e, "exponential of matrix_log")?;
    close_m(&dm_(&matrix_exponential(&l)), &m, 64.0 * e, "matrix_exponential(matrix_log(R))")?;
    let x = sc(&u, th);
    let x = if PI - th < 1000.0 * e && dot(&x, &w) < 0.0 { sc(&x, -1.0) } else { x };
    close_v(&w, &x, 64.0 * e, "vector of matrix_log")?;
    // log(exp(x))
    if th < PI - 1000.0 * e {
        let x = rv::<T>(&x);
        let y = dm_(&matrix_log(&matrix_exponential(&m_::<T>(&skew(&x)))));
        close_m(&y, &skew(&x), 128.0 * e, "matrix_log(matrix_exponential(x))")?;
    }
    Ok(th > 1e-6)
}
fn log_motion<T: Fl>(s: &mut Src) -> R {
    let (u, th) = s.ro();
    let e = T::EPS;
    let t = rv::<T>(&s.tra(4.0));
    let m = rm::<T>(&rot(&u, th));
    let h = h_::<T>(&m, &t);
    let sc_ = nrm(&t);
    let l = matrix_log6(&h);
    let (a, v, c) = dh_(&l);
    let w = check_skew::<T>(&a, "matrix_log6")?;
    eqv(&c, &[0.0; 4], "last row of matrix_log6")?;
    let (r2, t2) = se3_model(&w, &v);
    close_m(&r2, &m, 64.0 * e, "rotation of the exponential of matrix_log6")?;
    close_v(&t2, &t, 128.0 * e * sc_, "translation of the exponential of matrix_log6")?;
    let (a2, b2, _) = dh_(&matrix_exponential6(&l));
    close_m(&a2, &m, 64.0 * e, "matrix_exponential6(matrix_log6(T))")?;
    close_v(&b2, &t, 256.0 * e * sc_, "translation of matrix_exponential6(matrix_log6(T))")?;
    // log(exp(x))
    if th < PI - 1000.0 * e {
        let (x, v) = (rv::<T>(&sc(&u, th)), t);
        let mut se3 = h_::<T>(&skew(&x), &v);
        se3[(3, 3)] = T::zero();
        let (a, b, _) = dh_(&matrix_log6(&matrix_exponential6(&se3)));
        close_m(&a, &skew(&x), 128.0 * e, "matrix_log6(matrix_exponential6(x))")?;
        close_v(&b, &v, 512.0 * e * sc_, "linear part of matrix_log6(matrix_exponential6(x))")?;
    }
    Ok(t != [0.0; 3])
}

// ---------------------------------------------------------------- C21

fn hat_vee<T: Fl>(s: &mut Src) -> R {
    let i = s.ints(9, 50);
    let f: Vec<f64> = i.iter().map(|x| *x as f64).collect();
    // the same power of two for both vectors, so that every value stays exact
    let q = match s.idx(2) {
        0 => 1.0,
        _ => (2.0f64).powi(s.int(-60, 50) as i32),
    };
    let f: Vec<f64> = f.iter().enumerate().map(|(i, x)| if i < 6 { x * q } else { *x }).collect();
    let (v, w, p): (V, V, V) = ([f[0], f[1], f[2]], [f[3], f[4], f[5]], [f[6], f[7], f[8]]);
    let k = skew_from_vec(&v_::<T>(&v));
    eqv(&dv_(k * v_::<T>(&w)), &cross(&v, &w), "skew_from_vec(v) * w")?;
    eqv(&dv_(v_::<T>(&v).cross(v_::<T>(&w))), &cross(&v, &w), "v x w")?;
    ck!(dm_(&k) == skew(&v), "skew_from_vec({:?}) is {:?}", v, dm_(&k));
    eqv(&dv_(skew_to_vec(&k)), &v, "skew_to_vec(skew_from_vec(v))")?;
    eqv(&dv_(skew_to_vec(&m_::<T>(&skew(&w)))), &w, "skew_to_vec")?;
    let m: M22<T> = skew_scalar(T::c(f[0]));
    eqv(&[m[(0, 0)].d(), m[(0, 1)].d(), m[(1, 0)].d(), m[(1, 1)].d()], &[0.0, -f[0], f[0], 0.0], "skew_scalar")?;
    ck!(vex_m22(&m).d() == f[0], "vex_m22(skew_scalar({})) is {:?}", f[0], vex_m22(&m));
    // planar: (x, y, angle)
    let a = skew_from_vec_aug(v_::<T>(&v));
    let img = dv_(a * V3::new([T::c(p[0]), T::c(p[1]), T::one()]));
    eqv(&img, &[v[0] - v[2] * p[1], v[1] + v[2] * p[0], 0.0], "skew_from_vec_aug(v) * (p, 1)")?;
    // spatial, linear part first
    let b = skew_v6(V6::new([v[0], v[1], v[2], w[0], w[1], w[2]].map(T::c)));
    let img = b * V4::new([T::c(p[0]), T::c(p[1]), T::c(p[2]), T::one()]);
    let e = add(&v, &cross(&w, &p));
    eqv(&[img[0].d(), img[1].d(), img[2].d(), img[3].d()], &[e[0], e[1], e[2], 0.0], "skew_v6(v, w) * (p, 1)")?;
    // spatial, angular part first
    let tw = V6::new([w[0], w[1], w[2], v[0], v[1], v[2]].map(T::c));
    let c = twist_to_se3(&tw);
    eqv(&d44(&c), &d44(&b), "twist_to_se3(w, v)")?;
    eqv(&d6(&se3_to_twist(&c)), &d6(&tw), "se3_to_twist(twist_to_se3(V))")?;
    eqv(&d6(&se3_to_twist(&b)), &d6(&tw), "se3_to_twist")?;
    // parts of any size
    let (q1, q2) = ((2.0f64).powi(s.int(-100, 100) as i32), (2.0f64).powi(s.int(-100, 100) as i32));
    let (w, v) = (sc(&w, q1 / q), sc(&v, q2 / q));
    let tw = V6::new([w[0], w[1], w[2], v[0], v[1], v[2]].map(T::c));
    let c = twist_to_se3(&tw);
    let o = skew(&w);
    let want: Vec<f64> = (0..16).map(|k| if k > 11 { 0.0 } else if k % 4 == 3 { v[k / 4] } else { o[k / 4][k % 4] }).collect();
    eqv(&d44(&c), &want, "twist_to_se3(w, v)")?;
    eqv(&d44(&skew_v6(V6::new([v[0], v[1], v[2], w[0], w[1], w[2]].map(T::c)))), &want, "skew_v6(v, w)")?;
    eqv(&d6(&se3_to_twist(&c)), &d6(&tw), "se3_to_twist(twist_to_se3(V))")?;
    ck!(dm_(&skew_from_vec(&v_::<T>(&w))) == o, "skew_from_vec({:?})", w);
    eqv(&dv_(skew_to_vec(&m_::<T>(&o))), &w, "skew_to_vec")?;
    Ok(cross(&v, &w) != [0.0; 3] && p != [0.0; 3])
}
/// one of the 24 rotation matrices of the cube
fn cube(s: &mut Src) -> M3 {
    let (p, sg) = s.perm(3);
    let (a, b) = (if s.flag() { 1.0 } else { -1.0 }, if s.flag() { 1.0 } else { -1.0 });
    let mut m = [[0.0; 3]; 3];
    m[0][p[0]] = a;
    m[1][p[1]] = b;
    m[2][p[2]] = a * b * sg as f64;
    m
}
fn adj_model(r: &M3, t: &V, w: &V, v: &V) -> Vec<f64> {
    let rw = mv(r, w);
    let x = add(&cross(t, &rw), &mv(r, v));
    vec![rw[0], rw[1], rw[2], x[0], x[1], x[2]]
}
fn d66<T: Sc>(m: &M66<T>) -> Vec<f64> {
    m.iter().flatten().map(|x| x.d()).collect()
}
fn adjoint_exact<T: Fl>(s: &mut Src) -> R {
    let (r, r2) = (cube(s), cube(s));
    let i: Vec<f64> = s.ints(12, 20).iter().map(|x| *x as f64).collect();
    let (t, t2, w, v): (V, V, V, V) = ([i[0], i[1], i[2]], [i[3], i[4], i[5]], [i[6], i[7], i[8]], [i[9], i[10], i[11]]);
    let (h, h2) = (h_::<T>(&r, &t), h_::<T>(&r2, &t2));
    let tw = v6_::<T>(&[w[0], w[1], w[2], v[0], v[1], v[2]]);
    eqv(&d6(&(adjoint(&h) * tw)), &adj_model(&r, &t, &w, &v), "adjoint(T) * V")?;
    eqv(&d6(&se3_to_twist(&(h * twist_to_se3(&tw) * homogeneous_inverse(&h)))), &adj_model(&r, &t, &w, &v), "twist of T [V] T^-1")?;
    eqv(&d66(&adjoint(&(h * h2))), &d66(&(adjoint(&h) * adjoint(&h2))), "adjoint(A B)")?;
    eqv(&d66(&(adjoint(&h) * adjoint(&homogeneous_inverse(&h)))), &d66(&M66::<T>::identity()), "adjoint(T) adjoint(T^-1)")?;
    Ok(t != [0.0; 3] && w != [0.0; 3])
}
fn adjoint_float<T: Fl>(s: &mut Src) -> R {
    let (u, th) = s.ro();
    let r = rm::<T>(&rot(&u, th));
    let t = rv::<T>(&s.tra(3.0));
    let (w, v) = (rv::<T>(&s.tra(3.0)), rv::<T>(&s.tra(3.0)));
    let h = h_::<T>(&r, &t);
    let tw = v6_::<T>(&[w[0], w[1], w[2], v[0], v[1], v[2]]);
    let (x, y) = (d6(&(adjoint(&h) * tw)), adj_model(&r, &t, &w, &v));
    let k = 32.0 * T::EPS;
    close_v(&x[..3], &y[..3], k * nrm(&w), "angular part of adjoint(T) * V")?;
    close_v(&x[3..], &y[3..], k * (nrm(&t) * nrm(&w) + nrm(&v)), "linear part of adjoint(T) * V")?;
    // by blocks: [R 0; [t]R R]
    let a = adjoint(&h);
    let pr = mm(&skew(&t), &r);
    for i in 0..3 {
        for j in 0..3 {
            ck!(a[(i, j)].d() == r[i][j] && a[(i + 3, j + 3)].d() == r[i][j] && a[(i, j + 3)].d() == 0.0, "block ({}, {}) of adjoint of {:?} is wrong: {:?}", i, j, d44(&h), d66(&a));
            close(a[(i + 3, j)].d(), pr[i][j], 16.0 * T::EPS * nrm(&t), "lower left block of adjoint")?;
        }
    }
    Ok(t != [0.0; 3] && w != [0.0; 3] && th.sin() > 1e-3)
}
fn screw_axes<T: Fl>(s: &mut Src) -> R {
    let e = T::EPS;
    let (q, u, h) = (rv::<T>(&s.tra(3.0)), rv::<T>(&s.axis()), rnd::<T>(s.real(8.0)));
    let x = d6(&screw_to_axis(&v_::<T>(&q), &v_::<T>(&u), T::c(h)));
    let m = add(&cross(&q, &u), &sc(&u, h));
    eqv(&x[..3], &u, "angular part of screw_to_axis")?;
    close_v(&x[3..], &m, 16.0 * e * (nrm(&q) + h.abs()), "linear part of screw_to_axis")?;
    // axis_angle
    // ... down to the rounding of the type
    let small = if s.idx(3) == 0 { 10f64.powf(s.uni(-14.0, 0.0)) } else { 1.0 };
    let a = rv::<T>(&[s.real(4.0) * small, s.real(4.0) * small, s.real(4.0) * small]);
    let n = nrm(&a);
    if n > 8.0 * e {
        let (l, th) = axis_angle(&v_::<T>(&a));
        close(th.d(), n, 8.0 * e * n, "angle of axis_angle")?;
        close_v(&dv_(l), &sc(&a, 1.0 / n), 8.0 * e, "axis of axis_angle")?;
        close_v(&dv_(l * th), &a, 16.0 * e * n, "axis * angle")?;
    }
    // axis_angle6: with a zero angular part too
    let k = s.idx(4);
    let w = if k == 0 || n <= 8.0 * e { [0.0; 3] } else { a };
    let v = if k == 1 { [0.0; 3] } else { rv::<T>(&[s.real(4.0), s.real(4.0), s.real(4.0)]) };
    let d = if w == [0.0; 3] { nrm(&v) } else { nrm(&w) };
    assume!(d > 8.0 * e);
    let all = [w[0], w[1], w[2], v[0], v[1], v[2]];
    let (l, th) = axis_angle6(&v6_::<T>(&all));
    close(th.d(), d, 8.0 * e * d, "distance of axis_angle6")?;
    let l = d6(&l);
    for j in 0..6 {
        close(l[j], all[j] / d, 16.0 * e * (all[j] / d).abs(), "axis of axis_angle6")?;
        close(l[j] * th.d(), all[j], 32.0 * e * all[j].abs(), "axis * distance of axis_angle6")?;
    }
    Ok(w != [0.0; 3] || v != [0.0; 3])
}

// ---------------------------------------------------------------- C22

fn maxv<T: Fl>() -> f64 {
    T::max_value().d()
}
fn minpos<T: Fl>() -> f64 {
    T::min_positive_value().d()
}
/// any float: zeros, infinities, NaN, subnormal, huge, ordinary
fn any<T: Fl>(s: &mut Src) -> f64 {
    match s.ig(0, 11, |r| r.below(12) as i64) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::NAN,
        5 => maxv::<T>() * s.uni(-1.0, 1.0),
        6 => rnd::<T>(minpos::<T>() * s.uni(-1.0, 1.0)),
        7 => rnd::<T>(minpos::<T>() * s.uni(-64.0, 64.0)),
        8 => maxv::<T>() * if s.flag() { 1.0 } else { -1.0 },
        9 => s.f(|r| r.log(-30.0, 30.0)),
        _ => s.real(6.0),
    }
}
/// what nearly_equal has to answer; None in the neighbourhood of its thresholds
fn near<T: Fl>(a: f64, b: f64, eps: f64) -> Option<bool> {
    if a.is_nan() || b.is_nan() {
        return Some(false);
    }
    if a == b {
        return Some(true);
    }
    if a.is_infinite() || b.is_infinite() {
        return Some(false);
    }
    let decide = |x: f64, y: f64| {
        // x < y, clearly
        if y == 0.0 {
            return Some(false);
        }
        let q = x / y;
        if (q - 1.0).abs() < 1e-3 {
            None
        } else {
            Some(q < 1.0)
        }
    };
    let mp = minpos::<T>();
    // scaled to avoid the overflow of this reference, and the rounding of subnormal numbers
    let k = if a.abs().max(b.abs()) < 1e-100 { (2.0f64).powi(200) } else { 0.25 };
    let (a4, b4) = (a * k, b * k);
    let absolute = decide((a4 - b4).abs(), eps * k);
    let sum = a4.abs() + b4.abs();
    let relative = decide((a4 - b4).abs() / sum, eps);
    if a == 0.0 || b == 0.0 || (a.abs() < mp / 2.0 && b.abs() < mp / 2.0) {
        absolute
    } else if a.abs() > 2.0 * mp || b.abs() > 2.0 * mp {
        if sum > maxv::<T>() / 5.0 {
            // the sum overflows: only when the saturated one gives the same answer
            let sat = decide((a4 - b4).abs() / (maxv::<T>() / 4.0), eps);
            if sat == relative { relative } else { None }
        } else {
            relative
        }
    } else {
        None
    }
}
fn pair<T: Fl>(s: &mut Src) -> (f64, f64, f64) {
    let eps = s.f(|r| match r.below(6) {
        0 => 0.0,
        1 => 1e-6,
        _ => 10f64.powf(r.range(-15.0, -0.05)),
    });
    let eps = rnd::<T>(eps.abs().min(0.9));
    let a = rnd::<T>(any::<T>(s));
    let b = match s.idx(4) {
        0 => any::<T>(s),
        1 => a,
        2 => a * (1.0 + s.f(|r| r.log(-2.0, 2.0)) * eps),
        _ => a + s.f(|r| r.log(-2.0, 2.0)) * eps,
    };
    (a, rnd::<T>(b), eps)
}
fn nearly_equal_definition<T: Fl>(s: &mut Src) -> R {
    let (a, b, eps) = pair::<T>(s);
    let (x, y, e) = (T::c(a), T::c(b), T::c(eps));
    let r = nearly_equal(x, y, e);
    ck!(r == nearly_equal(y, x, e), "nearly_equal({:?}, {:?}, {:?}) is not symmetric", a, b, eps);
    ck!(nearly_equal(x, x, e) == !a.is_nan(), "nearly_equal({:?}, {:?}, {:?})", a, a, eps);
    ck!(r == nearly_equal(-x, -y, e), "nearly_equal({:?}, {:?}, {:?}) depends on the sign", a, b, eps);
    let want = near::<T>(a, b, eps);
    if let Some(w) = want {
        ck!(r == w, "nearly_equal({:?}, {:?}, {:?}) is {}", a, b, eps, r);
    }
    // nearly_zero
    if let Some(w) = near::<T>(a, 0.0, T::EPS) {
        ck!(nearly_zero(x) == w, "nearly_zero({:?}) is {}", a, nearly_zero(x));
    }
    // compare_floats: |a - b| < tol
    ck!(!compare_floats(x, x, T::zero()), "compare_floats({:?}, {:?}, 0)", a, a);
    ck!(compare_floats(x, x, e) == (a.is_finite() && eps > 0.0), "compare_floats({:?}, {:?}, {:?})", a, a, eps);
    if !(a.is_finite() && b.is_finite()) {
        ck!(!compare_floats(x, y, e), "compare_floats({:?}, {:?}, {:?})", a, b, eps);
    }
    if a.is_finite() && b.is_finite() {
        let tol = rnd::<T>(eps * (1.0 + s.uni(0.0, 10.0)));
        let d = (a / 4.0 - b / 4.0).abs() * 4.0;
        if (d - tol).abs() > 4.0 * T::EPS * (d + tol) && d < maxv::<T>() {
            ck!(compare_floats(x, y, T::c(tol)) == (d < tol), "compare_floats({:?}, {:?}, {:?})", a, b, tol);
        }
    }
    Ok(want.is_some() && a != b && !a.is_nan() && !b.is_nan())
}
fn nearly_zero_threshold<T: Fl>(s: &mut Src) -> R {
    let k = s.f(|r| r.log(-3.0, 3.0));
    assume!((k.abs() - 1.0).abs() > 1e-6);
    let a = rnd::<T>(T::EPS * k);
    ck!(nearly_zero(T::c(a)) == (a.abs() < T::EPS), "nearly_zero({:?}) is {}", a, nearly_zero(T::c(a)));
    Ok(true)
}
/// exactly on the threshold (in dyadic numbers, without rounding) the difference is not under it
fn compare_thresholds<T: Fl>(s: &mut Src) -> R {
    let eps = (2.0f64).powi(-(s.int(1, 20) as i32));
    let sum = (2.0f64).powi(s.int(-20, 20) as i32);
    let (a, b) = (sum * (1.0 + eps) / 2.0, sum * (1.0 - eps) / 2.0);
    let (a, b) = match s.idx(4) {
        0 => (a, b),
        1 => (b, a),
        2 => (-a, -b),
        _ => (-b, -a),
    };
    // a little under and over it
    let k = s.int(-1, 1) as f64;
    let e = eps * (1.0 + k / 64.0);
    let (x, y) = (T::c(a), T::c(b));
    ck!(nearly_equal(x, y, T::c(e)) == (k > 0.0), "nearly_equal({:?}, {:?}, {:?})", a, b, e);
    let z = if s.flag() { eps } else { -eps };
    ck!(nearly_equal(T::c(z), T::zero(), T::c(e)) == (k > 0.0), "nearly_equal({:?}, 0, {:?})", z, e);
    ck!(nearly_equal(T::zero(), T::c(z), T::c(e)) == (k > 0.0), "nearly_equal(0, {:?}, {:?})", z, e);
    let d = sum * eps;
    ck!(compare_floats(x, y, T::c(d * (1.0 + k / 64.0))) == (k > 0.0), "compare_floats({:?}, {:?}, {:?})", a, b, d * (1.0 + k / 64.0));
    let m = T::c(T::EPS * (1.0 + k / 64.0));
    ck!(nearly_zero(m) == (k < 0.0) && nearly_zero(-m) == (k < 0.0), "nearly_zero({:?})", m);
    Ok(true)
}
fn compare_vectors<T: Fl>(s: &mut Src) -> R {
    let n = s.ig(0, 300, |r| if r.below(16) == 0 { r.below(301) } else { r.below(37) } as i64) as usize;
    let eps = rnd::<T>(10f64.powf(s.uni(-5.0, -1.0)));
    let a: Vec<f64> = s.reals(n, 4.0).iter().map(|x| rnd::<T>(*x)).collect();
    let mut b = a.clone();
    // none, one or two elements moved, by a little or by a lot
    for _ in 0..s.idx(3) {
        if n > 0 {
            let k = s.idx(n);
            let d = s.f(|r| r.log(-2.0, 2.0)) * eps;
            b[k] = if s.flag() { rnd::<T>(a[k] + d) } else { rnd::<T>(a[k] * (1.0 + d)) };
        }
    }
    let mut want = true;
    for k in 0..n {
        match near::<T>(a[k], b[k], eps) {
            None => return Err(Stop::Discard),
            Some(x) => want &= x,
        }
    }
    let (x, y): (Vec<T>, Vec<T>) = (a.iter().map(|v| T::c(*v)).collect(), b.iter().map(|v| T::c(*v)).collect());
    ck!(compare_vecs(&x, &y, T::c(eps)) == want, "compare_vecs({:?}, {:?}, {:?}) is {}", a, b, eps, !want);
    ck!(compare_vecs(&y, &x, T::c(eps)) == want, "compare_vecs({:?}, {:?}, {:?}) is {}", b, a, eps, !want);
    Ok(n > 1 && a != b)
}
fn compare_duals<T: Fl>(s: &mut Src) -> R {
    let eps = rnd::<T>(10f64.powf(s.uni(-5.0, -1.0)));
    let a: Vec<f64> = s.reals(8, 3.0).iter().map(|x| rnd::<T>(*x)).collect();
    let mut b = a.clone();
    for _ in 0..s.idx(3) {
        let k = s.idx(8);
        let d = s.f(|r| r.log(-2.0, 2.0)) * eps;
        b[k] = if s.flag() { rnd::<T>(a[k] + d) } else { rnd::<T>(a[k] * (1.0 + d)) };
    }
    let mut want = true;
    for k in 0..8 {
        match near::<T>(a[k], b[k], eps) {
            None => return Err(Stop::Discard),
            Some(x) => want &= x,
        }
    }
    let d = |v: &[f64]| DualQuaternion::new(q_::<T>(&[v[0], v[1], v[2], v[3]]), q_::<T>(&[v[4], v[5], v[6], v[7]]));
    ck!(compare_dual_quaternions(d(&a), d(&b), T::c(eps)) == want, "compare_dual_quaternions({:?}, {:?}, {:?}) is {}", a, b, eps, !want);
    Ok(a != b)
}
/// a rotation computed in the element type: a product of elementary ones, or rounded
fn computed_rotation<T: Fl>(s: &mut Src) -> M33<T> {
    match s.idx(3) {
        0 => {
            let (u, th) = s.ro();
            m_::<T>(&rot(&u, th))
        }
        1 => {
            let q = s.uq();
            q_::<T>(&q).normalize().unwrap().to_rotation()
        }
        _ => {
            let mut r = M33::<T>::identity();
            for _ in 0..s.int(0, 4) {
                let a = T::c(s.angle());
                r = r * match s.idx(3) {
                    0 => rotx(a),
                    1 => roty(a),
                    _ => rotz(a),
                };
            }
            r
        }
    }
}
/// a matrix that is clearly not a rotation, from a rotation
fn spoil<T: Fl>(s: &mut Src, r: &M33<T>) -> (M33<T>, &'static str) {
    let mut m = *r;
    let d = s.f(|r| r.log(-2.5, 1.0));
    let d = T::c(if d.abs() < 3e-3 { 3e-3 } else { d });
    match s.idx(6) {
        0 => {
            let (i, j) = (s.idx(3), s.idx(3));
            m[(i, j)] = m[(i, j)] + d;
            (m, "an element moved")
        }
        1 => (m * (T::one() + d.abs()), "scaled"),
        2 => {
            let i = s.idx(3);
            for j in 0..3 {
                m[(i, j)] = -m[(i, j)];
            }
            (m, "a row negated")
        }
        3 => {
            let j = s.idx(3);
            for i in 0..3 {
                let x = m[(i, j)];
                m[(i, j)] = m[(i, (j + 1) % 3)];
                m[(i, (j + 1) % 3)] = x;
            }
            (m, "two columns exchanged")
        }
        4 => {
            let (i, k) = (s.idx(3), s.int(1, 2) as usize);
            for j in 0..3 {
                m[(i, j)] = m[(i, j)] + m[((i + k) % 3, j)] * d;
            }
            (m, "sheared")
        }
        _ => {
            let k = s.idx(3);
            for j in 0..3 {
                m[(k, j)] = m[(k, j)] * (T::one() + d.abs());
            }
            (m, "a row scaled")
        }
    }
}
fn rotation_predicates<T: Fl>(s: &mut Src) -> R {
    let r = computed_rotation::<T>(s);
    let t = rv::<T>(&s.tra(5.0));
    ck!(is_rotation(r), "is_rotation rejects the rotation {:?}", dm_(&r));
    let h = homogeneous_from_rotation(&r, &v_::<T>(&t));
    ck!(is_rotation_h(h), "is_rotation_h rejects the rigid transform {:?}", d44(&h));
    let (m, w) = spoil(s, &r);
    // a move of an element of size 2|R_ij| gives back a reflection or so: all of them are far from rotations
    let bad = {
        let a = dm_(&m);
        let p = mm(&a, &tr(&a));
        let dist = flat3(&p).iter().zip(flat3(&I3)).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
        let det = dot(&a[0], &cross(&a[1], &a[2]));
        dist > 1e-3 || det < -0.5
    };
    assume!(bad);
    ck!(!is_rotation(m), "is_rotation accepts {:?} ({})", dm_(&m), w);
    let hb = homogeneous_from_rotation(&m, &v_::<T>(&t));
    ck!(!is_rotation_h(hb), "is_rotation_h accepts {:?} ({})", d44(&hb), w);
    let mut hl = h;
    let k = s.idx(4);
    let d = s.f(|r| r.log(-2.5, 1.0));
    let d = if d.abs() < 3e-3 { 3e-3 } else { d };
    hl[(3, k)] = hl[(3, k)] + T::c(d);
    // and others of the same size
    for j in 0..4 {
        if j != k && s.idx(3) == 0 {
            hl[(3, j)] = hl[(3, j)] + T::c(if s.flag() { -d } else { d });
        }
    }
    ck!(!is_rotation_h(hl), "is_rotation_h accepts {:?} (last row)", d44(&hl));
    Ok(true)
}
fn manifold_distance<T: Fl>(s: &mut Src) -> R {
    let m = match s.idx(3) {
        0 => dm_(&computed_rotation::<T>(s)),
        1 => {
            let r = computed_rotation::<T>(s);
            dm_(&spoil(s, &r).0)
        }
        _ => {
            let i = s.ints(9, 4);
            let mut a = [[0.0; 3]; 3];
            for k in 0..9 {
                a[k / 3][k % 3] = i[k] as f64;
            }
            a
        }
    };
    // far of the manifold: small or big determinants
    let m = if s.idx(3) == 0 {
        let k = 2f64.powi(s.int(-30, 10) as i32);
        let j = s.idx(4);
        let mut m = m;
        for i in 0..3 {
            if j == 3 || i == j {
                m[i] = sc(&m[i], k);
            }
        }
        m
    } else {
        m
    };
    let det = dot(&m[0], &cross(&m[1], &m[2]));
    let scale = nrm(&m[0]) * nrm(&m[1]) * nrm(&m[2]);
    let d = distance_to_manifold(&m_::<T>(&m)).d();
    let integer = flat3(&m).iter().all(|x| x.fract() == 0.0);
    if det > 64.0 * T::EPS * scale {
        let p = mm(&m, &tr(&m));
        let want = flat3(&p).iter().zip(flat3(&I3)).map(|(x, y)| (x - y).powi(2)).sum::<f64>().sqrt();
        let n2: f64 = flat3(&m).iter().map(|x| x * x).sum();
        close(d, want, 32.0 * T::EPS * (1.0 + n2), "distance_to_manifold")?;
    } else if det < -64.0 * T::EPS * scale || (integer && det == 0.0) {
        ck!(d == f64::INFINITY, "distance_to_manifold of {:?} (determinant {}) is {}", m, det, d);
    } else {
        return Err(Stop::Discard);
    }
    Ok(true)
}

pub fn checks(o: &mut Vec<Check>) {
    types!(o, "C18", elementary, 40000, "angle not zero and different positions", [f32, f64]);
    types!(o, "C18", euler_sequences, 60000, "the three angles turn", [f32, f64]);
    types!(o, "C18", rotation_euler_roundtrip, 60000, "near of the singularity, or an angle over pi/2", [f32, f64]);
    types!(o, "C18", euler_angles_back, 60000, "near of the singularity, or an angle over pi/2", [f32, f64]);
    types!(o, "C18", euler_singular, 20000, "generic yay at the singularity", [f32, f64]);
    types!(o, "C19", homogeneous_parts, 40000, "asymmetric matrix, different coordinates", [f32, f64]);
    types!(o, "C19", homogeneous_quaternion, 60000, "rotation and translation not zero", [f32, f64]);
    types!(o, "C19", homogeneous_inverses, 60000, "rotation, translation and point not zero", [f32, f64]);
    types!(o, "C20", exp_rotation, 30000, "angle over 1e-6", [f32, f64]);
    types!(o, "C20", exp_motion, 30000, "linear part not zero", [f32, f64]);
    types!(o, "C20", log_rotation, 60000, "angle over 1e-6", [f32, f64]);
    types!(o, "C20", log_motion, 60000, "translation not zero", [f32, f64]);
    types!(o, "C21", hat_vee, 60000, "v x w and p not zero", [f32, f64]);
    types!(o, "C21", adjoint_exact, 60000, "translation and angular part not zero", [f32, f64]);
    types!(o, "C21", adjoint_float, 60000, "rotation, translation and angular part not zero", [f32, f64]);
    types!(o, "C21", screw_axes, 60000, "not zero", [f32, f64]);
    types!(o, "C22", nearly_equal_definition, 150000, "decided, not equal, not NaN", [f32, f64]);
    types!(o, "C22", nearly_zero_threshold, 20000, "all", [f32, f64]);
    types!(o, "C22", compare_thresholds, 5000, "dyadic pairs exactly on the threshold, a little under and over; non-trivial: all", [f32, f64]);
    types!(o, "C22", compare_vectors, 60000, "two elements or more, not equal", [f32, f64]);
    types!(o, "C22", compare_duals, 60000, "not equal", [f32, f64]);
    types!(o, "C22", rotation_predicates, 60000, "all", [f32, f64]);
    types!(o, "C22", manifold_distance, 60000, "all", [f32, f64]);
}

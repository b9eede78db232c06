//! C03 to C09: matrices.
use crate::engine::*;
use crate::gen::*;
use crate::mats::*;
use crate::model::*;
use crate::num_t::*;
use crate::{assume, ck, each, one, types};
use num::{One, Zero};
use static_math::{m22_new, m33_new, m44_new, m55_new, m66_new};
use static_math::{M22, M33, M44, M55, M66};

fn nz(a: &[i64]) -> bool {
    a.iter().any(|x| *x != 0)
}

/// integer matrices with structure
pub fn int_mat(s: &mut Src, n: usize, m: i64) -> Vec<i64> {
    let kind = s.ig(0, 19, |r| r.below(20) as i64);
    let mut a = vec![0i64; n * n];
    match kind {
        // permutation with scales
        0 => {
            let (p, _) = s.perm(n);
            for i in 0..n {
                a[i * n + p[i]] = s.small(m);
            }
        }
        // triangular
        1 | 2 => {
            for i in 0..n {
                for j in 0..n {
                    if (kind == 1 && j >= i) || (kind == 2 && j <= i) {
                        a[i * n + j] = s.small(m);
                    }
                }
            }
        }
        // one row (or column) is a combination of two others
        3 | 4 => {
            a = s.ints(n * n, m);
            let (p, _) = s.perm(n);
            let (c1, c2) = (s.int(-1, 1), s.int(-1, 1));
            for k in 0..n {
                if kind == 3 {
                    let x = if n > 2 { c1 * a[p[1] * n + k] + c2 * a[p[2] * n + k] } else { c1 * a[p[1] * n + k] };
                    a[p[0] * n + k] = x;
                } else {
                    let x = if n > 2 { c1 * a[k * n + p[1]] + c2 * a[k * n + p[2]] } else { c1 * a[k * n + p[1]] };
                    a[k * n + p[0]] = x;
                }
            }
            // and possibly not so singular
            if s.idx(3) == 0 {
                let k = s.idx(n * n);
                a[k] += 1;
            }
        }
        // identity plus something
        5 => {
            for i in 0..n {
                a[i * n + i] = 1;
            }
            for _ in 0..s.idx(4) {
                let k = s.idx(n * n);
                a[k] = s.small(m);
            }
        }
        // sparse
        6 => {
            for k in 0..n * n {
                if s.idx(3) == 0 {
                    a[k] = s.small(m);
                }
            }
        }
        // symmetric, antisymmetric, and either with one element changed
        7 | 8 => {
            for i in 0..n {
                for j in 0..=i {
                    let x = s.small(m);
                    a[i * n + j] = x;
                    a[j * n + i] = if kind == 7 { x } else { -x };
                }
            }
            if s.idx(3) == 0 {
                let k = s.idx(n * n);
                a[k] = s.small(m);
            }
        }
        // block diagonal or block triangular
        9 => {
            a = s.ints(n * n, m);
            let (p, z) = (s.int(1, n as i64 - 1) as usize, s.idx(3));
            for i in 0..n {
                for j in 0..n {
                    if (z != 1 && i >= p && j < p) || (z != 2 && i < p && j >= p) {
                        a[i * n + j] = 0;
                    }
                }
            }
        }
        // affine: the last row (or column, or the first ones) is that of the identity
        10 => {
            a = s.ints(n * n, m);
            let (k, col) = (if s.flag() { n - 1 } else { 0 }, s.flag());
            for j in 0..n {
                a[if col { j * n + k } else { k * n + j }] = (j == k) as i64;
            }
        }
        // a signed permutation with a translation: exactly rigid
        11 => {
            let (p, _) = s.perm(n - 1);
            for i in 0..n - 1 {
                a[i * n + p[i]] = if s.flag() { 1 } else { -1 };
                a[i * n + n - 1] = s.small(m);
            }
            a[n * n - 1] = 1;
        }
        // triangular but for one element
        12 => {
            let up = s.flag();
            for i in 0..n {
                for j in 0..n {
                    if (up && j >= i) || (!up && j <= i) {
                        a[i * n + j] = s.small(m);
                    }
                }
            }
            let k = s.idx(n * n);
            a[k] = s.small(m);
        }
        // diagonal, or the same in all the diagonal, and possibly one more element
        13 => {
            let x = s.small(m);
            let same = s.flag();
            for i in 0..n {
                a[i * n + i] = if same { x } else { s.small(m) };
            }
            if s.flag() {
                let k = s.idx(n * n);
                a[k] = s.small(m);
            }
        }
        // elements of different magnitudes
        14 => {
            for x in a.iter_mut() {
                let l = s.int(0, (m as f64).log2() as i64);
                *x = if s.flag() { 1 << l } else { -(1 << l) };
            }
        }
        // dense, with a zero in the diagonal
        15 => {
            a = s.ints(n * n, m);
            for _ in 0..1 + s.idx(2) {
                let k = s.idx(n);
                a[k * n + k] = 0;
            }
        }
        // two equal or opposite rows or columns but for at most one element
        16 => {
            a = s.ints(n * n, m);
            let (p, col, sg) = (s.perm(n).0, s.flag(), if s.flag() { 1 } else { -1 });
            for k in 0..n {
                if col {
                    a[k * n + p[0]] = sg * a[k * n + p[1]];
                } else {
                    a[p[0] * n + k] = sg * a[p[1] * n + k];
                }
            }
            if s.flag() {
                let k = s.idx(n * n);
                a[k] = s.small(m);
            }
        }
        _ => a = s.ints(n * n, m),
    }
    a
}
fn rows_of<T: Copy>(n: usize, a: &[T]) -> Vec<Vec<T>> {
    (0..n).map(|i| a[i * n..(i + 1) * n].to_vec()).collect()
}
fn cols_of<T: Copy>(n: usize, a: &[T]) -> Vec<Vec<T>> {
    (0..n).map(|j| (0..n).map(|i| a[i * n + j]).collect()).collect()
}

// ---------------------------------------------------------------- C03

fn ring_exact<T: Sc, M: Ma<T>>(s: &mut Src) -> R {
    let n = M::N;
    let (a, b, c) = (int_mat(s, n, 30), int_mat(s, n, 30), int_mat(s, n, 9));
    let v = s.ints(n, 30);
    let k = s.small(30);
    let mk = |x: &[i64]| M::mk(&ci::<T>(x));
    let mv = |x: &[i64]| <M::V as Vx<T>>::mk(&ci::<T>(x));
    let (x, y, z, w) = (mk(&a), mk(&b), mk(&c), mv(&v));
    let el = |f: &dyn Fn(i64, i64) -> i64| -> Vec<T> { ci(&(0..n * n).map(|i| f(a[i], b[i])).collect::<Vec<_>>()) };
    eqv(&x.add_(y).v(), &el(&|p, q| p + q), "A + B")?;
    eqv(&x.sub_(y).v(), &el(&|p, q| p - q), "A - B")?;
    let mut t = x;
    t.add_a(y);
    eqv(&t.v(), &el(&|p, q| p + q), "A += B")?;
    let mut t = x;
    t.sub_a(y);
    eqv(&t.v(), &el(&|p, q| p - q), "A -= B")?;
    eqv(&x.neg_().v(), &el(&|p, _| -p), "-A")?;
    eqv(&x.muls(T::c(k as f64)).v(), &el(&|p, _| p * k), "A * s")?;
    if k != 0 {
        let q = T::c(k as f64);
        let e: Vec<T> = ci::<T>(&a).iter().map(|p| *p / q).collect();
        if T::EPS == 0.0 {
            eqv(&x.divs(q).v(), &e, "A / s")?;
        } else {
            let sc: Vec<f64> = e.iter().map(|p| p.d().abs()).collect();
            close_rel(&ds(&x.divs(q).v()), &ds(&e), &sc, 4.0 * T::EPS, "A / s")?;
        }
    }
    let mut p = vec![0; n * n];
    for i in 0..n {
        for j in 0..n {
            p[i * n + j] = (0..n).map(|l| a[i * n + l] * b[l * n + j]).sum();
        }
    }
    eqv(&x.mul_(y).v(), &ci::<T>(&p), "A * B")?;
    let av: Vec<i64> = (0..n).map(|i| (0..n).map(|j| a[i * n + j] * v[j]).sum()).collect();
    let va: Vec<i64> = (0..n).map(|j| (0..n).map(|i| v[i] * a[i * n + j]).sum()).collect();
    eqv(&x.mulv(w).v(), &ci::<T>(&av), "A * v")?;
    eqv(&M::vmul(w, x).v(), &ci::<T>(&va), "v * A")?;
    // laws
    ck!(x.mul_(y).mul_(z) == x.mul_(y.mul_(z)), "(A B) C is not A (B C)");
    ck!(x.mul_(y.add_(z)) == x.mul_(y).add_(x.mul_(z)), "A (B + C) is not A B + A C");
    ck!(y.add_(z).mul_(x) == y.mul_(x).add_(z.mul_(x)), "(B + C) A is not B A + C A");
    ck!(x.mul_(y).mulv(w) == x.mulv(y.mulv(w)), "(A B) v is not A (B v)");
    ck!(M::vmul(w, x.mul_(y)) == M::vmul(M::vmul(w, x), y), "v (A B) is not (v A) B");
    // neutral elements
    let mut e = vec![0; n * n];
    for i in 0..n {
        e[i * n + i] = 1;
    }
    eqv(&M::identity_().v(), &ci::<T>(&e), "identity")?;
    eqv(&<M as One>::one().v(), &ci::<T>(&e), "one")?;
    eqv(&M::zeros_().v(), &ci::<T>(&vec![0; n * n]), "zeros")?;
    eqv(&<M as Zero>::zero().v(), &ci::<T>(&vec![0; n * n]), "zero")?;
    ck!(x.mul_(M::identity_()) == x && M::identity_().mul_(x) == x, "the product with the identity changes A");
    ck!(x.add_(M::zeros_()) == x, "A + 0 is not A");
    ck!(x.is_zero() == !nz(&a), "is_zero of {:?}", a);
    ck!(x.is_one() == (a == e), "is_one of {:?}", a);
    // the neutral elements with one element changed
    let (i, d) = (s.idx(n * n), s.small(3));
    for (base, one) in [(M::identity_(), true), (M::zeros_(), false)] {
        let mut t = base;
        let (r, q) = (i / n, i % n);
        let old = t.v()[i];
        t.set(r, q, old + T::c(d as f64));
        let same = d == 0;
        ck!(t.is_one() == (one && same), "is_one of {:?} is {}", t.v(), t.is_one());
        ck!(t.is_zero() == (!one && same), "is_zero of {:?} is {}", t.v(), t.is_zero());
        ck!((t == base) == same, "== of {:?} and {:?}", t.v(), base.v());
    }
    Ok(nz(&p) && nz(&av) && a != b)
}
/// small integers in f32 need smaller triple products
fn ring_float<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let e = if T::NAME == "f32" { 8.0 } else { 60.0 };
    let (a, b): (Vec<T>, Vec<T>) = (cs(&s.reals(n * n, e)), cs(&s.reals(n * n, e)));
    let v: Vec<T> = cs(&s.reals(n, e));
    let k = T::c(s.real(5.0));
    let (x, y, w) = (M::mk(&a), M::mk(&b), <M::V as Vx<T>>::mk(&v));
    let (da, db, dv) = (ds(&a), ds(&b), ds(&v));
    let abs = |z: &[f64]| z.iter().map(|q| q.abs()).collect::<Vec<_>>();
    let (ma, mb) = (Mx::new(n, da.clone()), Mx::new(n, db.clone()));
    let (pa, pb) = (Mx::new(n, abs(&da)), Mx::new(n, abs(&db)));
    let t = 16.0 * T::EPS;
    let sum = pa.add(&pb).a;
    close_rel(&ds(&x.add_(y).v()), &ma.add(&mb).a, &sum, t, "A + B")?;
    close_rel(&ds(&x.sub_(y).v()), &ma.add(&mb.scale(-1.0)).a, &sum, t, "A - B")?;
    let mut z = x;
    z.sub_a(y);
    close_rel(&ds(&z.v()), &ma.add(&mb.scale(-1.0)).a, &sum, t, "A -= B")?;
    let mut z = x;
    z.add_a(y);
    close_rel(&ds(&z.v()), &ma.add(&mb).a, &sum, t, "A += B")?;
    close_rel(&ds(&x.mul_(y).v()), &ma.mul(&mb).a, &pa.mul(&pb).a, t, "A * B")?;
    close_rel(&ds(&x.mulv(w).v()), &ma.mulv(&dv), &pa.mulv(&abs(&dv)), t, "A * v")?;
    close_rel(&ds(&M::vmul(w, x).v()), &ma.t().mulv(&dv), &pa.t().mulv(&abs(&dv)), t, "v * A")?;
    close_rel(&ds(&x.muls(k).v()), &ma.scale(k.d()).a, &pa.scale(k.d().abs()).a, t, "A * s")?;
    if k.d().abs() > 1e-5 {
        close_rel(&ds(&x.divs(k).v()), &ma.scale(1.0 / k.d()).a, &pa.scale(1.0 / k.d().abs()).a, t, "A / s")?;
    }
    ck!(x.is_zero() == da.iter().all(|q| *q == 0.0), "is_zero of {:?}", da);
    // nearly neutral
    let (i, d) = (s.idx(n * n), T::c(s.real(e)));
    let mut z = M::zeros_();
    z.set(i / n, i % n, d);
    ck!(z.is_zero() == (d == T::zero()), "is_zero of {:?} is {}", z.v(), z.is_zero());
    let mut z = M::identity_();
    let u = if i / n == i % n { T::one() + d } else { d };
    let same = u == M::identity_().v()[i];
    z.set(i / n, i % n, u);
    ck!(z.is_one() == same, "is_one of {:?} is {}", z.v(), z.is_one());
    Ok(da.iter().any(|q| *q != 0.0) && db.iter().any(|q| *q != 0.0))
}
fn left_scalar(s: &mut Src) -> R {
    let a = s.ints(9, 1000);
    let k = s.small(50);
    let e: Vec<i64> = a.iter().map(|x| x * k).collect();
    eqv(&(k as f32 * <M22<f32> as Ma<f32>>::mk(&ci(&a[..4]))).as_vec(), &ci::<f32>(&e[..4]), "s * M22")?;
    eqv(&(k as f32 * <M33<f32> as Ma<f32>>::mk(&ci(&a))).as_vec(), &ci::<f32>(&e), "s * M33<f32>")?;
    eqv(&(k as f64 * <M33<f64> as Ma<f64>>::mk(&ci(&a))).as_vec(), &ci::<f64>(&e), "s * M33<f64>")?;
    ck!(static_math::matrix2x2::M22_ZEROS.as_vec() == [0.0; 4], "M22_ZEROS");
    Ok(k != 0 && nz(&a))
}

// ---------------------------------------------------------------- C04

fn parts<T: Sc, M: Ma<T>>(s: &mut Src) -> R {
    let n = M::N;
    let int = s.flag();
    let a: Vec<T> = if int || T::EPS == 0.0 { ci(&s.ints(n * n, 1000)) } else { cs(&s.reals(n * n, 8.0)) };
    let x = M::mk(&a);
    eqv(&x.v(), &a, "m[(i, j)] after new")?;
    eqv(&x.v_rows(), &a, "m[i][j] after new")?;
    eqv(&x.v_deref(), &a, "iteration after new")?;
    eqv(&M::mk_from(&a).v(), &a, "from arrays")?;
    eqv(&x.as_vec_(), &a, "as_vec")?;
    eqv(&x.get_rows_(), &rows_of(n, &a), "get_rows")?;
    eqv(&x.get_cols_(), &cols_of(n, &a), "get_cols")?;
    eqv(&M::from_cols(&cols_of(n, &a)).v(), &a, "new_from_vecs")?;
    eqv(&x.get_diagonal_(), &(0..n).map(|i| a[i * n + i]).collect::<Vec<_>>(), "get_diagonal")?;
    let tri = |up: bool| -> Vec<T> {
        let mut r = vec![];
        for i in 0..n {
            for j in 0..n {
                if (up && i < j) || (!up && i > j) {
                    r.push(a[i * n + j]);
                }
            }
        }
        r
    };
    if let Some(u) = x.upper() {
        eqv(&u, &tri(true), "upper triangular")?;
    }
    if let Some(l) = x.lower() {
        eqv(&l, &tri(false), "lower triangular")?;
    }
    ck!(x.rows_() == n && x.cols_() == n, "rows and cols: {} {}", x.rows_(), x.cols_());
    // writes
    let (i, j) = (s.idx(n), s.idx(n));
    let c = T::c(s.small(2000) as f64);
    let mut e = a.clone();
    e[i * n + j] = c;
    let mut y = x;
    y.set(i, j, c);
    eqv(&y.v(), &e, &format!("after writing m[({}, {})]", i, j))?;
    eqv(&y.v_deref(), &e, &format!("after writing m[({}, {})]", i, j))?;
    let mut y = x;
    y.set_row(i, j, c);
    eqv(&y.v(), &e, &format!("after writing m[{}][{}]", i, j))?;
    let mut y = x;
    y.set_deref(i, j, c);
    eqv(&y.v(), &e, &format!("after writing (*m)[{}][{}]", i, j))?;
    eqv(&x.v(), &a, "the copied matrix")?;
    ck!((x == y) == (a == e), "== of {:?} and {:?}", a, e);
    let f = |q: T| q * (c + T::one()) - T::one();
    eqv(&x.for_each_(&f).v(), &a.iter().map(|q| f(*q)).collect::<Vec<_>>(), "for_each")?;
    eqv(&x.v(), &a, "the matrix after for_each")?;
    Ok((0..n).any(|i| (0..n).any(|j| i != j && a[i * n + j] != a[j * n + i])))
}
fn transpose_trace<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let e = if T::NAME == "f32" { 15.0 } else { 140.0 };
    let a: Vec<T> = if s.flag() { ci(&int_mat(s, n, 1000)) } else { cs(&s.reals(n * n, e)) };
    let x = M::mk(&a);
    let d = ds(&a);
    eqv(&x.transpose_().v(), &cols_of(n, &a).concat(), "transpose")?;
    eqv(&x.transpose_().transpose_().v(), &a, "transpose twice")?;
    let tr: f64 = (0..n).map(|i| d[i * n + i]).sum();
    let ta: f64 = (0..n).map(|i| d[i * n + i].abs()).sum();
    close(x.trace_().d(), tr, 16.0 * T::EPS * ta, "trace")?;
    let big = maxabs(&d);
    let f = if big == 0.0 { 0.0 } else { big * d.iter().map(|q| (q / big).powi(2)).sum::<f64>().sqrt() };
    close(x.norm2_().d(), f, 64.0 * T::EPS * f, "norm2")?;
    ck!(x.shape_() == (n, n, n, n), "shape, rows and cols: {:?}", x.shape_());
    Ok((0..n).any(|i| (0..n).any(|j| i != j && a[i * n + j] != a[j * n + i])))
}
fn submatrix<T: Fl>(s: &mut Src) -> R {
    let a: Vec<T> = cs(&s.reals(16, 8.0));
    let (r, c) = (s.idx(4), s.idx(4));
    let m = <M44<T> as Ma<T>>::mk(&a);
    let mut e = vec![];
    for i in 0..4 {
        for j in 0..4 {
            if i != r && j != c {
                e.push(a[i * 4 + j]);
            }
        }
    }
    eqv(&Ma::v(&m.get_submatrix((r, c))), &e, &format!("get_submatrix(({}, {}))", r, c))?;
    Ok(true)
}
fn copy_elements<T: Fl>(s: &mut Src) -> R {
    let a: Vec<T> = cs(&s.reals(36, 8.0));
    let b: Vec<T> = cs(&s.reals(9, 8.0));
    let mut m = <M66<T> as Ma<T>>::mk(&a);
    let q = s.int(1, 4) as usize;
    m.copy_elements_from(&<M33<T> as Ma<T>>::mk(&b), q);
    let (r0, c0) = [(0, 0), (0, 3), (3, 0), (3, 3)][q - 1];
    let mut e = a.clone();
    for i in 0..3 {
        for j in 0..3 {
            e[(r0 + i) * 6 + c0 + j] = b[i * 3 + j];
        }
    }
    eqv(&Ma::v(&m), &e, &format!("copy_elements_from in the quadrant {}", q))?;
    Ok(true)
}
fn macros(s: &mut Src) -> R {
    let a = s.ints(36, 1000);
    let m = m22_new!(a[0], a[1]; a[2], a[3]);
    eqv(&Ma::v(&m), &a[..4], "m22_new!")?;
    eqv(&Ma::v(&M22::new_from(a[0], a[1], a[2], a[3])), &a[..4], "M22::new_from")?;
    let m = m33_new!(a[0], a[1], a[2]; a[3], a[4], a[5]; a[6], a[7], a[8]);
    eqv(&Ma::v(&m), &a[..9], "m33_new!")?;
    let m = m44_new!(a[0], a[1], a[2], a[3]; a[4], a[5], a[6], a[7]; a[8], a[9], a[10], a[11]; a[12], a[13], a[14], a[15]);
    eqv(&Ma::v(&m), &a[..16], "m44_new!")?;
    let m = m55_new!(a[0], a[1], a[2], a[3], a[4]; a[5], a[6], a[7], a[8], a[9]; a[10], a[11], a[12], a[13], a[14];
                     a[15], a[16], a[17], a[18], a[19]; a[20], a[21], a[22], a[23], a[24]);
    eqv(&Ma::v(&m), &a[..25], "m55_new!")?;
    let m = m66_new!(a[0], a[1], a[2], a[3], a[4], a[5]; a[6], a[7], a[8], a[9], a[10], a[11]; a[12], a[13], a[14], a[15], a[16], a[17];
                     a[18], a[19], a[20], a[21], a[22], a[23]; a[24], a[25], a[26], a[27], a[28], a[29]; a[30], a[31], a[32], a[33], a[34], a[35]);
    eqv(&Ma::v(&m), &a[..36], "m66_new!")?;
    Ok(nz(&a))
}

// ---------------------------------------------------------------- C05

fn det_small<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    // every partial product is exactly representable
    let m = match (T::NAME, n) {
        ("f32", 6) => 3,
        ("f32", 5) => 6,
        ("f32", _) => 20,
        (_, 6) => 100,
        _ => 500,
    };
    let a = int_mat_bounded(s, n, m);
    let k = 2f64.powi(s.int(-3, 3) as i32);
    let x = M::mk(&cs::<T>(&a.iter().map(|q| *q as f64 * k).collect::<Vec<_>>()));
    let e = det_i(n, &a) as f64 * k.powi(n as i32);
    ck!(x.det_().d() == e, "det is {:?}, expected {:?}", x.det_(), e);
    ck!(x.transpose_().det_().d() == e, "det of the transpose is {:?}, expected {:?}", x.transpose_().det_(), e);
    // exchange of two rows, of two columns, a row scaled
    let (p, sg) = s.perm(n);
    let pr: Vec<f64> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| a[p[i] * n + j] as f64 * k).collect();
    ck!(M::mk(&cs::<T>(&pr)).det_().d() == e * sg as f64, "det with the rows permuted by {:?}: {:?}, expected {:?}", p, M::mk(&cs::<T>(&pr)).det_(), e * sg as f64);
    let pc: Vec<f64> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| a[i * n + p[j]] as f64 * k).collect();
    ck!(M::mk(&cs::<T>(&pc)).det_().d() == e * sg as f64, "det with the columns permuted by {:?}", p);
    let r = s.idx(n);
    let mut z = x;
    for j in 0..n {
        z.set(r, j, T::c(a[r * n + j] as f64 * k * 0.5));
    }
    ck!(z.det_().d() == e * 0.5, "det with the row {} halved: {:?}, expected {:?}", r, z.det_(), e * 0.5);
    ck!(M::identity_().det_() == T::one(), "det of the identity");
    Ok(e != 0.0)
}
/// as int_mat, with all the elements within the bound
fn int_mat_bounded(s: &mut Src, n: usize, m: i64) -> Vec<i64> {
    int_mat(s, n, m).into_iter().map(|x| x.clamp(-m, m)).collect()
}
/// powers of two by rows and by columns
struct Scales {
    r: Vec<f64>,
    c: Vec<f64>,
}
impl Scales {
    fn product(&self) -> f64 {
        self.r.iter().chain(&self.c).product()
    }
    fn apply<T: Sc>(&self, a: &[i64]) -> Vec<T> {
        let n = self.r.len();
        (0..n * n).map(|i| T::c(a[i] as f64 * self.r[i / n] * self.c[i % n])).collect()
    }
}
/// matrices of big integers times powers of two by rows and columns: the exact determinant is known
fn big_mat<T: Fl>(s: &mut Src, n: usize) -> (Vec<i64>, Scales, Vec<T>) {
    let m = [9, 100, 4000, 60000][s.idx(4)];
    let a = int_mat_bounded(s, n, m);
    let mixed = s.idx(6);
    let g = s.int(-12, 2) as i32;
    let top = if T::NAME == "f32" { 0 } else { 8 };
    let r = (0..n).map(|_| 2f64.powi(if mixed == 0 || mixed == 2 { s.int(-12, 2) as i32 } else { g })).collect();
    let c = (0..n).map(|_| 2f64.powi(if mixed == 1 || mixed == 2 { s.int(-8, top) as i32 } else { 0 })).collect();
    let k = Scales { r, c };
    let x = k.apply(&a);
    (a, k, x)
}
fn det_float<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let (a, k, x) = big_mat::<T>(s, n);
    let kk: f64 = k.product();
    let e = det_i(n, &a) as f64 * kk;
    let tol = 16.0 * n as f64 * T::EPS * perm_abs(n, &ds(&x));
    close(M::mk(&x).det_().d(), e, tol, "det")?;
    close(M::mk(&x).transpose_().det_().d(), e, tol, "det of the transpose")?;
    // multiplicative
    let b = int_mat_bounded(s, n, 9);
    let y = M::mk(&ci::<T>(&b));
    let p = M::mk(&x).mul_(y);
    let eb = det_i(n, &b) as f64;
    let pa = Mx::new(n, ds::<T>(&x).iter().map(|q| q.abs()).collect()).mul(&Mx::new(n, b.iter().map(|q| q.abs() as f64).collect()));
    if T::NAME == "f32" && perm_abs(n, &pa.a) > 1e35 {
        return Ok(e != 0.0);
    }
    close(p.det_().d(), e * eb, 32.0 * n as f64 * T::EPS * perm_abs(n, &pa.a), "det of the product")?;
    Ok(e != 0.0)
}

// ---------------------------------------------------------------- C06

struct Exact {
    /// the exact determinant of the matrix given to the library
    det: f64,
    inv: Option<Vec<f64>>,
    /// the bound of each cofactor's rounding, in units of epsilon
    minor_abs: Vec<f64>,
    perm: f64,
}
fn exact(n: usize, a: &[i64], k: &Scales, x: &[f64]) -> Exact {
    let di = det_i(n, a);
    let det = di as f64 * k.product();
    let mut inv = vec![0.0; n * n];
    let mut minor_abs = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            // inverse[j][i] = cofactor(i, j) / det
            let c = det_i(n - 1, &minor_i(n, a, i, j)) as f64 * if (i + j) % 2 == 0 { 1.0 } else { -1.0 };
            inv[j * n + i] = c / di as f64 / k.r[i] / k.c[j];
            let m: Vec<f64> = (0..n * n).filter(|q| q / n != i && q % n != j).map(|q| x[q]).collect();
            minor_abs[j * n + i] = perm_abs(n - 1, &m);
        }
    }
    Exact { det, inv: if di == 0 { None } else { Some(inv) }, minor_abs, perm: perm_abs(n, x) }
}
/// nearly_zero: |det| < eps. Far from the threshold (by the rounding of det) the answer is defined.
fn expect_some<T: Fl>(e: &Exact, n: usize) -> Option<bool> {
    let noise = 16.0 * n as f64 * T::EPS * e.perm;
    if e.det.abs() > 1.01 * T::EPS + noise {
        Some(true)
    } else if e.det.abs() + noise < 0.99 * T::EPS {
        Some(false)
    } else {
        None
    }
}
fn inverse<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let (a, k, x) = near_eps::<T>(s, n);
    let d = ds(&x);
    let e = exact(n, &a, &k, &d);
    let m = M::mk(&x);
    let some = expect_some::<T>(&e, n);
    let noise = 16.0 * n as f64 * T::EPS * e.perm;
    let r = m.inverse_();
    match (some, &r) {
        (Some(true), None) => return fail(format!("inverse is None with determinant {:e} (epsilon {:e})", e.det, T::EPS)),
        (Some(false), Some(b)) => return fail(format!("inverse is {:?} with determinant {:e} (epsilon {:e})", b.v(), e.det, T::EPS)),
        _ => {}
    }
    // a zero determinant without rounding
    if maxabs(&d) == 0.0 || (0..n).any(|i| (0..n).all(|j| d[i * n + j] == 0.0)) {
        ck!(r.is_none(), "inverse of a matrix with a zero row is {:?}", r.unwrap().v());
    }
    let b = match r {
        Some(b) if e.inv.is_some() => b,
        _ => return Ok(false),
    };
    // the relative error of the determinant is bounded
    if noise * 4.0 > e.det.abs() {
        return Ok(false);
    }
    let inv = e.inv.unwrap();
    let bv = ds(&b.v());
    for q in 0..n * n {
        let tol = 4.0 * (16.0 * n as f64 * T::EPS * e.minor_abs[q] + inv[q].abs() * (noise + 8.0 * T::EPS * e.det.abs())) / e.det.abs();
        close(bv[q], inv[q], tol, &format!("inverse element ({}, {})", q / n, q % n))?;
    }
    // two-sided
    let (ma, mb) = (Mx::new(n, d.clone()), Mx::new(n, bv.clone()));
    let err = Mx::new(n, (0..n * n).map(|q| 4.0 * (16.0 * n as f64 * T::EPS * e.minor_abs[q] + inv[q].abs() * (noise + 8.0 * T::EPS * e.det.abs())) / e.det.abs()).collect());
    let abs = |m: &Mx| Mx::new(n, m.a.iter().map(|q| q.abs()).collect());
    let (l, r) = (M::mk(&x).mul_(b), b.mul_(M::mk(&x)));
    let id = Mx::id(n);
    let bl = abs(&ma).mul(&err).add(&abs(&ma).mul(&abs(&mb)).scale(16.0 * T::EPS));
    let br = err.mul(&abs(&ma)).add(&abs(&mb).mul(&abs(&ma)).scale(16.0 * T::EPS));
    close_rel(&ds(&l.v()), &id.a, &bl.a, 1.0, "A * inverse(A)")?;
    close_rel(&ds(&r.v()), &id.a, &br.a, 1.0, "inverse(A) * A")?;
    Ok(true)
}
/// big_mat, sometimes scaled to bring the determinant around the machine epsilon
fn near_eps<T: Fl>(s: &mut Src, n: usize) -> (Vec<i64>, Scales, Vec<T>) {
    let (a, mut k, mut x) = big_mat::<T>(s, n);
    if s.idx(3) == 0 {
        let det = (det_i(n, &a) as f64 * k.product()).abs();
        if det > 0.0 {
            // det * 2^(n g + h) near to eps * 2^t
            let t = s.int(-20, 24) as f64;
            let want = (T::EPS.log2() + t - det.log2()).round() as i32;
            let lim = if T::NAME == "f32" { 90 } else { 600 };
            let want = want.clamp(-lim, lim);
            let g = want.div_euclid(n as i32);
            let h = want.rem_euclid(n as i32) as usize;
            for i in 0..n {
                k.r[i] *= 2f64.powi(g + (i < h) as i32);
            }
            x = k.apply(&a);
        }
    }
    (a, k, x)
}
/// an orthogonal matrix (the product of some reflections), of either determinant
fn orth(s: &mut Src, n: usize) -> Mx {
    let mut q = Mx::id(n);
    for _ in 0..s.idx(4) {
        let mut v: Vec<f64> = (0..n).map(|_| s.uni(-1.0, 1.0)).collect();
        if v.iter().all(|x| x.abs() < 0.1) {
            v[0] = 1.0;
        }
        let m: f64 = v.iter().map(|x| x * x).sum();
        let mut h = Mx::id(n);
        for i in 0..n {
            for j in 0..n {
                h.set(i, j, h.at(i, j) - 2.0 * v[i] * v[j] / m);
            }
        }
        q = q.mul(&h);
    }
    q
}
/// matrices of a moderate condition number: permuted dominant diagonals, orthogonal and nearly so,
/// with rows of norm one, nearly the identity, affine, with a common scale, symmetric
fn good_mat(s: &mut Src, n: usize) -> Vec<f64> {
    let kind = s.ig(0, 9, |r| r.below(10) as i64);
    let (p, _) = s.perm(n);
    let dominant = |s: &mut Src| {
        let mut a: Vec<f64> = (0..n * n).map(|_| s.uni(-0.5, 0.5) / n as f64).collect();
        for i in 0..n {
            a[i * n + p[i]] += if s.flag() { 1.0 } else { -1.0 };
        }
        a
    };
    let mut a = match kind {
        0 => orth(s, n).a,
        1 => {
            let k = s.uni(0.5, 2.0);
            orth(s, n).scale(k).a
        }
        // near to the identity, or to an orthogonal matrix
        2 | 3 => {
            let mut q = if kind == 2 { Mx::id(n) } else { orth(s, n) };
            let d = s.f(|r| 10f64.powf(r.range(-9.0, -1.0)));
            for _ in 0..1 + s.idx(n * n) {
                let k = s.idx(n * n);
                q.a[k] += d * s.uni(-1.0, 1.0);
            }
            q.a
        }
        // rows (or columns) of norm one
        4 => {
            let mut a = dominant(s);
            let col = s.flag();
            let at = |i: usize, j: usize| if col { j * n + i } else { i * n + j };
            for i in 0..n {
                let m = (0..n).map(|j| a[at(i, j)].powi(2)).sum::<f64>().sqrt();
                (0..n).for_each(|j| a[at(i, j)] /= m);
            }
            a
        }
        // of the given singular values
        5 => {
            let mut d = Mx::zero(n);
            for i in 0..n {
                d.set(i, i, s.uni(0.5, 1.5));
            }
            orth(s, n).mul(&d).mul(&orth(s, n)).a
        }
        // symmetric
        6 => {
            let mut a = Mx::id(n).a;
            for i in 0..n {
                for j in 0..i {
                    a[i * n + j] = s.uni(-0.7, 0.7) / n as f64;
                    a[j * n + i] = a[i * n + j];
                }
            }
            a
        }
        _ => dominant(s),
    };
    // affine, the upper left block is as good as before for these kinds
    if s.idx(4) == 0 && matches!(kind, 2 | 6) {
        for j in 0..n {
            a[(n - 1) * n + j] = (j == n - 1) as i64 as f64;
            if j < n - 1 && s.flag() {
                a[j * n + n - 1] = s.uni(-1.0, 1.0);
            }
        }
    }
    a
}
/// a matrix with a rotation (or something near to it) and a translation
fn rigid_like(s: &mut Src) -> Vec<f64> {
    let (u, th) = s.ro();
    let t = s.tra(0.5);
    let r = rot(&u, th);
    let mut a = vec![0.0; 16];
    for i in 0..3 {
        (0..3).for_each(|j| a[i * 4 + j] = r[i][j]);
        a[i * 4 + 3] = t[i];
    }
    a[15] = 1.0;
    match s.idx(5) {
        // nearly rigid
        0 => {
            let d = s.f(|r| 10f64.powf(r.range(-9.0, -1.0)));
            let k = s.idx(16);
            a[k] += d;
        }
        // scaled
        1 => {
            let k = s.near_one();
            for i in 0..3 {
                (0..3).for_each(|j| a[i * 4 + j] *= k);
            }
        }
        // sheared, with rows of norm one
        2 => {
            let k = s.uni(-0.6, 0.6);
            let c: Vec<f64> = (0..3).map(|j| a[j] + k * a[4 + j]).collect();
            let m = c.iter().map(|x| x * x).sum::<f64>().sqrt();
            (0..3).for_each(|j| a[j] = c[j] / m);
        }
        _ => {}
    }
    a
}
/// the inverse of homogeneous matrices, rigid or nearly so
fn inverse_rigid<T: Fl>(s: &mut Src) -> R {
    let x: Vec<T> = cs(&rigid_like(s));
    let d = ds(&x);
    let m = <M44<T> as Ma<T>>::mk(&x);
    let b = match m.inverse_() {
        None => return fail(format!("inverse of {:?} is None", d)),
        Some(b) => ds(&Ma::v(&b)),
    };
    let e = match Mx::new(4, d.clone()).inv_det().0 {
        None => return Err(Stop::Discard),
        Some(e) => e,
    };
    let t = 512.0 * T::EPS * (1.0 + maxabs(&d)) * (1.0 + maxabs(&d));
    close_v(&b, &e.a, t * (1.0 + maxabs(&e.a)), "inverse")?;
    Ok(d[3] != 0.0 || d[7] != 0.0 || d[11] != 0.0)
}
fn inverse_laws<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let (x, y): (Vec<T>, Vec<T>) = (cs(&good_mat(s, n)), cs(&good_mat(s, n)));
    let (a, b) = (M::mk(&x), M::mk(&y));
    let v: Vec<T> = cs(&(0..n).map(|_| s.uni(-10.0, 10.0)).collect::<Vec<_>>());
    let t = 2e3 * T::EPS;
    let inv = |m: M, w: &str| m.inverse_().map_or_else(|| fail(format!("inverse of {} is None", w)), Ok);
    let (ia, ib) = (inv(a, "A")?, inv(b, "B")?);
    close_v(&ds(&inv(ia, "inverse(A)")?.v()), &ds(&x), t, "the inverse of the inverse")?;
    close_v(&ds(&inv(a.mul_(b), "A B")?.v()), &ds(&ib.mul_(ia).v()), 4.0 * t, "inverse(A B) and inverse(B) inverse(A)")?;
    close_v(&ds(&inv(a.transpose_(), "the transpose")?.v()), &ds(&ia.transpose_().v()), t, "inverse of the transpose")?;
    let sol = ia.mulv(<M::V as Vx<T>>::mk(&v));
    close_v(&ds(&a.mulv(sol).v()), &ds(&v), 10.0 * t, "A * (inverse(A) * b)")?;
    let id = M::identity_().inverse_();
    ck!(id == Some(M::identity_()), "the inverse of the identity is {:?}", id);
    Ok(true)
}

// ---------------------------------------------------------------- C07

fn cond(n: usize, inv: &[f64], d: &[f64]) -> f64 {
    Mx::new(n, inv.to_vec()).norm() * Mx::new(n, d.to_vec()).norm()
}
/// floats of a moderate condition number
fn qr_good<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let x: Vec<T> = cs(&good_mat(s, n));
    let d = ds(&x);
    let (q, u) = match M::mk(&x).qr_() {
        None => return fail(format!("qr of {:?} is None", d)),
        Some(r) => r,
    };
    let (q, u) = (Mx::new(n, ds(&q.v())), Mx::new(n, ds(&u.v())));
    let t = 2e3 * T::EPS;
    close_v(&q.t().mul(&q).a, &Mx::id(n).a, 8.0 * t, "Q^T Q")?;
    close_v(&q.mul(&u).a, &d, t, "Q R")?;
    for i in 0..n {
        ck!(u.at(i, i) > 0.0, "R[({0}, {0})] = {1:?} is not positive", i, u.at(i, i));
        for j in 0..i {
            close(u.at(i, j), 0.0, t, &format!("R[({}, {})]", i, j))?;
        }
    }
    Ok((0..n).any(|i| (0..i).any(|j| d[i * n + j] != 0.0)))
}
fn qr<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let (a, k, x) = near_eps::<T>(s, n);
    let d = ds(&x);
    let e = exact(n, &a, &k, &d);
    let m = M::mk(&x);
    let r = m.qr_();
    match (expect_some::<T>(&e, n), &r) {
        (Some(true), None) => return fail(format!("qr is None with determinant {:e} (epsilon {:e})", e.det, T::EPS)),
        (Some(false), Some(b)) => return fail(format!("qr is {:?} with determinant {:e} (epsilon {:e})", b.0.v(), e.det, T::EPS)),
        _ => {}
    }
    if (0..n).any(|i| (0..n).all(|j| d[i * n + j] == 0.0)) {
        ck!(r.is_none(), "qr of a matrix with a zero row is {:?}", r);
    }
    let (q, u) = match r {
        Some(b) if e.inv.is_some() => b,
        _ => return Ok(false),
    };
    // the orthogonality is lost with the square of the condition number of the matrix with its
    // columns scaled (the scale of the columns does not matter)
    let inv = e.inv.unwrap();
    let (mut ds_, mut is_) = (d.clone(), inv.clone());
    let mut cn = vec![0.0; n];
    for j in 0..n {
        cn[j] = (0..n).map(|i| d[i * n + j].powi(2)).sum::<f64>().sqrt();
        for i in 0..n {
            ds_[i * n + j] /= cn[j];
            is_[j * n + i] *= cn[j];
        }
    }
    let c = cond(n, &is_, &ds_);
    let lim = 64.0 * n as f64 * c * c * T::EPS;
    if !(lim < 0.02) {
        return Ok(false);
    }
    let (qv, uv) = (Mx::new(n, ds(&q.v())), Mx::new(n, ds(&u.v())));
    close_v(&qv.t().mul(&qv).a, &Mx::id(n).a, lim, "Q^T Q")?;
    let scale: Vec<f64> = (0..n * n).map(|p| cn[p % n]).collect();
    close_rel(&qv.mul(&uv).a, &d, &scale, lim, "Q R")?;
    for i in 0..n {
        for j in 0..n {
            let v = uv.at(i, j);
            if i == j {
                ck!(v > 0.0, "R[({0}, {0})] = {1:?} is not positive", i, v);
            }
            if i > j {
                close(v, 0.0, lim * cn[j], &format!("R[({}, {})]", i, j))?;
            }
        }
    }
    Ok(n > 1 && (0..n).any(|i| (0..i).any(|j| d[i * n + j] != 0.0)))
}

// ---------------------------------------------------------------- C08

fn lu<T: Fl, M: MaF<T>>(s: &mut Src) -> R {
    let n = M::N;
    let small = s.idx(3) == 0;
    let (a, k, mut x) = if small {
        let a = int_mat_bounded(s, n, 5);
        let x = ci::<T>(&a);
        (a, Scales { r: vec![1.0; n], c: vec![1.0; n] }, x)
    } else {
        big_mat::<T>(s, n)
    };
    // leading zero rows are outside of the domain (the scale of the rows is not defined)
    assume!((0..n).any(|j| a[j] != 0));
    let tiny_pivot = s.idx(4) == 0;
    let mut dets = Some(det_i(n, &a) as f64 * k.product());
    if tiny_pivot {
        // a leading block that is singular but for a tiny value: the row r depends on the former ones there
        let r = s.idx(n);
        let c: Vec<f64> = (0..r).map(|_| s.small(2) as f64).collect();
        for j in 0..=r {
            x[r * n + j] = T::c((0..r).map(|i| c[i] * x[i * n + j].d()).sum());
        }
        let tiny = 10f64.powf(s.uni(-30.0, -3.0)) * if r == 0 { 1.0 } else { maxabs(&ds(&x)) };
        x[r * n + r] = T::c(x[r * n + r].d() + tiny);
        dets = None;
    }
    let d = ds(&x);
    let (l, det, p) = M::mk(&x).lu_();
    let f = Mx::new(n, ds(&l.v()));
    ck!(f.a.iter().all(|q| q.is_finite()), "the factors are not finite: {:?}", f.a);
    // the permuted matrix
    let mut pm = d.clone();
    let mut sign = 1.0;
    ck!(p.len() == n, "{} indices", p.len());
    for i in 0..n {
        ck!(p[i] >= i && p[i] < n, "indx = {:?}", p);
        if p[i] != i {
            sign = -sign;
            for j in 0..n {
                pm.swap(i * n + j, p[i] * n + j);
            }
        }
    }
    let mut lo = Mx::id(n);
    let mut up = Mx::zero(n);
    for i in 0..n {
        for j in 0..n {
            if i > j { lo.set(i, j, f.at(i, j)) } else { up.set(i, j, f.at(i, j)) }
        }
    }
    let pr = lo.mul(&up);
    let all = maxabs(&d);
    for i in 0..n {
        for j in 0..n {
            // growth 2^(n-1) on the scale of the matrix
            let tol = 32.0 * n as f64 * T::EPS * all * 32.0 + 1e-38;
            close(pr.at(i, j), pm[i * n + j], tol, &format!("(L U)[({}, {})] and the permuted matrix (indx = {:?})", i, j, p))?;
        }
    }
    // det = (-1)^exchanges * the product of the diagonal
    let pd: f64 = (0..n).map(|i| up.at(i, i)).product::<f64>() * sign;
    // (a zero pivot is replaced by a tiny one)
    let low = 1e-35 * all.max(1.0).powi(n as i32 - 1);
    close(det.d(), pd, 16.0 * T::EPS * pd.abs() + low, "det and the signed product of the diagonal of U")?;
    if let Some(e) = dets {
        let h = all.powi(n as i32) * (n as f64).powf(n as f64 / 2.0);
        let tol = 1e3 * T::EPS * h + low;
        close(det.d(), e, tol, "det of lu")?;
        close(det.d(), M::mk(&x).det_().d(), tol, "det of lu and det()")?;
    }
    // solve with the factors
    let (inv, dd) = Mx::new(n, d.clone()).inv_det();
    let mut solved = false;
    if let (Some(inv), true) = (inv, dd != 0.0) {
        let c = inv.norm() * all * n as f64;
        if 1e4 * c * T::EPS < 0.1 {
            let xs: Vec<f64> = (0..n).map(|_| s.uni(-10.0, 10.0)).collect();
            let b = Mx::new(n, d.clone()).mulv(&xs);
            let mut y = b.clone();
            for i in 0..n {
                y.swap(i, p[i]);
            }
            for i in 0..n {
                for j in 0..i {
                    y[i] -= lo.at(i, j) * y[j];
                }
            }
            for i in (0..n).rev() {
                for j in i + 1..n {
                    y[i] -= up.at(i, j) * y[j];
                }
                y[i] /= up.at(i, i);
            }
            close_v(&y, &xs, 1e4 * c * T::EPS * 10.0, "the solution of the linear system with the factors")?;
            solved = true;
        }
    }
    Ok(solved && p.iter().enumerate().any(|(i, q)| i != *q))
}

// ---------------------------------------------------------------- C09

fn eig<T: Fl>(s: &mut Src) -> R {
    let kind = s.ig(0, 5, |r| r.below(6) as i64);
    let x: Vec<T> = match kind {
        // symmetric
        0 | 1 => {
            let (a, b, d) = (s.real(6.0), s.real(6.0), s.real(6.0));
            cs(&[a, b, b, d])
        }
        // small integers
        2 => ci(&s.ints(4, 20)),
        // nearly equal eigenvalues
        3 => {
            let a = s.uni(-10.0, 10.0);
            let e = s.f(|r| r.log(-8.0, -1.0));
            let b = s.f(|r| r.log(-8.0, -1.0));
            let c = s.f(|r| r.log(-8.0, -1.0));
            cs(&[a, b, c, a + e])
        }
        _ => cs(&s.reals(4, 6.0)),
    };
    let m = <M22<T> as Ma<T>>::mk(&x);
    let d = ds(&x);
    let (p, q, r, w) = (d[0], d[1], d[2], d[3]);
    let disc = (p - w).powi(2) + 4.0 * q * r;
    let noise = 64.0 * T::EPS * ((p - w).powi(2) + 4.0 * (q * r).abs() );
    let res = m.real_eigenvals();
    let symmetric = q == r;
    let size = maxabs(&d);
    let exact = disc >= 0.0 && (symmetric || q * r == 0.0);
    match res {
        None => {
            ck!(!exact, "no real eigenvalues of {:?} (discriminant {:e})", d, disc);
            ck!(disc <= noise, "no real eigenvalues of {:?} (discriminant {:e})", d, disc);
            Ok(true)
        }
        Some(v) => {
            ck!(disc >= -noise, "eigenvalues {:?} of {:?}, with the discriminant {:e}", v, d, disc);
            let (l1, l2) = (v[0].d(), v[1].d());
            ck!(l1 >= l2, "the eigenvalues {:?} are not in order", v);
            let sq = disc.max(0.0).sqrt();
            let (e1, e2) = ((p + w + sq) / 2.0, (p + w - sq) / 2.0);
            // an error of the discriminant moves the root by noise / sqrt(disc), at most sqrt(noise)
            let tol = 16.0 * T::EPS * size * 2.0 + if noise == 0.0 { 0.0 } else { (noise / sq.max(noise.sqrt())).min(noise.sqrt()) };
            close(l1, e1, tol, "the greater eigenvalue")?;
            close(l2, e2, tol, "the lesser eigenvalue")?;
            close(l1 + l2, p + w, 16.0 * T::EPS * size * 4.0, "the sum of the eigenvalues and the trace")?;
            close(l1 * l2, p * w - q * r, 64.0 * T::EPS * size * size + 4.0 * size * tol, "the product of the eigenvalues and the determinant")?;
            Ok(l1 != l2 && q * r != 0.0)
        }
    }
}

pub fn checks(o: &mut Vec<Check>) {
    let ints = "integer matrices (generic, permuted diagonal, triangular, dependent rows/columns, sparse, near identity, symmetric, antisymmetric, block, affine, rigid, repeated rows); non-trivial: nonzero product";
    each!(o, "C03", ring_exact, 6000, ints, [M22, M33, M44, M55, M66], [i32, i64, f64]);
    each!(o, "C03", ring_float, 8000, "floats of mixed magnitudes; non-trivial: both nonzero", [M22, M33, M44, M55, M66], [f32, f64]);
    one!(o, "C03", left_scalar, "f32/f64", 10000, "integer components; non-trivial: nonzero");
    each!(o, "C04", parts, 15000, "integers or floats of mixed magnitudes; non-trivial: not symmetric", [M22, M33, M44, M55, M66], [i32, i64, f32, f64]);
    each!(o, "C04", transpose_trace, 15000, "integers or floats of mixed magnitudes; non-trivial: not symmetric", [M22, M33, M44, M55, M66], [f32, f64]);
    types!(o, "C04", submatrix, 20000, "all the positions; non-trivial: all", [f32, f64]);
    types!(o, "C04", copy_elements, 20000, "all the quadrants; non-trivial: all", [f32, f64]);
    one!(o, "C04", macros, "i64", 20000, "random elements; non-trivial: not zero");
    let dets = "structured integer matrices times powers of two; non-trivial: nonzero determinant";
    each!(o, "C05", det_small, 8000, dets, [M22, M33, M44, M55, M66], [f32, f64]);
    each!(o, "C05", det_float, 8000, dets, [M22, M33, M44, M55, M66], [f32, f64]);
    let inv = "structured integer matrices times powers of two by rows, a third scaled to a determinant around epsilon; non-trivial: not singular and the accuracy of det is bounded";
    each!(o, "C06", inverse, 16000, inv, [M22, M33, M44], [f32, f64]);
    each!(o, "C06", inverse, 6000, inv, [M55, M66], [f32, f64]);
    each!(o, "C06", inverse_laws, 6000, "floats of moderate condition (dominant permuted diagonals, orthogonal and nearly so, rows of norm one, near identity, affine, symmetric); non-trivial: all", [M22, M33, M44, M55, M66], [f32, f64]);
    types!(o, "C06", inverse_rigid, 60000, "homogeneous matrices: rigid, nearly rigid, scaled, sheared; non-trivial: with translation", [f32, f64]);
    let q = "structured integer matrices times powers of two by rows, a third scaled to a determinant around epsilon; non-trivial: factorized, the bound is meaningful and the matrix is not upper triangular";
    each!(o, "C07", qr, 16000, q, [M22, M33, M44], [f32, f64]);
    each!(o, "C07", qr, 6000, q, [M55, M66], [f32, f64]);
    each!(o, "C07", qr_good, 6000, "floats of moderate condition (dominant permuted diagonals, orthogonal and nearly so, rows of norm one, near identity, affine, symmetric); non-trivial: not upper triangular", [M22, M33, M44, M55, M66], [f32, f64]);
    each!(o, "C08", lu, 25000, "structured integer matrices times powers of two by rows, tiny leading pivots; non-trivial: rows exchanged and a linear system solved", [M22, M33, M44, M55, M66], [f32, f64]);
    types!(o, "C09", eig, 150000, "symmetric, integer, nearly defective and generic; non-trivial: complex, or different and not triangular", [f32, f64]);
}

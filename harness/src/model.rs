//! Reference models in f64, written independently of the library.
pub type V = [f64; 3];
pub type Q = [f64; 4];
pub type M3 = [[f64; 3]; 3];

pub fn dot(a: &V, b: &V) -> f64 {
    (0..3).map(|k| a[k] * b[k]).sum()
}
pub fn nrm(a: &V) -> f64 {
    dot(a, a).sqrt()
}
pub fn cross(a: &V, b: &V) -> V {
    let mut r = [0.0; 3];
    for (i, j, k) in [(0, 1, 2), (1, 2, 0), (2, 0, 1)] {
        r[k] += a[i] * b[j];
        r[k] -= a[j] * b[i];
    }
    r
}
pub fn sc(a: &V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn add(a: &V, b: &V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn unit(a: &V) -> V {
    sc(a, 1.0 / nrm(a))
}
pub const I3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}
pub fn mv(a: &M3, v: &V) -> V {
    let mut r = [0.0; 3];
    for i in 0..3 {
        for k in 0..3 {
            r[i] += a[i][k] * v[k];
        }
    }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = *a;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
/// Rotation by `th` about the axis `u` (unit): v -> v_par + cos v_perp + sin (u x v), column by column.
pub fn rot(u: &V, th: f64) -> M3 {
    let (s, c) = th.sin_cos();
    let mut r = [[0.0; 3]; 3];
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let par = sc(u, dot(u, &e));
        let perp = sub(&e, &par);
        let col = add(&par, &add(&sc(&perp, c), &sc(&cross(u, &e), s)));
        for i in 0..3 {
            r[i][j] = col[i];
        }
    }
    r
}
/// Hamilton product by the table of the units.
pub fn qm(a: &Q, b: &Q) -> Q {
    // i*j = k etc: (index, sign) of the product of units
    const T: [[(usize, f64); 4]; 4] = [
        [(0, 1.0), (1, 1.0), (2, 1.0), (3, 1.0)],
        [(1, 1.0), (0, -1.0), (3, 1.0), (2, -1.0)],
        [(2, 1.0), (3, -1.0), (0, -1.0), (1, 1.0)],
        [(3, 1.0), (2, 1.0), (1, -1.0), (0, -1.0)],
    ];
    let mut r = [0.0; 4];
    for i in 0..4 {
        for j in 0..4 {
            let (k, s) = T[i][j];
            r[k] += s * a[i] * b[j];
        }
    }
    r
}
pub fn qi(a: &[i64; 4], b: &[i64; 4]) -> [i64; 4] {
    const T: [[(usize, i64); 4]; 4] = [
        [(0, 1), (1, 1), (2, 1), (3, 1)],
        [(1, 1), (0, -1), (3, 1), (2, -1)],
        [(2, 1), (3, -1), (0, -1), (1, 1)],
        [(3, 1), (2, 1), (1, -1), (0, -1)],
    ];
    let mut r = [0; 4];
    for i in 0..4 {
        for j in 0..4 {
            let (k, s) = T[i][j];
            r[k] += s * a[i] * b[j];
        }
    }
    r
}
pub fn qc(a: &Q) -> Q {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn qa(a: &Q, b: &Q) -> Q {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub fn qs(a: &Q, s: f64) -> Q {
    [a[0] * s, a[1] * s, a[2] * s, a[3] * s]
}
pub fn qn(a: &Q) -> f64 {
    qdot(a, a).sqrt()
}
pub fn qdot(a: &Q, b: &Q) -> f64 {
    (0..4).map(|k| a[k] * b[k]).sum()
}
pub fn qinv(a: &Q) -> Q {
    qs(&qc(a), 1.0 / qdot(a, a))
}
pub fn qim(a: &Q) -> V {
    [a[1], a[2], a[3]]
}
pub fn qaa(u: &V, th: f64) -> Q {
    let (s, c) = (th / 2.0).sin_cos();
    [c, u[0] * s, u[1] * s, u[2] * s]
}
/// rotation matrix of a (not necessarily unit) quaternion: columns q e conj(q) / |q|^2
pub fn qrot(q: &Q) -> M3 {
    let n = qdot(q, q);
    let mut r = [[0.0; 3]; 3];
    for j in 0..3 {
        let mut e = [0.0; 4];
        e[j + 1] = 1.0;
        let c = qm(&qm(q, &e), &qc(q));
        for i in 0..3 {
            r[i][j] = c[i + 1] / n;
        }
    }
    r
}
pub fn skew(v: &V) -> M3 {
    [[0.0, -v[2], v[1]], [v[2], 0.0, -v[0]], [-v[1], v[0], 0.0]]
}

/// n x n matrix
#[derive(Clone, Debug, PartialEq)]
pub struct Mx {
    pub n: usize,
    pub a: Vec<f64>,
}
impl Mx {
    pub fn new(n: usize, a: Vec<f64>) -> Self {
        assert_eq!(a.len(), n * n);
        Mx { n, a }
    }
    pub fn zero(n: usize) -> Self {
        Mx { n, a: vec![0.0; n * n] }
    }
    pub fn id(n: usize) -> Self {
        let mut m = Mx::zero(n);
        for i in 0..n {
            m.a[i * n + i] = 1.0;
        }
        m
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.n + j]
    }
    pub fn set(&mut self, i: usize, j: usize, x: f64) {
        self.a[i * self.n + j] = x;
    }
    pub fn mul(&self, o: &Mx) -> Mx {
        let n = self.n;
        let mut r = Mx::zero(n);
        for i in 0..n {
            for k in 0..n {
                for j in 0..n {
                    r.a[i * n + j] += self.a[i * n + k] * o.a[k * n + j];
                }
            }
        }
        r
    }
    pub fn add(&self, o: &Mx) -> Mx {
        Mx { n: self.n, a: self.a.iter().zip(&o.a).map(|(x, y)| x + y).collect() }
    }
    pub fn scale(&self, s: f64) -> Mx {
        Mx { n: self.n, a: self.a.iter().map(|x| x * s).collect() }
    }
    pub fn t(&self) -> Mx {
        let n = self.n;
        let mut r = Mx::zero(n);
        for i in 0..n {
            for j in 0..n {
                r.a[j * n + i] = self.a[i * n + j];
            }
        }
        r
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        (0..self.n).map(|i| (0..self.n).map(|j| self.at(i, j) * v[j]).sum()).collect()
    }
    pub fn norm(&self) -> f64 {
        self.a.iter().map(|x| x * x).sum::<f64>().sqrt()
    }
    pub fn maxabs(&self) -> f64 {
        self.a.iter().fold(0.0, |m, x| x.abs().max(m))
    }
    /// product of the euclidean norms of the rows (Hadamard bound)
    pub fn hadamard(&self) -> f64 {
        (0..self.n).map(|i| (0..self.n).map(|j| self.at(i, j).powi(2)).sum::<f64>().sqrt()).product()
    }
    /// Gauss-Jordan with complete row pivoting; (inverse, determinant)
    pub fn inv_det(&self) -> (Option<Mx>, f64) {
        let n = self.n;
        let mut a = self.clone();
        let mut b = Mx::id(n);
        let mut det = 1.0;
        for k in 0..n {
            let mut p = k;
            for i in k..n {
                if a.at(i, k).abs() > a.at(p, k).abs() {
                    p = i;
                }
            }
            if a.at(p, k) == 0.0 {
                return (None, 0.0);
            }
            if p != k {
                det = -det;
                for j in 0..n {
                    a.a.swap(p * n + j, k * n + j);
                    b.a.swap(p * n + j, k * n + j);
                }
            }
            let d = a.at(k, k);
            det *= d;
            for j in 0..n {
                a.a[k * n + j] /= d;
                b.a[k * n + j] /= d;
            }
            for i in 0..n {
                if i != k {
                    let f = a.at(i, k);
                    for j in 0..n {
                        a.a[i * n + j] -= f * a.a[k * n + j];
                        b.a[i * n + j] -= f * b.a[k * n + j];
                    }
                }
            }
        }
        (Some(b), det)
    }
    /// exponential: scaling and squaring of the Taylor series
    pub fn expm(&self) -> Mx {
        let mut s = 0;
        let mut m = self.clone();
        while m.norm() > 0.25 {
            m = m.scale(0.5);
            s += 1;
        }
        let mut r = Mx::id(self.n);
        let mut t = Mx::id(self.n);
        for k in 1..20 {
            t = t.mul(&m).scale(1.0 / k as f64);
            r = r.add(&t);
        }
        for _ in 0..s {
            r = r.mul(&r);
        }
        r
    }
}

/// exact integer determinant (Leibniz by expansion over column subsets)
pub fn det_i(n: usize, a: &[i64]) -> i128 {
    // dp over the set of used columns, row by row
    let mut dp = vec![0i128; 1 << n];
    dp[0] = 1;
    for mask in 0..(1usize << n) {
        let row = mask.count_ones() as usize;
        if row == n || dp[mask] == 0 {
            continue;
        }
        for j in 0..n {
            if mask & (1 << j) == 0 {
                // inversions: used columns greater than j
                let inv = (mask >> (j + 1)).count_ones();
                let s = if inv % 2 == 0 { 1 } else { -1 };
                dp[mask | (1 << j)] += s * dp[mask] * a[row * n + j] as i128;
            }
        }
    }
    dp[(1 << n) - 1]
}
pub fn minor_i(n: usize, a: &[i64], r: usize, c: usize) -> Vec<i64> {
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            if i != r && j != c {
                v.push(a[i * n + j]);
            }
        }
    }
    v
}
/// the sum of the absolute values of the Leibniz terms
pub fn perm_abs(n: usize, a: &[f64]) -> f64 {
    let mut dp = vec![0f64; 1 << n];
    dp[0] = 1.0;
    for mask in 0..(1usize << n) {
        let row = mask.count_ones() as usize;
        if row == n {
            continue;
        }
        for j in 0..n {
            if mask & (1 << j) == 0 {
                dp[mask | (1 << j)] += dp[mask] * a[row * n + j].abs();
            }
        }
    }
    dp[(1 << n) - 1]
}

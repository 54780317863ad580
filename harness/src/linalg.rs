//! Small, boring reference linear algebra (row-major Vec<f64>), written independently of the crate.
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn mv(m: &[f64], x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let r = m.len() / n;
    (0..r).map(|i| dot(&m[i * n..(i + 1) * n], x)).collect()
}
pub fn quad(m: &[f64], x: &[f64]) -> f64 {
    dot(x, &mv(m, x))
}
/// lower Cholesky factor; None if not positive definite
pub fn chol(m: &[f64], n: usize) -> Option<Vec<f64>> {
    let mut l = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = 0.5 * (m[i * n + j] + m[j * n + i]);
            for k in 0..j {
                s -= l[i * n + k] * l[j * n + k];
            }
            if i == j {
                if !(s > 0.0) || !s.is_finite() {
                    return None;
                }
                l[i * n + i] = s.sqrt();
            } else {
                l[i * n + j] = s / l[j * n + j];
            }
        }
    }
    Some(l)
}
/// solve L y = b
pub fn fsub(l: &[f64], b: &[f64]) -> Vec<f64> {
    let n = b.len();
    let mut y = b.to_vec();
    for i in 0..n {
        for k in 0..i {
            y[i] -= l[i * n + k] * y[k];
        }
        y[i] /= l[i * n + i];
    }
    y
}
pub fn lmul(l: &[f64], u: &[f64]) -> Vec<f64> {
    let n = u.len();
    (0..n).map(|i| (0..=i).map(|k| l[i * n + k] * u[k]).sum()).collect()
}
pub fn ltmul(l: &[f64], u: &[f64]) -> Vec<f64> {
    let n = u.len();
    (0..n).map(|i| (i..n).map(|k| l[k * n + i] * u[k]).sum()).collect()
}
pub fn cond_est(l: &[f64], n: usize) -> f64 {
    let mut mx: f64 = 0.0;
    let mut mn = f64::INFINITY;
    for i in 0..n {
        mx = mx.max(l[i * n + i]);
        mn = mn.min(l[i * n + i]);
    }
    (mx / mn) * (mx / mn)
}
/// orthonormal basis of the complement of unit vector a (n-1 vectors), via Householder
pub fn perp_basis(a: &[f64]) -> Vec<Vec<f64>> {
    let n = a.len();
    // v = a + sign(a0) e0 ; H e_k for k>=1 spans the complement of a
    let s = if a[0] >= 0.0 { 1.0 } else { -1.0 };
    let mut v = a.to_vec();
    v[0] += s;
    let vv = dot(&v, &v);
    (1..n)
        .map(|k| {
            let mut e = vec![0.0; n];
            e[k] = 1.0;
            let c = 2.0 * v[k] / vv;
            for i in 0..n {
                e[i] -= c * v[i];
            }
            e
        })
        .collect()
}
/// Jacobi eigenvalues/eigenvectors of a symmetric matrix; returns (values, column vectors)
pub fn eig_sym(m: &[f64], n: usize) -> (Vec<f64>, Vec<Vec<f64>>) {
    let mut a = m.to_vec();
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        v[i * n + i] = 1.0;
    }
    for _ in 0..100 {
        let mut off = 0.0;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a[i * n + j] * a[i * n + j];
                }
            }
        }
        if off < 1e-300 {
            break;
        }
        for p in 0..n {
            for q in (p + 1)..n {
                if a[p * n + q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q * n + q] - a[p * n + p]) / (2.0 * a[p * n + q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k * n + p], a[k * n + q]);
                    a[k * n + p] = c * x - s * y;
                    a[k * n + q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p * n + k], a[q * n + k]);
                    a[p * n + k] = c * x - s * y;
                    a[q * n + k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k * n + p], v[k * n + q]);
                    v[k * n + p] = c * x - s * y;
                    v[k * n + q] = s * x + c * y;
                }
            }
        }
    }
    let vals = (0..n).map(|i| a[i * n + i]).collect();
    let vecs = (0..n).map(|j| (0..n).map(|i| v[i * n + j]).collect()).collect();
    (vals, vecs)
}
/// exact determinant-style leading principal minors of an integer symmetric matrix (i128, Bareiss)
pub fn det_i(m: &[i64], n: usize, k: usize) -> i128 {
    let mut a: Vec<i128> = vec![0; k * k];
    for i in 0..k {
        for j in 0..k {
            a[i * k + j] = m[i * n + j] as i128;
        }
    }
    let mut sign = 1i128;
    let mut prev = 1i128;
    for p in 0..k {
        if a[p * k + p] == 0 {
            let mut sw = None;
            for r in p + 1..k {
                if a[r * k + p] != 0 {
                    sw = Some(r);
                    break;
                }
            }
            match sw {
                None => return 0,
                Some(r) => {
                    for j in 0..k {
                        a.swap(p * k + j, r * k + j);
                    }
                    sign = -sign;
                }
            }
        }
        for i in p + 1..k {
            for j in p + 1..k {
                a[i * k + j] = (a[i * k + j] * a[p * k + p] - a[i * k + p] * a[p * k + j]) / prev;
            }
        }
        prev = a[p * k + p];
    }
    sign * a[(k - 1) * k + (k - 1)]
}
/// determinant of the principal submatrix with index set `idx`
pub fn pminor_i(m: &[i64], n: usize, idx: &[usize]) -> i128 {
    let k = idx.len();
    let mut s = vec![0i64; k * k];
    for (a, &i) in idx.iter().enumerate() {
        for (b, &j) in idx.iter().enumerate() {
            s[a * k + b] = m[i * n + j];
        }
    }
    det_i(&s, k, k)
}
pub fn is_pd_i(m: &[i64], n: usize) -> bool {
    (1..=n).all(|k| det_i(m, n, k) > 0)
}
pub fn is_psd_i(m: &[i64], n: usize) -> bool {
    for mask in 1u32..(1 << n) {
        let idx: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
        if pminor_i(m, n, &idx) < 0 {
            return false;
        }
    }
    true
}

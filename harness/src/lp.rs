//! A small dense simplex solver for: minimise c.x subject to A x = b, x >= 0 (rows: few, columns:
//! some hundred). Answers are only used together with a certificate that the caller can check.

pub struct Solution {
    pub x: Vec<f64>,
    /// smallest reduced cost among the non-basic columns (0 when the optimum isn't unique)
    pub min_reduced: f64,
    /// dual values: the optimum equals y.b and c - y.A >= 0
    pub y: Vec<f64>,
    pub value: f64,
    pub basis: Vec<usize>,
}

/// Big-M free two phase simplex with Bland's rule as a fallback. `None`: infeasible (phase 1
/// optimum above `feas_tol`) or no convergence.
pub fn solve(a: &[Vec<f64>], b: &[f64], c: &[f64], feas_tol: f64) -> Result<Solution, f64> {
    let m = a.len();
    let n = c.len();
    let mut t: Vec<Vec<f64>> = (0..m)
        .map(|i| {
            let s = if b[i] < 0.0 { -1.0 } else { 1.0 };
            let mut r: Vec<f64> = a[i].iter().map(|v| v * s).collect();
            r.extend((0..m).map(|j| if i == j { 1.0 } else { 0.0 }));
            r.push(b[i] * s);
            r
        })
        .collect();
    let w = n + m;
    let mut basis: Vec<usize> = (n..n + m).collect();

    fn run(t: &mut [Vec<f64>], basis: &mut [usize], cost: &mut Vec<f64>, allowed: usize, w: usize) -> bool {
        let m = t.len();
        for iter in 0..5000 {
            let bland = iter > 300;
            let mut enter = None;
            let mut best = -1e-11;
            for j in 0..allowed {
                if cost[j] < best {
                    enter = Some(j);
                    if bland {
                        break;
                    }
                    best = cost[j];
                }
            }
            let Some(e) = enter else { return true };
            let mut leave = None;
            let mut ratio = f64::INFINITY;
            for i in 0..m {
                if t[i][e] > 1e-10 {
                    let r = t[i][w] / t[i][e];
                    if r < ratio - 1e-14 || (r <= ratio + 1e-14 && leave.map_or(true, |l: usize| {
                        if bland { basis[i] < basis[l] } else { t[i][e] > t[l][e] }
                    })) {
                        ratio = ratio.min(r);
                        leave = Some(i);
                    }
                }
            }
            let Some(l) = leave else { return false };
            let p = t[l][e];
            for v in t[l].iter_mut() {
                *v /= p;
            }
            let row = t[l].clone();
            for (i, r) in t.iter_mut().enumerate() {
                if i != l && r[e] != 0.0 {
                    let f = r[e];
                    for (x, y) in r.iter_mut().zip(&row) {
                        *x -= f * y;
                    }
                    r[e] = 0.0;
                }
            }
            let f = cost[e];
            for (x, y) in cost.iter_mut().zip(&row) {
                *x -= f * y;
            }
            cost[e] = 0.0;
            basis[l] = e;
        }
        false
    }

    // phase 1
    let mut cost = vec![0.0; w + 1];
    for r in &t {
        for j in 0..n {
            cost[j] -= r[j];
        }
        cost[w] -= r[w];
    }
    if !run(&mut t, &mut basis, &mut cost, n, w) {
        return Err(f64::NAN);
    }
    let infeas = -cost[w];
    if infeas > feas_tol {
        return Err(infeas);
    }
    // drive artificials out of the basis
    for i in 0..m {
        if basis[i] >= n {
            if let Some(e) = (0..n).filter(|j| !basis.contains(j)).max_by(|p, q| t[i][*p].abs().total_cmp(&t[i][*q].abs())) {
                if t[i][e].abs() > 1e-9 {
                    let p = t[i][e];
                    for v in t[i].iter_mut() {
                        *v /= p;
                    }
                    let row = t[i].clone();
                    for (k, r) in t.iter_mut().enumerate() {
                        if k != i {
                            let f = r[e];
                            for (x, y) in r.iter_mut().zip(&row) {
                                *x -= f * y;
                            }
                        }
                    }
                    basis[i] = e;
                }
            }
        }
    }
    // phase 2
    let mut cost = vec![0.0; w + 1];
    cost[..n].copy_from_slice(c);
    for i in 0..m {
        if basis[i] < n {
            let f = cost[basis[i]];
            let row = t[i].clone();
            for (x, y) in cost.iter_mut().zip(&row) {
                *x -= f * y;
            }
        }
    }
    if !run(&mut t, &mut basis, &mut cost, n, w) {
        return Err(f64::NAN);
    }
    let mut x = vec![0.0; n];
    for i in 0..m {
        if basis[i] < n {
            x[basis[i]] = t[i][w];
        }
    }
    let min_reduced = (0..n).filter(|j| !basis.contains(j)).map(|j| cost[j]).fold(f64::INFINITY, f64::min);
    // y_i = -(reduced cost of artificial i), undoing the sign flip of the row
    let y = (0..m).map(|i| -cost[n + i] * if b[i] < 0.0 { -1.0 } else { 1.0 }).collect();
    Ok(Solution { value: c.iter().zip(&x).map(|(c, x)| c * x).sum(), x, min_reduced, y, basis })
}

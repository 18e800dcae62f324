//! Exact integer predicates used as oracles.

/// Determinant by fraction-free (Bareiss) elimination.
pub fn det(mut m: Vec<Vec<i128>>) -> i128 {
    let n = m.len();
    let mut sign = 1i128;
    let mut prev = 1i128;
    for k in 0..n {
        if m[k][k] == 0 {
            match (k + 1..n).find(|&i| m[i][k] != 0) {
                Some(i) => {
                    m.swap(i, k);
                    sign = -sign;
                }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
            }
        }
        prev = m[k][k];
    }
    if n == 0 {
        1
    } else {
        sign * m[n - 1][n - 1]
    }
}

const P: i128 = (1 << 61) - 1;

fn inv(a: i128) -> i128 {
    let (mut e, mut b, mut r) = (P - 2, a.rem_euclid(P), 1i128);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}

/// Rank of an integer matrix modulo a 61 bit prime. Equals the rational rank, except with
/// negligible probability for entries which aren't chosen adversarially (it is never larger).
pub fn rank(rows: &[Vec<i64>]) -> usize {
    if rows.is_empty() {
        return 0;
    }
    let cols = rows[0].len();
    // Incremental basis, so that large images don't cost more than needed
    let mut basis: Vec<(usize, Vec<i128>)> = vec![];
    for row in rows {
        let mut v: Vec<i128> = row.iter().map(|x| (*x as i128).rem_euclid(P)).collect();
        for (pivot, b) in &basis {
            let f = v[*pivot];
            if f != 0 {
                for j in 0..cols {
                    v[j] = (v[j] - f * b[j]).rem_euclid(P);
                }
            }
        }
        if let Some(pivot) = v.iter().position(|x| *x != 0) {
            let f = inv(v[pivot]);
            for x in &mut v {
                *x = *x * f % P;
            }
            basis.push((pivot, v));
            if basis.len() == cols {
                break;
            }
        }
    }
    basis.len()
}

/// Dimension of the affine hull (-1 for no points).
pub fn affine_dim(points: &[Vec<i64>]) -> i64 {
    let rows: Vec<Vec<i64>> = points.iter().map(|p| std::iter::once(1).chain(p.iter().copied()).collect()).collect();
    rank(&rows) as i64 - 1
}

pub type P3 = [i64; 3];

pub fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot(a: P3, b: P3) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn orient(a: P3, b: P3, c: P3, d: P3) -> i64 {
    dot(cross(sub(b, a), sub(c, a)), sub(d, a))
}

fn in_segment(p: P3, a: P3, b: P3) -> bool {
    cross(sub(b, a), sub(p, a)) == [0, 0, 0] && dot(sub(p, a), sub(p, b)) <= 0
}
fn in_triangle(p: P3, a: P3, b: P3, c: P3) -> bool {
    let n = cross(sub(b, a), sub(c, a));
    if n == [0, 0, 0] || dot(n, sub(p, a)) != 0 {
        return false;
    }
    [(a, b), (b, c), (c, a)].iter().all(|(u, v)| dot(cross(sub(*v, *u), sub(p, *u)), n) >= 0)
}
fn in_tetra(p: P3, t: [P3; 4]) -> bool {
    let v = orient(t[0], t[1], t[2], t[3]);
    if v == 0 {
        return false;
    }
    let s = v.signum();
    (0..4).all(|i| {
        let mut u = t;
        u[i] = p;
        orient(u[0], u[1], u[2], u[3]).signum() * s >= 0
    })
}

/// Is `p` in the convex hull of `pts`? Exact, by Caratheodory: some (possibly flat) simplex with
/// corners in `pts` contains it.
pub fn in_hull3(p: P3, pts: &[P3]) -> bool {
    let n = pts.len();
    for a in 0..n {
        if pts[a] == p {
            return true;
        }
        for b in a + 1..n {
            if in_segment(p, pts[a], pts[b]) {
                return true;
            }
            for c in b + 1..n {
                if in_triangle(p, pts[a], pts[b], pts[c]) {
                    return true;
                }
                for d in c + 1..n {
                    if in_tetra(p, [pts[a], pts[b], pts[c], pts[d]]) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

/// Exact convex hull of integer points in 3D: the supporting planes (outward integer normal n and
/// offset d with n.x <= d for all points, n.x == d on the facet) or None if the points are flat.
pub fn hull_planes3(pts: &[P3]) -> Option<Vec<(P3, i64)>> {
    let mut uniq = pts.to_vec();
    uniq.sort();
    uniq.dedup();
    let n = uniq.len();
    let mut planes = std::collections::BTreeSet::new();
    let mut flat = true;
    for a in 0..n {
        for b in a + 1..n {
            for c in b + 1..n {
                let nn = cross(sub(uniq[b], uniq[a]), sub(uniq[c], uniq[a]));
                if nn == [0, 0, 0] {
                    continue;
                }
                let d0 = dot(nn, uniq[a]);
                let (mut pos, mut neg) = (false, false);
                for p in &uniq {
                    let s = dot(nn, *p) - d0;
                    pos |= s > 0;
                    neg |= s < 0;
                    if pos && neg {
                        break;
                    }
                }
                if pos || neg {
                    flat = false;
                }
                if pos && neg || (!pos && !neg) {
                    continue;
                }
                let g = gcd(gcd(nn[0].abs(), nn[1].abs()), nn[2].abs());
                let s = if pos { -1 } else { 1 };
                let nn = [s * nn[0] / g, s * nn[1] / g, s * nn[2] / g];
                planes.insert((nn, dot(nn, uniq[a])));
            }
        }
    }
    if flat {
        None
    } else {
        Some(planes.into_iter().collect())
    }
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn flat3(pts: &[P3]) -> bool {
    affine_dim(&pts.iter().map(|p| p.to_vec()).collect::<Vec<_>>()) < 3
}

/// The extreme points among `pts` (deduplicated), exactly. Uses the supporting planes for speed:
/// a point is extreme iff the normals of the planes through it span 3D.
pub fn extreme3(pts: &[P3]) -> Option<Vec<P3>> {
    let planes = hull_planes3(pts)?;
    let mut uniq = pts.to_vec();
    uniq.sort();
    uniq.dedup();
    Some(
        uniq.into_iter()
            .filter(|p| {
                let normals: Vec<Vec<i64>> =
                    planes.iter().filter(|(n, d)| dot(*n, *p) == *d).map(|(n, _)| n.to_vec()).collect();
                rank(&normals) == 3
            })
            .collect(),
    )
}

/// Determinant by expansion over subsets of the columns: no intermediate value is larger than
/// n! times the product of the entries.
pub fn det_exp(m: &[Vec<i128>]) -> i128 {
    let n = m.len();
    let mut dp = vec![0i128; 1 << n];
    dp[0] = 1;
    for mask in 1usize..1 << n {
        let row = mask.count_ones() as usize - 1;
        let mut sum = 0;
        // sign: number of chosen columns to the right of this one
        let mut right = mask.count_ones();
        for col in 0..n {
            if mask >> col & 1 == 1 {
                right -= 1;
                let v = m[row][col];
                if v != 0 {
                    let t = v * dp[mask & !(1 << col)];
                    if right % 2 == 0 { sum += t } else { sum -= t }
                }
            }
        }
        dp[mask] = sum;
    }
    dp[(1 << n) - 1]
}

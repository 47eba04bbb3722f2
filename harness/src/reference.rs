//! Reference quadrature rules, computed in double-double arithmetic by methods that are not the
//! crate's: an implicit QL eigenvalue iteration on the Jacobi matrix, Newton's method on the
//! three-term recurrence, and closed forms.

use crate::dd::*;

pub struct RefRule {
    pub nodes: Vec<Dd>,
    pub weights: Vec<Dd>,
    pub mu0: Dd,
}

/// Diagonal and off-diagonal of the symmetric Jacobi matrix plus the zeroth moment.
pub struct JacobiMatrix {
    pub diag: Vec<Dd>,
    pub off: Vec<Dd>,
    pub mu0: Dd,
}

pub fn hermite_matrix(n: usize) -> JacobiMatrix {
    JacobiMatrix {
        diag: vec![ZERO; n],
        off: (1..n).map(|k| dd(k as f64).scale2(0.5).sqrt()).collect(),
        mu0: PI.sqrt(),
    }
}

pub fn laguerre_matrix(n: usize, alpha: f64) -> JacobiMatrix {
    let a = dd(alpha);
    JacobiMatrix {
        diag: (0..n).map(|k| dd(2.0 * k as f64 + 1.0) + a).collect(),
        off: (1..n)
            .map(|k| (dd(k as f64) * (dd(k as f64) + a)).sqrt())
            .collect(),
        mu0: (a + ONE).gamma(),
    }
}

/// The integral of (1-x)^alpha (1+x)^beta over [-1, 1].
pub fn jacobi_mu0(alpha: f64, beta: f64) -> Dd {
    let (a, b) = (dd(alpha), dd(beta));
    let s = a + b;
    ((s + ONE) * LN2 + (a + ONE).ln_gamma() + (b + ONE).ln_gamma() - (s + TWO).ln_gamma()).exp()
}

pub fn jacobi_matrix(n: usize, alpha: f64, beta: f64) -> JacobiMatrix {
    let (a, b) = (dd(alpha), dd(beta));
    let s = a + b;
    let diag = (0..n)
        .map(|k| {
            if k == 0 {
                (b - a) / (s + TWO)
            } else {
                let t = dd(2.0 * k as f64) + s;
                (b - a) * s / (t * (t + TWO))
            }
        })
        .collect();
    let off = (1..n)
        .map(|k| {
            let kk = dd(k as f64);
            let t = kk.scale2(2.0) + s;
            let sq = if k == 1 {
                dd(4.0) * (ONE + a) * (ONE + b) / (t * t * (t + ONE))
            } else {
                dd(4.0) * kk * (kk + a) * (kk + b) * (kk + s) / (t * t * (t + ONE) * (t - ONE))
            };
            sq.sqrt()
        })
        .collect();
    JacobiMatrix {
        diag,
        off,
        mu0: jacobi_mu0(alpha, beta),
    }
}

/// Implicit QL with Wilkinson-type shifts; only the first components of the eigenvectors are
/// kept. Returns nodes in ascending order.
pub fn solve(m: &JacobiMatrix) -> RefRule {
    let n = m.diag.len();
    let mut d = m.diag.clone();
    let mut e = m.off.clone();
    e.push(ZERO);
    let mut z = vec![ZERO; n];
    z[0] = ONE;
    const EPS: f64 = 1e-32;
    for l in 0..n {
        let mut iter = 0;
        loop {
            let mut mm = l;
            while mm + 1 < n {
                let t = d[mm].hi.abs() + d[mm + 1].hi.abs();
                if e[mm].hi.abs() <= EPS * t {
                    break;
                }
                mm += 1;
            }
            if mm == l {
                break;
            }
            iter += 1;
            assert!(iter < 200, "reference eigenvalue iteration did not converge");
            let mut g = (d[l + 1] - d[l]) / e[l].scale2(2.0);
            let mut r = (g * g + ONE).sqrt();
            let sr = if g.hi < 0.0 { -r } else { r };
            g = d[mm] - d[l] + e[l] / (g + sr);
            let (mut s, mut c, mut p) = (ONE, ONE, ZERO);
            let mut broke = false;
            for i in (l..mm).rev() {
                let mut f = s * e[i];
                let b = c * e[i];
                if f.hi.abs() >= g.hi.abs() {
                    if f.hi == 0.0 {
                        e[i + 1] = ZERO;
                        d[i + 1] -= p;
                        e[mm] = ZERO;
                        broke = true;
                        break;
                    }
                    c = g / f;
                    r = (c * c + ONE).sqrt();
                    e[i + 1] = f * r;
                    s = r.recip();
                    c *= s;
                } else {
                    s = f / g;
                    r = (s * s + ONE).sqrt();
                    e[i + 1] = g * r;
                    c = r.recip();
                    s *= c;
                }
                g = d[i + 1] - p;
                r = (d[i] - g) * s + c.scale2(2.0) * b;
                p = s * r;
                d[i + 1] = g + p;
                g = c * r - b;
                f = z[i + 1];
                z[i + 1] = s * z[i] + c * f;
                z[i] = c * z[i] - s * f;
            }
            if broke {
                continue;
            }
            d[l] -= p;
            e[l] = g;
            e[mm] = ZERO;
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| d[i].partial_cmp(&d[j]).unwrap());
    RefRule {
        nodes: idx.iter().map(|&i| d[i]).collect(),
        weights: idx.iter().map(|&i| z[i] * z[i] * m.mu0).collect(),
        mu0: m.mu0,
    }
}

/// (P_n(x), P_{n-1}(x)) by the three-term recurrence.
fn legendre_pair(n: usize, x: Dd) -> (Dd, Dd) {
    let (mut p0, mut p1) = (ONE, x);
    for k in 2..=n {
        let kf = k as f64;
        // P_k = x P_{k-1} + (k-1)/k (x P_{k-1} - P_{k-2})
        let xp = x * p1;
        let p2 = xp + (xp - p0) * (dd(kf - 1.0) / dd(kf));
        p0 = p1;
        p1 = p2;
    }
    (p1, p0)
}

/// The k-th largest node (k = 1..=n) of the Legendre rule and its weight.
pub fn legendre_node(n: usize, k: usize) -> (Dd, Dd) {
    if 2 * k > n + 1 {
        let (x, w) = legendre_node(n, n + 1 - k);
        return (-x, w);
    }
    let nf = n as f64;
    let mid = 2 * k == n + 1;
    // Tricomi's estimate in the bulk is not good enough next to the end point for large n, so
    // start from the leading McMahon/Olver term theta = j_{0,k} / (n + 1/2).
    let j0 = bessel_j0_zero_estimate(k);
    let nu = j0 / (nf + 0.5);
    let theta = if n == 1 { std::f64::consts::FRAC_PI_2 } else {
        nu + (nu * nu.cos() / nu.sin() - 1.0) / (8.0 * nu * (nf + 0.5) * (nf + 0.5))
    };
    let mut x = if mid { ZERO } else { dd(theta).cos() };
    let (mut p, mut pm) = legendre_pair(n, x);
    if !mid {
        for it in 0..10 {
            let dp = dd(nf) * (pm - x * p) / (ONE - x * x);
            let dx = p / dp;
            x -= dx;
            if dx.hi.abs() < 1e-33 {
                break;
            }
            let small = dx.hi.abs() < 1e-19 * (1.0 - x.hi).max(1e-12);
            let pp = legendre_pair(n, x);
            p = pp.0;
            pm = pp.1;
            if small {
                break;
            }
            assert!(it < 9, "reference Newton iteration did not converge (n={n}, k={k})");
        }
    }
    let dp = dd(nf) * (pm - x * p) / (ONE - x * x);
    let w = TWO / ((ONE - x * x) * dp * dp);
    (x, w)
}

/// The k-th node from the right and its weight by the phase function of Legendre's equation,
/// N theta - cot(theta) / (8 N) = (k - 1/4) pi, N = n + 1/2, away from the ends (4000 <= k <= n/2),
/// where the terms left out are below 1e-17. Constant time.
pub fn legendre_node_bulk(n: usize, k: usize) -> (Dd, Dd) {
    assert!((4000..=n.div_ceil(2)).contains(&k));
    let nn = dd(n as f64) + dd(0.5);
    let phi = PI * (dd(k as f64) - dd(0.25)) / nn;
    let (s, c) = phi.sin_cos();
    let theta = phi + c / (s * nn * nn).scale2(8.0);
    let (s, c) = theta.sin_cos();
    let sn = s * nn;
    (c, PI * s / (nn * (ONE + ONE / (sn * sn).scale2(8.0))))
}

fn bessel_j0_zero_estimate(k: usize) -> f64 {
    const J: [f64; 5] = [
        2.404_825_557_695_772_8,
        5.520_078_110_286_310_6,
        8.653_727_912_911_012_2,
        11.791_534_439_014_281_6,
        14.930_917_708_487_785_9,
    ];
    if k <= 5 {
        return J[k - 1];
    }
    let b = std::f64::consts::PI * (k as f64 - 0.25);
    let r = 1.0 / (8.0 * b);
    b + r - 124.0 / 3.0 * r * r * r + 120_928.0 / 15.0 * r.powi(5)
}

/// The i-th node from the right and its weight, i = 1..=n, of the rule of the first kind.
pub fn chebyshev1_node(n: usize, i: usize) -> (Dd, Dd) {
    let nn = dd(n as f64);
    ((PI * dd(2.0 * i as f64 - 1.0) / nn.scale2(2.0)).cos(), PI / nn)
}

/// The same for the second kind.
pub fn chebyshev2_node(n: usize, i: usize) -> (Dd, Dd) {
    let n1 = dd(n as f64 + 1.0);
    let (s, c) = (PI * dd(i as f64) / n1).sin_cos();
    (c, PI / n1 * s * s)
}

fn chebyshev(n: usize, node: fn(usize, usize) -> (Dd, Dd), mu0: Dd) -> RefRule {
    let (nodes, weights) = (1..=n).rev().map(|i| node(n, i)).unzip();
    RefRule { nodes, weights, mu0 }
}

pub fn chebyshev1(n: usize) -> RefRule {
    chebyshev(n, chebyshev1_node, PI)
}

pub fn chebyshev2(n: usize) -> RefRule {
    chebyshev(n, chebyshev2_node, PI.scale2(0.5))
}

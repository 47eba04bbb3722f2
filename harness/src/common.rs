//! The rules under test behind one interface, their reference solutions and tolerances, and the
//! generators that several properties share.

use crate::dd::*;
use crate::reference::*;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::num::{NonZeroU32, NonZeroUsize};

/// An f64 that survives JSON, whatever its value.
#[derive(Clone, Copy, PartialEq)]
pub struct X(pub f64);
impl std::fmt::Debug for X {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for X {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_nan() {
            // the payload decides whether it is a signalling one
            return s.serialize_str(&format!("NaN:{:x}", self.0.to_bits()));
        }
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for X {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(bits) = s.strip_prefix("NaN:") {
            return u64::from_str_radix(bits, 16).map(|b| X(f64::from_bits(b))).map_err(serde::de::Error::custom);
        }
        s.parse().map(X).map_err(serde::de::Error::custom)
    }
}

pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).expect("degree is positive")
}
pub fn nz32(n: u32) -> NonZeroU32 {
    NonZeroU32::new(n).expect("degree is positive")
}
pub fn par(a: f64) -> FiniteAboveNegOneF64 {
    FiniteAboveNegOneF64::new(a).expect("a generated parameter is in range")
}

/// A Gaussian rule by name, degree and parameters.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Spec {
    Legendre(usize),
    Hermite(usize),
    Laguerre(usize, X),
    Jacobi(usize, X, X),
    Chebyshev1(usize),
    Chebyshev2(usize),
}
use Spec::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Rule {
    Leg(GaussLegendre),
    Her(GaussHermite),
    Lag(GaussLaguerre),
    Jac(GaussJacobi),
    C1(GaussChebyshevFirstKind),
    C2(GaussChebyshevSecondKind),
}

/// Runs the same expression on the rule inside, whichever it is.
#[macro_export]
macro_rules! each_rule {
    ($rule:expr, $r:ident => $body:expr) => {
        match $rule {
            $crate::common::Rule::Leg($r) => $body,
            $crate::common::Rule::Her($r) => $body,
            $crate::common::Rule::Lag($r) => $body,
            $crate::common::Rule::Jac($r) => $body,
            $crate::common::Rule::C1($r) => $body,
            $crate::common::Rule::C2($r) => $body,
        }
    };
}

impl Spec {
    pub fn n(&self) -> usize {
        match *self {
            Legendre(n) | Hermite(n) | Laguerre(n, _) | Jacobi(n, _, _) | Chebyshev1(n)
            | Chebyshev2(n) => n,
        }
    }
    pub fn with_n(self, n: usize) -> Spec {
        match self {
            Legendre(_) => Legendre(n),
            Hermite(_) => Hermite(n),
            Laguerre(_, a) => Laguerre(n, a),
            Jacobi(_, a, b) => Jacobi(n, a, b),
            Chebyshev1(_) => Chebyshev1(n),
            Chebyshev2(_) => Chebyshev2(n),
        }
    }
    pub fn build(&self) -> Rule {
        match *self {
            Legendre(n) => Rule::Leg(GaussLegendre::new(nz(n))),
            Hermite(n) => Rule::Her(GaussHermite::new(nz(n))),
            Laguerre(n, a) => Rule::Lag(GaussLaguerre::new(nz(n), par(a.0))),
            Jacobi(n, a, b) => Rule::Jac(GaussJacobi::new(nz(n), par(a.0), par(b.0))),
            Chebyshev1(n) => Rule::C1(GaussChebyshevFirstKind::new(nz(n))),
            Chebyshev2(n) => Rule::C2(GaussChebyshevSecondKind::new(nz(n))),
        }
    }
    /// Rules whose domain of integration is given by the caller.
    pub fn finite_domain(&self) -> bool {
        !matches!(self, Hermite(_) | Laguerre(..))
    }
    pub fn golub_welsch(&self) -> bool {
        match *self {
            Hermite(_) | Laguerre(..) => true,
            Jacobi(_, a, b) => !delegated(a.0, b.0),
            _ => false,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Legendre(_) => "legendre",
            Hermite(_) => "hermite",
            Laguerre(..) => "laguerre",
            Jacobi(..) => "jacobi",
            Chebyshev1(_) => "chebyshev1",
            Chebyshev2(_) => "chebyshev2",
        }
    }
    /// The recurrence coefficients of the orthonormal polynomials, and the zeroth moment.
    pub fn matrix(&self, n: usize) -> JacobiMatrix {
        match *self {
            Legendre(_) => jacobi_matrix(n, 0.0, 0.0),
            Hermite(_) => hermite_matrix(n),
            Laguerre(_, a) => laguerre_matrix(n, a.0),
            Jacobi(_, a, b) => jacobi_matrix(n, a.0, b.0),
            Chebyshev1(_) => jacobi_matrix(n, -0.5, -0.5),
            Chebyshev2(_) => jacobi_matrix(n, 0.5, 0.5),
        }
    }
    pub fn mu0(&self) -> Dd {
        self.matrix(1).mu0
    }
    pub fn reference(&self) -> RefRule {
        let n = self.n();
        match *self {
            Chebyshev1(_) => chebyshev1(n),
            Chebyshev2(_) => chebyshev2(n),
            Legendre(_) => legendre(n),
            Jacobi(_, a, b) if (a.0, b.0) == (0.0, 0.0) => legendre(n),
            Jacobi(_, a, b) if (a.0, b.0) == (-0.5, -0.5) => chebyshev1(n),
            Jacobi(_, a, b) if (a.0, b.0) == (0.5, 0.5) => chebyshev2(n),
            _ => solve(&self.matrix(n)),
        }
    }
    /// The weights' relative error that comes with the total weight alone.
    pub fn mu0_rel_tol(&self) -> f64 {
        // calibrated on the gamma function approximation, see `gq-check calib`
        let size = |s: f64| 3e-14 + 6e-14 * s.min(30.0) + 1e-14 * (s - 100.0).max(0.0);
        match *self {
            Laguerre(_, a) => size(a.0.abs()),
            Jacobi(_, a, b) if !delegated(a.0, b.0) => size(a.0.abs() + b.0.abs()),
            _ => 5e-15,
        }
    }
    /// Known finding: odd-degree Jacobi rules with different parameters have their middle node
    /// replaced by zero.
    pub fn middle_node_finding(&self) -> bool {
        matches!(*self, Jacobi(n, a, b) if n >= 3 && n % 2 == 1 && a.0 != b.0)
    }
}

pub fn delegated(a: f64, b: f64) -> bool {
    (a, b) == (0.0, 0.0) || (a, b) == (-0.5, -0.5) || (a, b) == (0.5, 0.5)
}

pub const MIDDLE: &str = "jacobi-odd-middle-node-zero";

fn legendre(n: usize) -> RefRule {
    let mut nodes = vec![ZERO; n];
    let mut weights = vec![ZERO; n];
    for k in 1..=n.div_ceil(2) {
        let (x, w) = legendre_node(n, k);
        nodes[n - k] = x;
        weights[n - k] = w;
        nodes[k - 1] = -x;
        weights[k - 1] = w;
    }
    RefRule {
        nodes,
        weights,
        mu0: TWO,
    }
}

/// Allowed absolute errors of every node and weight.
pub struct Tol {
    pub dx: Vec<f64>,
    pub dw: Vec<f64>,
}

/// Legendre and Chebyshev nodes are evaluated one by one from closed forms or expansions that are
/// good to machine precision. The Golub-Welsch rules come from a backward stable symmetric
/// eigenvalue solver: the nodes are good to a multiple of eps times the norm of the matrix, and
/// the eigenvector components (square roots of the weights over the total weight) to that
/// perturbation over the distance to the nearest other node.
pub fn tolerances(spec: &Spec, r: &RefRule) -> Tol {
    let n = spec.n();
    let nf = n as f64;
    let kind = match *spec {
        Jacobi(_, a, b) if (a.0, b.0) == (0.0, 0.0) => Legendre(n),
        Jacobi(_, a, b) if (a.0, b.0) == (-0.5, -0.5) => Chebyshev1(n),
        Jacobi(_, a, b) if (a.0, b.0) == (0.5, 0.5) => Chebyshev2(n),
        s => s,
    };
    match kind {
        Legendre(_) => Tol {
            dx: vec![LEG_DX; n],
            dw: r.weights.iter().map(|w| w.f() * LEG_DW).collect(),
        },
        Chebyshev1(_) => Tol {
            dx: vec![2.5e-15; n],
            dw: r.weights.iter().map(|w| w.f() * 2e-15).collect(),
        },
        Chebyshev2(_) => Tol {
            dx: vec![2.5e-15; n],
            dw: r
                .weights
                .iter()
                .map(|w| {
                    let s2 = w.f() / (std::f64::consts::PI / (nf + 1.0));
                    std::f64::consts::PI / (nf + 1.0) * (s2 * 4e-15 + s2.sqrt() * 4e-15)
                })
                .collect(),
        },
        _ => {
            // the single Jacobi node may be as good as zero; its error is measured as that of a
            // rule with two nodes
            let m = spec.matrix(if matches!(spec, Jacobi(..)) { n.max(2) } else { n });
            let scale = m
                .diag
                .iter()
                .chain(m.off.iter())
                .map(|x| x.hi.abs())
                .fold(0.0, f64::max);
            let e = gw_noise(n) * scale;
            let mu0 = r.mu0.f();
            let rel = spec.mu0_rel_tol();
            let dw = (0..n)
                .map(|i| {
                    let x = r.nodes[i].f();
                    let mut gap = f64::INFINITY;
                    if i > 0 {
                        gap = gap.min(x - r.nodes[i - 1].f());
                    }
                    if i + 1 < n {
                        gap = gap.min(r.nodes[i + 1].f() - x);
                    }
                    let delta = gw_vector(n) * scale / gap + 3e-15 * (1.0 + nf.sqrt());
                    let w = r.weights[i].f();
                    let s = (w / mu0).max(0.0).sqrt();
                    mu0 * (2.0 * s * delta + delta * delta) + w * rel
                })
                .collect();
            Tol {
                dx: vec![e; n],
                dw,
            }
        }
    }
}

pub const LEG_DX: f64 = 2.5e-15;
pub const LEG_DW: f64 = 4e-15;

pub fn gw_noise(n: usize) -> f64 {
    // grows with sqrt(n) nearly everywhere, and faster where a parameter is within 1e-10 of -1, which
    // all but splits the matrix
    let n = n as f64;
    4e-15 * (1.0 + n.sqrt()) * (1.0 + n / 300.0)
}
pub fn gw_vector(n: usize) -> f64 {
    2e-15 * (1.0 + (n as f64).sqrt())
}

impl Rule {
    pub fn pairs(&self) -> &[(f64, f64)] {
        each_rule!(self, r => r.as_node_weight_pairs())
    }
    pub fn degree(&self) -> usize {
        each_rule!(self, r => r.degree())
    }
    /// `a` and `b` are ignored by the rules with a fixed domain.
    pub fn integrate<F: FnMut(f64) -> f64>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            Rule::Leg(r) => r.integrate(a, b, f),
            Rule::Her(r) => r.integrate(f),
            Rule::Lag(r) => r.integrate(f),
            Rule::Jac(r) => r.integrate(a, b, f),
            Rule::C1(r) => r.integrate(a, b, f),
            Rule::C2(r) => r.integrate(a, b, f),
        }
    }
    #[cfg(all(feature = "full", any(feature = "all", feature = "c12")))]
    pub fn par_integrate<F: Fn(f64) -> f64 + Sync>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            Rule::Leg(r) => r.par_integrate(a, b, f),
            Rule::Her(r) => r.par_integrate(f),
            Rule::Lag(r) => r.par_integrate(f),
            Rule::Jac(r) => r.par_integrate(a, b, f),
            Rule::C1(r) => r.par_integrate(a, b, f),
            Rule::C2(r) => r.par_integrate(a, b, f),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// generators

/// Degrees with weight on the small ones and on the boundaries where the code changes method.
pub fn degrees(max: usize) -> BoxedStrategy<usize> {
    let m = max;
    let clamp = move |v: usize| v.clamp(1, m);
    prop_oneof![
        4 => 1usize..=12,
        4 => 1usize..=m,
        2 => (0.0f64..1.0).prop_map(move |u| clamp(((m as f64).powf(u)).round() as usize)),
        1 => prop::sample::select(vec![1usize, 2, 3, 4, 5, 19, 20, 21, 22, 23, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129])
            .prop_map(clamp),
    ]
    .boxed()
}

fn next_up(x: f64) -> f64 {
    x.next_up()
}

/// Parameters in (-1, max].
pub fn params(max: f64) -> BoxedStrategy<f64> {
    let m = max;
    let clamp = move |v: f64| if v > -1.0 && v <= m { v } else { v.clamp(-0.75, m) };
    prop_oneof![
        3 => prop::sample::select(vec![
            0.0, 0.5, -0.5, 1.0, 2.0, 3.0, -0.25, -0.75, 0.25, 1.5, -1.0 / 3.0, 1.0 / 3.0, -0.9, -0.1, 10.0, 4.0, -0.0,
        ]).prop_map(clamp),
        3 => (-1.0f64..3.0).prop_map(move |v| clamp(if v == -1.0 { -0.5 } else { v })),
        2 => (-99i32..400).prop_map(move |k| clamp(f64::from(k) / 100.0)),
        2 => (0.5f64..12.0).prop_map(|u| -1.0 + 10f64.powf(-u)),
        2 => (-1.0f64..1.0).prop_map(move |u| clamp(m.powf(u.abs()))),
        1 => (0.0f64..1.0).prop_map(move |u| clamp(u * m)),
        1 => (1.0f64..17.0, any::<bool>()).prop_map(|(u, s)| if s { 10f64.powf(-u) } else { -10f64.powf(-u) }),
        1 => prop::sample::select(vec![next_up(-1.0), next_up(next_up(-1.0)), -0.5f64.next_up(), 0.5f64.next_down(), f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-300]).prop_map(clamp),
        1 => Just(m),
    ]
    .boxed()
}

/// Pairs of Jacobi parameters, including the lines and points where the formulas are delicate.
pub fn param_pairs(max: f64) -> BoxedStrategy<(f64, f64)> {
    let ok = |v: f64| if v > -1.0 { v } else { -0.5 };
    prop_oneof![
        6 => (params(max), params(max)),
        3 => params(max).prop_map(|a| (a, a)),
        2 => (params(max), params(1.0)).prop_map(move |(a, e)| (a, ok(a + e * 1e-9))),
        // alpha + beta close to -1
        2 => (-0.999f64..-0.001, prop_oneof![Just(0.0), (1.0f64..17.0).prop_map(|u| 10f64.powf(-u)), (1.0f64..17.0).prop_map(|u| -10f64.powf(-u))])
            .prop_map(move |(a, e)| (a, ok(-1.0 - a + e))),
        // alpha + beta close to 0
        1 => (-0.999f64..0.999, prop_oneof![Just(0.0), (1.0f64..17.0).prop_map(|u| 10f64.powf(-u))])
            .prop_map(move |(a, e)| (a, ok(-a + e))),
        // next to the parameters that are delegated to other rules
        1 => (prop::sample::select(vec![-0.5f64, 0.0, 0.5]), -3i32..=3, -3i32..=3).prop_map(|(c, i, j)| {
            let step = |mut v: f64, k: i32| {
                for _ in 0..k.abs() { v = if k > 0 { v.next_up() } else { v.next_down() }; }
                v
            };
            (step(c, i), step(c, j))
        }),
        1 => (prop::sample::select(vec![-0.5f64, 0.5, 0.0, 1.0]), prop::sample::select(vec![-0.5f64, 0.5, 0.0, 1.0])),
    ]
    .boxed()
}

pub const LAGUERRE_MAX: f64 = 170.0;
// keeps the total weight, which grows like 2^(alpha+beta+1)/(1+min), representable
pub const JACOBI_MAX: f64 = 600.0;

/// Any of the six rules; `gw_max` bounds the degree of the Golub-Welsch rules, `max` the others.
pub fn specs(gw_max: usize, max: usize) -> BoxedStrategy<Spec> {
    prop_oneof![
        2 => degrees(max).prop_map(Legendre),
        1 => degrees(gw_max).prop_map(Hermite),
        2 => (degrees(gw_max), params(LAGUERRE_MAX)).prop_map(|(n, a)| Laguerre(n, X(a))),
        3 => (degrees(gw_max), param_pairs(JACOBI_MAX)).prop_map(|(n, (a, b))| Jacobi(n, X(a), X(b))),
        1 => degrees(max).prop_map(Chebyshev1),
        1 => degrees(max).prop_map(Chebyshev2),
    ]
    .boxed()
}

/// Rules of degrees that random generation reaches rarely or never: next to powers of two beyond
/// the reach of 8-bit and 16-bit indices, Golub-Welsch rules above 256.
pub fn large_specs(thorough: bool) -> Vec<Spec> {
    let mut v = vec![];
    for n in if thorough { vec![256, 257, 1024, 65_535, 65_537, 131_075, 1_000_003] } else { vec![256, 257, 1024, 65_537, 131_075] } {
        v.extend([Legendre(n), Chebyshev1(n), Chebyshev2(n)]);
    }
    v.extend([Hermite(256), Hermite(257), Hermite(301), Laguerre(258, X(40.0)), Laguerre(301, X(0.5))]);
    v.extend([Jacobi(257, X(2.0), X(2.0)), Jacobi(258, X(50.0), X(2.0)), Jacobi(301, X(0.25), X(-0.5)), Jacobi(2048, X(0.5), X(0.5)), Jacobi(65_537, X(0.0), X(0.0))]);
    if thorough {
        v.extend([Hermite(515), Laguerre(520, X(-0.5)), Jacobi(513, X(-0.25), X(3.0)), Jacobi(1025, X(0.3), X(0.3))]);
    }
    v
}

/// Ordinary integration limits (either order), up to a few orders of magnitude in size.
pub fn intervals() -> BoxedStrategy<(X, X)> {
    prop_oneof![
        3 => prop::sample::select(vec![(-1.0, 1.0), (0.0, 1.0), (1.0, -1.0), (0.0, 2.0), (-3.0, 7.5), (1.0, 2.0), (5.0, 2.0)]),
        4 => (-10.0f64..10.0, 0.01f64..20.0).prop_map(|(a, d)| (a, a + d)),
        2 => (-10.0f64..10.0, 0.01f64..20.0).prop_map(|(a, d)| (a + d, a)),
        1 => (-6.0f64..6.0, -1.0f64..1.0).prop_map(|(e, c)| { let s = 10f64.powf(e); (c * s, c * s + s) }),
        1 => (-6.0f64..6.0, -1.0f64..1.0).prop_map(|(e, c)| { let s = 10f64.powf(e); (c * s + s, c * s) }),
    ]
    .prop_map(|(a, b)| (X(a), X(b)))
    .boxed()
}

/// What an item of an iterator is compared by.
pub type Key = (u64, u64);

pub fn key1(x: f64) -> Key {
    (x.to_bits(), 0)
}
pub fn key2(p: (f64, f64)) -> Key {
    (p.0.to_bits(), p.1.to_bits())
}

/// A value in [-1, 1) that depends on every bit of `x` and `salt`.
pub fn hashed(x: f64, salt: u64) -> f64 {
    let mut z = x.to_bits() ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^= z >> 31;
    (z >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

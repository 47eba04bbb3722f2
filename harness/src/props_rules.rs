//! C01-C07: the nodes and weights themselves, and the exactness they buy.

use crate::common::*;
use crate::dd::*;
use crate::engine::*;
use crate::reference::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Compares a rule with a reference, node by node.
pub fn compare_rule(spec: &Spec, rule: &Rule, r: &RefRule, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
    let n = spec.n();
    let p = rule.pairs();
    obs.ensure(p.len() == n && rule.degree() == n, || {
        format!("{spec:?}: {} pairs, degree() {}", p.len(), rule.degree())
    })?;
    let tol = tolerances(spec, r);
    let noun = if spec.golub_welsch() { ["gw node", "gw weight"] } else { ["node", "weight"] };
    for i in 0..n {
        let (x, w) = p[i];
        let ex = (dd(x) - r.nodes[i]).f();
        let ew = (dd(w) - r.weights[i]).f();
        let middle = i == n / 2 && spec.middle_node_finding();
        if middle && x == 0.0 {
            if !(ex.abs() <= tol.dx[i]) {
                obs.known_key = Some(MIDDLE);
                obs.ensure(ctx.known.contains(MIDDLE), || {
                    format!("{spec:?}: the middle node is 0 instead of {:e}", r.nodes[i].f())
                })?;
            }
        } else {
            obs.within(noun[0], ex, tol.dx[i], || {
                format!("{spec:?} node {i} is {x:e}, should be {:e}", r.nodes[i].f())
            })?;
        }
        obs.within(noun[1], ew, tol.dw[i], || {
            format!("{spec:?} weight {i} is {w:e}, should be {:e}", r.weights[i].f())
        })?;
    }
    Ok(())
}

/// Compares the ends and a sample of the nodes in between of a Chebyshev rule too large to compare
/// in full.
fn sampled_chebyshev(spec: &Spec, obs: &mut Obs) -> Result<(), String> {
    let n = spec.n();
    let rule = spec.build();
    let p = rule.pairs();
    obs.ensure(p.len() == n && rule.degree() == n, || format!("{spec:?}: {} pairs, degree() {}", p.len(), rule.degree()))?;
    let first = matches!(spec, Spec::Chebyshev1(_));
    for i in (1..=300).chain((301..n - 300).step_by(9_973)).chain(n - 300..=n) {
        let (rx, rw) = if first { chebyshev1_node(n, i) } else { chebyshev2_node(n, i) };
        let (x, w) = p[n - i];
        obs.within("node", (dd(x) - rx).f(), 2.5e-15, || {
            format!("{spec:?} node {} is {x:e}, should be {:e}", n - i, rx.f())
        })?;
        let h = std::f64::consts::PI / (n as f64 + 1.0);
        let tol = if first { rw.f() * 2e-15 } else { rw.f() * 4e-15 + (rw.f() * h).sqrt() * 4e-15 };
        obs.within("weight", (dd(w) - rw).f(), tol, || {
            format!("{spec:?} weight {} is {w:e}, should be {:e}", n - i, rw.f())
        })?;
    }
    Ok(())
}

/// One term per polynomial: terms that cancel would leave the rounding error of huge values.
fn merged(terms: Vec<(usize, f64)>) -> Vec<(usize, f64)> {
    let mut out: Vec<(usize, f64)> = vec![];
    for (k, c) in terms {
        match out.iter_mut().find(|t| t.0 == k) {
            Some(t) => t.1 += c,
            None => out.push((k, c)),
        }
    }
    out
}

/// A single fixed input that shows the known finding, and whether it still does.
pub fn middle_probe() -> (&'static str, String, bool) {
    let spec = Spec::Jacobi(5, X(1.0), X(0.0));
    let r = spec.reference();
    let p = spec.build();
    let still = p.pairs()[2].0 == 0.0;
    (
        MIDDLE,
        format!(
            "{MIDDLE}: GaussJacobi::new(5, 1, 0) has middle node {:?} instead of {:?} (every odd degree >= 3 with alpha != beta; pinned by the existing tests)",
            p.pairs()[2].0,
            r.nodes[2].f()
        ),
        still,
    )
}

// ------------------------------------------------------------------------------------------ C01

pub struct LegendreNodes;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LegCase {
    /// every node of the rule
    Full(usize),
    /// the k-th nodes from both ends, and the nodes at the given fractions
    Sampled { n: usize, edge: Vec<usize>, at: Vec<X> },
    /// every `step`-th node that is at least 4000 nodes away from the ends
    Bulk { n: usize, step: usize },
}

impl Prop for LegendreNodes {
    type Case = LegCase;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> String {
        "cases: Gauss-Legendre rules; every degree of an initial range in full (all nodes), then log-uniform degrees with nodes sampled at both ends and in the bulk; oracle: Newton iteration on the three-term recurrence in double-double arithmetic, and for dense samples of the nodes at least 4000 nodes away from the ends of large rules the phase function of Legendre's equation (itself tested against the recurrence). Non-trivial: degree >= 6 (the existing tests tabulate a handful of small rules).".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["nodes are accepted within 2.5e-15 absolute, weights within 4e-15 relative; observed worst case on the unchanged tree is about a quarter of that".into()]
    }
    fn grid(&self, ctx: &Ctx) -> Vec<LegCase> {
        let max = match (ctx.variant, ctx.thorough()) {
            ("full", false) => 800,
            ("full", true) => 2500,
            (_, false) => 400,
            (_, true) => 1200,
        };
        let mut v: Vec<LegCase> = (1..=max).rev().map(LegCase::Full).collect();
        for n in ctx.pick(vec![1009, 1024, 2047, 4096, 8193], vec![1009, 1024, 2047, 4096, 8193, 16_385, 30_001]) {
            v.insert(0, LegCase::Full(n));
        }
        for n in [100_000usize, 262_144, 1_000_000] {
            v.insert(0, LegCase::Sampled { n, edge: vec![1, 2, 20, 21, 22, 23, 40], at: vec![X(0.1), X(0.3), X(0.5)] });
        }
        // beyond what single precision can count
        for n in [65_537, 131_072, 1_000_003, 8_388_611] {
            v.insert(0, LegCase::Bulk { n, step: n / 60_000 });
        }
        v.insert(0, LegCase::Bulk { n: ctx.pick(40_000_003, 80_000_001), step: 331 });
        v.insert(0, LegCase::Sampled { n: 16_777_219, edge: vec![1, 22], at: vec![X(0.35)] });
        if ctx.thorough() {
            v.insert(0, LegCase::Sampled { n: 33_554_467, edge: vec![2, 21, 60], at: vec![X(0.2), X(0.45)] });
        }
        v
    }
    fn grid_note(&self, ctx: &Ctx) -> Option<String> {
        Some(format!("every node of every degree 1..={} compared", match (ctx.variant, ctx.thorough()) {
            ("full", false) => 800,
            ("full", true) => 2500,
            (_, false) => 400,
            (_, true) => 1200,
        }))
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<LegCase> {
        let max = ctx.pick(300_000f64, 2_000_000f64);
        let n = (0.0f64..1.0).prop_map(move |u| (101.0 * (max / 101.0).powf(u * u)).round() as usize);
        let sampled = (
            n,
            prop::collection::vec(prop_oneof![3 => 1usize..=60, 1 => (0.0f64..1.0).prop_map(|u| 4000f64.powf(u).round() as usize)], 1..4),
            prop::collection::vec((0.0f64..1.0).prop_map(X), 1..4),
        )
            .prop_map(|(n, edge, at)| LegCase::Sampled { n, edge, at });
        let bulk = (0.0f64..1.0, 1usize..=40).prop_map(move |(u, step)| {
            let n = (9_000.0 * (max / 9_000.0).powf(u)).round() as usize;
            LegCase::Bulk { n, step: step + n / 20_000 }
        });
        let full = (ctx.pick(801usize, 2501)..=ctx.pick(3000, 9000)).prop_map(LegCase::Full);
        prop_oneof![80 => sampled, 20 => bulk, 2 => full].boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(2500, 30_000)
    }
    fn check(&self, c: &LegCase, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        match c {
            LegCase::Full(n) => {
                let spec = Spec::Legendre(*n);
                obs.nontrivial = *n >= 6;
                obs.label(if *n <= 100 { "tabulated degree, every node" } else { "asymptotic degree, every node" });
                compare_rule(&spec, &spec.build(), &spec.reference(), ctx, obs)
            }
            LegCase::Bulk { n, step } => {
                let n = *n;
                obs.nontrivial = n >= 8_000;
                obs.label("nodes away from the ends by the asymptotic phase");
                let rule = Spec::Legendre(n).build();
                let p = rule.pairs();
                obs.ensure(p.len() == n && rule.degree() == n, || format!("degree {n}: {} pairs", p.len()))?;
                for k in (4000..=n.div_ceil(2)).step_by((*step).max(1)) {
                    let (rx, rw) = legendre_node_bulk(n, k);
                    for (i, sign) in [(n - k, 1.0), (k - 1, -1.0)] {
                        let (x, w) = p[i];
                        obs.within("node", (dd(x) - rx.scale2(sign)).f(), LEG_DX, || {
                            format!("Legendre degree {n}, node {i} is {x:e}, should be {:e}", sign * rx.f())
                        })?;
                        obs.within("weight", ((dd(w) - rw) / rw).f(), LEG_DW, || {
                            format!("Legendre degree {n}, weight {i} is {w:e}, should be {:e}", rw.f())
                        })?;
                    }
                }
                Ok(())
            }
            LegCase::Sampled { n, edge, at } => {
                let n = *n;
                obs.nontrivial = true;
                obs.label(if n > 10_000 { "degree > 10^4, sampled nodes" } else { "degree <= 10^4, sampled nodes" });
                let rule = Spec::Legendre(n).build();
                let p = rule.pairs();
                obs.ensure(p.len() == n && rule.degree() == n, || format!("degree {n}: {} pairs", p.len()))?;
                let mut ks: Vec<usize> = edge.iter().map(|k| (*k).min(n)).collect();
                ks.extend(at.iter().map(|u| ((u.0 * n as f64) as usize + 1).min(n)));
                for k in ks {
                    let (rx, rw) = legendre_node(n, k);
                    for (i, sign) in [(n - k, 1.0), (k - 1, -1.0)] {
                        let (x, w) = p[i];
                        obs.within("node", (dd(x) - rx.scale2(sign)).f(), LEG_DX, || {
                            format!("Legendre degree {n}, node {i} is {x:e}, should be {:e}", sign * rx.f())
                        })?;
                        obs.within("weight", ((dd(w) - rw) / rw).f(), LEG_DW, || {
                            format!("Legendre degree {n}, weight {i} is {w:e}, should be {:e}", rw.f())
                        })?;
                    }
                }
                Ok(())
            }
        }
    }
}

// -------------------------------------------------------------------------------- C02, C03, C04

/// Nodes and weights of one Golub-Welsch family (or of the Chebyshev rules) against the reference.
pub struct Family {
    pub id: &'static str,
}

/// Degrees that take a while, with parameters of all kinds.
const MIDSIZE: [(usize, f64, f64); 12] = [
    (1000, 2.0, 0.0),
    (901, -0.75, 1.5),
    (800, 100.0, 33.0),
    (601, 1.0, 1.0),
    (512, -0.5, 0.5),
    (500, 0.0, -0.5),
    (450, 3.5, 0.25),
    (401, 12.0, -0.9),
    (350, -0.99, -0.99),
    (300, 0.75, 0.0),
    (257, 150.0, 0.3),
    (200, -0.25, 7.0),
];

/// Degrees up to `m`, and now and then up to 500.
fn some_larger(m: usize) -> BoxedStrategy<usize> {
    prop_oneof![150 => degrees(m), 1 => m..=500].boxed()
}

impl Prop for Family {
    type Case = Spec;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        match self.id {
            "C02" => "cases: Gauss-Hermite rules of every degree of an initial range, plus random larger degrees; oracle: implicit QL iteration in double-double arithmetic on the recurrence matrix. Non-trivial: degree >= 3.",
            "C03" => "cases: (degree, alpha), alpha drawn from special values, decimals, a neighbourhood of -1, and up to 170 (where the total weight stops being representable); oracle: implicit QL iteration in double-double arithmetic. Non-trivial: degree >= 2 and alpha not 0.",
            "C04" => "cases: (degree, alpha, beta), parameters drawn independently, equal, nearly equal, on and next to the lines alpha+beta = -1 and 0, next to the delegated pairs, close to -1, and up to 600; oracle: implicit QL iteration in double-double arithmetic. Non-trivial: degree >= 2 and the pair is not one that is delegated to another rule.",
            _ => "cases: Gauss-Chebyshev rules of both kinds, every degree of an initial range, random degrees up to 10^5 and single ones to beyond 2^24 (there a sample of the nodes); oracle: the closed forms in double-double arithmetic. Non-trivial: degree >= 3.",
        }
        .into()
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = vec![];
        if self.id != "C05" {
            v.push("accuracy is that of a backward stable eigenvalue solver: nodes to 4e-15*(1+sqrt n) of the largest matrix entry; square roots of the normalised weights to 2e-15*(1+sqrt n) of it over the distance to the nearest node. Weights far below that floor are not resolved by the algorithm the crate documents, and are not constrained.".into());
        }
        if self.id == "C04" {
            v.push("known finding: the middle node of an odd-degree rule with alpha != beta may be exactly 0; all its other nodes and all its weights are checked".into());
        }
        v
    }
    fn grid(&self, ctx: &Ctx) -> Vec<Spec> {
        let mut v = vec![];
        match self.id {
            "C02" => {
                v.extend(ctx.pick(vec![1025, 1000, 600], vec![2049, 1500, 1025, 1000, 600]).into_iter().map(Spec::Hermite));
                v.extend([900, 801, 750, 701, 650, 550, 513, 512, 511, 500, 475, 450, 425, 400, 375, 360].map(Spec::Hermite));
                v.extend((1..=ctx.pick(240, 420)).rev().map(Spec::Hermite));
            }
            "C03" => {
                v.extend(ctx.pick(vec![1026, 700, 513], vec![2049, 1030, 700, 513]).into_iter().map(|n| Spec::Laguerre(n, X(0.5))));
                v.extend(MIDSIZE.map(|(n, a, _)| Spec::Laguerre(n, X(a))));
                for n in (1..=ctx.pick(40, 120)).rev() {
                    for a in [0.0, -0.5, 0.5, 1.0, 2.0, -0.9, 7.25, 60.0] {
                        v.push(Spec::Laguerre(n, X(a)));
                    }
                }
                for a in 0..=340 {
                    v.push(Spec::Laguerre(2, X(f64::from(a) * 0.5)));
                }
            }
            "C04" => {
                v.extend(ctx.pick(vec![1025, 700, 513], vec![2049, 1030, 700, 513]).into_iter().map(|n| Spec::Jacobi(n, X(0.25), X(-0.5))));
                v.extend(MIDSIZE.map(|(n, a, b)| Spec::Jacobi(n, X(a), X(b))));
                const P: [f64; 8] = [-0.75, -0.5, -0.25, 0.0, 0.5, 1.0, 2.0, 9.5];
                for n in (1..=ctx.pick(24, 80)).rev() {
                    for a in P {
                        for b in P {
                            v.push(Spec::Jacobi(n, X(a), X(b)));
                        }
                    }
                }
                for s in 0..=320 {
                    v.push(Spec::Jacobi(2, X(f64::from(s) * 0.5), X(1.25)));
                    v.push(Spec::Jacobi(2, X(-0.5), X(f64::from(s) * 0.5)));
                    v.push(Spec::Jacobi(1, X(f64::from(s) * 0.5), X(f64::from(s) * 0.25)));
                }
            }
            _ => {
                for n in ctx.pick(vec![16_777_219, 65_537, 131_075], vec![33_554_467, 16_777_219, 65_537, 131_075, 1_000_000, 4_194_304]) {
                    v.push(Spec::Chebyshev1(n));
                    v.push(Spec::Chebyshev2(n));
                }
                for n in (1..=ctx.pick(500, 2000)).rev() {
                    v.push(Spec::Chebyshev1(n));
                    v.push(Spec::Chebyshev2(n));
                }
            }
        }
        v
    }
    fn grid_note(&self, ctx: &Ctx) -> Option<String> {
        match self.id {
            "C02" => Some(format!("every degree 1..={} compared", ctx.pick(240, 420))),
            "C05" => Some(format!("every degree 1..={} of both kinds compared", ctx.pick(500, 2000))),
            _ => None,
        }
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<Spec> {
        let m = ctx.pick(160, 400);
        match self.id {
            "C02" => (ctx.pick(241usize, 421)..=ctx.pick(340, 520)).prop_map(Spec::Hermite).boxed(),
            "C03" => (some_larger(m), params(LAGUERRE_MAX)).prop_map(|(n, a)| Spec::Laguerre(n, X(a))).boxed(),
            "C04" => (some_larger(m), param_pairs(JACOBI_MAX))
                .prop_map(|(n, (a, b))| Spec::Jacobi(n, X(a), X(b)))
                .boxed(),
            _ => (degrees(ctx.pick(20_000, 200_000)), any::<bool>())
                .prop_map(|(n, k)| if k { Spec::Chebyshev1(n) } else { Spec::Chebyshev2(n) })
                .boxed(),
        }
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        match self.id {
            "C02" => ctx.pick(300, 1000),
            "C03" => ctx.pick(24_000, 160_000),
            "C04" => ctx.pick(28_000, 240_000),
            _ => ctx.pick(10_000, 80_000),
        }
    }
    fn check(&self, s: &Spec, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let n = s.n();
        obs.nontrivial = match *s {
            Spec::Laguerre(_, a) => n >= 2 && a.0 != 0.0,
            Spec::Jacobi(_, a, b) => n >= 2 && !delegated(a.0, b.0),
            _ => n >= 3,
        };
        obs.label(match n {
            1 => "degree 1",
            2..=10 => "degree 2..10",
            11..=60 => "degree 11..60",
            61..=200 => "degree 61..200",
            _ => "degree > 200",
        });
        match *s {
            Spec::Laguerre(_, a) => obs.label(match a.0 {
                a if a < -0.9 => "alpha < -0.9",
                a if a < 10.0 => "alpha in [-0.9, 10)",
                _ => "alpha >= 10",
            }),
            Spec::Jacobi(n, a, b) => {
                let s = a.0 + b.0;
                obs.label(match () {
                    _ if delegated(a.0, b.0) => "delegated parameters",
                    _ if a.0 == b.0 => "equal parameters",
                    _ if (s + 1.0).abs() < 1e-3 => "alpha+beta near -1",
                    _ if a.0.min(b.0) < -0.99 => "a parameter below -0.99",
                    _ if s > 140.0 => "alpha+beta > 140",
                    _ if n % 2 == 1 => "odd degree, different parameters",
                    _ => "even degree, different parameters",
                });
            }
            _ => {}
        }
        if n > 5_000_000 {
            return sampled_chebyshev(s, obs);
        }
        compare_rule(s, &s.build(), &s.reference(), ctx, obs)
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        if self.id == "C04" { vec![middle_probe()] } else { vec![] }
    }
}

// ------------------------------------------------------------------------------------------ C06

pub struct WellFormed;

impl Prop for WellFormed {
    type Case = Spec;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> String {
        "cases: rules of all six Gaussian families, degrees from 1 to 300, and single ones to 800 (Golub-Welsch), or to beyond 2^24 (the others), parameters over the whole range; oracle: invariants (count, order, domain with a rigorous bound on the distance of the extreme node from the boundary, sign, total weight, first moment). Non-trivial: degree >= 2.".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "nodes must be strictly inside the domain whenever a rigorous lower bound on their distance from its boundary exceeds the rounding error of the node".into(),
            "known finding: the middle node of odd-degree Jacobi rules with different parameters is skipped by the order check and by the first moment if it is exactly 0".into(),
        ]
    }
    fn grid(&self, ctx: &Ctx) -> Vec<Spec> {
        let mut v = vec![Spec::Legendre(1_000_000), Spec::Chebyshev1(1_000_000), Spec::Chebyshev2(1_000_000)];
        v.extend([Spec::Legendre(16_777_219), Spec::Chebyshev1(16_777_219), Spec::Chebyshev2(16_777_219)]);
        for n in ctx.pick(vec![620, 801], vec![620, 801, 1300, 2050]) {
            v.extend([Spec::Hermite(n), Spec::Laguerre(n, X(-0.5)), Spec::Laguerre(n, X(130.0)), Spec::Jacobi(n, X(2.5), X(-0.9)), Spec::Jacobi(n, X(90.0), X(90.0))]);
        }
        for n in 1..=130 {
            v.push(Spec::Legendre(n));
            v.push(Spec::Hermite(n));
            v.push(Spec::Chebyshev1(n));
            v.push(Spec::Chebyshev2(n));
            for (a, b) in [(0.0, 0.0), (0.5, -0.5), (-0.25, -0.75), (3.0, 3.0), (0.0, 1.0), (-0.5, -0.5), (0.5, 0.5)] {
                v.push(Spec::Jacobi(n, X(a), X(b)));
                v.push(Spec::Laguerre(n, X(a)));
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<Spec> {
        prop_oneof![
            8 => specs(ctx.pick(200, 300), 3000),
            1 => specs(30, ctx.pick(200_000, 1_000_000)),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(36_000, 400_000)
    }
    fn check(&self, s: &Spec, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let n = s.n();
        let nf = n as f64;
        obs.nontrivial = n >= 2;
        obs.label(s.name());
        let rule = s.build();
        let p = rule.pairs();
        obs.ensure(p.len() == n && rule.degree() == n, || {
            format!("{s:?}: {} pairs, degree() {}", p.len(), rule.degree())
        })?;
        let m = s.matrix(if matches!(s, Spec::Jacobi(..)) { n.max(2) } else { n });
        let mu0 = m.mu0;
        let scale = m.diag.iter().chain(m.off.iter()).map(|x| x.hi.abs()).fold(0.0, f64::max);
        let noise = if s.golub_welsch() { gw_noise(n) * scale } else { 2.5e-15 };
        // bounds of the domain, and how far from them the extreme nodes are at least
        let inf = f64::INFINITY;
        let (lo, hi, dlo, dhi) = match *s {
            Spec::Hermite(_) => (-inf, inf, 0.0, 0.0),
            Spec::Laguerre(_, a) => (0.0, inf, (1.0 + a.0) / nf, 0.0),
            _ => {
                let (a, b) = match *s {
                    Spec::Jacobi(_, a, b) => (a.0, b.0),
                    Spec::Legendre(_) => (0.0, 0.0),
                    Spec::Chebyshev1(_) => (-0.5, -0.5),
                    _ => (0.5, 0.5),
                };
                // the sum over the nodes of 1/(1-x) is n (n+alpha+beta+1) / (2 (alpha+1))
                let q = nf * (nf - 1.0 + (1.0 + a) + (1.0 + b));
                (-1.0, 1.0, 2.0 * (1.0 + b) / q, 2.0 * (1.0 + a) / q)
            }
        };
        let (dlo, dhi) = (dlo - noise, dhi - noise);
        let mid = if s.middle_node_finding() && p[n / 2].0 == 0.0 && ctx.known.contains(MIDDLE) { n / 2 } else { usize::MAX };
        let mut total = ZERO;
        let mut first = ZERO;
        let mut prev: Option<f64> = None;
        for (i, &(x, w)) in p.iter().enumerate() {
            obs.ensure(x.is_finite() && w.is_finite(), || format!("{s:?}: pair {i} is ({x:e}, {w:e})"))?;
            obs.ensure(w >= 0.0 && (w > 0.0 || s.golub_welsch()), || format!("{s:?}: weight {i} is {w:e}"))?;
            let lo_ok = if dlo > 0.0 { x > lo } else { x >= lo - noise };
            let hi_ok = if dhi > 0.0 { x < hi } else { x <= hi + noise };
            obs.ensure(lo_ok && hi_ok, || format!("{s:?}: node {i} is {x:?}, outside of ({lo}, {hi})"))?;
            if i != mid {
                if let Some(q) = prev {
                    obs.ensure(q < x, || format!("{s:?}: node {i} is {x:?} but the node before it is {q:?}"))?;
                }
                prev = Some(x);
            }
            let v = dd(w) / mu0;
            total += v;
            first += v * dd(x);
        }
        obs.within("total weight", (total - ONE).f(), s.mu0_rel_tol() + 4e-15 * (1.0 + nf.sqrt().min(40.0)), || {
            format!("{s:?}: the weights sum to {:e} times the total weight {:e}", total.f(), mu0.f())
        })?;
        if mid == usize::MAX {
            let want = m.diag[0];
            let tol = noise * 2.0 + scale * (s.mu0_rel_tol() + 4e-15 * (1.0 + nf.sqrt()));
            obs.within("first moment", (first - want).f(), tol, || {
                format!("{s:?}: the normalised first moment is {:e} instead of {:e}", first.f(), want.f())
            })?;
        }
        Ok(())
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        let spec = Spec::Jacobi(51, X(42.0), X(3.0));
        let rule = spec.build();
        let p = rule.pairs();
        let still = p[25].0 == 0.0 && p[26].0 < 0.0;
        vec![(MIDDLE, format!("{MIDDLE}: GaussJacobi::new(51, 42, 3) has nodes {:?}, {:?}, {:?} in its middle, out of order", p[24].0, p[25].0, p[26].0), still)]
    }
}

// ------------------------------------------------------------------------------------------ C07

/// Orthonormal polynomials of a family by their recurrence.
pub struct Orthonormal {
    m: JacobiMatrix,
    p0: Dd,
}
impl Orthonormal {
    pub fn new(spec: &Spec, max_degree: usize) -> Self {
        let m = spec.matrix(max_degree + 1);
        let p0 = ONE / m.mu0.sqrt();
        Self { m, p0 }
    }
    /// sum of c_j phi_j(t) over the (index, coefficient) terms, and its derivative.
    pub fn eval(&self, terms: &[(usize, f64)], t: Dd) -> (Dd, f64) {
        let top = terms.iter().map(|x| x.0).max().unwrap_or(0);
        let (mut q0, mut q1) = (ZERO, self.p0);
        let (mut d0, mut d1) = (0.0f64, 0.0f64);
        let (mut s, mut ds) = (ZERO, 0.0);
        for k in 0..=top {
            for &(j, c) in terms {
                if j == k {
                    s += q1 * dd(c);
                    ds += d1 * c;
                }
            }
            if k == top {
                break;
            }
            let below = if k == 0 { ZERO } else { self.m.off[k - 1] };
            let q2 = ((t - self.m.diag[k]) * q1 - below * q0) / self.m.off[k];
            let d2 = ((t - self.m.diag[k]).f() * d1 + q1.f() - below.f() * d0) / self.m.off[k].f();
            q0 = q1;
            q1 = q2;
            d0 = d1;
            d1 = d2;
        }
        (s, ds)
    }
}

pub struct Exactness;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PolyCase {
    pub spec: Spec,
    pub a: X,
    pub b: X,
    /// coefficients of two factors in the orthonormal basis: degree < n, and degree <= n
    pub p: Vec<(u16, X)>,
    pub q: Vec<(u16, X)>,
}

/// What a finding-shaped middle node changes in the sum, w_mid * (f(0) - f(x_mid)), and how far
/// off that may be.
pub fn middle_shift(spec: &Spec, rule: &Rule, r: &RefRule, tol: &Tol, dt: f64, ctx: &Ctx, obs: &mut Obs, f: impl Fn(Dd) -> Dd) -> (Dd, f64) {
    let i = spec.n() / 2;
    if spec.middle_node_finding() && ctx.known.contains(MIDDLE) && rule.pairs().get(i).is_some_and(|p| p.0 == 0.0) && r.nodes[i].f().abs() > tol.dx[i] {
        obs.known_key = Some(MIDDLE);
        let (f0, fx) = (f(ZERO), f(r.nodes[i]));
        let w = r.weights[i];
        // the rounding of the argument, twice over
        let near = [-dt, dt].map(|t| (f(dd(t)) - f0).f().abs()).into_iter().fold(0.0, f64::max);
        (w * (f0 - fx), f0.f().abs() * (tol.dw[i] + 3e-16 * (spec.n() as f64 + 8.0) * w.f()) + 2.0 * near * w.f())
    } else {
        (ZERO, 0.0)
    }
}

impl Prop for Exactness {
    type Case = PolyCase;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> String {
        "cases: a rule of any family, an interval (either orientation), and two polynomials in the orthonormal basis of the weight, of degree <= n-1 and <= n, whose product (degree <= 2n-1) is passed to integrate; oracle: the integral is the scalar product of the coefficients, by orthogonality, in double-double arithmetic. Non-trivial: the product's degree is at least n, beyond what interpolation alone gives.".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the tolerance is the first-order effect of the admitted node and weight errors (see C01-C05) plus the rounding of the sum; for high Golub-Welsch degrees that is far above machine precision relative to the integral, because the algorithm does not resolve tiny weights".into()]
    }
    fn grid(&self, ctx: &Ctx) -> Vec<PolyCase> {
        let mut v = vec![];
        let top = || vec![(u16::MAX, X(1.0))];
        let (a, b) = (X(1.75), X(-0.5));
        for spec in large_specs(ctx.thorough()) {
            let n = spec.n();
            if n <= 3000 {
                // degree 2n-1, and the square of the polynomial of degree n-1
                v.push(PolyCase { spec, a, b, p: top(), q: top() });
                v.push(PolyCase { spec, a, b, p: top(), q: vec![((n - 1) as u16, X(1.0)), (1, X(-0.5))] });
            } else if matches!(spec, Spec::Chebyshev1(_) | Spec::Chebyshev2(_)) {
                v.push(PolyCase { spec, a, b, p: vec![(0, X(1.0)), (3, X(-2.0))], q: vec![(0, X(0.5)), (3, X(1.5)), (1, X(1.0))] });
            }
        }
        for n in 1..=ctx.pick(130usize, 260) {
            let mut specs = vec![Spec::Legendre(n), Spec::Hermite(n), Spec::Chebyshev1(n), Spec::Chebyshev2(n)];
            specs.extend([0.0, -0.5, 3.0].map(|p| Spec::Laguerre(n, X(p))));
            specs.extend([(0.0, 0.0), (0.5, -0.5), (-0.25, -0.75), (2.0, 0.25)].map(|(p, q)| Spec::Jacobi(n, X(p), X(q))));
            for spec in specs {
                v.push(PolyCase { spec, a, b, p: top(), q: top() });
                v.push(PolyCase { spec, a, b, p: vec![(u16::MAX, X(1.0)), (0, X(0.5))], q: vec![((n - 1) as u16, X(1.0)), (0, X(-0.5))] });
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<PolyCase> {
        let coef = || prop_oneof![Just(1.0), Just(-1.0), -2.0f64..2.0].prop_map(X);
        let idx = || prop_oneof![2 => any::<u16>(), 2 => Just(u16::MAX), 1 => 0u16..4];
        (
            specs(ctx.pick(40, 120), ctx.pick(250, 600)),
            intervals(),
            prop::collection::vec((idx(), coef()), 1..4),
            prop::collection::vec((idx(), coef()), 1..4),
        )
            .prop_map(|(spec, (a, b), p, q)| PolyCase { spec, a, b, p, q })
            .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(50_000, 400_000)
    }
    fn check(&self, c: &PolyCase, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let s = &c.spec;
        let n = s.n();
        // u16::MAX selects the highest admissible degree
        let pick = |i: u16, top: usize| if i == u16::MAX { top } else { i as usize % (top + 1) };
        let p: Vec<(usize, f64)> = c.p.iter().map(|t| (pick(t.0, n - 1), t.1.0)).collect();
        let q: Vec<(usize, f64)> = c.q.iter().map(|t| (pick(t.0, n), t.1.0)).collect();
        let (p, q) = (merged(p), merged(q));
        let deg = p.iter().map(|t| t.0).max().unwrap() + q.iter().map(|t| t.0).max().unwrap();
        obs.nontrivial = deg >= n && n >= 2;
        obs.label(s.name());
        obs.label(if deg == 2 * n - 1 { "degree 2n-1" } else if deg >= n { "degree n..2n-2" } else { "degree < n" });
        let basis = Orthonormal::new(s, n);
        let (a, b) = if s.finite_domain() { (c.a.0, c.b.0) } else { (-1.0, 1.0) };
        let half = (dd(b) - dd(a)).scale2(0.5);
        let centre = (dd(b) + dd(a)).scale2(0.5);
        let scale = if s.finite_domain() { half } else { ONE };
        let to_t = |x: Dd| if s.finite_domain() { (x - centre) / half } else { x };
        let value = |t: Dd| basis.eval(&p, t).0 * basis.eval(&q, t).0;
        let mut exact = ZERO;
        for &(i, x) in &p {
            for &(j, y) in &q {
                if i == j {
                    exact += dd(x) * dd(y);
                }
            }
        }
        let r = s.reference();
        let tol = tolerances(s, &r);
        // rounding of the argument seen by the integrand
        let dt = if s.finite_domain() { 4e-16 * (a.abs() + b.abs() + half.f().abs()) / half.f().abs() } else { 0.0 };
        let mut bound = 0.0;
        for i in 0..n {
            let x = r.nodes[i];
            let (u, du) = basis.eval(&p, x);
            let (v, dv) = basis.eval(&q, x);
            let (u, v) = (u.f(), v.f());
            let w = r.weights[i].f();
            let f = (u * v).abs();
            let df = (du * v).abs() + (u * dv).abs();
            bound += df * (tol.dx[i] + dt) * (w + tol.dw[i]) + f * tol.dw[i] + f * w * 3e-16 * (n as f64 + 8.0);
            bound += du.abs() * dv.abs() * (tol.dx[i] + dt).powi(2) * w;
        }
        if !bound.is_finite() {
            // at the far nodes the polynomials exceed what a double can hold
            obs.label("values not representable");
            obs.nontrivial = false;
            return Ok(());
        }
        let rule = s.build();
        let (shift, shift_tol) = middle_shift(s, &rule, &r, &tol, dt, ctx, obs, value);
        bound += shift_tol;
        let want = (exact + shift) * scale;
        let got = rule.integrate(a, b, |x| value(to_t(dd(x))).f());
        let bound = 2.0 * bound * scale.f().abs() + 1e-300;
        if bound < 1e-9 * (1.0 + exact.f().abs()) * scale.f().abs() {
            obs.label("tolerance below 1e-9");
        }
        obs.within(if s.golub_welsch() { "gw integral" } else { "integral" }, (dd(got) - want).f(), bound, || {
            format!("{s:?} on [{a:?}, {b:?}], polynomial of degree {deg}: got {got:e}, should be {:e}", want.f())
        })
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        vec![middle_probe()]
    }
}

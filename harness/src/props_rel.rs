//! C17, C18, C22: relations between rules, and between builds.

use crate::common::*;
use crate::dd::*;
use crate::each_rule;
use crate::engine::*;
use crate::props_rules::middle_probe;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::thread::ThreadId;

// ------------------------------------------------------------------------------------------ C17

pub struct JacobiFacts;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum JacCase {
    /// parameters (0,0), (-1/2,-1/2), (1/2,1/2) and the conversions from the named rules
    Special(usize, u8),
    /// accessors return the parameters, cloning and comparing respect them
    Params(usize, X, X),
    /// exchanging the parameters mirrors the rule
    Mirror(usize, X, X),
    /// a small change of the parameters changes the rule little
    Continuity(usize, X, X, X),
}

fn close(
    what: &'static str,
    p: &[(f64, f64)],
    q: &[(f64, f64)],
    tol: &Tol,
    extra: f64,
    skip: usize,
    obs: &mut Obs,
    detail: impl Fn() -> String,
) -> Result<(), String> {
    obs.ensure(p.len() == q.len() && p.len() == tol.dx.len(), || format!("{}: {} and {} pairs", detail(), p.len(), q.len()))?;
    for i in 0..p.len() {
        if i != skip {
            obs.within(what, p[i].0 - q[i].0, 2.0 * tol.dx[i] + extra, || {
                format!("{}: node {i} is {:e} and {:e}", detail(), p[i].0, q[i].0)
            })?;
        }
        obs.within(what, p[i].1 - q[i].1, 2.0 * tol.dw[i] + extra * (p[i].1.abs() + q[i].1.abs()), || {
            format!("{}: weight {i} is {:e} and {:e}", detail(), p[i].1, q[i].1)
        })?;
    }
    Ok(())
}

impl Prop for JacobiFacts {
    type Case = JacCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> String {
        "cases: (a) degrees up to 2000 with the parameter pairs that name other rules, and the conversions from those rules; (b) any parameters: accessors, equality, clone; (c) exchanged parameters: mirrored rule; (d) parameters moved by a tiny step: rule moved little. Oracle: the other rule / the mirror image / the neighbouring rule. Non-trivial: degree >= 2.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<JacCase> {
        let mut v: Vec<JacCase> = ctx
            .pick(vec![65_537usize, 131_075, 4096], vec![1_000_003, 65_537, 131_075, 4096])
            .into_iter()
            .chain((1..=ctx.pick(400, 1200)).rev())
            .flat_map(|n| (0..3).map(move |k| JacCase::Special(n, k)))
            .collect();
        for s in large_specs(ctx.thorough()) {
            if let Spec::Jacobi(n, a, b) = s {
                if n <= 600 {
                    v.push(JacCase::Params(n, a, b));
                    v.push(JacCase::Mirror(n, a, b));
                }
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<JacCase> {
        let m = ctx.pick(50, 120);
        let moderate = || param_pairs(60.0);
        prop_oneof![
            1 => (degrees(2000), 0u8..3).prop_map(|(n, k)| JacCase::Special(n, k)),
            2 => (degrees(12), param_pairs(JACOBI_MAX)).prop_map(|(n, (a, b))| JacCase::Params(n, X(a), X(b))),
            3 => (degrees(m), moderate()).prop_map(|(n, (a, b))| JacCase::Mirror(n, X(a), X(b))),
            3 => (degrees(m), prop::sample::select(vec![(-0.5, -0.5), (0.0, 0.0), (0.5, 0.5), (-0.25, -0.75), (1.0, 1.0), (2.0, 2.0), (-0.5, 0.5), (0.3, 0.3)]), -15.0f64..-9.0)
                .prop_map(|(n, (a, b), e)| JacCase::Continuity(n, X(a), X(b), X(10f64.powf(e)))),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(250_000, 2_500_000)
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        vec![middle_probe()]
    }
    fn check(&self, c: &JacCase, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        match *c {
            JacCase::Special(n, k) => {
                obs.nontrivial = n >= 2;
                obs.label("named rule");
                let (v, plain, converted): (f64, Vec<(f64, f64)>, GaussJacobi) = match k {
                    0 => {
                        let r = GaussLegendre::new(nz(n));
                        (0.0, r.as_node_weight_pairs().to_vec(), GaussJacobi::from(r))
                    }
                    1 => {
                        let r = GaussChebyshevFirstKind::new(nz(n));
                        (-0.5, r.as_node_weight_pairs().to_vec(), r.into())
                    }
                    _ => {
                        let r = GaussChebyshevSecondKind::new(nz(n));
                        (0.5, r.as_node_weight_pairs().to_vec(), r.into())
                    }
                };
                let jac = GaussJacobi::new(nz(n), par(v), par(v));
                for (name, j) in [("constructed", &jac), ("converted", &converted)] {
                    obs.ensure(j.alpha().get() == v && j.beta().get() == v, || {
                        format!("degree {n}: the {name} rule reports alpha {}, beta {}, should be {v}", j.alpha(), j.beta())
                    })?;
                    obs.ensure(j.degree() == n, || format!("degree {n}: the {name} rule has degree {}", j.degree()))?;
                    for (i, (p, q)) in j.as_node_weight_pairs().iter().zip(&plain).enumerate() {
                        obs.within("named rule", p.0 - q.0, 2e-15, || format!("parameters {v}, degree {n}: node {i} of the {name} rule is {:e}, of the named rule {:e}", p.0, q.0))?;
                        obs.within("named rule", p.1 - q.1, 4e-15 * q.1.abs() + 1e-15 / n as f64, || format!("parameters {v}, degree {n}: weight {i} of the {name} rule is {:e}, of the named rule {:e}", p.1, q.1))?;
                    }
                }
                Ok(())
            }
            JacCase::Params(n, a, b) => {
                let (a, b) = (a.0, b.0);
                obs.nontrivial = n >= 2;
                obs.label("accessors");
                let j = GaussJacobi::new(nz(n), par(a), par(b));
                obs.ensure(j.alpha().get() == a && j.beta().get() == b && j.degree() == n, || {
                    format!("GaussJacobi::new({n}, {a:?}, {b:?}) reports alpha {}, beta {}, degree {}", j.alpha(), j.beta(), j.degree())
                })?;
                obs.ensure(j.clone() == j, || format!("GaussJacobi({n}, {a:?}, {b:?}) differs from its clone"))?;
                if a != b {
                    let k = GaussJacobi::new(nz(n), par(b), par(a));
                    obs.ensure(k != j, || format!("GaussJacobi({n}, {a:?}, {b:?}) equals the rule with exchanged parameters"))?;
                }
                if a <= LAGUERRE_MAX {
                    let l = GaussLaguerre::new(nz(n), par(a));
                    obs.ensure(l.alpha().get() == a && l.degree() == n, || {
                        format!("GaussLaguerre::new({n}, {a:?}) reports alpha {}, degree {}", l.alpha(), l.degree())
                    })?;
                    obs.ensure(l.clone() == l, || format!("GaussLaguerre({n}, {a:?}) differs from its clone"))?;
                }
                Ok(())
            }
            JacCase::Mirror(n, a, b) => {
                obs.nontrivial = n >= 2;
                obs.label("mirror");
                let s = Spec::Jacobi(n, a, b);
                let p = s.build().pairs().to_vec();
                let mut q: Vec<(f64, f64)> = Spec::Jacobi(n, b, a).build().pairs().iter().map(|p| (-p.0, p.1)).collect();
                q.reverse();
                let tol = tolerances(&s, &s.reference());
                // the middle nodes mirror each other even where they are not right
                close("mirror", &p, &q, &tol, 0.0, usize::MAX, obs, || format!("{s:?} and its mirror image"))
            }
            JacCase::Continuity(n, a, b, e) => {
                obs.nontrivial = n >= 2;
                obs.label("continuity");
                let s = Spec::Jacobi(n, a, b);
                let t = Spec::Jacobi(n, X(a.0 + e.0), X(b.0 - 2.0 * e.0));
                let p = s.build().pairs().to_vec();
                let q = t.build().pairs().to_vec();
                let r = s.reference();
                let mut tol = tolerances(&s, &r);
                let u = tolerances(&t, &r);
                for i in 0..n {
                    tol.dx[i] += u.dx[i];
                    tol.dw[i] += u.dw[i];
                }
                // both the nodes and the logarithms of the weights have moderate derivatives
                let extra = 40.0 * e.0 * (1.0 + (n as f64).ln());
                let known = n >= 3 && n % 2 == 1 && ctx.known.contains(MIDDLE);
                let skip = if known && (p[n / 2].0 == 0.0 || q[n / 2].0 == 0.0) { n / 2 } else { usize::MAX };
                close("continuity", &p, &q, &tol, extra, skip, obs, || format!("{s:?} and {t:?}"))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C22

pub struct Structure;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum StructCase {
    /// an even weight function: the rule is symmetric, and an odd degree has its middle node at 0
    Symmetric(Spec),
    /// the nodes of degree n separate those of degree n+1
    Interlace(Spec),
    /// Hermite of degree 2n (2n+1) is Laguerre of degree n with alpha -1/2 (+1/2) in x^2
    HermiteLaguerre(usize, bool),
    /// Jacobi(2n, a, a) is Jacobi(n, a, -1/2) in 2x^2-1; with 2n+1, Jacobi(n, a, 1/2)
    Quadratic(usize, X, bool),
    /// Jacobi(n, 1/2, -1/2) and (-1/2, 1/2) in closed form
    Airfoil(usize, bool),
    /// raising a parameter moves every node the same way
    Monotone(usize, X, X, X),
}

/// The rule, with as many pairs as were asked for.
fn built(s: &Spec) -> Result<Rule, String> {
    let rule = s.build();
    match rule.pairs().len() {
        k if k == s.n() => Ok(rule),
        k => Err(format!("{s:?} has {k} pairs")),
    }
}

impl Prop for Structure {
    type Case = StructCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> String {
        "cases: rules of all families related to each other: symmetric weights (degree up to 3000, or 150 for Golub-Welsch), consecutive degrees (interlacing), Hermite/Laguerre and Jacobi/Jacobi quadratic transformations, the trigonometric closed forms of Jacobi(1/2,-1/2), monotonicity of the nodes in the parameters. Oracle: the metamorphic relation. Non-trivial: degree >= 2.".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["known finding: the middle node of odd-degree Jacobi rules with different parameters is left out where it is exactly 0".into()]
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        vec![middle_probe()]
    }
    fn grid(&self, ctx: &Ctx) -> Vec<StructCase> {
        let mut v = vec![];
        for n in (1..=ctx.pick(90, 200)).rev() {
            v.push(StructCase::HermiteLaguerre(n, false));
            v.push(StructCase::HermiteLaguerre(n, true));
            v.push(StructCase::Airfoil(n, false));
            v.push(StructCase::Airfoil(n, true));
        }
        for s in large_specs(ctx.thorough()) {
            match s {
                Spec::Legendre(_) | Spec::Hermite(_) | Spec::Chebyshev1(_) | Spec::Chebyshev2(_) => v.push(StructCase::Symmetric(s)),
                Spec::Jacobi(_, a, b) if a.0 == b.0 => v.push(StructCase::Symmetric(s)),
                _ => {}
            }
            v.push(StructCase::Interlace(s));
        }
        for n in [127usize, 128, 129, 150] {
            v.push(StructCase::HermiteLaguerre(n, false));
            v.push(StructCase::HermiteLaguerre(n, true));
            v.push(StructCase::Quadratic(n, X(0.25), n % 2 == 0));
            v.push(StructCase::Monotone(2 * n, X(0.5), X(-0.25), X(0.5)));
        }
        for n in 1..=ctx.pick(500, 3000) {
            v.push(StructCase::Symmetric(Spec::Legendre(n)));
            v.push(StructCase::Interlace(Spec::Legendre(n)));
            v.push(StructCase::Symmetric(Spec::Chebyshev1(n)));
            v.push(StructCase::Symmetric(Spec::Chebyshev2(n)));
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<StructCase> {
        let m = ctx.pick(70, 180);
        let sym = prop_oneof![
            degrees(3000).prop_map(Spec::Legendre),
            degrees(3000).prop_map(Spec::Chebyshev1),
            degrees(3000).prop_map(Spec::Chebyshev2),
            degrees(m).prop_map(Spec::Hermite),
            (degrees(m), params(200.0)).prop_map(|(n, a)| Spec::Jacobi(n, X(a), X(a))),
        ];
        prop_oneof![
            3 => sym.prop_map(StructCase::Symmetric),
            4 => specs(m, 1500).prop_map(StructCase::Interlace),
            1 => (1usize..=m / 2, any::<bool>()).prop_map(|(n, o)| StructCase::HermiteLaguerre(n, o)),
            3 => (1usize..=m / 2, params(60.0), any::<bool>()).prop_map(|(n, a, o)| StructCase::Quadratic(n, X(a), o)),
            3 => (degrees(m), param_pairs(60.0), 0.01f64..2.0).prop_map(|(n, (a, b), d)| StructCase::Monotone(n, X(a), X(b), X(d))),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(70_000, 800_000)
    }
    fn check(&self, c: &StructCase, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let known = ctx.known.contains(MIDDLE);
        // positions to leave out because of the known finding
        let skip = |s: &Spec, p: &[(f64, f64)]| -> usize {
            if known && s.middle_node_finding() && p[s.n() / 2].0 == 0.0 { s.n() / 2 } else { usize::MAX }
        };
        match *c {
            StructCase::Symmetric(ref s) => {
                let n = s.n();
                obs.nontrivial = n >= 2;
                obs.label("symmetric");
                let rule = built(&s)?;
                let p = rule.pairs();
                let asymptotic = matches!(s, Spec::Legendre(_) | Spec::Chebyshev1(_) | Spec::Chebyshev2(_)) || !s.golub_welsch();
                let tol = if asymptotic {
                    let dw = p.iter().map(|w| w.1.abs() * 1e-14 + 1e-14 / n as f64 * (w.1.abs() * n as f64).sqrt()).collect();
                    Tol { dx: vec![2.5e-15; n], dw }
                } else {
                    tolerances(s, &s.reference())
                };
                for i in 0..n.div_ceil(2) {
                    let j = n - 1 - i;
                    obs.within("symmetry", p[i].0 + p[j].0, 2.0 * tol.dx[i], || format!("{s:?}: nodes {i} and {j} are {:e} and {:e}", p[i].0, p[j].0))?;
                    obs.within("symmetry", p[i].1 - p[j].1, 2.0 * tol.dw[i], || format!("{s:?}: weights {i} and {j} are {:e} and {:e}", p[i].1, p[j].1))?;
                }
                Ok(())
            }
            StructCase::Interlace(ref s) => {
                let n = s.n();
                obs.nontrivial = n >= 2;
                obs.label("interlacing");
                let t = s.with_n(n + 1);
                let (p, q) = (built(&s)?, built(&t)?);
                let (p, q) = (p.pairs(), q.pairs());
                // rounding of the nodes
                let noise = |s: &Spec| {
                    if s.golub_welsch() {
                        let m = s.matrix(s.n());
                        gw_noise(s.n()) * m.diag.iter().chain(m.off.iter()).map(|x| x.hi.abs()).fold(0.0, f64::max)
                    } else {
                        2.5e-15
                    }
                };
                let slack = noise(s) + noise(&t);
                let (sp, sq) = (skip(s, p), skip(&t, q));
                for i in 0..n {
                    if i == sp {
                        continue;
                    }
                    obs.ensure((i == sq || q[i].0 < p[i].0 + slack) && (i + 1 == sq || p[i].0 < q[i + 1].0 + slack), || {
                        format!("{s:?}: node {i} is {:e}, not between nodes {:e} and {:e} of the next degree", p[i].0, q[i].0, q[i + 1].0)
                    })?;
                }
                Ok(())
            }
            StructCase::HermiteLaguerre(n, odd) => {
                obs.nontrivial = n >= 2;
                obs.label("Hermite is Laguerre");
                let hs = Spec::Hermite(2 * n + usize::from(odd));
                let ls = Spec::Laguerre(n, X(if odd { 0.5 } else { -0.5 }));
                let (h, l) = (built(&hs)?, built(&ls)?);
                let (h, l) = (h.pairs(), l.pairs());
                let (th, tl) = (tolerances(&hs, &hs.reference()), tolerances(&ls, &ls.reference()));
                let off = n + usize::from(odd);
                for i in 0..n {
                    let (x, w) = h[off + i];
                    let (y, v) = l[i];
                    obs.within("transformed node", x * x - y, 2.0 * x * th.dx[off + i] + tl.dx[i] + 1e-15 * y.abs(), || format!("{hs:?}: node^2 {:e}, {ls:?}: node {y:e}", x * x))?;
                    let (lhs, dl) = if odd {
                        (2.0 * x * x * w, 2.0 * x * x * th.dw[off + i] + 4.0 * x * w * th.dx[off + i])
                    } else {
                        (2.0 * w, 2.0 * th.dw[off + i])
                    };
                    obs.within("transformed weight", lhs - v, dl + tl.dw[i] + 4e-15 * v, || format!("{hs:?}: {lhs:e}, {ls:?}: weight {i} {v:e}"))?;
                }
                Ok(())
            }
            StructCase::Quadratic(n, a, odd) => {
                obs.nontrivial = n >= 2;
                obs.label("quadratic transformation");
                let s = Spec::Jacobi(2 * n + usize::from(odd), a, a);
                let t = Spec::Jacobi(n, a, X(if odd { 0.5 } else { -0.5 }));
                let (p, q) = (built(&s)?, built(&t)?);
                let (p, q) = (p.pairs(), q.pairs());
                let (ts, tt) = (tolerances(&s, &s.reference()), tolerances(&t, &t.reference()));
                let k = skip(&t, q);
                let off = n + usize::from(odd);
                // t = 2x^2 - 1: the weight function becomes 2^-(a+1/2) (1-t)^a (1+t)^(+-1/2) / (2 or 1)
                let f = 2f64.powf(a.0 + if odd { 1.5 } else { 0.5 });
                for i in 0..n {
                    let (x, w) = p[off + i];
                    let (y, v) = q[i];
                    if i != k {
                        obs.within("transformed node", 2.0 * x * x - 1.0 - y, 4.0 * x * ts.dx[off + i] + tt.dx[i] + 1e-15, || format!("{s:?}: 2x^2-1 = {:e}, {t:?}: node {y:e}", 2.0 * x * x - 1.0))?;
                    }
                    let (lhs, dl) = if odd {
                        (2.0 * f * x * x * w, 2.0 * f * (x * x * ts.dw[off + i] + 2.0 * x * w * ts.dx[off + i]))
                    } else {
                        (2.0 * f * w, 2.0 * f * ts.dw[off + i])
                    };
                    obs.within("transformed weight", lhs - v, dl + tt.dw[i] + 1e-14 * v * (1.0 + a.0.abs()), || format!("{s:?}: {lhs:e}, {t:?}: weight {i} {v:e}"))?;
                }
                Ok(())
            }
            StructCase::Airfoil(n, flip) => {
                obs.nontrivial = n >= 2;
                obs.label("closed form");
                // (1-x)^(1/2) (1+x)^(-1/2): x_k = cos(2 k pi / (2n+1)), w_k = 4 pi/(2n+1) sin^2(k pi/(2n+1))
                let s = if flip { Spec::Jacobi(n, X(-0.5), X(0.5)) } else { Spec::Jacobi(n, X(0.5), X(-0.5)) };
                let rule = built(&s)?;
                let p = rule.pairs();
                let tol = tolerances(&s, &s.reference());
                let k = skip(&s, p);
                let d = dd(2.0 * n as f64 + 1.0);
                for i in 0..n {
                    let j = if flip { i + 1 } else { n - i };
                    let th = PI * dd(j as f64) / d;
                    let x = th.scale2(2.0).cos();
                    let w = PI.scale2(4.0) / d * th.sin().sqr();
                    let x = if flip { -x } else { x };
                    if i != k {
                        obs.within("closed form", (dd(p[i].0) - x).f(), tol.dx[i], || format!("{s:?}: node {i} is {:e}, should be {:e}", p[i].0, x.f()))?;
                    }
                    obs.within("closed form", (dd(p[i].1) - w).f(), tol.dw[i], || format!("{s:?}: weight {i} is {:e}, should be {:e}", p[i].1, w.f()))?;
                }
                Ok(())
            }
            StructCase::Monotone(n, a, b, d) => {
                obs.nontrivial = n >= 2;
                obs.label("monotone in the parameters");
                // a larger alpha moves every node down, a larger beta up
                let base = Spec::Jacobi(n, a, b);
                let up_a = Spec::Jacobi(n, X(a.0 + d.0), b);
                let up_b = Spec::Jacobi(n, a, X(b.0 + d.0));
                let lag = Spec::Laguerre(n, a);
                let up_l = Spec::Laguerre(n, X(a.0 + d.0));
                for (lo, hi) in [(up_a, base), (base, up_b), (lag, up_l)] {
                    let (p, q) = (built(&lo)?, built(&hi)?);
                    let (p, q) = (p.pairs(), q.pairs());
                    let m = hi.matrix(n);
                    let slack = 2.0 * gw_noise(n) * m.diag.iter().chain(m.off.iter()).map(|x| x.hi.abs()).fold(1.0, f64::max);
                    let (sp, sq) = (skip(&lo, p), skip(&hi, q));
                    for i in 0..n {
                        if i != sp && i != sq {
                            obs.ensure(p[i].0 < q[i].0 + slack, || format!("node {i} of {lo:?} is {:e}, of {hi:?} {:e}", p[i].0, q[i].0))?;
                        }
                    }
                }
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C18

/// The same rule from builds with different math backends.
pub struct Backends {
    peers: Mutex<HashMap<(ThreadId, usize), Peer>>,
}

struct Peer {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Backends {
    pub fn new() -> Self {
        Self { peers: Mutex::new(HashMap::new()) }
    }
    fn ask(&self, ctx: &Ctx, k: usize, s: &Spec) -> Vec<(f64, f64)> {
        let key = (std::thread::current().id(), k);
        let mut peer = self.peers.lock().unwrap().remove(&key).unwrap_or_else(|| {
            let mut child = Command::new(&ctx.peers[k].1)
                .arg("serve")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("start the other build");
            let to = child.stdin.take().expect("stdin");
            let from = BufReader::new(child.stdout.take().expect("stdout"));
            Peer { _child: child, to, from }
        });
        let line = serde_json::to_string(s).expect("spec");
        writeln!(peer.to, "{line}").expect("ask the other build");
        peer.to.flush().expect("ask the other build");
        let mut answer = String::new();
        peer.from.read_line(&mut answer).expect("answer of the other build");
        let v = answer
            .split_whitespace()
            .map(|w| u64::from_str_radix(w, 16).map(f64::from_bits).expect("answer of the other build"))
            .collect::<Vec<f64>>();
        self.peers.lock().unwrap().insert(key, peer);
        v.chunks(2).map(|c| (c[0], c[1])).collect()
    }
}

/// The other end of the comparison: rules on request, as bits.
pub fn serve() -> i32 {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return 3 };
        let Ok(s) = serde_json::from_str::<Spec>(&line) else { return 3 };
        let text = match std::panic::catch_unwind(|| s.build()) {
            Ok(rule) => rule
                .pairs()
                .iter()
                .map(|p| format!("{:x} {:x}", p.0.to_bits(), p.1.to_bits()))
                .collect::<Vec<_>>()
                .join(" "),
            Err(_) => String::new(),
        };
        if writeln!(out, "{text}").and_then(|()| out.flush()).is_err() {
            return 3;
        }
    }
    0
}

impl Prop for Backends {
    type Case = Spec;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> String {
        "cases: rules of every family and parameter range; oracle: the same rule built by separate processes linked against the crate with its default features (libm backend, no_std), with std only, and with every feature must agree within the sum of the admitted rounding errors. Non-trivial: degree >= 2.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<Spec> {
        let mut v = vec![];
        for n in ctx.pick(vec![131_075, 65_537, 20_011], vec![2_097_153, 1_000_000, 131_075, 65_537, 20_011]) {
            v.extend([Spec::Legendre(n), Spec::Chebyshev1(n), Spec::Chebyshev2(n)]);
        }
        v.extend([Spec::Hermite(520), Spec::Laguerre(520, X(0.5)), Spec::Jacobi(520, X(0.25), X(-0.5))]);
        for n in (1..=ctx.pick(130, 300)).rev() {
            v.extend([Spec::Legendre(n), Spec::Hermite(n.min(150)), Spec::Chebyshev1(n), Spec::Chebyshev2(n)]);
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<Spec> {
        prop_oneof![12 => specs(ctx.pick(80, 200), 1500), 1 => specs(20, ctx.pick(40_000, 300_000))].boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(60_000, 500_000)
    }
    fn check(&self, s: &Spec, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        obs.nontrivial = s.n() >= 2;
        obs.label(s.name());
        let rule = s.build();
        let p = rule.pairs();
        let tol = if s.golub_welsch() {
            tolerances(s, &s.reference())
        } else {
            let n = s.n();
            Tol {
                dx: vec![2.5e-15; n],
                dw: p.iter().map(|w| w.1.abs() * 1e-14 + 1e-14 / n as f64 * (w.1.abs() * n as f64).sqrt()).collect(),
            }
        };
        for k in 0..ctx.peers.len() {
            let q = self.ask(ctx, k, s);
            close("backends", p, &q, &tol, 0.0, usize::MAX, obs, || format!("{s:?}, builds {} and {}", ctx.variant, ctx.peers[k].0))?;
        }
        Ok(())
    }
}

/// Rules are plain data: used by properties that need a rule of every type.
#[allow(dead_code)]
pub fn total_weight(rule: &Rule) -> f64 {
    each_rule!(rule, r => r.weights().sum())
}

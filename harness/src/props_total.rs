//! C23: everything returns. C24: the composite rules are sums over cells.

use crate::common::*;
use crate::each_comp;
use crate::engine::*;
use crate::props_integrate::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------------------------------ C23

pub struct Total;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TotalCase {
    Gauss { on: Spec, a: X, b: X, value: X },
    Comp { on: Comp, n: u32, a: X, b: X, value: X },
}

/// Any parameter that the type admits.
fn any_param() -> BoxedStrategy<f64> {
    let ok = |v: f64| if v > -1.0 && v.is_finite() { v } else { 0.25 };
    prop_oneof![
        3 => params(f64::MAX),
        2 => any::<u64>().prop_map(move |b| ok(f64::from_bits(b))),
        3 => (-320.0f64..308.25).prop_map(|e| 10f64.powf(e)),
        1 => (-1074i32..=1023).prop_map(|e| 2f64.powi(e)),
        1 => (0.0f64..320.0).prop_map(move |e| ok(-10f64.powf(-e))),
        1 => (0u64..2000).prop_map(|k| f64::from_bits((-1.0f64).to_bits() - 1 - k)),
        1 => prop::sample::select(vec![f64::MAX, f64::MIN_POSITIVE, 5e-324, -5e-324, -0.0, 1e154, 1.3407807929942597e154, 1e100, 170.624, 171.0, 141.0]),
    ]
    .prop_map(ok)
    .boxed()
}

fn any_limit() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => -3.0f64..3.0,
        2 => any::<u64>().prop_map(f64::from_bits),
        2 => prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.0, -0.0, 5e-324, 1.0, -1.0]),
    ]
    .boxed()
}

impl Prop for Total {
    type Case = TotalCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> String {
        "cases: a rule of any kind whose parameters are any doubles that the parameter type admits (all magnitudes, to f64::MAX and next to -1), any two doubles as limits (NaN, infinities, overflowing lengths) and any double as the integrand's value; oracle: construction and integration return without a panic, the rule has its degree and its parameters bit for bit, one call per node if the limits are finite, and an undefined limit gives an undefined result. Non-trivial: a parameter above 170 or within 1e-6 of -1, or a limit or value that is not finite, or limits whose difference overflows.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<TotalCase> {
        let mut v = vec![];
        for on in large_specs(ctx.thorough()) {
            for (a, b, value) in [(1.0, f64::NAN, 1.0), (-1.0, 2.0, f64::NAN), (f64::MIN, f64::MAX, 1.0)] {
                v.push(TotalCase::Gauss { on, a: X(a), b: X(b), value: X(value) });
            }
        }
        for n in [257usize, 300] {
            for p in [f64::MAX, 1e154, 1e17, 200.0, -1.0 + 1e-16] {
                v.push(TotalCase::Gauss { on: Spec::Laguerre(n, X(p)), a: X(0.0), b: X(1.0), value: X(1.0) });
                v.push(TotalCase::Gauss { on: Spec::Jacobi(n, X(p), X(0.5)), a: X(0.0), b: X(1.0), value: X(1.0) });
                v.push(TotalCase::Gauss { on: Spec::Jacobi(n, X(-0.5), X(p)), a: X(0.0), b: X(1.0), value: X(1.0) });
            }
        }
        for on in [Comp::Midpoint, Comp::Trapezoid, Comp::Simpson] {
            for n in [65_537, 131_075, 1_000_003] {
                v.push(TotalCase::Comp { on, n, a: X(f64::MIN), b: X(f64::MAX), value: X(1.0) });
                v.push(TotalCase::Comp { on, n, a: X(0.0), b: X(f64::NAN), value: X(1.0) });
                v.push(TotalCase::Comp { on, n, a: X(0.0), b: X(1.0), value: X(f64::NAN) });
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<TotalCase> {
        let gw = ctx.pick(40, 90);
        let spec = prop_oneof![
            2 => (degrees(gw), any_param()).prop_map(|(n, a)| Spec::Laguerre(n, X(a))),
            2 => (degrees(gw), any_param(), any_param()).prop_map(|(n, a, b)| Spec::Jacobi(n, X(a), X(b))),
            1 => (degrees(gw), any_param()).prop_map(|(n, a)| Spec::Jacobi(n, X(a), X(a))),
            1 => specs(gw, 500),
        ];
        let v = || prop_oneof![2 => any_limit(), 1 => Just(1.0)];
        prop_oneof![
            5 => (spec, any_limit(), any_limit(), v()).prop_map(|(on, a, b, v)| TotalCase::Gauss { on, a: X(a), b: X(b), value: X(v) }),
            2 => (prop::sample::select(vec![Comp::Midpoint, Comp::Trapezoid, Comp::Simpson]), comp_degrees(2000), any_limit(), any_limit(), v())
                .prop_map(|(on, n, a, b, v)| TotalCase::Comp { on, n, a: X(a), b: X(b), value: X(v) }),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(400_000, 4_000_000)
    }
    fn check(&self, c: &TotalCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let (a, b, value) = match c {
            TotalCase::Gauss { a, b, value, .. } | TotalCase::Comp { a, b, value, .. } => (a.0, b.0, value.0),
        };
        let odd_use = !(b - a).is_finite() || !value.is_finite();
        let mut calls = 0u64;
        let mut f = |_: f64| {
            calls += 1;
            value
        };
        match c {
            TotalCase::Gauss { on, .. } => {
                let extreme = |p: f64| p > 170.0 || p < -1.0 + 1e-6;
                let odd = match *on {
                    Spec::Laguerre(_, p) => extreme(p.0),
                    Spec::Jacobi(_, p, q) => extreme(p.0) || extreme(q.0),
                    _ => false,
                };
                obs.nontrivial = odd || odd_use;
                obs.label(on.name());
                if odd {
                    obs.label("extreme parameter");
                }
                let rule = on.build();
                let n = on.n();
                obs.ensure(rule.degree() == n && rule.pairs().len() == n, || {
                    format!("{on:?}: degree() {}, {} pairs", rule.degree(), rule.pairs().len())
                })?;
                match (&rule, *on) {
                    (Rule::Lag(r), Spec::Laguerre(_, p)) => {
                        obs.ensure(r.alpha().get().to_bits() == p.0.to_bits(), || format!("{on:?}: alpha() is {:?}", r.alpha()))?;
                    }
                    (Rule::Jac(r), Spec::Jacobi(_, p, q)) => {
                        // a delegated rule has the canonical zero
                        let same = |u: f64, v: f64| u == v;
                        obs.ensure(same(r.alpha().get(), p.0) && same(r.beta().get(), q.0), || format!("{on:?}: alpha() is {:?}, beta() is {:?}", r.alpha(), r.beta()))?;
                    }
                    _ => {}
                }
                let got = rule.integrate(a, b, &mut f);
                if on.finite_domain() {
                    if a.is_nan() || b.is_nan() {
                        obs.label("undefined limit");
                        obs.ensure(got.is_nan(), || format!("{on:?}: the integral over [{a:?}, {b:?}] is {got:?}"))?;
                    }
                }
                let finite = !on.finite_domain() || a.is_finite() && b.is_finite();
                obs.ensure(!finite || calls == n as u64, || format!("{on:?} on [{a:?}, {b:?}]: {calls} calls"))?;
                if value.is_nan() {
                    obs.ensure(got.is_nan(), || format!("{on:?}: the integral of NaN over [{a:?}, {b:?}] is {got:?}"))?;
                }
                drop(rule.clone());
                each_rule_debug(&rule);
            }
            TotalCase::Comp { on, n, .. } => {
                obs.nontrivial = odd_use;
                obs.label("composite");
                let rule = on.build(*n);
                let got = each_comp!(&rule, r => r.integrate(a, b, &mut f));
                if a.is_nan() || b.is_nan() || value.is_nan() {
                    obs.label("undefined limit or value");
                    obs.ensure(got.is_nan(), || format!("{on:?} of degree {n}: the integral of {value:?} over [{a:?}, {b:?}] is {got:?}"))?;
                }
                let finite = a.is_finite() && b.is_finite();
                obs.ensure(!finite || calls == on.calls(u64::from(*n)), || format!("{on:?} of degree {n} on [{a:?}, {b:?}]: {calls} calls"))?;
            }
        }
        if !a.is_finite() || !b.is_finite() {
            obs.label("limit not finite");
        }
        Ok(())
    }
}

/// Formatting a rule is total as well.
fn each_rule_debug(r: &Rule) {
    if r.degree() < 20 {
        let _ = format!("{r:?}");
    }
}

// ------------------------------------------------------------------------------------------ C24

pub struct Cells;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Lipschitz {
    Sine(X, X),
    /// |x - c|
    Kink(X),
    /// the distance to the nearest multiple of c
    Teeth(X),
}

impl Lipschitz {
    fn at(self, x: f64) -> f64 {
        match self {
            Lipschitz::Sine(k, p) => (k.0 * x + p.0).sin(),
            Lipschitz::Kink(c) => (x - c.0).abs(),
            Lipschitz::Teeth(c) => (x - (x / c.0).round() * c.0).abs(),
        }
    }
    /// The constant, with room for the rounding inside of `at`.
    fn slope(self) -> f64 {
        match self {
            Lipschitz::Sine(k, _) => k.0.abs() + 1.0,
            _ => 3.0,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CellCase {
    pub n: u32,
    /// how many times finer the refined rule is; odd for the midpoint rule
    pub split: u32,
    pub a: X,
    pub b: X,
    pub f: Lipschitz,
}

impl Prop for Cells {
    type Case = CellCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> String {
        "cases: a number of cells n, a number k of parts, an interval and a Lipschitz integrand (sine, kink, sawtooth); oracle: relations between results of the three rules: T(2n) = (T(n) + M(n))/2, S(n) = (T(n) + 2 M(n))/3 = (4 T(2n) - T(n))/3, each rule with kn cells is the sum of the rule with n cells over the k equal parts, reversing the limits changes the sign, and the midpoint and trapezoid rules bracket the integral of a convex function. Non-trivial: n >= 2.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<CellCase> {
        let most = (ctx.variant == "full" || ctx.thorough()).then_some(CellCase { n: (1 << 31) - 1, split: 2, a: X(-0.75), b: X(2.5), f: Lipschitz::Kink(X(0.25)) });
        ctx.pick(vec![1_000_003u32, 131_075, 65_537, 65_536], vec![20_000_003, 1_000_003, 131_075, 65_537, 65_536])
            .into_iter()
            .chain((1..=ctx.pick(300, 2000)).rev())
            .map(|n| CellCase { n, split: 2 + n % 3, a: X(-0.75), b: X(2.5), f: Lipschitz::Sine(X(3.0), X(0.25)) })
            .chain(most)
            .collect::<Vec<_>>()
            .into_iter()
            .rev()
            .collect()
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<CellCase> {
        let f = prop_oneof![
            (0.01f64..20.0, -4.0f64..4.0).prop_map(|(k, p)| Lipschitz::Sine(X(k), X(p))),
            (-5.0f64..5.0).prop_map(|c| Lipschitz::Kink(X(c))),
            (0.01f64..5.0).prop_map(|c| Lipschitz::Teeth(X(c))),
        ];
        (comp_degrees(ctx.pick(3000, 100_000)), 1u32..=9, intervals(), f)
            .prop_map(|(n, split, (a, b), f)| CellCase { n, split, a, b, f })
            .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(120_000, 800_000)
    }
    fn check(&self, c: &CellCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let (n, k, a, b) = (c.n, c.split, c.a.0, c.b.0);
        obs.nontrivial = n >= 2;
        obs.label(match c.f {
            Lipschitz::Sine(..) => "sine",
            Lipschitz::Kink(_) => "kink",
            Lipschitz::Teeth(_) => "sawtooth",
        });
        let f = |x: f64| c.f.at(x);
        let run = |kind: Comp, n: u32, a: f64, b: f64| kind.build(n).integrate(a, b, f);
        use Comp::*;
        let (m, t, s) = (run(Midpoint, n, a, b), run(Trapezoid, n, a, b), run(Simpson, n, a, b));
        let t2 = run(Trapezoid, 2 * n, a, b);
        // values at arguments that differ by a rounding error, and sums of values
        let size = a.abs().max(b.abs());
        let top = match c.f {
            Lipschitz::Sine(..) => 1.0,
            Lipschitz::Kink(p) => size + p.0.abs(),
            Lipschitz::Teeth(p) => p.0,
        };
        let len = (b - a).abs();
        let tol = len * (40.0 * f64::EPSILON * size * c.f.slope() + f64::EPSILON * (f64::from(n) * f64::from(k.max(2)) + 60.0) * top) + 1e-320;
        let at = || format!("{c:?}");
        obs.within("T(2n) = (T(n) + M(n))/2", t2 - 0.5 * (t + m), tol, at)?;
        obs.within("S(n) = (T(n) + 2 M(n))/3", s - (t + 2.0 * m) / 3.0, tol, at)?;
        obs.within("S(n) = (4 T(2n) - T(n))/3", s - (4.0 * t2 - t) / 3.0, 2.0 * tol, at)?;
        if n > 1 << 27 {
            return Ok(());
        }
        for (kind, whole) in [(Midpoint, m), (Trapezoid, t), (Simpson, s)] {
            obs.within("reversed", whole + run(kind, n, b, a), tol, at)?;
            let fine = run(kind, n * k, a, b);
            let mut sum = 0.0;
            for i in 0..k {
                let at = |i: u32| if i == k { b } else { a + (b - a) * f64::from(i) / f64::from(k) };
                sum += run(kind, n, at(i), at(i + 1));
            }
            obs.within("sum over parts", fine - sum, 4.0 * tol, || format!("{kind:?}, {c:?}: {fine:e} whole, {sum:e} in {k} parts"))?;
        }
        if let Lipschitz::Kink(p) = c.f {
            // convex: the midpoint rule is below the integral, the trapezoid rule above it
            let prim = |x: f64| 0.5 * (x - p.0) * (x - p.0).abs();
            let exact = (prim(b) - prim(a)) * (b - a).signum();
            let slack = tol + 40.0 * f64::EPSILON * (size + p.0.abs()) * (size + p.0.abs());
            let sign = (b - a).signum();
            obs.ensure(sign * m <= exact + slack && exact <= sign * t + slack, || format!("{c:?}: midpoint {m:e}, integral {exact:e}, trapezoid {t:e}"))?;
        }
        Ok(())
    }
}

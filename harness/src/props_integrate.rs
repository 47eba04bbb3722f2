//! C08-C11, C19: what integrate does with the nodes and weights.

use crate::common::*;
use crate::dd::*;
use crate::engine::*;
use crate::props_rules::middle_shift;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

const EPS: f64 = f64::EPSILON;

// ------------------------------------------------------------------------------------------ C08

pub struct WeightedSum;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Integrand {
    /// an arbitrary function: a hash of the argument
    Hash(u64),
    /// the hash, but the call with this number (modulo the degree) returns a special value
    Special(u64, u16, X),
    /// the value depends on how many calls came before (FnMut state), not on the argument
    Counter,
    Constant(X),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SumCase {
    pub spec: Spec,
    pub a: X,
    pub b: X,
    pub f: Integrand,
}

/// Intervals of every kind: ordinary, reversed, degenerate, tiny, huge, far from the origin.
pub fn wild_intervals() -> BoxedStrategy<(X, X)> {
    prop_oneof![
        6 => intervals(),
        1 => (-5.0f64..5.0).prop_map(|a| (X(a), X(a))),
        1 => (-100.0f64..100.0, -1.0f64..1.0, -1.0f64..1.0).prop_map(|(e, p, q)| {
            let s = 10f64.powf(e);
            (X(p * s), X(q * s))
        }),
        1 => (-1e6f64..1e6, -14.0f64..0.0, any::<bool>()).prop_map(|(a, e, r)| {
            let b = a + 10f64.powf(e);
            if r { (X(b), X(a)) } else { (X(a), X(b)) }
        }),
        1 => prop::sample::select(vec![(0.0, 0.0), (-0.0, 0.0), (0.0, 1e-300), (-1e100, 1e100), (0.0, 5e-324), (1.0, 1.0f64.next_up())])
            .prop_map(|(a, b)| (X(a), X(b))),
    ]
    .boxed()
}

/// The recorded calls must be the affine images of the nodes, and the result the weighted sum of
/// the recorded values. Returns the tolerance of the sum.
#[allow(clippy::too_many_arguments)]
pub fn check_weighted_sum(
    s: &Spec,
    pairs: &[(f64, f64)],
    a: f64,
    b: f64,
    calls: &mut [(f64, f64)],
    special: Option<(usize, f64)>,
    got: f64,
    obs: &mut Obs,
) -> Result<f64, String> {
    let n = s.n();
    let finite = s.finite_domain();
    obs.ensure(calls.len() == n && pairs.len() == n, || format!("{s:?}: the integrand was called {} times", calls.len()))?;
    // where it should have been called
    let (half, centre) = ((dd(b) - dd(a)).scale2(0.5), (dd(b) + dd(a)).scale2(0.5));
    let mut want: Vec<(f64, f64)> = pairs
        .iter()
        .map(|&(x, w)| (if finite { (half * dd(x) + centre).f() } else { x }, w))
        .collect();
    want.sort_by(|p, q| p.0.total_cmp(&q.0));
    calls.sort_by(|p, q| p.0.total_cmp(&q.0));
    let size = a.abs() + b.abs();
    let mut clear = true;
    for i in 0..n {
        let tol = if finite { 2.5 * EPS * size + 1e-323 } else { 2.0 * EPS * want[i].0.abs() };
        obs.within("argument", calls[i].0 - want[i].0, tol, || {
            format!("{s:?} on [{a:?}, {b:?}]: evaluated at {:?} instead of {:?}", calls[i].0, want[i].0)
        })?;
        if i > 0 && want[i].0 - want[i - 1].0 <= 2.0 * tol {
            clear = false;
        }
    }
    let scale = if finite { half } else { ONE };
    if special.is_some() {
        obs.label("NaN or infinite value");
        let degenerate = half.f() == 0.0;
        let weightless = pairs.iter().any(|p| p.1 == 0.0);
        obs.ensure(!got.is_finite() || (finite && degenerate) || weightless, || {
            format!("{s:?} on [{a:?}, {b:?}]: the integrand returned {special:?} and the result is {got:e}")
        })?;
        return Ok(0.0);
    }
    // when arguments are too close to tell apart, only value-independent statements can be made
    let constant = calls.iter().all(|c| c.1 == calls[0].1);
    if !clear && !constant {
        obs.label("indistinct arguments");
        let bound: f64 = want.iter().map(|w| w.1.abs()).sum::<f64>() * calls.iter().fold(0.0, |m: f64, c| m.max(c.1.abs()));
        let tol = bound * scale.f().abs() * 1.000_001 + 1e-320;
        obs.within("bounded result", got, tol, || format!("{s:?} on [{a:?}, {b:?}]: {got:e}"))?;
        return Ok(tol);
    }
    let mut sum = ZERO;
    let mut abs = 0.0;
    for i in 0..n {
        let t = dd(calls[i].1) * dd(want[i].1);
        sum += t;
        abs += t.f().abs();
    }
    let tol = (n as f64 + 6.0) * EPS * abs * scale.f().abs() + 1e-320;
    obs.within("weighted sum", (dd(got) - sum * scale).f(), tol, || {
        format!("{s:?} on [{a:?}, {b:?}]: got {got:e}, the weighted sum is {:e}", (sum * scale).f())
    })?;
    Ok(tol)
}

impl Prop for WeightedSum {
    type Case = SumCase;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> String {
        "cases: a rule of any family, limits of every kind (reversed, degenerate, tiny, huge, far from the origin) and an arbitrary integrand (hash of the argument, hash with one NaN/infinite value, stateful counter, constant); oracle: recorded calls match the affine images of the rule's nodes one to one, and the result is the weighted sum of the recorded values in double-double arithmetic. Non-trivial: degree >= 2 and distinct limits.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<SumCase> {
        let mut v = vec![];
        for spec in large_specs(ctx.thorough()) {
            let last = (spec.n() - 1).min(65_535) as u16;
            for f in [Integrand::Hash(1), Integrand::Counter, Integrand::Special(2, last, X(f64::NAN)), Integrand::Special(3, last / 2, X(f64::INFINITY))] {
                v.push(SumCase { spec, a: X(2.5), b: X(-0.75), f });
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<SumCase> {
        let f = prop_oneof![
            6 => any::<u64>().prop_map(Integrand::Hash),
            2 => (any::<u64>(), any::<u16>(), prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY]))
                .prop_map(|(s, k, v)| Integrand::Special(s, k, X(v))),
            1 => Just(Integrand::Counter),
            1 => (-10.0f64..10.0).prop_map(|c| Integrand::Constant(X(c))),
        ];
        (specs(ctx.pick(40, 150), ctx.pick(600, 4000)), wild_intervals(), f)
            .prop_map(|(spec, (a, b), f)| SumCase { spec, a, b, f })
            .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(1_200_000, 12_000_000)
    }
    fn check(&self, c: &SumCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let s = &c.spec;
        let n = s.n();
        let (a, b) = (c.a.0, c.b.0);
        let finite = s.finite_domain();
        obs.nontrivial = n >= 2 && (a != b || !finite);
        obs.label(s.name());
        if finite {
            obs.label(if a == b { "a == b" } else if a > b { "a > b" } else { "a < b" });
        }
        let rule = s.build();
        let pairs = rule.pairs().to_vec();
        let mut calls: Vec<(f64, f64)> = Vec::with_capacity(n);
        let special = match c.f {
            Integrand::Special(_, k, v) => Some((k as usize % n, v.0)),
            _ => None,
        };
        let got = rule.integrate(a, b, |x| {
            let k = calls.len();
            let y = match c.f {
                Integrand::Hash(salt) | Integrand::Special(salt, ..) => hashed(x, salt),
                Integrand::Counter => 1.0 + k as f64,
                Integrand::Constant(v) => v.0,
            };
            let y = match special {
                Some((j, v)) if j == k => v,
                _ => y,
            };
            calls.push((x, y));
            y
        });
        obs.ensure(rule.pairs() == &pairs[..], || format!("{s:?}: integrating changed the rule"))?;
        let tol = check_weighted_sum(s, &pairs, a, b, &mut calls, special, got, obs)?;
        if special.is_some() {
            return Ok(());
        }
        // swapping the limits changes the sign
        if finite && matches!(c.f, Integrand::Constant(_)) {
            let v = calls[0].1;
            let back = rule.integrate(b, a, |_| v);
            obs.within("reversed limits", back + got, tol, || format!("{s:?}: {got:e} on [{a:?}, {b:?}] but {back:e} reversed"))?;
        }
        Ok(())
    }
}

// -------------------------------------------------------------------------------- C09, C10, C11

/// One of the three composite rules.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Comp {
    Midpoint,
    Trapezoid,
    Simpson,
}
#[derive(Clone, Debug)]
pub enum CompRule {
    M(Midpoint),
    T(Trapezoid),
    S(Simpson),
}
#[macro_export]
macro_rules! each_comp {
    ($rule:expr, $r:ident => $body:expr) => {
        match $rule {
            $crate::props_integrate::CompRule::M($r) => $body,
            $crate::props_integrate::CompRule::T($r) => $body,
            $crate::props_integrate::CompRule::S($r) => $body,
        }
    };
}
impl Comp {
    pub fn build(self, n: u32) -> CompRule {
        match self {
            Comp::Midpoint => CompRule::M(Midpoint::new(nz32(n))),
            Comp::Trapezoid => CompRule::T(Trapezoid::new(nz32(n))),
            Comp::Simpson => CompRule::S(Simpson::new(nz32(n))),
        }
    }
    pub fn calls(self, n: u64) -> u64 {
        match self {
            Comp::Midpoint => n,
            Comp::Trapezoid => n + 1,
            Comp::Simpson => 2 * n + 1,
        }
    }
    /// The definition of the rule: (position in [0, 1] as a fraction of 2n, weight times 6n/(b-a)).
    pub fn table(self, n: u64) -> Vec<(u64, f64)> {
        match self {
            Comp::Midpoint => (0..n).map(|i| (2 * i + 1, 6.0)).collect(),
            Comp::Trapezoid => (0..=n)
                .map(|i| (2 * i, if i == 0 || i == n { 3.0 } else { 6.0 }))
                .collect(),
            Comp::Simpson => (0..=2 * n)
                .map(|i| {
                    (i, if i == 0 || i == 2 * n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 })
                })
                .collect(),
        }
    }
}
impl CompRule {
    pub fn integrate<F: FnMut(f64) -> f64>(&self, a: f64, b: f64, f: F) -> f64 {
        each_comp!(self, r => r.integrate(a, b, f))
    }
    #[cfg(all(feature = "full", any(feature = "all", feature = "c12")))]
    pub fn par_integrate<F: Fn(f64) -> f64 + Sync>(&self, a: f64, b: f64, f: F) -> f64 {
        each_comp!(self, r => r.par_integrate(a, b, f))
    }
    pub fn degree(&self) -> u32 {
        each_comp!(self, r => r.degree().get())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CompCase {
    /// the calls and the formula, with an arbitrary integrand
    Formula { n: u32, a: X, b: X, salt: u64 },
    /// a NaN or infinity among the values
    Special { n: u32, a: X, b: X, at: u32, v: X },
    /// polynomials up to one degree beyond the exact ones, whose error is known exactly
    Poly { n: u32, a: X, b: X, c: Vec<X> },
    /// sin(k x + p): the classical error bounds
    Sine { n: u32, a: X, b: X, k: X, p: X },
    /// number of calls and result for a step function, for very large degrees
    Huge { n: u32 },
    /// cells of width one: every value is an integer and every sum exact, so that one wrong
    /// argument among millions shows
    Lattice { n: u32, start: i32, reversed: bool },
}

/// The integrand of the lattice cases: an integer that depends on which end or middle of a cell
/// of width one the argument is, and far too large a one if it is neither.
#[inline]
pub fn lattice_value(x: f64) -> f64 {
    let y = 2.0 * x;
    let r = y.round();
    if (y - r).abs() > 1e-3 {
        return 1e9;
    }
    ((r as i64 as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as f64
}

/// What the rule must give for the lattice integrand on [start, start + n], and how closely.
pub fn lattice_integral(kind: Comp, n: u32, start: i32) -> (f64, f64) {
    let v = |half_steps: i64| lattice_value((2 * i64::from(start) + half_steps) as f64 / 2.0);
    let n = i64::from(n);
    let ends = v(0) + v(2 * n);
    let edges = || (1..n).map(|k| v(2 * k)).sum::<f64>();
    let mids = || (0..n).map(|k| v(2 * k + 1)).sum::<f64>();
    let want = match kind {
        Comp::Midpoint => mids(),
        Comp::Trapezoid => ends / 2.0 + edges(),
        Comp::Simpson => (ends + 2.0 * edges() + 4.0 * mids()) / 6.0,
    };
    // well below the 1/6 that one wrong value makes at least
    (want, 1e-13 * want.abs() + 1e-9)
}

/// Degrees around the limits of single precision and beyond, different for each seed.
pub fn lattice_degrees(ctx: &Ctx) -> Vec<(u32, i32)> {
    let mut v = vec![(3, -1), (257, 0), ((1 << 23) + 5, 0), ((1 << 24) + 3, -77), ((1 << 25) + 1, 5)];
    for i in 0..ctx.pick(4u64, 24) {
        let u = hashed(i as f64, ctx.seed).abs().fract();
        let n = 2f64.powf(12.0 + ctx.pick(13.5, 17.0) * u) as u32;
        v.push((n, -((n / (i as u32 + 2)) as i32)));
    }
    if ctx.thorough() {
        v.push((1 << 31, 0));
        v.push((u32::MAX, i32::MIN));
    }
    v
}

pub struct Composite {
    pub id: &'static str,
    pub rule: Comp,
}

pub fn comp_degrees(max: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 1u32..=12,
        3 => 1u32..=200,
        2 => (0.0f64..1.0).prop_map(move |u| f64::from(max).powf(u).round() as u32),
        1 => prop::sample::select(vec![127u32, 128, 255, 256, 257, 1000, 1023, 1024, 1025]).prop_map(move |n| n.min(max)),
    ]
    .boxed()
}

/// The recorded calls must be where the definition of the rule puts them, and the result what the
/// definition makes of the recorded values.
pub fn check_composite_sum(
    kind: Comp,
    n: u32,
    a: f64,
    b: f64,
    calls: &mut [(f64, f64)],
    got: f64,
    obs: &mut Obs,
) -> Result<f64, String> {
    let table = kind.table(u64::from(n));
    obs.ensure(calls.len() == table.len(), || format!("degree {n}: {} calls instead of {}", calls.len(), table.len()))?;
    let up = b >= a;
    calls.sort_by(|p, q| if up { p.0.total_cmp(&q.0) } else { q.0.total_cmp(&p.0) });
    let width = dd(b) - dd(a);
    let size = a.abs() + b.abs();
    let tol = 4.0 * EPS * size + 1e-322;
    let gap = width.f().abs() / (2.0 * f64::from(n));
    let clear = gap > 4.0 * tol;
    obs.label(if a == b { "a == b" } else if !clear { "indistinct arguments" } else if up { "a < b" } else { "a > b" });
    let (mut sum, mut abs) = (ZERO, 0.0);
    for (i, &(pos, w)) in table.iter().enumerate() {
        let x = dd(a) + width * dd(pos as f64) / dd(2.0 * f64::from(n));
        obs.within("argument", (dd(calls[i].0) - x).f(), tol, || {
            format!("degree {n} on [{a:?}, {b:?}]: evaluated at {:?} instead of {:?}", calls[i].0, x.f())
        })?;
        if clear {
            obs.ensure(calls[i].0 >= a.min(b) && calls[i].0 <= a.max(b), || {
                format!("degree {n} on [{a:?}, {b:?}]: evaluated outside of the interval, at {:?}", calls[i].0)
            })?;
        }
        sum += dd(w) * dd(calls[i].1);
        abs += w * calls[i].1.abs();
    }
    let f = width.f().abs() / (6.0 * f64::from(n));
    if clear {
        let want = sum * width / dd(6.0 * f64::from(n));
        let t = (table.len() as f64 + 10.0) * EPS * abs * f + 1e-320;
        obs.within("formula", (dd(got) - want).f(), t, || {
            format!("degree {n} on [{a:?}, {b:?}]: got {got:e}, the definition gives {:e}", want.f())
        })?;
        Ok(t)
    } else {
        let most = calls.iter().fold(1.0, |m: f64, c| m.max(c.1.abs()));
        let t = 1.000_001 * most * width.f().abs() + 1e-320;
        obs.within("bounded result", got, t, || format!("degree {n} on [{a:?}, {b:?}]: {got:e}"))?;
        Ok(t)
    }
}

/// Values for a function that is constant between consecutive sixteenths of [0, 4], and its
/// integral: tells apart which part of the interval the arguments come from, at little cost.
pub struct Steps {
    pub values: [f64; 65],
    pub integral: f64,
}
impl Steps {
    pub fn new(salt: u64) -> Steps {
        let mut values = [0.0; 65];
        for (i, v) in values.iter_mut().enumerate() {
            *v = (hashed(i as f64, salt) * 8.0).round();
        }
        values[64] = values[63];
        Steps { integral: values[..64].iter().sum::<f64>() / 16.0, values }
    }
    #[inline]
    pub fn at(&self, x: f64) -> f64 {
        self.values[((x * 16.0) as usize).min(64)]
    }
    /// How far a composite rule of this degree may be from the integral: one cell at each jump,
    /// and summation errors.
    pub fn tolerance(&self, n: u32) -> f64 {
        let jumps: f64 = self.values.windows(2).map(|w| (w[1] - w[0]).abs()).sum();
        let mass: f64 = self.values.iter().map(|v| v.abs() / 16.0).sum();
        4.0 / f64::from(n) * (2.0 * jumps + 32.0) + mass * EPS * (f64::from(n) + 20.0)
    }
}

impl Prop for Composite {
    type Case = CompCase;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> String {
        format!(
            "cases: the {:?} rule with degrees from 1 to 10^5 (and single cases beyond 2^31), limits of every kind, and an integrand that is arbitrary (hash), a polynomial up to one degree past the exact ones, or a sine; oracle: the textbook definition evaluated in double-double arithmetic over the recorded calls, the exact error of the first inexact power, and the classical error bounds. Non-trivial: degree >= 2.",
            self.rule
        )
    }
    fn grid(&self, ctx: &Ctx) -> Vec<CompCase> {
        let mut v = vec![];
        if ctx.variant == "full" || ctx.thorough() {
            v.push(CompCase::Huge { n: u32::MAX });
        }
        if ctx.thorough() {
            v.push(CompCase::Huge { n: (3 << 30) + 7 });
            v.push(CompCase::Huge { n: u32::MAX - 1 });
        }
        v.push(CompCase::Huge { n: (1 << 24) + 3 });
        v.push(CompCase::Huge { n: 1 << 16 });
        for (i, (n, start)) in lattice_degrees(ctx).into_iter().enumerate() {
            v.push(CompCase::Lattice { n, start, reversed: i % 3 == 1 });
        }
        for n in [65_537, 131_075, 1_000_003] {
            v.push(CompCase::Formula { n, a: X(2.5), b: X(-1.25), salt: u64::from(n) });
            v.push(CompCase::Special { n, a: X(-1.0), b: X(2.5), at: n - 1, v: X(f64::NAN) });
        }
        for n in (1..=600).rev() {
            v.push(CompCase::Formula { n, a: X(-1.0), b: X(2.5), salt: u64::from(n) });
            v.push(CompCase::Poly { n, a: X(3.0), b: X(-0.5), c: vec![X(1.0), X(-2.0), X(0.5), X(1.0), X(0.25)] });
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<CompCase> {
        let d = || comp_degrees(ctx.pick(20_000, 400_000));
        let small = || comp_degrees(3000);
        prop_oneof![
            4 => (d(), wild_intervals(), any::<u64>()).prop_map(|(n, (a, b), salt)| CompCase::Formula { n, a, b, salt }),
            1 => (small(), intervals(), any::<u32>(), prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY]))
                .prop_map(|(n, (a, b), at, v)| CompCase::Special { n, a, b, at, v: X(v) }),
            3 => (small(), intervals(), prop::collection::vec((-4.0f64..4.0).prop_map(X), 1..=5))
                .prop_map(|(n, (a, b), c)| CompCase::Poly { n, a, b, c }),
            2 => (small(), intervals(), (0.01f64..20.0).prop_map(X), (-4.0f64..4.0).prop_map(X))
                .prop_map(|(n, (a, b), k, p)| CompCase::Sine { n, a, b, k, p }),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        if self.rule == Comp::Simpson { ctx.pick(350_000, 3_000_000) } else { ctx.pick(600_000, 5_000_000) }
    }
    fn check(&self, c: &CompCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let kind = self.rule;
        match c {
            CompCase::Huge { n } => {
                obs.nontrivial = true;
                obs.label("very large degree");
                let steps = Steps::new(u64::from(*n));
                let mut calls = 0u64;
                let got = kind.build(*n).integrate(0.0, 4.0, |x| {
                    calls += 1;
                    steps.at(x)
                });
                obs.ensure(calls == kind.calls(u64::from(*n)), || format!("degree {n}: {calls} calls"))?;
                obs.within("step function", got - steps.integral, steps.tolerance(*n), || format!("degree {n}: the integral of a step function is {got}, should be {}", steps.integral))?;
                if *n > 1 << 25 {
                    return Ok(());
                }
                let got = kind.build(*n).integrate(0.0, 3.0, |_| 1.0);
                let tol = 3.0 * EPS * (f64::from(*n) + 20.0);
                obs.within("constant", got - 3.0, tol, || format!("degree {n}: the integral of 1 over [0, 3] is {got}"))
            }
            CompCase::Lattice { n, start, reversed } => {
                obs.nontrivial = *n >= 2;
                obs.label("cells of width one");
                let (want, tol) = lattice_integral(kind, *n, *start);
                let (a, b) = (f64::from(*start), f64::from(*start) + f64::from(*n));
                let rule = kind.build(*n);
                let got = if *reversed { -rule.integrate(b, a, lattice_value) } else { rule.integrate(a, b, lattice_value) };
                obs.within("lattice sum", got - want, tol, || format!("degree {n} on [{a}, {b}]: the sum over the cells is {got}, should be {want}"))
            }
            CompCase::Formula { n, a, b, salt } => {
                let (n, a, b) = (*n, a.0, b.0);
                obs.nontrivial = n >= 2;
                let rule = kind.build(n);
                let mut calls: Vec<(f64, f64)> = Vec::new();
                let got = rule.integrate(a, b, |x| {
                    let y = hashed(x, *salt);
                    calls.push((x, y));
                    y
                });
                obs.ensure(rule.degree() == n, || format!("degree {n}: integrating changed the degree to {}", rule.degree()))?;
                check_composite_sum(kind, n, a, b, &mut calls, got, obs).map(|_| ())
            }
            CompCase::Special { n, a, b, at, v } => {
                obs.nontrivial = *n >= 2;
                obs.label("NaN or infinite value");
                let at = u64::from(*at) % kind.calls(u64::from(*n));
                let mut k = 0;
                let got = kind.build(*n).integrate(a.0, b.0, |_| {
                    k += 1;
                    if k - 1 == at { v.0 } else { 1.0 }
                });
                obs.ensure(!got.is_finite(), || format!("degree {n}: a value was {:?} but the result is {got:e}", v.0))
            }
            CompCase::Poly { n, a, b, c } => {
                let (a, b) = (a.0, b.0);
                // the midpoint and trapezoid rules are exact to degree 1, Simpson's to degree 3
                let top = if kind == Comp::Simpson { 5 } else { 3 };
                let c: Vec<f64> = c.iter().take(top).map(|x| x.0).collect();
                obs.nontrivial = *n >= 2 && c.len() >= 2;
                obs.label(if c.len() == top { "polynomial with a known error" } else { "polynomial that is integrated exactly" });
                // in powers of the distance from the centre, so that nothing cancels
                let centre = (dd(a) + dd(b)).scale2(0.5);
                let half = (dd(b) - dd(a)).scale2(0.5);
                let eval = |x: f64| {
                    let t = (dd(x) - centre) / half;
                    c.iter().rev().fold(ZERO, |s, &k| s * t + dd(k))
                };
                let mut exact = ZERO;
                for (j, &k) in c.iter().enumerate().step_by(2) {
                    exact += dd(k) * TWO / dd(j as f64 + 1.0);
                }
                // the exact error of the first power that is not integrated exactly, h = 2/n
                let nn = dd(f64::from(*n));
                if c.len() == top {
                    let k = dd(c[top - 1]);
                    exact += k * match kind {
                        Comp::Midpoint => -(TWO / dd(3.0) / nn.sqr()),
                        Comp::Trapezoid => dd(4.0) / dd(3.0) / nn.sqr(),
                        // h^4/120 * (b-a) with h = 2/n
                        Comp::Simpson => dd(32.0) / dd(120.0) / nn.sqr().sqr(),
                    };
                }
                let want = exact * half;
                let got = kind.build(*n).integrate(a, b, |x| eval(x).f());
                let size: f64 = c.iter().map(|k| k.abs()).sum();
                let dx = 4.0 * EPS * (a.abs() + b.abs()) / half.f().abs();
                let tol = half.f().abs() * size * (2.0 * EPS * (f64::from(*n) + 12.0) + 4.0 * 2.0 * dx);
                obs.within("polynomial", (dd(got) - want).f(), tol, || {
                    format!("degree {n} on [{a:?}, {b:?}], coefficients {c:?}: got {got:e}, should be {:e}", want.f())
                })
            }
            CompCase::Sine { n, a, b, k, p } => {
                obs.nontrivial = *n >= 2;
                obs.label("sine with the classical error bound");
                let (a, b, k, p) = (a.0, b.0, k.0, p.0);
                let arg = |x: f64| dd(k) * dd(x) + dd(p);
                if arg(a).f().abs().max(arg(b).f().abs()) > 1e5 {
                    return Ok(());
                }
                let exact = (arg(a).cos() - arg(b).cos()) / dd(k);
                let got = kind.build(*n).integrate(a, b, |x| arg(x).sin().f());
                let w = (b - a).abs();
                let nf = f64::from(*n);
                let bound = match kind {
                    Comp::Midpoint => w.powi(3) * k.powi(2) / (24.0 * nf * nf),
                    Comp::Trapezoid => w.powi(3) * k.powi(2) / (12.0 * nf * nf),
                    Comp::Simpson => w.powi(5) * k.powi(4) / (2880.0 * nf.powi(4)),
                };
                let round = w * (EPS * (nf + 12.0) + 4.0 * EPS * k * (a.abs() + b.abs()));
                obs.within("error bound", (dd(got) - exact).f(), bound * (1.0 + 1e-9) + 2.0 * round, || {
                    format!("degree {n}, sin({k:?} x + {p:?}) on [{a:?}, {b:?}]: got {got:e}, exact {:e}", exact.f())
                })
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C19

/// Gaussian rules on exponentials and cosines: the classical remainder formula bounds the error
/// from both sides, and the integrals are known in closed form.
pub struct Smooth;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SmoothCase {
    pub spec: Spec,
    pub a: X,
    pub b: X,
    /// exponent scale on the natural domain
    pub c: X,
    pub cosine: bool,
}

/// sum of (p)_k z^k / ((q)_k k!)
fn hyp1f1(p: Dd, q: Dd, z: Dd) -> Dd {
    let (mut t, mut s) = (ONE, ONE);
    for k in 0..2000 {
        let kf = dd(f64::from(k));
        t = t * (p + kf) / (q + kf) * z / (kf + ONE);
        s += t;
        if t.f().abs() < 1e-34 * s.f().abs() {
            break;
        }
    }
    s
}

impl Prop for Smooth {
    type Case = SmoothCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> String {
        "cases: a rule of any family with degree 1..60 and the integrands exp(c t) or cos(c t) in the rule's natural variable t (exp(-c t) for Laguerre), passed through an arbitrary interval; oracle: the closed form of the integral (elementary, Bessel-like and confluent hypergeometric series, gamma functions, all in double-double arithmetic) and Gauss's remainder term, which for the exponential also fixes the sign of the error. Non-trivial: degree >= 2 and |c| >= 0.1.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<SmoothCase> {
        let mut v = vec![];
        for spec in large_specs(ctx.thorough()) {
            if spec.n() <= 3000 {
                for cosine in [false, true] {
                    v.push(SmoothCase { spec, a: X(1.5), b: X(-0.5), c: X(1.25), cosine });
                }
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<SmoothCase> {
        (
            specs(ctx.pick(30, 60), ctx.pick(60, 200)),
            intervals(),
            prop_oneof![3 => 0.0f64..4.0, 1 => 0.0f64..12.0, 1 => -3.0f64..0.0],
            any::<bool>(),
        )
            .prop_map(|(spec, (a, b), c, cosine)| SmoothCase { spec, a, b, c: X(c), cosine })
            .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(300_000, 3_000_000)
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        vec![crate::props_rules::middle_probe()]
    }
    fn check(&self, k: &SmoothCase, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let s = &k.spec;
        let n = s.n();
        let laguerre = matches!(s, Spec::Laguerre(..));
        let c = if laguerre { k.c.0.abs() } else { k.c.0 };
        let cosine = k.cosine && !laguerre;
        obs.nontrivial = n >= 2 && c.abs() >= 0.1;
        obs.label(s.name());
        obs.label(if cosine { "cosine" } else { "exponential" });
        let cd = dd(c);
        // the integrand in the natural variable, and a bound of |f'|
        let f = |t: Dd| {
            if cosine { (cd * t).cos() } else if laguerre { (-cd * t).exp() } else { (cd * t).exp() }
        };
        let df = |t: f64| {
            c.abs() * if cosine { 1.0 } else if laguerre { (-c * t).exp() } else { (c * t).exp() }
        };
        let m = s.matrix(n + 1);
        let mu0 = m.mu0;
        let exact = match *s {
            Spec::Hermite(_) => {
                let e = cd.sqr().scale2(0.25);
                mu0 * if cosine { (-e).exp() } else { e.exp() }
            }
            Spec::Laguerre(_, a) => mu0 * (-(dd(a.0) + ONE) * (ONE + cd).ln()).exp(),
            _ => {
                let (a, b) = match *s {
                    Spec::Jacobi(_, a, b) => (a.0, b.0),
                    Spec::Legendre(_) => (0.0, 0.0),
                    Spec::Chebyshev1(_) => (-0.5, -0.5),
                    _ => (0.5, 0.5),
                };
                if cosine {
                    // power moments: m_j = E[t^j] obey a two-term recurrence; sum the even ones
                    let (a, b) = (dd(a), dd(b));
                    let q = a + b + TWO;
                    let (mut m0, mut m1) = (ONE, (b - a) / q);
                    let (mut sum, mut fact) = (ONE, ONE);
                    let mut j = 1.0;
                    loop {
                        // m_{j+1} = ((b-a) m_j + j m_{j-1}) / (j + a + b + 2)
                        let m2 = ((b - a) * m1 + dd(j) * m0) / (dd(j) + q);
                        fact = fact * cd / dd(j);
                        if (j as u64).is_multiple_of(2) {
                            let t = fact * m1;
                            sum += if (j as u64).is_multiple_of(4) { t } else { -t };
                            if t.f().abs() < 1e-36 && j > c.abs() {
                                break;
                            }
                        }
                        m0 = m1;
                        m1 = m2;
                        j += 1.0;
                        if j > 4000.0 {
                            break;
                        }
                    }
                    mu0 * sum
                } else if c >= 0.0 {
                    mu0 * (-cd).exp() * hyp1f1(dd(b) + ONE, dd(a) + dd(b) + TWO, cd.scale2(2.0))
                } else {
                    mu0 * cd.exp() * hyp1f1(dd(a) + ONE, dd(a) + dd(b) + TWO, -cd.scale2(2.0))
                }
            }
        };
        // h_n: the integral of the square of the monic orthogonal polynomial; the remainder of the
        // rule is f^(2n)(xi) h_n / (2n)!
        let mut log_h = mu0.f().ln();
        for k in 0..n {
            log_h += 2.0 * m.off[k].f().ln();
        }
        for j in 1..=2 * n {
            log_h -= (j as f64).ln();
        }
        let remainder = if c == 0.0 { 0.0 } else { (log_h + 2.0 * n as f64 * c.abs().ln()).exp() };
        let r = s.reference();
        let tol = tolerances(s, &r);
        let finite = s.finite_domain();
        let (a, b) = if finite { (k.a.0, k.b.0) } else { (-1.0, 1.0) };
        let half = (dd(b) - dd(a)).scale2(0.5);
        let centre = (dd(b) + dd(a)).scale2(0.5);
        let dt = if finite { 4.0 * EPS * (a.abs() + b.abs()) / half.f().abs() } else { 0.0 };
        let mut round = exact.f().abs() * 1e-15;
        for i in 0..n {
            let x = r.nodes[i].f();
            let w = r.weights[i].f();
            let fx = f(r.nodes[i]).f().abs();
            round += df(x) * (tol.dx[i] + dt) * (w + tol.dw[i]) + fx * tol.dw[i] + fx * w * EPS * (n as f64 + 8.0);
        }
        let rule = s.build();
        let (shift, shift_tol) = middle_shift(s, &rule, &r, &tol, dt, ctx, obs, f);
        let round = 2.0 * round + shift_tol;
        let scale = if finite { half } else { ONE };
        let got = rule.integrate(a, b, |x| {
            let t = if finite { (dd(x) - centre) / half } else { dd(x) };
            f(t).f()
        });
        // exact - quadrature, on the natural domain
        let err = (exact + shift - dd(got) / scale).f();
        // f^(2n) lies between these multiples of c^(2n)
        let (lo, hi) = if cosine {
            (-1.0, 1.0)
        } else if laguerre {
            (0.0, 1.0)
        } else if finite {
            ((-c.abs()).exp(), c.abs().exp())
        } else {
            (0.0, f64::INFINITY)
        };
        let slack = 1e-9;
        if remainder * hi.min(1e3) < 1e-10 * exact.f().abs() {
            obs.label("remainder negligible");
        } else {
            obs.label("remainder matters");
        }
        let top = if remainder == 0.0 { 0.0 } else { remainder * hi };
        if top.is_infinite() {
            // Hermite with the exponential: only the sign, and convergence for small c
            obs.ensure(err >= -round, || format!("{s:?}, exp({c} t): the error {err:e} should not be negative (rounding {round:e})"))?;
            // exp(c t) <= exp of the largest node region; by comparing with twice the degree's own remainder
            let generous = remainder * (c * c / 4.0).exp() * (1.0 + c.abs()).powi(2) * 1e3 * (2.0 * c.abs() * (2.0 * n as f64 + 1.0).sqrt()).exp();
            return obs.ensure(err <= generous + round, || format!("{s:?}, exp({c} t): error {err:e} exceeds {generous:e} + {round:e}"));
        }
        let excess = (err - top * (1.0 + slack)).max(remainder * lo - remainder * lo.abs() * slack - err);
        // a NaN must not vanish in a maximum
        let excess = if err.is_nan() { err } else { excess.max(0.0) };
        obs.within("excess over the remainder", excess, round, || {
            format!(
                "{s:?} on [{a:?}, {b:?}], {}({c} t): error {err:e} outside of [{:e}, {:e}] +- {round:e}",
                if cosine { "cos" } else { "exp" },
                remainder * lo,
                top
            )
        })
    }
}

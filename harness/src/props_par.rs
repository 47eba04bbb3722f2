//! C12: the parallel variants compute what the serial ones do, in any pool.

use crate::common::*;
use crate::engine::*;
use crate::props_integrate::*;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rayon::ThreadPool;
use serde::{Deserialize, Serialize};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub struct Parallel;

/// Any rule that can integrate in parallel.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Target {
    Gauss(Spec),
    Comp(Comp, u32),
}

enum Any {
    Gauss(Rule),
    Comp(CompRule),
}

impl Target {
    fn build(&self) -> Any {
        match self {
            Target::Gauss(s) => Any::Gauss(s.build()),
            Target::Comp(k, n) => Any::Comp(k.build(*n)),
        }
    }
    fn calls(&self) -> u64 {
        match self {
            Target::Gauss(s) => s.n() as u64,
            Target::Comp(k, n) => k.calls(u64::from(*n)),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Target::Gauss(s) => s.name(),
            Target::Comp(Comp::Midpoint, _) => "midpoint",
            Target::Comp(Comp::Trapezoid, _) => "trapezoid",
            Target::Comp(Comp::Simpson, _) => "simpson",
        }
    }
}

impl Any {
    fn serial<F: FnMut(f64) -> f64>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            Any::Gauss(r) => r.integrate(a, b, f),
            Any::Comp(r) => r.integrate(a, b, f),
        }
    }
    fn par<F: Fn(f64) -> f64 + Sync>(&self, a: f64, b: f64, f: F) -> f64 {
        match self {
            Any::Gauss(r) => r.par_integrate(a, b, f),
            Any::Comp(r) => r.par_integrate(a, b, f),
        }
    }
    /// The sum of the absolute weights on [a, b], for the rules with a finite domain.
    fn mass(&self, a: f64, b: f64) -> f64 {
        match self {
            Any::Gauss(r) => {
                let s: f64 = r.pairs().iter().map(|p| p.1.abs()).sum();
                s * (b - a).abs() / 2.0
            }
            Any::Comp(_) => (b - a).abs(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ParCase {
    /// an arbitrary integrand against the definition, and against the serial method
    Hash { on: Target, a: X, b: X, salt: u64, pool: u8 },
    /// the call that gets the argument of the given rank returns NaN or an infinity
    Special { on: Target, a: X, b: X, at: u32, v: X, pool: u8 },
    /// several threads use one rule at the same time
    Shared { on: Target, a: X, b: X, salts: Vec<u64>, pool: u8 },
    /// a parallel integral inside of a parallel integral
    Nested { outer: Target, inner: Target, a: X, b: X, k: X, pool: u8 },
    /// the integrand panics
    Panic { on: Target, at: u32, pool: u8 },
    /// par_new against new; 0 Legendre, 1 and 2 Chebyshev
    New { n: usize, kind: u8, pool: u8 },
    /// the largest degrees of the composite rules
    Huge { on: Target },
    /// cells of width one
    Lattice { kind: Comp, n: u32, start: i32, pool: u8 },
}

/// Runs `f` in the pool of the given size, or in the global one for 0.
fn within_pool<R: Send>(size: u8, f: impl FnOnce() -> R + Send) -> R {
    static POOLS: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    let pools = POOLS.get_or_init(|| {
        (1..=9)
            .map(|n| {
                rayon::ThreadPoolBuilder::new()
                    .num_threads(n)
                    .stack_size(16 << 20)
                    .build()
                    .expect("a thread pool")
            })
            .collect()
    });
    match size {
        0 => f(),
        k => pools[(k as usize - 1) % pools.len()].install(f),
    }
}

fn targets(gw: usize, plain: usize, comp: u32) -> BoxedStrategy<Target> {
    prop_oneof![
        3 => specs(gw, plain).prop_map(Target::Gauss),
        2 => (prop::sample::select(vec![Comp::Midpoint, Comp::Trapezoid, Comp::Simpson]), comp_degrees(comp))
            .prop_map(|(k, n)| Target::Comp(k, n)),
    ]
    .boxed()
}

/// Rules on a finite interval with moderate weights.
fn tame_targets() -> BoxedStrategy<Target> {
    prop_oneof![
        (1usize..40).prop_map(|n| Target::Gauss(Spec::Legendre(n))),
        (1usize..40).prop_map(|n| Target::Gauss(Spec::Chebyshev1(n))),
        (1usize..40).prop_map(|n| Target::Gauss(Spec::Chebyshev2(n))),
        (1usize..30, -0.9f64..2.0, -0.9f64..2.0).prop_map(|(n, a, b)| Target::Gauss(Spec::Jacobi(n, X(a), X(b)))),
        (prop::sample::select(vec![Comp::Midpoint, Comp::Trapezoid, Comp::Simpson]), 1u32..60).prop_map(|(k, n)| Target::Comp(k, n)),
    ]
    .boxed()
}

impl Prop for Parallel {
    type Case = ParCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> String {
        "cases: a rule of any kind, an interval, an integrand, and a rayon pool of 1 to 9 threads or the global one; modes: recorded calls and result against the definition and against integrate; NaN values; several threads sharing a rule; nested parallel integrals; a panicking integrand; par_new against new. Thread schedules are the real ones of the run, not enumerated. Non-trivial: at least 2 calls of the integrand.".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the work-stealing schedules are those the operating system and rayon produced during the run".into()]
    }
    fn grid(&self, ctx: &Ctx) -> Vec<ParCase> {
        let mut v = vec![];
        for k in [Comp::Midpoint, Comp::Trapezoid, Comp::Simpson] {
            v.push(ParCase::Huge { on: Target::Comp(k, u32::MAX) });
            v.push(ParCase::Huge { on: Target::Comp(k, 1 << 24) });
            if ctx.thorough() {
                v.push(ParCase::Huge { on: Target::Comp(k, (3 << 30) + 7) });
                v.push(ParCase::Huge { on: Target::Comp(k, u32::MAX - 1) });
            }
        }
        for (i, (n, start)) in lattice_degrees(ctx).into_iter().enumerate() {
            for kind in [Comp::Midpoint, Comp::Trapezoid, Comp::Simpson] {
                v.push(ParCase::Lattice { kind, n, start, pool: (i % 4) as u8 * 3 });
            }
        }
        let large = large_specs(ctx.thorough()).into_iter().map(Target::Gauss);
        let comps = [Comp::Midpoint, Comp::Trapezoid, Comp::Simpson].into_iter().flat_map(|k| [255, 256, 65_536, 131_075].map(|n| Target::Comp(k, n)));
        for (i, on) in large.chain(comps).enumerate() {
            let pool = (i % 9 + 1) as u8;
            v.push(ParCase::Hash { on, a: X(2.5), b: X(-0.75), salt: i as u64, pool });
            v.push(ParCase::Special { on, a: X(-0.5), b: X(1.5), at: on.calls() as u32 - 1, v: X(f64::NAN), pool });
            v.push(ParCase::Panic { on, at: on.calls() as u32 - 1, pool });
        }
        for n in (1..=ctx.pick(400usize, 1500)).chain([10_000, 65_537, 131_075]).chain(ctx.pick(vec![], vec![1_000_003, 4_194_304])).rev() {
            for kind in 0..3 {
                v.push(ParCase::New { n, kind, pool: (n % 10) as u8 });
            }
        }
        for n in (1..=ctx.pick(300u32, 1000)).rev() {
            for k in [Comp::Midpoint, Comp::Trapezoid, Comp::Simpson] {
                v.push(ParCase::Hash { on: Target::Comp(k, n), a: X(-1.0), b: X(2.5), salt: u64::from(n), pool: (n % 10) as u8 });
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<ParCase> {
        let t = || targets(ctx.pick(30, 80), ctx.pick(400, 3000), ctx.pick(3000, 100_000));
        let pool = || 0u8..=9;
        prop_oneof![
            6 => (t(), wild_intervals(), any::<u64>(), pool()).prop_map(|(on, (a, b), salt, pool)| ParCase::Hash { on, a, b, salt, pool }),
            1 => (t(), intervals(), any::<u32>(), prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), pool())
                .prop_map(|(on, (a, b), at, v, pool)| ParCase::Special { on, a, b, at, v: X(v), pool }),
            1 => (t(), intervals(), prop::collection::vec(any::<u64>(), 2..5), pool()).prop_map(|(on, (a, b), salts, pool)| ParCase::Shared { on, a, b, salts, pool }),
            1 => (tame_targets(), tame_targets(), -3.0f64..3.0, 0.1f64..3.0, 0.1f64..4.0, pool())
                .prop_map(|(outer, inner, a, d, k, pool)| ParCase::Nested { outer, inner, a: X(a), b: X(a + d), k: X(k), pool }),
            1 => (t(), any::<u32>(), pool()).prop_map(|(on, at, pool)| ParCase::Panic { on, at, pool }),
            2 => (degrees(ctx.pick(3000, 30_000)), 0u8..3, pool()).prop_map(|(n, kind, pool)| ParCase::New { n, kind, pool }),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(250_000, 3_000_000)
    }
    fn check(&self, c: &ParCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        match c {
            ParCase::Hash { on, a, b, salt, pool } => {
                let (a, b) = (a.0, b.0);
                obs.nontrivial = on.calls() >= 2;
                obs.label(on.name());
                let rule = on.build();
                hash_once(on, &rule, a, b, *salt, *pool, obs)
            }
            ParCase::Special { on, a, b, at, v, pool } => {
                obs.nontrivial = on.calls() >= 2;
                obs.label("NaN or infinite value");
                let rule = on.build();
                let count = AtomicU64::new(0);
                let at = u64::from(*at) % on.calls();
                let got = within_pool(*pool, || {
                    rule.par(a.0, b.0, |_| if count.fetch_add(1, Ordering::SeqCst) == at { v.0 } else { 1.0 })
                });
                // a weight that underflows to zero turns an infinity into NaN; never into a number
                obs.ensure(!got.is_finite(), || format!("{on:?}: one value was {:?} but the parallel result is {got:e}", v.0))
            }
            ParCase::Shared { on, a, b, salts, pool } => {
                obs.nontrivial = on.calls() >= 2;
                obs.label("one rule used by several threads");
                let rule = &on.build();
                let results: Vec<Result<Obs, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = salts
                        .iter()
                        .map(|salt| {
                            sc.spawn(move || {
                                let mut o = Obs::default();
                                hash_once(on, rule, a.0, b.0, *salt, *pool, &mut o).map(|()| o)
                            })
                        })
                        .collect();
                    hs.into_iter()
                        .map(|h| h.join().unwrap_or_else(|_| Err("a thread that integrated in parallel panicked".into())))
                        .collect()
                });
                for r in results {
                    obs.compared += r?.compared;
                }
                Ok(())
            }
            ParCase::Nested { outer, inner, a, b, k, pool } => {
                obs.nontrivial = outer.calls() >= 2 && inner.calls() >= 2;
                obs.label("nested");
                let (o, i) = (outer.build(), inner.build());
                let (a, b, k) = (a.0, b.0, k.0);
                let f = |x: f64, y: f64| (k * x * y + y).sin();
                let want = o.serial(a, b, |x| i.serial(0.0, x, |y| f(x, y)));
                let got = within_pool(*pool, || o.par(a, b, |x| i.par(0.0, x, |y| f(x, y))));
                let r = a.abs().max(b.abs());
                let mass = o.mass(a, b) * i.mass(0.0, r);
                let ops = (outer.calls() + inner.calls()) as f64 + 20.0 + 30.0 * (1.0 + k) * (1.0 + r) * (1.0 + r);
                obs.within("nested", got - want, 2.0 * f64::EPSILON * ops * mass, || {
                    format!("{outer:?} of {inner:?} on [{a:?}, {b:?}]: {got:e} in parallel, {want:e} serially")
                })
            }
            ParCase::Panic { on, at, pool } => {
                obs.nontrivial = on.calls() >= 2;
                obs.label("panicking integrand");
                let rule = on.build();
                let at = u64::from(*at) % on.calls();
                let count = AtomicU64::new(0);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    within_pool(*pool, || {
                        rule.par(0.0, 1.0, |_| {
                            if count.fetch_add(1, Ordering::SeqCst) == at {
                                resume_unwind(Box::new(Injected));
                            }
                            1.0
                        })
                    })
                }));
                match res {
                    Ok(v) => return Err(format!("{on:?}: the integrand panicked but the parallel integral returned {v:e}")),
                    Err(p) => obs.ensure(p.is::<Injected>(), || format!("{on:?}: the integrand's panic came out as a different one"))?,
                }
                // and the rule still works
                hash_once(on, &rule, 0.0, 1.0, 7, *pool, obs)
            }
            ParCase::New { n, kind, pool } => {
                obs.nontrivial = *n >= 2;
                obs.label("par_new");
                let d = nz(*n);
                let (p, q) = within_pool(*pool, || match kind {
                    0 => (Rule::Leg(GaussLegendre::new(d)), Rule::Leg(GaussLegendre::par_new(d))),
                    1 => (Rule::C1(GaussChebyshevFirstKind::new(d)), Rule::C1(GaussChebyshevFirstKind::par_new(d))),
                    _ => (Rule::C2(GaussChebyshevSecondKind::new(d)), Rule::C2(GaussChebyshevSecondKind::par_new(d))),
                });
                let (p, q) = (p.pairs(), q.pairs());
                obs.ensure(p.len() == q.len(), || format!("degree {n}: new gives {} pairs, par_new {}", p.len(), q.len()))?;
                for (i, (s, t)) in p.iter().zip(q).enumerate() {
                    obs.within("par_new node", s.0 - t.0, 1e-15, || format!("kind {kind}, degree {n}: node {i} is {:e} from new, {:e} from par_new", s.0, t.0))?;
                    // sin^2 close to 0 amplifies the rounding of its argument
                    let tol = s.1.abs() * 2e-15 + 4e-15 / *n as f64 * (s.1.abs() * *n as f64).sqrt();
                    obs.within("par_new weight", s.1 - t.1, tol, || format!("kind {kind}, degree {n}: weight {i} is {:e} from new, {:e} from par_new", s.1, t.1))?;
                }
                Ok(())
            }
            ParCase::Lattice { kind, n, start, pool } => {
                obs.nontrivial = *n >= 2;
                obs.label("cells of width one");
                let (want, tol) = lattice_integral(*kind, *n, *start);
                let (a, b) = (f64::from(*start), f64::from(*start) + f64::from(*n));
                let rule = kind.build(*n);
                let got = within_pool(*pool, || rule.par_integrate(a, b, lattice_value));
                obs.within("lattice sum", got - want, tol, || format!("{kind:?} of degree {n} on [{a}, {b}]: the sum over the cells is {got}, should be {want}"))
            }
            ParCase::Huge { on } => {
                obs.nontrivial = true;
                obs.label("very large degree");
                let Target::Comp(_, n) = *on else { return Ok(()) };
                let steps = Steps::new(u64::from(n));
                let got = on.build().par(0.0, 4.0, |x| steps.at(x));
                obs.within("step function", got - steps.integral, steps.tolerance(n), || format!("{on:?}: the integral of a step function is {got}, should be {}", steps.integral))?;
                if n > 1 << 25 {
                    return Ok(());
                }
                let got = on.build().par(0.0, 3.0, |_| 1.0);
                let tol = 3.0 * f64::EPSILON * (f64::from(n) + 20.0);
                obs.within("constant", got - 3.0, tol, || format!("{on:?}: the integral of 1 over [0, 3] is {got}"))
            }
        }
    }
}

/// One parallel integral with recorded calls, compared with the definition and the serial result.
fn hash_once(on: &Target, rule: &Any, a: f64, b: f64, salt: u64, pool: u8, obs: &mut Obs) -> Result<(), String> {
    // slots instead of a lock, so that recording does not put the calls in a queue
    let slots: Vec<AtomicU64> = (0..on.calls() + 8).map(|_| AtomicU64::new(0)).collect();
    let count = AtomicUsize::new(0);
    let got = within_pool(pool, || {
        rule.par(a, b, |x| {
            if let Some(s) = slots.get(count.fetch_add(1, Ordering::Relaxed)) {
                s.store(x.to_bits(), Ordering::Relaxed);
            }
            hashed(x, salt)
        })
    });
    let made = count.load(Ordering::SeqCst);
    obs.ensure(made as u64 == on.calls(), || format!("{on:?}: par_integrate called the integrand {made} times"))?;
    let mut calls: Vec<(f64, f64)> = slots[..made]
        .iter()
        .map(|s| f64::from_bits(s.load(Ordering::SeqCst)))
        .map(|x| (x, hashed(x, salt)))
        .collect();
    let tol = match (on, rule) {
        (Target::Gauss(s), Any::Gauss(r)) => check_weighted_sum(s, r.pairs(), a, b, &mut calls, None, got, obs),
        (Target::Comp(k, n), _) => check_composite_sum(*k, *n, a, b, &mut calls, got, obs),
        _ => Err("unreachable".into()),
    }
    .map_err(|m| format!("par_integrate, pool {pool}: {m}"))?;
    let mut serial_calls = Vec::with_capacity(calls.len());
    let want = rule.serial(a, b, |x| {
        let y = hashed(x, salt);
        serial_calls.push((x, y));
        y
    });
    serial_calls.sort_by(|p, q| p.0.total_cmp(&q.0));
    calls.sort_by(|p, q| p.0.total_cmp(&q.0));
    if serial_calls.iter().zip(&calls).all(|(p, q)| p.0 == q.0) {
        // both sums have been compared with the definition, or the bound applies to both
        obs.within("serial result", got - want, 2.0 * tol, || {
            format!("{on:?} on [{a:?}, {b:?}]: {got:e} in parallel, {want:e} serially")
        })?;
    } else {
        obs.label("arguments rounded differently");
    }
    Ok(())
}

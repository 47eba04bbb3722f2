//! C20, C21: rules as values, over histories of use; and what they allocate.

use crate::common::*;
use crate::each_comp;
use crate::each_rule;
use crate::engine::*;
use crate::props_integrate::*;
use crate::props_rules::{compare_rule, middle_probe};
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

// ------------------------------------------------------------------------------------------ C20

pub struct History;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Deed {
    Build(u8),
    /// build the same rule on another thread
    BuildElsewhere(u8),
    CloneIt(u8),
    DropIt(u8),
    /// the value must be the same every time
    Integrate(u8, X, X, u64),
    /// an integral inside of an integral, also of the rule itself
    Nested(u8, u8, X, X, u64),
    /// the integrand panics at this call
    Panic(u8, u16),
    /// several threads integrate with one rule
    Threads(u8, u64),
    /// walk through part of the rule
    Walk(u8, u8),
    /// into_node_weight_pairs or into_iter of a clone
    Consume(u8),
    /// Jacobi from the rule, where there is a conversion
    Convert(u8),
    /// rules are equal exactly if they were built from the same description
    Compare(u8, u8),
    /// the integrand returns NaN
    Poison(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistoryCase {
    /// what is built, by number
    pub palette: Vec<Spec>,
    pub deeds: Vec<Deed>,
}

/// Rules that differ little: two degrees and three parameters, so that the same rule is built
/// again and rules are built that share everything but one parameter.
fn palettes() -> BoxedStrategy<Vec<Spec>> {
    let degree = prop::sample::select(vec![1usize, 2, 3, 4, 5, 8, 10, 17, 40]);
    let a = prop_oneof![
        2 => prop::sample::select(vec![0.0f64, 0.5, -0.5, 1.0, 0.25, -0.25, 1.5, 2.0, -0.9, 0.5000000000000001, 0.3, 0.30000000000000004, 1.0000000000000002, -0.5000000000000001, 1e-200, -1e-200]),
        1 => -0.95f64..3.0,
    ];
    (prop::collection::vec(degree, 2), prop::collection::vec(a, 3))
        .prop_flat_map(|(d, p)| {
            let mut specs = vec![];
            for &n in &d {
                specs.extend([Spec::Legendre(n), Spec::Legendre(n + 99), Spec::Hermite(n), Spec::Chebyshev1(n), Spec::Chebyshev2(n)]);
                for &a in &p {
                    specs.extend([Spec::Laguerre(n, X(a)), Spec::Laguerre(n, X(a))]);
                    for &b in &p {
                        specs.push(Spec::Jacobi(n, X(a), X(b)));
                    }
                }
            }
            prop::collection::vec(prop::sample::select(specs), 2..7)
        })
        .boxed()
}

type Bits = Vec<(u64, u64)>;

fn bits(r: &Rule) -> Bits {
    r.pairs().iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect()
}

/// What is sent between threads without asking the compiler, so that a rule that stops being
/// Sync is reported by the check and does not stop the build.
struct Force<'a>(&'a Rule);
unsafe impl Send for Force<'_> {}
unsafe impl Sync for Force<'_> {}
impl Force<'_> {
    fn get(&self) -> &Rule {
        self.0
    }
}

struct Is<T>(PhantomData<T>);
#[allow(dead_code)]
trait Not {
    fn thread_safe(&self) -> bool {
        false
    }
}
impl<T> Not for Is<T> {}
impl<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe> Is<T> {
    fn thread_safe(&self) -> bool {
        true
    }
}
macro_rules! thread_safe {
    ($($t:ty),*) => {
        [$((stringify!($t), Is::<$t>(PhantomData).thread_safe())),*]
    };
}

impl Prop for History {
    type Case = HistoryCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> String {
        "cases: histories of up to 25 deeds on a pool of Gaussian rules that differ little (few degrees, close parameters): build (also on another thread), clone, drop, integrate, nest integrals of one rule, panic in the integrand, integrate from several threads, iterate, consume, convert, compare, return NaN. Oracle: each rule keeps the bits it was built with, those bits depend on nothing but degree and parameters and are right (double-double reference), and each integral has the same bits whenever it is repeated. Non-trivial: at least 2 rules built and 4 deeds.".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["known finding: the middle node of an odd-degree Jacobi rule with alpha != beta may be exactly 0".into()]
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        vec![middle_probe()]
    }
    fn strategy(&self, _ctx: &Ctx) -> BoxedStrategy<HistoryCase> {
        let i = || any::<u8>();
        let deed = prop_oneof![
            6 => i().prop_map(Deed::Build),
            1 => i().prop_map(Deed::BuildElsewhere),
            1 => i().prop_map(Deed::CloneIt),
            1 => i().prop_map(Deed::DropIt),
            6 => (i(), intervals(), 0u64..4).prop_map(|(i, (a, b), s)| Deed::Integrate(i, a, b, s)),
            2 => (i(), i(), intervals(), 0u64..4).prop_map(|(i, j, (a, b), s)| Deed::Nested(i, j, a, b, s)),
            2 => (i(), any::<u16>()).prop_map(|(i, k)| Deed::Panic(i, k)),
            1 => (i(), 0u64..4).prop_map(|(i, s)| Deed::Threads(i, s)),
            1 => (i(), any::<u8>()).prop_map(|(i, k)| Deed::Walk(i, k)),
            1 => i().prop_map(Deed::Consume),
            1 => i().prop_map(Deed::Convert),
            2 => (i(), i()).prop_map(|(i, j)| Deed::Compare(i, j)),
            1 => i().prop_map(Deed::Poison),
        ];
        (palettes(), prop::collection::vec(deed, 2..25)).prop_map(|(palette, deeds)| HistoryCase { palette, deeds }).boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(80_000, 1_000_000)
    }
    fn check(&self, c: &HistoryCase, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let built = c.deeds.iter().filter(|d| matches!(d, Deed::Build(_) | Deed::BuildElsewhere(_))).count();
        obs.nontrivial = built >= 2 && c.deeds.len() >= 4;
        for (name, ok) in thread_safe!(GaussLegendre, GaussHermite, GaussLaguerre, GaussJacobi, GaussChebyshevFirstKind, GaussChebyshevSecondKind, Midpoint, Trapezoid, Simpson, FiniteAboveNegOneF64) {
            obs.ensure(ok, || format!("{name} is not Send, Sync, Unpin and UnwindSafe"))?;
        }
        let mut live: Vec<(Spec, Rule)> = vec![];
        let mut known: HashMap<String, Bits> = HashMap::new();
        let mut values: HashMap<String, u64> = HashMap::new();
        for (step, deed) in c.deeds.iter().enumerate() {
            let at = |e: String| format!("step {step}, {deed:?}: {e}");
            let pick = |i: u8| (!live.is_empty()).then(|| i as usize % live.len());
            // the first use of a value records it
            let mut repeat = |what: String, v: f64| match values.get(&what) {
                None => {
                    values.insert(what, v.to_bits());
                    Ok(())
                }
                Some(b) if *b == v.to_bits() => Ok(()),
                Some(b) => Err(format!("{what} is {v:e}, was {:e} before", f64::from_bits(*b))),
            };
            match deed {
                Deed::Build(k) | Deed::BuildElsewhere(k) => {
                    let s = &c.palette[*k as usize % c.palette.len()];
                    let elsewhere = matches!(deed, Deed::BuildElsewhere(_));
                    let rule = if elsewhere {
                        obs.label("build on another thread");
                        let r = std::thread::scope(|sc| sc.spawn(|| bits_of(s)).join());
                        let there = r.map_err(|_| at("building panicked on another thread".into()))?;
                        let here = s.build();
                        obs.ensure(there == bits(&here), || at("built differently on another thread".into()))?;
                        here
                    } else {
                        s.build()
                    };
                    let b = bits(&rule);
                    let name = format!("{s:?}");
                    match known.get(&name) {
                        Some(k) => {
                            obs.label("same rule built again");
                            obs.ensure(*k == b, || at("built again, the rule is different".into()))?;
                        }
                        None => {
                            compare_rule(s, &rule, &s.reference(), ctx, obs).map_err(at)?;
                            known.insert(name, b);
                        }
                    }
                    live.push((*s, rule));
                }
                Deed::CloneIt(i) => {
                    if let Some(i) = pick(*i) {
                        obs.label("clone");
                        let copy = (live[i].0, live[i].1.clone());
                        obs.ensure(copy.1 == live[i].1, || at("a clone is not equal to its original".into()))?;
                        live.push(copy);
                    }
                }
                Deed::DropIt(i) => {
                    if let Some(i) = pick(*i) {
                        live.swap_remove(i);
                    }
                }
                Deed::Integrate(i, a, b, salt) => {
                    if let Some(i) = pick(*i) {
                        let (s, r) = &live[i];
                        let v = r.integrate(a.0, b.0, |x| hashed(x, *salt));
                        repeat(format!("the integral of hash {salt} over [{a:?}, {b:?}] with {s:?}"), v).map_err(at)?;
                    }
                }
                Deed::Nested(i, j, a, b, salt) => {
                    if let (Some(i), Some(j)) = (pick(*i), pick(*j)) {
                        obs.label("nested");
                        let ((s, r), (t, q)) = (&live[i], &live[j]);
                        let inner = |x: f64| q.integrate(0.0, x, |y| hashed(x + y, *salt));
                        let v = r.integrate(a.0, b.0, inner);
                        // the inner integrals first, one by one
                        let mut xs = vec![];
                        r.integrate(a.0, b.0, |x| { xs.push(x); 0.0 });
                        let mut ys = xs.iter().map(|x| inner(*x)).collect::<Vec<f64>>().into_iter();
                        let w = r.integrate(a.0, b.0, |_| ys.next().unwrap_or(f64::NAN));
                        obs.ensure(v.to_bits() == w.to_bits(), || at(format!("{s:?} of {t:?}: nested {v:e}, one after the other {w:e}")))?;
                        repeat(format!("the double integral of hash {salt} over [{a:?}, {b:?}] with {s:?} and {t:?}"), v).map_err(at)?;
                    }
                }
                Deed::Panic(i, k) => {
                    if let Some(i) = pick(*i) {
                        obs.label("panicking integrand");
                        let (s, r) = &live[i];
                        let stop = *k as usize % s.n();
                        let mut calls = 0;
                        let res = catch_unwind(AssertUnwindSafe(|| {
                            r.integrate(0.0, 1.0, |x| {
                                calls += 1;
                                if calls > stop {
                                    resume_unwind(Box::new(Injected));
                                }
                                x
                            })
                        }));
                        match res {
                            Ok(v) => return Err(at(format!("{s:?}: the integrand panicked at call {} and the integral is {v:e}", stop + 1))),
                            Err(p) => obs.ensure(p.is::<Injected>() && calls == stop + 1, || at(format!("{s:?}: {calls} calls, the panic was to come at {}", stop + 1)))?,
                        }
                    }
                }
                Deed::Threads(i, salt) => {
                    if let Some(i) = pick(*i) {
                        obs.label("several threads");
                        let (s, r) = &live[i];
                        let f = &Force(r);
                        let here = r.integrate(-1.0, 2.0, |x| hashed(x, *salt));
                        let there: Vec<Option<f64>> = std::thread::scope(|sc| {
                            let hs: Vec<_> = (0..3).map(|_| sc.spawn(move || f.get().integrate(-1.0, 2.0, |x| hashed(x, *salt)))).collect();
                            hs.into_iter().map(|h| h.join().ok()).collect()
                        });
                        for v in there {
                            obs.ensure(v.is_some_and(|v| v.to_bits() == here.to_bits()), || at(format!("{s:?}: {here:e} here, {v:?} on another thread")))?;
                        }
                    }
                }
                Deed::Walk(i, k) => {
                    if let Some(i) = pick(*i) {
                        let k = *k as usize;
                        let (a, b, c) = each_rule!(&live[i].1, r => {
                            (r.nodes().nth(k).copied(), r.weights().rev().nth(k).copied(), r.iter().skip(k).count())
                        });
                        let p = live[i].1.pairs();
                        let ok = a == p.get(k).map(|p| p.0) && b == p.iter().rev().nth(k).map(|p| p.1) && c == p.len().saturating_sub(k);
                        obs.ensure(ok, || at(format!("{:?}: {a:?}, {b:?}, {c}", live[i].0)))?;
                    }
                }
                Deed::Consume(i) => {
                    if let Some(i) = pick(*i) {
                        let owned: Vec<(f64, f64)> = each_rule!(live[i].1.clone(), r => r.into_node_weight_pairs().into_vec());
                        let iterated: Vec<(f64, f64)> = each_rule!(live[i].1.clone(), r => r.into_iter().collect());
                        obs.ensure(owned == live[i].1.pairs() && iterated == owned, || at(format!("{:?} comes apart differently", live[i].0)))?;
                    }
                }
                Deed::Convert(i) => {
                    if let Some(i) = pick(*i) {
                        let (s, r) = &live[i];
                        let v = match s {
                            Spec::Legendre(_) => 0.0,
                            Spec::Chebyshev1(_) => -0.5,
                            Spec::Chebyshev2(_) => 0.5,
                            _ => continue,
                        };
                        obs.label("convert");
                        let j = match r.clone() {
                            Rule::Leg(r) => GaussJacobi::from(r),
                            Rule::C1(r) => r.into(),
                            Rule::C2(r) => r.into(),
                            _ => continue,
                        };
                        let same: Bits = j.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect();
                        obs.ensure(same == bits(r) && j.alpha().get() == v && j.beta().get() == v, || at(format!("{s:?}: converted to {:?}, {:?}", j.alpha(), j.beta())))?;
                    }
                }
                Deed::Compare(i, j) => {
                    if let (Some(i), Some(j)) = (pick(*i), pick(*j)) {
                        let ((s, r), (t, q)) = (&live[i], &live[j]);
                        // rules of different degree or different parameters are different
                        let same = s == t;
                        if same || s.name() == t.name() {
                            obs.label(if same { "compare equal" } else { "compare different" });
                            obs.ensure((r == q) == same && (q == r) == same, || at(format!("{s:?} == {t:?} is {}", r == q)))?;
                        }
                    }
                }
                Deed::Poison(i) => {
                    if let Some(i) = pick(*i) {
                        let v = live[i].1.integrate(0.0, 1.0, |_| f64::NAN);
                        obs.ensure(v.is_nan(), || at(format!("{:?}: the integral of NaN is {v:e}", live[i].0)))?;
                    }
                }
            }
            for (s, r) in &live {
                let want = &known[&format!("{s:?}")];
                obs.ensure(bits(r) == *want && r.degree() == s.n(), || at(format!("{s:?} has changed")))?;
            }
        }
        Ok(())
    }
}

fn bits_of(s: &Spec) -> Bits {
    bits(&s.build())
}

// ------------------------------------------------------------------------------------------ C21

/// Counts what the current thread asks of the heap.
pub struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
fn count(bytes: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + bytes as u64));
}
// SAFETY: everything is passed on to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
}

/// The number of allocations and bytes that `f` asks for.
fn allocations<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let (c, b) = (CALLS.get(), BYTES.get());
    let r = f();
    (r, CALLS.get() - c, BYTES.get() - b)
}

pub struct Heap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HeapCase {
    /// a whole life of a composite rule
    Composite(Comp, u32, X, X, u32),
    /// a Gaussian rule gives away the buffer it has, also after use
    Gauss(Spec, X, X),
}

impl Prop for Heap {
    type Case = HeapCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> String {
        "cases: any rule, degree and interval; a counting global allocator observes the construction, integration, iteration, change of degree and cloning of the composite rules (no allocation at all), and into_node_weight_pairs of Gaussian rules (no allocation, the same buffer comes out). Non-trivial: degree >= 2.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<HeapCase> {
        let mut v: Vec<HeapCase> = large_specs(ctx.thorough()).into_iter().map(|s| HeapCase::Gauss(s, X(-0.5), X(2.5))).collect();
        for k in [Comp::Midpoint, Comp::Trapezoid, Comp::Simpson] {
            for (n, m) in [(65_537, 131_075), (1_000_003, 3), (255, 256), (5, 1 << 24)] {
                v.push(HeapCase::Composite(k, n, X(2.0), X(-1.0), m));
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<HeapCase> {
        let comp = prop::sample::select(vec![Comp::Midpoint, Comp::Trapezoid, Comp::Simpson]);
        prop_oneof![
            1 => (comp, comp_degrees(ctx.pick(20_000, 400_000)), intervals(), 1u32..3000).prop_map(|(k, n, (a, b), m)| HeapCase::Composite(k, n, a, b, m)),
            1 => (specs(ctx.pick(30, 100), ctx.pick(500, 5000)), intervals()).prop_map(|(s, (a, b))| HeapCase::Gauss(s, a, b)),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(2_000_000, 20_000_000)
    }
    fn check(&self, c: &HeapCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        match *c {
            HeapCase::Composite(kind, n, a, b, m) => {
                obs.nontrivial = n >= 2;
                obs.label("composite");
                let (rule, calls, bytes) = allocations(|| kind.build(n));
                obs.ensure(calls == 0, || format!("{kind:?}::new({n}) makes {calls} allocations of {bytes} bytes"))?;
                let (_, calls, bytes) = allocations(|| rule.integrate(a.0, b.0, |x| x));
                obs.ensure(calls == 0, || format!("{kind:?} of degree {n}: integrate makes {calls} allocations of {bytes} bytes"))?;
                let (_, calls, bytes) = allocations(|| each_comp!(&rule, r => r.iter().rev().map(|x| x + r.iter().len() as f64).sum::<f64>()));
                obs.ensure(calls == 0, || format!("{kind:?} of degree {n}: iterating makes {calls} allocations of {bytes} bytes"))?;
                let mut rule = rule;
                let (_, calls, bytes) = allocations(|| {
                    each_comp!(&mut rule, r => r.change_degree(nz32(m)));
                    let other = rule.clone();
                    other.integrate(b.0, a.0, |x| x)
                });
                obs.ensure(calls == 0, || format!("{kind:?}: change_degree({m}), clone and integrate make {calls} allocations of {bytes} bytes"))
            }
            HeapCase::Gauss(s, a, b) => {
                obs.nontrivial = s.n() >= 2;
                obs.label(s.name());
                let rule = s.build();
                let n = s.n();
                rule.integrate(a.0, b.0, |x| x);
                let copy = rule.clone();
                let from = copy.pairs().as_ptr();
                let (boxed, calls, bytes) = allocations(|| each_rule!(copy, r => r.into_node_weight_pairs()));
                obs.ensure(calls == 0 && boxed.as_ptr() == from && boxed.len() == n, || {
                    format!("{s:?}: into_node_weight_pairs makes {calls} allocations of {bytes} bytes, or another buffer")
                })?;
                obs.ensure(boxed.iter().map(|p| key2(*p)).eq(rule.pairs().iter().map(|p| key2(*p))), || format!("{s:?}: into_node_weight_pairs gives other pairs"))
            }
        }
    }
}

//! C25: the work grows in proportion to the degree. The oracle counts instructions, with
//! valgrind's cachegrind, so that it does not depend on the load or the speed of the machine.

use crate::common::*;
use crate::engine::*;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::Mutex;

pub struct Cost;

/// A rule whose construction is linear.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Lin {
    Legendre,
    Chebyshev1,
    Chebyshev2,
    /// a Jacobi rule by conversion from these
    FromLegendre,
    FromChebyshev1,
    FromChebyshev2,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Trap {
    Midpoint,
    Trapezoid,
    Simpson,
}

/// What is done with the rule once it is there.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Use {
    Nothing,
    /// the parallel constructor, on one thread
    ParNew,
    Integrate,
    ParIntegrate,
    /// both ends of every view in turn, asking for the length at each step
    Walk,
    /// every view by strides, from both ends
    Stride,
    /// ask the rule for its degree, its slice and its views again and again
    Access,
    /// clone, compare, give up
    Copy,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Work {
    Gauss(Lin, Use),
    Comp(Trap, Use),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CostCase {
    pub work: Work,
    pub n: usize,
    /// added to four times n, so that the larger degree has any remainder
    pub more: u8,
}

const LINS: [Lin; 6] = [Lin::Legendre, Lin::Chebyshev1, Lin::Chebyshev2, Lin::FromLegendre, Lin::FromChebyshev1, Lin::FromChebyshev2];
const TRAPS: [Trap; 3] = [Trap::Midpoint, Trap::Trapezoid, Trap::Simpson];
const USES: [Use; 8] = [Use::Nothing, Use::ParNew, Use::Integrate, Use::ParIntegrate, Use::Walk, Use::Stride, Use::Access, Use::Copy];

fn works() -> Vec<Work> {
    let mut v = vec![];
    for u in USES {
        if cfg!(not(feature = "full")) && matches!(u, Use::ParNew | Use::ParIntegrate) {
            continue;
        }
        for l in LINS {
            if u == Use::ParNew && matches!(l, Lin::FromLegendre | Lin::FromChebyshev1 | Lin::FromChebyshev2) {
                continue;
            }
            v.push(Work::Gauss(l, u));
        }
        if !matches!(u, Use::Nothing | Use::ParNew) {
            v.extend(TRAPS.map(|t| Work::Comp(t, u)));
        }
    }
    v
}

#[cfg(feature = "full")]
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(f)
}

/// The iterator is asked for its length at each step, and taken from both ends.
fn walk<T>(mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator) {
    while it.len() > 0 {
        black_box(it.next());
        black_box(it.size_hint());
        black_box(it.next_back());
    }
}

fn stride<T>(mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator) {
    while black_box(it.nth(2)).is_some() && black_box(it.nth_back(1)).is_some() {}
    black_box(it.next());
}

trait AnyRule: Clone + PartialEq {
    fn integrate_it(&self, f: impl FnMut(f64) -> f64) -> f64;
    fn par_integrate_it(&self, f: impl Fn(f64) -> f64 + Sync) -> f64;
    fn views(&self, strides: bool);
    fn access(&self);
    fn consume(self);
}

fn put_to_use<R: AnyRule>(r: R, u: Use, n: usize) {
    let r = black_box(r);
    match u {
        Use::Nothing | Use::ParNew => {}
        Use::Integrate => {
            black_box(r.integrate_it(black_box));
        }
        Use::ParIntegrate => {
            black_box(r.par_integrate_it(black_box));
        }
        Use::Walk => r.views(false),
        Use::Stride => r.views(true),
        Use::Access => (0..n).for_each(|_| black_box(&r).access()),
        Use::Copy => {
            let s = r.clone();
            assert!(s == r);
            s.consume();
        }
    }
    black_box(&r);
}

macro_rules! any_rule {
    ($t:ty) => {
        impl AnyRule for $t {
            fn integrate_it(&self, f: impl FnMut(f64) -> f64) -> f64 {
                self.integrate(-1.5, 2.5, f)
            }
            #[cfg(feature = "full")]
            fn par_integrate_it(&self, f: impl Fn(f64) -> f64 + Sync) -> f64 {
                alone(|| self.par_integrate(-1.5, 2.5, &f))
            }
            #[cfg(not(feature = "full"))]
            fn par_integrate_it(&self, f: impl Fn(f64) -> f64 + Sync) -> f64 {
                self.integrate(-1.5, 2.5, f)
            }
            fn access(&self) {
                black_box(self.degree());
                black_box(self.iter().len());
                black_box(self.iter().next_back());
                black_box(self.into_iter().next());
                black_box(self.nodes().len());
                black_box(self.weights().next());
                black_box(self.as_node_weight_pairs().last());
            }
            fn consume(self) {
                for x in self {
                    black_box(x);
                }
            }
            fn views(&self, strides: bool) {
                let r = black_box(self);
                if strides {
                    stride(r.iter());
                    stride(r.nodes());
                    stride(r.weights());
                    stride(r.clone().into_iter());
                } else {
                    walk(r.iter());
                    walk(r.nodes());
                    walk(r.weights());
                    walk(r.clone().into_iter());
                }
                // the slices of what is left
                let mut it = r.iter();
                let mut owned = r.clone().into_iter();
                while !black_box(it.as_slice()).is_empty() && !black_box(owned.as_slice()).is_empty() {
                    it.next();
                    owned.next_back();
                }
                for i in 0..r.degree() {
                    black_box(r.as_node_weight_pairs()[i]);
                }
            }
        }
    };
}
any_rule!(GaussLegendre);
any_rule!(GaussJacobi);
any_rule!(GaussChebyshevFirstKind);
any_rule!(GaussChebyshevSecondKind);

macro_rules! comp {
    ($t:ty) => {
        impl AnyRule for $t {
            fn integrate_it(&self, f: impl FnMut(f64) -> f64) -> f64 {
                self.integrate(-1.5, 2.5, f)
            }
            #[cfg(feature = "full")]
            fn par_integrate_it(&self, f: impl Fn(f64) -> f64 + Sync) -> f64 {
                alone(|| self.par_integrate(-1.5, 2.5, &f))
            }
            #[cfg(not(feature = "full"))]
            fn par_integrate_it(&self, f: impl Fn(f64) -> f64 + Sync) -> f64 {
                self.integrate(-1.5, 2.5, f)
            }
            fn access(&self) {
                black_box(self.degree());
                black_box(self.iter().len());
                black_box(self.iter().next_back());
                black_box(self.into_iter().next());
            }
            fn consume(self) {
                for x in self {
                    black_box(x);
                }
            }
            fn views(&self, strides: bool) {
                let r = black_box(self);
                if strides {
                    stride(r.iter());
                    stride(r.clone().into_iter());
                } else {
                    walk(r.iter());
                    walk(r.clone().into_iter());
                }
            }
        }
    };
}
comp!(Midpoint);
comp!(Trapezoid);
comp!(Simpson);

fn perform(work: Work, n: usize) {
    let d = nz(black_box(n));
    match work {
        #[cfg(feature = "full")]
        Work::Gauss(l, Use::ParNew) => match l {
            Lin::Legendre => drop(black_box(alone(|| GaussLegendre::par_new(d)))),
            Lin::Chebyshev1 => drop(black_box(alone(|| GaussChebyshevFirstKind::par_new(d)))),
            _ => drop(black_box(alone(|| GaussChebyshevSecondKind::par_new(d)))),
        },
        Work::Gauss(l, u) => match l {
            Lin::Legendre => put_to_use(GaussLegendre::new(d), u, n),
            Lin::Chebyshev1 => put_to_use(GaussChebyshevFirstKind::new(d), u, n),
            Lin::Chebyshev2 => put_to_use(GaussChebyshevSecondKind::new(d), u, n),
            Lin::FromLegendre => put_to_use(GaussJacobi::from(GaussLegendre::new(d)), u, n),
            Lin::FromChebyshev1 => put_to_use(GaussJacobi::from(GaussChebyshevFirstKind::new(d)), u, n),
            Lin::FromChebyshev2 => put_to_use(GaussJacobi::from(GaussChebyshevSecondKind::new(d)), u, n),
        },
        Work::Comp(t, u) => {
            let d = std::num::NonZeroU32::new(black_box(n) as u32).unwrap();
            match t {
                Trap::Midpoint => put_to_use(Midpoint::new(d), u, n),
                Trap::Trapezoid => put_to_use(Trapezoid::new(d), u, n),
                Trap::Simpson => put_to_use(Simpson::new(d), u, n),
            }
        }
    }
}

/// Do one piece of work and nothing else: what is counted.
pub fn work(what: &str) -> i32 {
    match serde_json::from_str::<CostCase>(what) {
        Ok(c) => {
            perform(c.work, c.n);
            0
        }
        Err(_) => 3,
    }
}

/// Instructions executed by a process that does the work, or why there is no count.
fn instructions(work: Work, n: usize) -> Result<f64, Option<String>> {
    let exe = std::env::current_exe().expect("own executable");
    let arg = serde_json::to_string(&CostCase { work, n, more: 0 }).expect("json");
    let out = std::process::Command::new("timeout")
        .args(["-k", "5", "200", "valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg(&exe)
        .args(["cost", &arg])
        .output()
        .unwrap_or_else(|e| no_answer(&format!("valgrind does not start: {e}")));
    let text = String::from_utf8_lossy(&out.stderr);
    if out.status.code() == Some(124) {
        return Err(Some("not finished after 200 s".into()));
    }
    let count = text
        .lines()
        .find(|l| l.contains("refs:"))
        .and_then(|l| l.rsplit(':').next())
        .and_then(|l| l.trim().replace(',', "").parse::<f64>().ok());
    match count {
        Some(c) if out.status.success() => Ok(c),
        // the work itself failed: for C23 to say, not here
        Some(_) => Err(None),
        None => no_answer(&format!("no instruction count from valgrind: {}", text.lines().last().unwrap_or(""))),
    }
}

fn no_answer(why: &str) -> ! {
    println!("ERROR property=C25 {why}: no answer");
    std::process::exit(4)
}

static BASE: Mutex<Option<HashMap<Work, f64>>> = Mutex::new(None);

/// What the process costs without the work: the same work at degree 1.
fn base(work: Work) -> Result<f64, Option<String>> {
    if let Some(b) = BASE.lock().unwrap().as_ref().and_then(|m| m.get(&work)) {
        return Ok(*b);
    }
    let b = instructions(work, 1)?;
    BASE.lock().unwrap().get_or_insert_default().insert(work, b);
    Ok(b)
}

/// How much the work may grow when the degree is multiplied by four: linear work grows fourfold,
/// work that grows like n log n at these degrees fivefold, quadratic work sixteenfold.
const GROWTH: f64 = 6.5;
/// What may come on top, once: growing a buffer, waking a thread up.
const ONCE: f64 = 2e5;

impl Prop for Cost {
    type Case = CostCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> String {
        "cases: a piece of work (construct a Legendre or Chebyshev rule, in sequence or in parallel, convert it to a Jacobi rule, integrate, walk through the views from both ends or by strides, ask again and again for degree, views and slices, clone and compare; the same for composite rules) and degrees n and 4n + r, r from 0 to 3; oracle: instructions executed (counted by valgrind, less those at degree 1) at degree 4n + r are at most 6.5 times those at degree n plus 2e5. Non-trivial: n >= 500.".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["instructions stand for time; parallel work is counted on one thread".into()]
    }
    fn grid(&self, ctx: &Ctx) -> Vec<CostCase> {
        let mut v: Vec<CostCase> = works().into_iter().enumerate().map(|(i, work)| CostCase { work, n: 4096 + i % 2, more: (i % 2) as u8 }).collect();
        // the same with the other remainder, where the construction depends on it most
        v.extend(works().into_iter().enumerate().filter(|w| matches!(w.1, Work::Gauss(_, Use::Nothing | Use::ParNew))).map(|(i, work)| CostCase { work, n: 4097 - i % 2, more: 1 - (i % 2) as u8 }));
        // work that turns quadratic at large degrees only
        for l in [Lin::Legendre, Lin::Chebyshev1, Lin::Chebyshev2] {
            v.push(CostCase { work: Work::Gauss(l, Use::Nothing), n: 250_001, more: 1 });
        }
        for t in TRAPS {
            v.push(CostCase { work: Work::Comp(t, Use::Integrate), n: 1_000_000, more: 3 });
        }
        if ctx.thorough() {
            v.extend(works().into_iter().map(|work| CostCase { work, n: 60_000, more: 2 }));
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<CostCase> {
        let top = ctx.pick(4.2f64, 4.9);
        (prop::sample::select(works()), 2.5..top, 0u8..4).prop_map(|(work, e, more)| CostCase { work, n: 10f64.powf(e) as usize, more }).boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(40, 800)
    }
    fn check(&self, case: &CostCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let CostCase { work, n, more } = *case;
        let m = 4 * n + more as usize;
        obs.nontrivial = n >= 500;
        obs.label(match work {
            Work::Gauss(..) => "Gaussian rule",
            Work::Comp(..) => "composite rule",
        });
        let count = || -> Result<(f64, f64, f64), Option<String>> { Ok((base(work)?, instructions(work, n)?, instructions(work, m)?)) };
        match count() {
            Ok((b, one, four)) => {
                let (one, four) = ((one - b).max(0.0), (four - b).max(0.0));
                obs.within("growth", four, GROWTH * one + ONCE, || format!("{work:?}: {one} instructions at degree {n}, {four} at degree {m}"))
            }
            Err(Some(why)) => Err(format!("{work:?} at degree {n} or {m}: {why}")),
            Err(None) => Ok(()),
        }
    }
}

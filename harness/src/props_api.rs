//! C13, C14: iterators and accessors against a sequence model, over histories of calls.

use crate::common::*;
use crate::each_rule;
use crate::engine::*;
use crate::props_integrate::*;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::iter::FusedIterator;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
    /// `nth` / `nth_back` relative to the number of items left
    NthNearEnd(i8, bool),
    Len,
    /// advance a clone and look at the original, or continue with the clone
    Fork(u8, bool),
    /// take some items through `by_ref`
    Take(u8),
    TakeBack(u8),
    /// consume a clone: collect, count, last, fold, ...
    Drain(u8),
    /// the same however many items are left
    DrainAll(u8),
    Slice,
}

pub fn ops(max: usize) -> BoxedStrategy<Vec<Op>> {
    let k = || {
        prop_oneof![
            6 => 0usize..=3,
            2 => 0usize..=40,
            1 => prop::sample::select(vec![usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 31, (1 << 63) - 1]),
            1 => (0u32..40).prop_map(|s| 1usize << s),
        ]
    };
    let op = prop_oneof![
        5 => Just(Op::Next),
        5 => Just(Op::NextBack),
        4 => k().prop_map(Op::Nth),
        4 => k().prop_map(Op::NthBack),
        1 => (-3i8..=3, any::<bool>()).prop_map(|(d, b)| Op::NthNearEnd(d, b)),
        3 => Just(Op::Len),
        2 => (0u8..4, any::<bool>()).prop_map(|(n, s)| Op::Fork(n, s)),
        1 => (0u8..6).prop_map(Op::Take),
        1 => (0u8..6).prop_map(Op::TakeBack),
        4 => (0u8..DRAINS).prop_map(Op::Drain),
        1 => Just(Op::Slice),
    ];
    prop::collection::vec(op, 1..max).boxed()
}

/// The items left are `get(lo), ..., get(hi - 1)`.
#[derive(Clone, Copy, Debug)]
pub struct Model {
    pub lo: u64,
    pub hi: u64,
}

impl Model {
    fn left(&self) -> u64 {
        self.hi - self.lo
    }
    fn nth(&mut self, k: usize) -> Option<u64> {
        if k as u64 >= self.left() {
            self.lo = self.hi;
            return None;
        }
        self.lo += k as u64 + 1;
        Some(self.lo - 1)
    }
    fn nth_back(&mut self, k: usize) -> Option<u64> {
        if k as u64 >= self.left() {
            self.hi = self.lo;
            return None;
        }
        self.hi -= k as u64 + 1;
        Some(self.hi)
    }
}

/// The number of ways to consume an iterator.
const DRAINS: u8 = 34;

/// An order that has nothing to do with that of the sequence.
fn mix(k: Key) -> u64 {
    (k.0 ^ k.1.rotate_left(31) ^ 0x5bd1_e995_9d1b_58cd).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 3
}

/// How many items a consuming comparison may look at.
const SMALL: u64 = 3000;

/// Applies one operation to the iterator and to the model.
pub fn apply<I>(
    it: &mut I,
    m: &mut Model,
    op: Op,
    get: &dyn Fn(u64) -> Key,
    key: fn(I::Item) -> Key,
    slice: &dyn Fn(&I) -> Option<Vec<Key>>,
    obs: &mut Obs,
) -> Result<(), String>
where
    I: DoubleEndedIterator + ExactSizeIterator + FusedIterator + Clone,
    I::Item: Copy + PartialOrd,
{
    let mut same = |what: &str, got: Option<Key>, want: Option<u64>| -> Result<(), String> {
        let want = want.map(get);
        obs.ensure(got == want, || format!("{what}: got {}, should be {}", show(got), show(want)))
    };
    match op {
        Op::Next => same("next", it.next().map(key), m.nth(0)),
        Op::NextBack => same("next_back", it.next_back().map(key), m.nth_back(0)),
        Op::Nth(k) => same("nth", it.nth(k).map(key), m.nth(k)),
        Op::NthBack(k) => same("nth_back", it.nth_back(k).map(key), m.nth_back(k)),
        Op::NthNearEnd(d, back) => {
            let k = (m.left() as i64 + i64::from(d)).max(0) as usize;
            if back {
                same("nth_back", it.nth_back(k).map(key), m.nth_back(k))
            } else {
                same("nth", it.nth(k).map(key), m.nth(k))
            }
        }
        Op::Len => {
            let left = m.left() as usize;
            obs.ensure(it.len() == left, || format!("len is {}, {left} items are left", it.len()))?;
            obs.ensure(it.size_hint() == (left, Some(left)), || {
                format!("size_hint is {:?}, {left} items are left", it.size_hint())
            })
        }
        Op::Fork(n, switch) => {
            let mut c = it.clone();
            let mut mc = *m;
            for _ in 0..n {
                same("next of a clone", c.next().map(key), mc.nth(0))?;
            }
            if switch {
                *it = c;
                *m = mc;
            }
            Ok(())
        }
        Op::Take(n) => {
            for x in it.by_ref().take(n as usize) {
                same("by_ref().take", Some(key(x)), m.nth(0))?;
            }
            Ok(())
        }
        Op::TakeBack(n) => {
            for x in it.by_ref().rev().take(n as usize) {
                same("by_ref().rev().take", Some(key(x)), m.nth_back(0))?;
            }
            Ok(())
        }
        Op::Drain(kind) | Op::DrainAll(kind) => {
            if m.left() > SMALL && matches!(op, Op::Drain(_)) {
                return if kind % 2 == 0 && m.left() < 1 << 22 {
                    let n = it.clone().count() as u64;
                    obs.ensure(n == m.left(), || format!("count is {n}, {} items are left", m.left()))
                } else {
                    Ok(())
                };
            }
            let all: Vec<Key> = (m.lo..m.hi).map(get).collect();
            let c = it.clone();
            let back = || all.iter().rev().copied().collect::<Vec<Key>>();
            let (what, got, want): (&str, Vec<Key>, Vec<Key>) = match kind {
                0 => ("collect", c.map(key).collect(), all),
                1 => ("rev", c.rev().map(key).collect(), back()),
                2 => ("count", vec![(c.count() as u64, 0)], vec![(all.len() as u64, 0)]),
                3 => ("last", c.last().map(key).into_iter().collect(), all.last().copied().into_iter().collect()),
                4 => ("fold", c.fold(vec![], |mut v, x| { v.push(key(x)); v }), all),
                5 => ("rfold", c.rfold(vec![], |mut v, x| { v.push(key(x)); v }), back()),
                6 => ("step_by", c.step_by(3).map(key).collect(), all.iter().step_by(3).copied().collect()),
                7 => ("skip", c.skip(2).map(key).collect(), all.iter().skip(2).copied().collect()),
                8 => ("skip and rev", c.skip(2).rev().map(key).collect(), all.iter().skip(2).rev().copied().collect()),
                9 => ("enumerate and rev", c.enumerate().rev().map(|(i, x)| (key(x).0, i as u64)).collect(), all.iter().enumerate().rev().map(|(i, x)| (x.0, i as u64)).collect()),
                10 => {
                    let mut v = vec![];
                    c.for_each(|x| v.push(key(x)));
                    ("for_each", v, all)
                }
                11 => {
                    let mut c = c;
                    let mut v = vec![];
                    let _ = c.try_for_each(|x| { v.push(key(x)); if v.len() < 3 { Ok(()) } else { Err(()) } });
                    v.extend(c.map(key));
                    ("try_for_each and the rest", v, all)
                }
                12 => {
                    let mut c = c;
                    let mut v = vec![];
                    let _ = c.try_rfold((), |(), x| { v.push(key(x)); if v.len() < 2 { Ok(()) } else { Err(()) } });
                    v.extend(c.rev().map(key));
                    ("try_rfold and the rest", v, back())
                }
                13 => {
                    let mut c = c;
                    let mid = all.get(all.len() / 2).copied();
                    let first = mid.and_then(|k| all.iter().position(|x| *x == k)).map_or(vec![], |p| vec![(p as u64, 0)]);
                    ("position", mid.and_then(|k| c.position(|x| key(x) == k)).map_or(vec![], |p| vec![(p as u64, 0)]), first)
                }
                14 => {
                    let mut c = c;
                    let mid = all.get(all.len() / 2).copied();
                    let found = mid.and_then(|k| c.rfind(|_| true).map(key).map(|l| (l, k)));
                    let mut v: Vec<Key> = found.into_iter().map(|(l, _)| l).collect();
                    v.extend(c.map(key));
                    let mut want: Vec<Key> = all.last().copied().into_iter().collect();
                    want.extend(all.iter().take(all.len().saturating_sub(1)));
                    ("rfind and the rest", v, want)
                }
                15 => {
                    // both ends meet in the middle
                    let mut c = c;
                    let mut v = vec![];
                    let mut w = vec![];
                    let (mut i, mut j) = (0, all.len());
                    for turn in 0..all.len() + 3 {
                        let x = if turn % 3 == 0 { c.next_back() } else { c.next() };
                        v.extend(x.map(key));
                        if i < j {
                            w.push(if turn % 3 == 0 { j -= 1; all[j] } else { i += 1; all[i - 1] });
                        }
                    }
                    ("next and next_back in turns", v, w)
                }
                16 => ("zip with its reverse", c.clone().zip(c.rev()).map(|(x, y)| (key(x).0, key(y).0)).collect(), all.iter().zip(all.iter().rev()).map(|(x, y)| (x.0, y.0)).collect()),
                17 => {
                    let mut c = c.peekable();
                    let p: Vec<Key> = c.next_if(|_| true).map(key).into_iter().collect();
                    let n = c.len();
                    let mut v = p;
                    v.push((n as u64, 0));
                    let mut w: Vec<Key> = all.first().copied().into_iter().collect();
                    w.push((all.len().saturating_sub(1) as u64, 0));
                    ("peekable", v, w)
                }
                18 => ("min_by", c.min_by(|x, y| mix(key(*x)).cmp(&mix(key(*y)))).map(key).into_iter().collect(), all.iter().copied().min_by_key(|k| mix(*k)).into_iter().collect()),
                19 => ("max_by", c.max_by(|x, y| mix(key(*x)).cmp(&mix(key(*y)))).map(key).into_iter().collect(), all.iter().copied().max_by_key(|k| mix(*k)).into_iter().collect()),
                20 => ("min_by_key", c.min_by_key(|x| mix(key(*x)) >> 56).map(key).into_iter().collect(), all.iter().copied().min_by_key(|k| mix(*k) >> 56).into_iter().collect()),
                21 => ("max_by_key", c.max_by_key(|x| mix(key(*x)) >> 56).map(key).into_iter().collect(), all.iter().copied().max_by_key(|k| mix(*k) >> 56).into_iter().collect()),
                22 => {
                    let mut seen = vec![];
                    let last = c.reduce(|x, y| { seen.push(key(x)); if mix(key(x)) < mix(key(y)) { x } else { y } }).map(key);
                    let mut want = vec![];
                    let l = all.iter().copied().reduce(|x, y| { want.push(x); if mix(x) < mix(y) { x } else { y } });
                    seen.extend(last);
                    want.extend(l);
                    ("reduce", seen, want)
                }
                23 => {
                    let mut c = c;
                    let hit = |k: Key| mix(k) % 3 == 0;
                    let mut v: Vec<Key> = c.find(|x| hit(key(*x))).map(key).into_iter().collect();
                    v.extend(c.find_map(|x| hit(key(x)).then_some(key(x))));
                    v.extend(c.map(key));
                    let mut w = all.iter().copied();
                    let mut want: Vec<Key> = w.find(|k| hit(*k)).into_iter().collect();
                    want.extend(w.find_map(|k| hit(k).then_some(k)));
                    want.extend(w);
                    ("find, find_map and the rest", v, want)
                }
                24 => {
                    let mut c = c;
                    let hit = |k: Key| mix(k) % 3 == 0;
                    let mut v = vec![(u64::from(c.any(|x| hit(key(x)))), 0), (u64::from(c.all(|x| hit(key(x)))), 1)];
                    v.extend(c.map(key));
                    let mut w = all.iter().copied();
                    let mut want = vec![(u64::from(w.any(hit)), 0), (u64::from(w.all(hit)), 1)];
                    want.extend(w);
                    ("any, all and the rest", v, want)
                }
                25 => {
                    let mut c = c;
                    let hit = |k: Key| mix(k) % 3 == 0;
                    let mut v: Vec<Key> = c.rposition(|x| hit(key(x))).map(|p| (p as u64, 0)).into_iter().collect();
                    v.extend(c.position(|x| hit(key(x))).map(|p| (p as u64, 1)));
                    v.extend(c.map(key));
                    let mut w = all.iter().copied();
                    let mut want: Vec<Key> = w.rposition(hit).map(|p| (p as u64, 0)).into_iter().collect();
                    want.extend(w.position(hit).map(|p| (p as u64, 1)));
                    want.extend(w);
                    ("rposition, position and the rest", v, want)
                }
                26 => {
                    let (mut v, rest): (Vec<I::Item>, Vec<I::Item>) = c.partition(|x| mix(key(*x)) % 2 == 0);
                    v.extend(rest);
                    let (mut want, rest): (Vec<Key>, Vec<Key>) = all.iter().copied().partition(|k| mix(*k) % 2 == 0);
                    want.extend(rest);
                    ("partition", v.into_iter().map(key).collect(), want)
                }
                27 => {
                    // comparisons with itself, with what is left after the first, and in order
                    let list: Vec<I::Item> = c.clone().collect();
                    let v = vec![
                        (u64::from(c.clone().eq(c.clone())), u64::from(c.clone().ne(c.clone().skip(1)))),
                        (c.clone().partial_cmp(c.clone().skip(1)).map_or(9, |o| (o as i64 + 1) as u64), u64::from(c.clone().lt(c.clone().skip(1)))),
                        (u64::from(c.clone().le(c.clone())), u64::from(c.clone().is_sorted())),
                        (u64::from(c.clone().ge(c.clone().skip(1))), u64::from(c.is_sorted_by(|x, y| mix(key(*x)) < mix(key(*y))))),
                    ];
                    let tail = || list.iter().skip(1);
                    let want = vec![
                        (1, u64::from(!list.is_empty())),
                        (list.iter().partial_cmp(tail()).map_or(9, |o| (o as i64 + 1) as u64), u64::from(list.iter().lt(tail()))),
                        (1, u64::from(list.is_sorted())),
                        (u64::from(list.iter().ge(tail())), u64::from(all.is_sorted_by(|x, y| mix(*x) < mix(*y)))),
                    ];
                    ("comparisons", v, want)
                }
                28 => ("cycle", c.cycle().take(2 * all.len() + 1).map(key).collect(), all.iter().cycle().take(2 * all.len() + 1).copied().collect()),
                29 => ("chain with its reverse", c.clone().chain(c.rev()).map(key).collect(), all.iter().chain(all.iter().rev()).copied().collect()),
                30 => {
                    let mut c = c;
                    let mut v = vec![];
                    let _ = c.try_fold(0u32, |n, x| { v.push(key(x)); if n < 2 { Some(n + 1) } else { None } });
                    v.extend(c.map(key));
                    ("try_fold and the rest", v, all)
                }
                31 => {
                    let mut v: Vec<I::Item> = Vec::new();
                    v.extend(c.clone().take_while(|x| mix(key(*x)) % 7 != 0));
                    v.extend(c.skip_while(|x| mix(key(*x)) % 7 != 0));
                    ("take_while and skip_while", v.into_iter().map(key).collect(), all)
                }
                32 => {
                    let (v, w): (Vec<I::Item>, Vec<usize>) = c.clone().zip(0..).unzip();
                    let mut v: Vec<Key> = v.into_iter().map(key).collect();
                    v.extend(w.iter().map(|i| (*i as u64, 5)));
                    let b: Box<[I::Item]> = c.collect();
                    v.extend(b.iter().map(|x| key(*x)));
                    let mut want = all.clone();
                    want.extend((0..all.len() as u64).map(|i| (i, 5)));
                    want.extend(&all);
                    ("unzip and a boxed slice", v, want)
                }
                _ => {
                    let mut v = vec![];
                    for x in c.clone() {
                        v.push(key(x));
                    }
                    v.extend(c.flat_map(|x| [key(x), (mix(key(x)), 1)]));
                    let mut want = all.clone();
                    want.extend(all.iter().flat_map(|k| [*k, (mix(*k), 1)]));
                    ("a loop and flat_map", v, want)
                }
            };
            obs.ensure(got == want, || format!("{what}: got {} items {}, should be {} items {}", got.len(), show(got.first().copied()), want.len(), show(want.first().copied())))
        }
        Op::Slice => {
            if m.left() > SMALL {
                return Ok(());
            }
            match slice(it) {
                Some(v) => {
                    let all: Vec<Key> = (m.lo..m.hi).map(get).collect();
                    obs.ensure(v == all, || format!("as_slice / as_ref has {} items, {} are left", v.len(), all.len()))
                }
                None => Ok(()),
            }
        }
    }
}

fn show(k: Option<Key>) -> String {
    match k {
        None => "None".into(),
        Some((a, b)) => format!("{:?} / {:?}", f64::from_bits(a), f64::from_bits(b)),
    }
}

fn drive<I>(
    mut it: I,
    n: u64,
    script: &[Op],
    get: &dyn Fn(u64) -> Key,
    key: fn(I::Item) -> Key,
    slice: &dyn Fn(&I) -> Option<Vec<Key>>,
    obs: &mut Obs,
) -> Result<(), String>
where
    I: DoubleEndedIterator + ExactSizeIterator + FusedIterator + Clone,
    I::Item: Copy + PartialOrd,
{
    let mut m = Model { lo: 0, hi: n };
    for (step, op) in script.iter().enumerate() {
        let before = m;
        apply(&mut it, &mut m, *op, get, key, slice, obs)
            .map_err(|e| format!("step {step}, {op:?} with items {}..{} of {n} left: {e}", before.lo, before.hi))?;
        obs.ensure(it.len() as u64 == m.left(), || {
            format!("after step {step}, {op:?}: len is {}, {} items are left", it.len(), m.left())
        })?;
        if m.left() == 0 {
            obs.label("exhausted");
        }
    }
    // run out, and stay out
    if m.left() <= SMALL {
        while m.left() > 0 {
            apply(&mut it, &mut m, Op::Next, get, key, slice, obs).map_err(|e| format!("at the end: {e}"))?;
        }
        for op in [Op::Next, Op::NextBack, Op::Nth(0), Op::NthBack(3), Op::Next, Op::Len, Op::Drain(2), Op::Drain(3), Op::Slice] {
            apply(&mut it, &mut m, op, get, key, slice, obs).map_err(|e| format!("after the end, {op:?}: {e}"))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C13

pub struct GaussApi;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum View {
    Nodes,
    Weights,
    Iter,
    RefIntoIter,
    IntoIter,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ApiCase {
    pub spec: Spec,
    pub view: View,
    pub ops: Vec<Op>,
}

impl Prop for GaussApi {
    type Case = ApiCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> String {
        "cases: a Gaussian rule of any family, one of its five iterators, and a history of up to 40 iterator calls from both ends (next, next_back, nth, nth_back with small, large and overflowing arguments, len, size_hint, clones, by_ref, as_slice, as_ref, and 34 ways to consume a clone or search in it), run to exhaustion and beyond; oracle: an index interval over the sequence of node-weight pairs. All views, degree() and the conversions must describe the same sequence. Non-trivial: degree >= 3 and at least 3 calls.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<ApiCase> {
        let mut v = vec![];
        for spec in large_specs(ctx.thorough()) {
            for view in [View::Nodes, View::Weights, View::Iter, View::RefIntoIter, View::IntoIter] {
                let n = spec.n();
                let mut ops: Vec<Op> = (0..DRAINS).map(Op::DrainAll).collect();
                ops.extend([Op::Nth(n / 2 - 2), Op::NthBack(n / 4), Op::Next, Op::NextBack, Op::Len]);
                ops.extend((0..DRAINS).map(Op::DrainAll));
                v.push(ApiCase { spec, view, ops });
            }
        }
        v
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<ApiCase> {
        let spec = prop_oneof![
            6 => specs(8, 12),
            2 => specs(30, 60),
            1 => specs(30, ctx.pick(600, 5000)),
        ];
        let view = prop::sample::select(vec![View::Nodes, View::Weights, View::Iter, View::RefIntoIter, View::IntoIter]);
        (spec, view, ops(40)).prop_map(|(spec, view, ops)| ApiCase { spec, view, ops }).boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(1_400_000, 20_000_000)
    }
    fn check(&self, c: &ApiCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        let s = &c.spec;
        let n = s.n();
        obs.nontrivial = n >= 3 && c.ops.len() >= 3;
        obs.label(s.name());
        let rule = s.build();
        let p = rule.pairs().to_vec();
        let all: Vec<Key> = p.iter().map(|p| key2(*p)).collect();
        obs.ensure(rule.degree() == n && p.len() == n, || format!("{s:?}: degree() is {}, there are {} pairs", rule.degree(), p.len()))?;
        let fail = |e: String| format!("{s:?}, {:?}: {e}", c.view);
        match c.view {
            View::Nodes => {
                obs.label("nodes");
                each_rule!(&rule, r => drive(r.nodes(), n as u64, &c.ops, &|i| key1(p[i as usize].0), |x| key1(*x), &|_| None, obs)).map_err(fail)?;
                each_rule!(&rule, r => obs.ensure(!format!("{:?} {:?}", r, r.nodes()).is_empty(), || "empty Debug".into()))?;
            }
            View::Weights => {
                obs.label("weights");
                each_rule!(&rule, r => drive(r.weights(), n as u64, &c.ops, &|i| key1(p[i as usize].1), |x| key1(*x), &|_| None, obs)).map_err(fail)?;
                each_rule!(&rule, r => obs.ensure(!format!("{:?}", r.weights()).is_empty(), || "empty Debug".into()))?;
            }
            View::Iter => {
                obs.label("iter");
                each_rule!(&rule, r => drive(r.iter(), n as u64, &c.ops, &|i| all[i as usize], |x| key2(*x), &|it| both_slices(it.as_slice(), it.as_ref()), obs)).map_err(fail)?;
            }
            View::RefIntoIter => {
                obs.label("into_iter of a reference");
                each_rule!(&rule, r => drive(IntoIterator::into_iter(r), n as u64, &c.ops, &|i| all[i as usize], |x| key2(*x), &|it| both_slices(it.as_slice(), it.as_ref()), obs)).map_err(fail)?;
                each_rule!(&rule, r => {
                    let mut k = 0;
                    for &(x, w) in r {
                        obs.ensure(all.get(k) == Some(&key2((x, w))), || format!("{s:?}: item {k} of the loop over a reference is wrong"))?;
                        k += 1;
                    }
                    obs.ensure(k == n, || format!("{s:?}: the loop over a reference makes {k} turns"))?;
                });
            }
            View::IntoIter => {
                obs.label("into_iter");
                each_rule!(rule.clone(), r => drive(r.into_iter(), n as u64, &c.ops, &|i| all[i as usize], key2, &|it| both_slices(it.as_slice(), it.as_ref()), obs)).map_err(fail)?;
                let boxed = each_rule!(rule.clone(), r => r.into_node_weight_pairs());
                obs.ensure(boxed.iter().map(|p| key2(*p)).eq(all.iter().copied()), || format!("{s:?}: into_node_weight_pairs differs from as_node_weight_pairs"))?;
            }
        }
        // nothing above may have changed the rule, and all views are the same sequence
        each_rule!(&rule, r => {
            obs.ensure(r.as_node_weight_pairs().iter().map(|p| key2(*p)).eq(all.iter().copied()), || format!("{s:?}: iterating changed the rule"))?;
            let zipped = r.nodes().zip(r.weights()).map(|(x, w)| key2((*x, *w)));
            obs.ensure(zipped.eq(all.iter().copied()), || format!("{s:?}: nodes() and weights() are not the columns of as_node_weight_pairs()"))?;
        });
        Ok(())
    }
}

fn both_slices(a: &[(f64, f64)], b: &[(f64, f64)]) -> Option<Vec<Key>> {
    let v: Vec<Key> = a.iter().map(|p| key2(*p)).collect();
    if b.iter().map(|p| key2(*p)).eq(v.iter().copied()) { Some(v) } else { Some(vec![(1, 2); a.len() + 1]) }
}

// ------------------------------------------------------------------------------------------ C14

pub struct CompositeApi;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    ChangeDegree(u32),
    /// start an iterator: iter(), into_iter() of a reference, into_iter() of a clone
    Iter(u8),
    /// use one of the iterators, with arguments that are reduced for very long ones
    Use(u8, Op),
    /// the same, with the arguments as they are: `nth` takes time in proportion
    UseLong(u8, Op),
    Integrate(X, X, u64),
    /// clone the rule; continue with the clone or change the clone's degree
    CloneRule(bool, u32),
    /// go through From<NonZeroU32>
    From,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompHistory {
    pub rule: Comp,
    pub degree: u32,
    pub acts: Vec<Act>,
}

trait CompApi: Clone + PartialEq + std::fmt::Debug + Sized {
    type It: DoubleEndedIterator<Item = f64> + ExactSizeIterator + FusedIterator + Clone + std::fmt::Debug;
    fn make(n: u32) -> Self;
    fn from_degree(n: u32) -> Self;
    fn deg(&self) -> u32;
    fn change(&mut self, n: u32);
    fn it(&self, how: u8) -> Self::It;
    fn int<F: FnMut(f64) -> f64>(&self, a: f64, b: f64, f: F) -> f64;
}
macro_rules! comp_api {
    ($($t:ident $it:path),*) => {$(
        impl CompApi for $t {
            type It = $it;
            fn make(n: u32) -> Self {
                $t::new(nz32(n))
            }
            fn from_degree(n: u32) -> Self {
                $t::from(nz32(n))
            }
            fn deg(&self) -> u32 {
                self.degree().get()
            }
            fn change(&mut self, n: u32) {
                self.change_degree(nz32(n));
            }
            fn it(&self, how: u8) -> Self::It {
                match how % 3 {
                    0 => self.iter(),
                    1 => <&$t as IntoIterator>::into_iter(self),
                    _ => <$t as IntoIterator>::into_iter(self.clone()),
                }
            }
            fn int<F: FnMut(f64) -> f64>(&self, a: f64, b: f64, f: F) -> f64 {
                self.integrate(a, b, f)
            }
        }
    )*};
}
comp_api!(
    Midpoint gauss_quad::midpoint::MidpointIter,
    Trapezoid gauss_quad::trapezoid::TrapezoidIter,
    Simpson gauss_quad::simpson::SimpsonIter
);

fn any_degree() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 1u32..=10,
        2 => 1u32..=500,
        1 => any::<u32>().prop_map(|n| n.max(1)),
        1 => prop::sample::select(vec![1u32, 2, 3, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 16, 1 << 24, (1 << 24) + 1]),
        1 => (0u32..32).prop_map(|s| 1u32 << s),
    ]
    .boxed()
}

impl Prop for CompositeApi {
    type Case = CompHistory;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> String {
        "cases: a Midpoint, Trapezoid or Simpson rule with any degree up to u32::MAX and a history of up to 30 actions: change_degree, cloning, From, integrating, and starting iterators that are used from both ends while the rule changes under them; oracle: a model with the degree and an index interval per iterator; integrals equal those of a fresh rule bit for bit, and the definition. Non-trivial: at least one change of degree or iterator.".into()
    }
    fn grid(&self, ctx: &Ctx) -> Vec<CompHistory> {
        // once through (nearly) everything that a degree can ask for
        let mut v = vec![];
        for rule in [Comp::Midpoint, Comp::Trapezoid, Comp::Simpson] {
            for (degree, op) in [
                (u32::MAX, Op::Nth((1 << 32) - 2)),
                (u32::MAX, Op::NthBack((1 << 32) - 2)),
                ((1 << 31) + 1, Op::Nth(1 << 31)),
                ((1 << 31) + 1, Op::NthNearEnd(-1, true)),
                (u32::MAX, Op::NthNearEnd(0, false)),
                (1 << 20, Op::Nth(usize::MAX)),
                (1 << 20, Op::NthBack(usize::MAX)),
                (1 << 20, Op::Nth(1 << 32)),
                (1 << 20, Op::Drain(2)),
            ] {
                // these take seconds each; once is enough
                if degree > 1 << 30 && ctx.variant != "full" && !ctx.thorough() {
                    continue;
                }
                v.push(CompHistory {
                    rule,
                    degree: 5,
                    acts: vec![Act::ChangeDegree(degree), Act::UseLong(0, op), Act::Use(0, Op::Next), Act::Use(0, Op::NextBack)],
                });
            }
        }
        v
    }
    fn strategy(&self, _ctx: &Ctx) -> BoxedStrategy<CompHistory> {
        let one = ops(2).prop_map(|v| v[0]);
        let act = prop_oneof![
            3 => any_degree().prop_map(Act::ChangeDegree),
            3 => (0u8..3).prop_map(Act::Iter),
            12 => (any::<u8>(), one).prop_map(|(i, op)| Act::Use(i, op)),
            3 => (wild_intervals(), any::<u64>()).prop_map(|((a, b), s)| Act::Integrate(a, b, s)),
            1 => (any::<bool>(), any_degree()).prop_map(|(s, n)| Act::CloneRule(s, n)),
            1 => Just(Act::From),
        ];
        (prop::sample::select(vec![Comp::Midpoint, Comp::Trapezoid, Comp::Simpson]), any_degree(), prop::collection::vec(act, 1..30))
            .prop_map(|(rule, degree, acts)| CompHistory { rule, degree, acts })
            .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(200_000, 5_000_000)
    }
    fn check(&self, c: &CompHistory, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        obs.nontrivial = c.acts.iter().any(|a| matches!(a, Act::ChangeDegree(_) | Act::Use(..)));
        match c.rule {
            Comp::Midpoint => history::<Midpoint>(c, obs),
            Comp::Trapezoid => history::<Trapezoid>(c, obs),
            Comp::Simpson => history::<Simpson>(c, obs),
        }
        .map_err(|e| format!("{:?}: {e}", c.rule))
    }
}

fn history<R: CompApi>(c: &CompHistory, obs: &mut Obs) -> Result<(), String> {
    let mut rule = R::make(c.degree);
    let mut degree = c.degree;
    let mut its: Vec<(R::It, Model)> = vec![];
    let node = |i: u64| key1(i as f64);
    for (step, act) in c.acts.iter().enumerate() {
        let at = |e: String| format!("step {step}, {act:?}, degree {degree}: {e}");
        match act {
            Act::ChangeDegree(n) => {
                obs.label("change_degree");
                rule.change(*n);
                degree = *n;
            }
            Act::Iter(how) => {
                let it = rule.it(*how);
                obs.ensure(!format!("{it:?}").is_empty(), || at("empty Debug".into()))?;
                its.push((it, Model { lo: 0, hi: u64::from(degree) }));
            }
            Act::Use(i, op) | Act::UseLong(i, op) => {
                if its.is_empty() {
                    its.push((rule.it(*i), Model { lo: 0, hi: u64::from(degree) }));
                }
                let k = *i as usize % its.len();
                let (it, m) = &mut its[k];
                let before = *m;
                let op = match (*op, act) {
                    (op, Act::UseLong(..)) => op,
                    (Op::Nth(k), _) if m.left() > 1 << 17 => Op::Nth(k & 0xffff),
                    (Op::NthBack(k), _) if m.left() > 1 << 17 => Op::NthBack(k & 0xffff),
                    (Op::NthNearEnd(..) | Op::Drain(_), _) if m.left() > 1 << 17 => Op::Len,
                    (op, _) => op,
                };
                apply(it, m, op, &node, key1, &|_| None, obs)
                    .map_err(|e| at(format!("iterator {k} with items {}..{} left: {e}", before.lo, before.hi)))?;
            }
            Act::Integrate(a, b, salt) => {
                if degree > 2000 {
                    continue;
                }
                obs.label("integrate");
                let mut calls = vec![];
                let got = rule.int(a.0, b.0, |x| {
                    let y = hashed(x, *salt);
                    calls.push((x, y));
                    y
                });
                let fresh = R::make(degree).int(a.0, b.0, |x| hashed(x, *salt));
                obs.ensure(got.to_bits() == fresh.to_bits(), || at(format!("got {got:e}, a fresh rule gives {fresh:e}")))?;
                check_composite_sum(c.rule, degree, a.0, b.0, &mut calls, got, obs).map_err(at)?;
            }
            Act::CloneRule(switch, n) => {
                let mut other = rule.clone();
                obs.ensure(other == rule, || at("a clone is not equal to the rule".into()))?;
                other.change(*n);
                obs.ensure(other.deg() == *n, || at(format!("the clone's degree is {} after change_degree({n})", other.deg())))?;
                obs.ensure((other == rule) == (*n == degree), || at(format!("equality with a rule of degree {n} is wrong")))?;
                if *switch {
                    rule = other;
                    degree = *n;
                }
            }
            Act::From => {
                let f = R::from_degree(degree);
                obs.ensure(f == rule && f.deg() == degree, || at(format!("From gives degree {}", f.deg())))?;
            }
        }
        obs.ensure(rule.deg() == degree, || format!("step {step}, {act:?}: degree() is {}, should be {degree}", rule.deg()))?;
        let n = rule.it(step as u8).len();
        obs.ensure(n as u64 == u64::from(degree), || format!("step {step}, {act:?}: a new iterator has {n} items, the degree is {degree}"))?;
        for (k, (it, m)) in its.iter().enumerate() {
            obs.ensure(it.len() as u64 == m.left(), || format!("step {step}, {act:?}: iterator {k} has len {}, {} items are left", it.len(), m.left()))?;
        }
        if degree > 1 << 24 {
            obs.label("degree > 2^24");
        }
    }
    Ok(())
}

//! C15: the validated parameter type, against f64 itself.

use crate::common::*;
use crate::engine::*;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::error::Error;

pub struct Param;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Arith {
    Add(X),
    Sub(X),
    Mul(X),
    Div(X),
    Pow(X),
    /// out to text and back
    Text(u8),
    /// out to f64 and back
    Float,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ParamCase {
    /// every way to make a parameter from a number
    Value(u64),
    /// parsing
    Text(String),
    /// a chain of operations that starts from a valid value
    Chain(X, Vec<Arith>),
    /// comparisons
    Order(X, X),
}

fn valid(v: f64) -> bool {
    v.is_finite() && v > -1.0
}

/// Any f64 by bits, with weight on the edges of the accepted range.
fn any_f64() -> BoxedStrategy<f64> {
    let edge = prop::sample::select(vec![
        -1.0f64, 0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, -5e-324, -2.0, 0.5, -0.5,
    ]);
    prop_oneof![
        3 => any::<u64>().prop_map(f64::from_bits),
        2 => (edge, -4i64..=4).prop_map(|(v, d)| f64::from_bits(v.to_bits().wrapping_add(d as u64))),
        2 => (-1.0f64..1.0, -18.0f64..1.0).prop_map(|(s, e)| -1.0 + s * 10f64.powf(e)),
        3 => -3.0f64..10.0,
        1 => (-320.0f64..309.0, any::<bool>()).prop_map(|(e, s)| if s { 10f64.powf(e) } else { -10f64.powf(e) }),
    ]
    .boxed()
}

fn valid_f64() -> BoxedStrategy<f64> {
    any_f64().prop_map(|v| if valid(v) { v } else if v.is_finite() { -v } else { 0.25 }).prop_map(|v| if valid(v) { v } else { 0.0 }).boxed()
}

fn text() -> BoxedStrategy<String> {
    let number = (
        prop::sample::select(vec!["", "", "-", "-", "+", "--", " ", "−"]),
        prop::sample::select(vec!["0", "1", "00", "2", "0000000000", "170", "", "9007199254740993", "1_000", "0x1", "١"]),
        prop::sample::select(vec!["", ".", ".0", ".5", ".9999999999999999", ".99999999999999999999999999", ".00000000000000000000000001", ",5", ".0000000000000001", ".75"]),
        prop::sample::select(vec!["", "", "", "e0", "E0", "e-1", "e308", "e309", "E+2", "e-400", "e", "e5.5", "e-17", "e99999999999"]),
        prop::sample::select(vec!["", "", "", "", " ", "f64", "\n", "\0", "x"]),
    )
        .prop_map(|(a, b, c, d, e)| format!("{a}{b}{c}{d}{e}"));
    let word = prop::sample::select(vec![
        "nan", "NaN", "NAN", "-nan", "+NaN", "inf", "-inf", "+inf", "Infinity", "-INFINITY", "infinit", "", " ", "None", "1/2", "-", "+", ".", "e", "-.e5", "½", "1e", "∞",
    ])
    .prop_map(str::to_string);
    let digits = (any::<bool>(), prop::collection::vec(0u8..10, 1..60), 0usize..60, -330i32..310).prop_map(|(neg, d, dot, e)| {
        let mut s = String::from(if neg { "-" } else { "" });
        for (i, c) in d.iter().enumerate() {
            if i == dot {
                s.push('.');
            }
            s.push((b'0' + c) as char);
        }
        if e % 3 == 0 { s.push_str(&format!("e{e}")); }
        s
    });
    prop_oneof![
        4 => number,
        1 => word,
        2 => digits,
        2 => any_f64().prop_map(|v| format!("{v}")),
        1 => any_f64().prop_map(|v| format!("{v:e}")),
        1 => prop::collection::vec(prop::char::any(), 0..8).prop_map(|v| v.into_iter().collect()),
        1 => "[-+0-9.eE]{0,12}",
    ]
    .boxed()
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

impl Prop for Param {
    type Case = ParamCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> String {
        "cases: f64 bit patterns (uniform bits, neighbours of the edges of the accepted range), text (number grammar with malformed parts, words, long digit strings, arbitrary Unicode), chains of up to 8 operations from a valid value, and pairs to compare; oracle: f64's own parser, arithmetic, formatting and order, plus the invariant finite and > -1 after every step. Non-trivial: the text is not empty, or the chain has at least 2 steps, or the value is not a NaN.".into()
    }
    fn grid(&self, _ctx: &Ctx) -> Vec<ParamCase> {
        let mut v = vec![];
        for x in [-1.0f64, 0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
            for d in -40i64..=40 {
                v.push(ParamCase::Value(x.to_bits().wrapping_add(d as u64)));
            }
        }
        // every exponent, both signs
        for e in 0..2048u64 {
            for m in [0u64, 1, (1 << 52) - 1, 0x5_5555_5555_5555] {
                for s in 0..2 {
                    v.push(ParamCase::Value(s << 63 | e << 52 | m));
                }
            }
        }
        v
    }
    fn grid_note(&self, _ctx: &Ctx) -> Option<String> {
        Some("every exponent and sign with four mantissas, and the 40 neighbours on each side of the edges of the accepted range".into())
    }
    fn strategy(&self, _ctx: &Ctx) -> BoxedStrategy<ParamCase> {
        let op = prop_oneof![
            any_f64().prop_map(|v| Arith::Add(X(v))),
            any_f64().prop_map(|v| Arith::Sub(X(v))),
            any_f64().prop_map(|v| Arith::Mul(X(v))),
            any_f64().prop_map(|v| Arith::Div(X(v))),
            any_f64().prop_map(|v| Arith::Pow(X(v))),
            (-4.0f64..4.0).prop_map(|v| Arith::Add(X(v))),
            (-4.0f64..4.0).prop_map(|v| Arith::Mul(X(v))),
            prop::sample::select(vec![0.5, 2.0, -1.0, 3.0, 0.0, 1.0 / 3.0, -2.0]).prop_map(|v| Arith::Pow(X(v))),
            (0u8..6).prop_map(Arith::Text),
            Just(Arith::Float),
        ];
        prop_oneof![
            3 => any_f64().prop_map(|v| ParamCase::Value(v.to_bits())),
            4 => text().prop_map(ParamCase::Text),
            4 => (valid_f64(), prop::collection::vec(op, 1..8)).prop_map(|(v, ops)| ParamCase::Chain(X(v), ops)),
            1 => (valid_f64(), valid_f64(), any::<bool>()).prop_map(|(a, b, eq)| ParamCase::Order(X(a), X(if eq { a } else { b }))),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(10_000_000, 120_000_000)
    }
    fn check(&self, c: &ParamCase, _ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        match c {
            ParamCase::Value(bits) => {
                let v = f64::from_bits(*bits);
                obs.nontrivial = !v.is_nan();
                let ok = valid(v);
                obs.label(if ok { "valid value" } else { "invalid value" });
                let made = [("new", FiniteAboveNegOneF64::new(v)), ("try_from", FiniteAboveNegOneF64::try_from(v).ok()), ("try_into", v.try_into().ok())];
                for (how, p) in made {
                    obs.ensure(p.is_some() == ok, || format!("{how}({v:?}) is {p:?}"))?;
                    if let Some(p) = p {
                        obs.ensure(same(p.get(), v) && same(f64::from(p), v), || format!("{how}({v:?}) holds {:?}", p.get()))?;
                    }
                }
                if let Err(e) = FiniteAboveNegOneF64::try_from(v) {
                    obs.ensure(e == InfNanNegOneOrLessError && !e.to_string().is_empty(), || format!("try_from({v:?}): error {e:?}"))?;
                }
                if let Some(p) = FiniteAboveNegOneF64::new(v) {
                    let forms = [("{}", format!("{p}"), format!("{v}")), ("{:e}", format!("{p:e}"), format!("{v:e}")), ("{:E}", format!("{p:E}"), format!("{v:E}"))];
                    for (form, s, plain) in forms {
                        obs.ensure(s == plain, || format!("{form} writes {plain:?} for the double and {s:?} for the parameter"))?;
                        let back: Result<FiniteAboveNegOneF64, _> = s.parse();
                        obs.ensure(back.as_ref().is_ok_and(|b| same(b.get(), v)), || format!("{v:?} is written by {form} as {s:?} and read back as {back:?}"))?;
                        obs.ensure(s.parse::<f64>().is_ok_and(|b| same(b, v)), || format!("{v:?} is written by {form} as {s:?}"))?;
                    }
                }
                obs.ensure(same(FiniteAboveNegOneF64::default().get(), 0.0), || "the default is not 0".into())
            }
            ParamCase::Text(s) => {
                obs.nontrivial = !s.is_empty();
                let got = s.parse::<FiniteAboveNegOneF64>();
                match (s.parse::<f64>(), &got) {
                    (Ok(v), Ok(p)) if valid(v) => {
                        obs.label("valid text");
                        obs.ensure(same(v, p.get()), || format!("{s:?} is {v:?} as an f64 but {:?} as a parameter", p.get()))
                    }
                    (Ok(v), Err(e)) if !valid(v) => {
                        obs.label("text of an invalid value");
                        obs.ensure(*e == ParseFiniteAboveNegOneF64Error::InvalidValue(InfNanNegOneOrLessError), || format!("{s:?} is out of range but the error is {e:?}"))?;
                        obs.ensure(e.to_string() == InfNanNegOneOrLessError.to_string(), || format!("{s:?}: the message is {e}"))?;
                        obs.ensure(e.source().is_some_and(|x| x.is::<InfNanNegOneOrLessError>()), || format!("{s:?}: the source of {e:?} is wrong"))
                    }
                    (Err(f), Err(e)) => {
                        obs.label("not a number");
                        obs.ensure(*e == ParseFiniteAboveNegOneF64Error::ParseError(f.clone()), || format!("{s:?}: f64 says {f:?}, the parameter {e:?}"))?;
                        obs.ensure(e.to_string() == f.to_string(), || format!("{s:?}: the message is {e}"))?;
                        obs.ensure(e.source().is_some_and(|x| x.is::<std::num::ParseFloatError>()), || format!("{s:?}: the source of {e:?} is wrong"))
                    }
                    (f, g) => Err(format!("{s:?} parses as {f:?} for f64, as {g:?} for a parameter")),
                }
            }
            ParamCase::Chain(x, ops) => {
                obs.nontrivial = ops.len() >= 2;
                let mut p = par(x.0);
                for (k, op) in ops.iter().enumerate() {
                    let v = p.get();
                    let (what, got, want) = match *op {
                        Arith::Add(y) => ("checked_add", p.checked_add(y.0), v + y.0),
                        Arith::Sub(y) => ("checked_sub", p.checked_sub(y.0), v - y.0),
                        Arith::Mul(y) => ("checked_mul", p.checked_mul(y.0), v * y.0),
                        Arith::Div(y) => ("checked_div", p.checked_div(y.0), v / y.0),
                        Arith::Pow(y) => ("checked_pow", p.checked_pow(y.0), v.powf(y.0)),
                        Arith::Text(k) => {
                            let s = match k % 3 {
                                0 => format!("{p}"),
                                1 => format!("{p:e}"),
                                _ => format!("{p:E}"),
                            };
                            ("text", s.parse().ok(), v)
                        }
                        Arith::Float => ("f64", FiniteAboveNegOneF64::try_from(f64::from(p)).ok(), v),
                    };
                    if let Some(q) = got {
                        obs.ensure(valid(q.get()), || format!("step {k}: {what} of {v:?} by {op:?} made the invalid {:?}", q.get()))?;
                    }
                    if matches!(op, Arith::Pow(_)) {
                        obs.label("power");
                        // the math backends may round differently
                        let slack = 4.0 * f64::EPSILON * want.abs() + 1e-323;
                        let clear = want.is_nan() || (want - slack > -1.0) == (want + slack > -1.0) && (want.abs() < 1.797e308 || want.is_infinite());
                        match got {
                            // the power of a NaN is NaN, except that 1 to any power is 1; the
                            // math libraries differ about signalling NaNs
                            Some(q) if matches!(op, Arith::Pow(y) if y.0.is_nan()) => obs.ensure(v == 1.0 && q.get() == 1.0, || format!("step {k}: {v:?} to the power of NaN is {:?}", q.get()))?,
                            None if matches!(op, Arith::Pow(y) if y.0.is_nan()) => {}
                            Some(q) => obs.within("power", q.get() - want, slack, || format!("step {k}: {v:?} to the power of {op:?} is {:?}, should be {want:?}", q.get()))?,
                            None => obs.ensure(!clear || !valid(want), || format!("step {k}: {v:?} to the power of {op:?} is None, should be {want:?}"))?,
                        }
                    } else {
                        obs.ensure(got.is_some() == valid(want) && got.is_none_or(|q| same(q.get(), want)), || {
                            format!("step {k}: {what} of {v:?} by {op:?} is {got:?}, should be {want:?}")
                        })?;
                    }
                    match got {
                        Some(q) => p = q,
                        None => obs.label("left the range"),
                    }
                }
                obs.label("chain");
                Ok(())
            }
            ParamCase::Order(a, b) => {
                obs.nontrivial = true;
                obs.label("order");
                let (p, q) = (par(a.0), par(b.0));
                obs.ensure((p == q) == (a.0 == b.0), || format!("{a:?} == {b:?} is {}", p == q))?;
                obs.ensure(p.partial_cmp(&q) == a.0.partial_cmp(&b.0), || format!("{a:?} and {b:?} compare as {:?}", p.partial_cmp(&q)))?;
                obs.ensure((p < q) == (a.0 < b.0) && (p >= q) == (a.0 >= b.0), || format!("{a:?} < {b:?} is {}", p < q))
            }
        }
    }
}

//! C16: rules survive serialization, and invalid parameters do not survive deserialization.

use crate::common::*;
use crate::engine::*;
use crate::props_integrate::*;
use gauss_quad::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::marker::PhantomData;

pub struct Serial;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum What {
    Gauss(Spec),
    Comp(Comp, u32),
    Param(X),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SerCase {
    /// through every format and back
    Trip(What),
    /// a rule whose stored parameter (alpha or beta) is replaced
    Replaced(Spec, bool, u64, u8),
    /// any number as a parameter, in every format
    Number(u64),
    /// any text as a parameter, in JSON and RON
    Text(String),
    /// damaged bytes: an error or a valid object, never a panic
    Damaged(What, u8, Vec<(u16, u8, u8)>),
    /// a field or half of a pair is missing or of another kind
    Incomplete(What, u16, u8),
    /// a composite rule of degree zero
    ZeroDegree(Comp, u8),
    /// the zerocopy traits, on any eight bytes
    Bytes(u64),
}

const FORMATS: [&str; 5] = ["json", "json value", "ron", "cbor", "bincode"];

fn encode<T: Serialize>(v: &T, format: u8) -> Result<Vec<u8>, String> {
    match format {
        0 => serde_json::to_vec(v).map_err(|e| e.to_string()),
        1 => serde_json::to_value(v).and_then(|v| serde_json::to_vec_pretty(&v)).map_err(|e| e.to_string()),
        2 => ron::to_string(v).map(String::into_bytes).map_err(|e| e.to_string()),
        3 => {
            let mut out = vec![];
            ciborium::into_writer(v, &mut out).map_err(|e| e.to_string())?;
            Ok(out)
        }
        _ => bincode::serialize(v).map_err(|e| e.to_string()),
    }
}

fn decode<T: DeserializeOwned>(b: &[u8], format: u8) -> Result<T, String> {
    match format {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => serde_json::from_slice::<serde_json::Value>(b).and_then(serde_json::from_value).map_err(|e| e.to_string()),
        2 => ron::de::from_bytes(b).map_err(|e| e.to_string()),
        3 => ciborium::from_reader(b).map_err(|e| e.to_string()),
        _ => bincode::deserialize(b).map_err(|e| e.to_string()),
    }
}

/// The functions that exist if the type has the traits.
pub struct Codec<T> {
    encode: fn(&T, u8) -> Result<Vec<u8>, String>,
    decode: fn(&[u8], u8) -> Result<T, String>,
}

/// An inherent method wins over the trait's method if its bounds hold: a missing trait
/// implementation is then something to report and not a build error of this harness.
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Missing<T> {
    fn serde(&self) -> Option<Codec<T>> {
        None
    }
    fn rkyv(&self) -> Option<fn(&T) -> Result<T, String>> {
        None
    }
    fn known_layout(&self) -> bool {
        false
    }
    fn zero_bytes(&self) -> Option<ZeroCopy<T>> {
        None
    }
    fn any_bytes(&self) -> bool {
        false
    }
}
impl<T> Missing<T> for Probe<T> {}
impl<T: Serialize + DeserializeOwned> Probe<T> {
    fn serde(&self) -> Option<Codec<T>> {
        Some(Codec { encode: encode::<T>, decode: decode::<T> })
    }
}
type Ser<'a> = rkyv::api::high::HighSerializer<rkyv::util::AlignedVec, rkyv::ser::allocator::ArenaHandle<'a>, rkyv::rancor::Error>;
type De = rkyv::api::high::HighDeserializer<rkyv::rancor::Error>;
impl<T> Probe<T>
where
    T: rkyv::Archive + for<'a> rkyv::Serialize<Ser<'a>>,
    T::Archived: rkyv::Deserialize<T, De> + rkyv::Portable,
{
    fn rkyv(&self) -> Option<fn(&T) -> Result<T, String>> {
        Some(|v| {
            let bytes = rkyv::to_bytes::<rkyv::rancor::Error>(v).map_err(|e| e.to_string())?;
            // SAFETY: these are the bytes that were just written for this type
            let archived = unsafe { rkyv::access_unchecked::<T::Archived>(&bytes) };
            rkyv::deserialize::<T, rkyv::rancor::Error>(archived).map_err(|e| e.to_string())
        })
    }
}
impl<T: zerocopy::KnownLayout> Probe<T> {
    fn known_layout(&self) -> bool {
        true
    }
}
struct ZeroCopy<T> {
    zeroed: fn() -> T,
    bytes: fn(&T) -> Vec<u8>,
    read: fn(&[u8]) -> Option<T>,
}
impl<T: zerocopy::KnownLayout + zerocopy::Immutable + zerocopy::FromZeros + zerocopy::IntoBytes + Copy> Probe<T> {
    fn zero_bytes(&self) -> Option<ZeroCopy<T>> {
        Some(ZeroCopy {
            zeroed: T::new_zeroed,
            bytes: |v| v.as_bytes().to_vec(),
            read: |b| T::try_read_from_bytes(b).ok(),
        })
    }
}
#[allow(dead_code)]
impl<T: zerocopy::FromBytes> Probe<T> {
    fn any_bytes(&self) -> bool {
        true
    }
}

pub const ZEROCOPY: &str = "zerocopy-try-from-bytes-unchecked";

fn valid(v: f64) -> bool {
    v.is_finite() && v > -1.0
}

fn trip<T: PartialEq + Debug>(name: &str, v: &T, codec: Option<Codec<T>>, rk: Option<fn(&T) -> Result<T, String>>, layout: bool, obs: &mut Obs) -> Result<(), String> {
    let codec = codec.ok_or_else(|| format!("{name} does not implement serde's Serialize and Deserialize"))?;
    let rk = rk.ok_or_else(|| format!("{name} does not implement rkyv's Archive, Serialize and Deserialize"))?;
    obs.ensure(layout, || format!("{name} does not implement zerocopy's KnownLayout"))?;
    let text = format!("{v:?}");
    for (k, format) in FORMATS.iter().enumerate() {
        let back = (codec.encode)(v, k as u8)
            .and_then(|b| (codec.decode)(&b, k as u8))
            .map_err(|e| format!("{format} of {name}: {e}"))?;
        obs.ensure(back == *v && format!("{back:?}") == text, || format!("{name} comes back from {format} as {back:?}, was {text}"))?;
    }
    let back = rk(v).map_err(|e| format!("rkyv of {name}: {e}"))?;
    obs.ensure(back == *v && format!("{back:?}") == text, || format!("{name} comes back from rkyv as {back:?}, was {text}"))
}

/// Runs `$body` with the value as `$v` and its probe as `$p`.
macro_rules! each_what {
    ($what:expr, $v:ident, $p:ident => $body:expr) => {
        match $what {
            What::Gauss(s) => match &s.build() {
                Rule::Leg($v) => { let $p = Probe::<GaussLegendre>(PhantomData); $body }
                Rule::Her($v) => { let $p = Probe::<GaussHermite>(PhantomData); $body }
                Rule::Lag($v) => { let $p = Probe::<GaussLaguerre>(PhantomData); $body }
                Rule::Jac($v) => { let $p = Probe::<GaussJacobi>(PhantomData); $body }
                Rule::C1($v) => { let $p = Probe::<GaussChebyshevFirstKind>(PhantomData); $body }
                Rule::C2($v) => { let $p = Probe::<GaussChebyshevSecondKind>(PhantomData); $body }
            },
            What::Comp(Comp::Midpoint, n) => { let $v = &Midpoint::new(nz32(*n)); let $p = Probe::<Midpoint>(PhantomData); $body }
            What::Comp(Comp::Trapezoid, n) => { let $v = &Trapezoid::new(nz32(*n)); let $p = Probe::<Trapezoid>(PhantomData); $body }
            What::Comp(Comp::Simpson, n) => { let $v = &Simpson::new(nz32(*n)); let $p = Probe::<Simpson>(PhantomData); $body }
            What::Param(x) => { let $v = &par(x.0); let $p = Probe::<FiniteAboveNegOneF64>(PhantomData); $body }
        }
    };
}

/// What must hold of anything that deserialization lets through.
trait Sound {
    fn sound(&self) -> Result<(), String>;
}
impl Sound for FiniteAboveNegOneF64 {
    fn sound(&self) -> Result<(), String> {
        if valid(self.get()) { Ok(()) } else { Err(format!("the invalid parameter {:?}", self.get())) }
    }
}
impl Sound for GaussLaguerre {
    fn sound(&self) -> Result<(), String> {
        self.integrate(|x| x);
        self.alpha().sound()
    }
}
impl Sound for GaussJacobi {
    fn sound(&self) -> Result<(), String> {
        self.integrate(0.0, 1.0, |x| x);
        self.alpha().sound().and(self.beta().sound())
    }
}
macro_rules! sound_pairs {
    ($($t:ident $($a:expr),*);*) => {$(
        impl Sound for $t {
            fn sound(&self) -> Result<(), String> {
                let mut k = 0;
                self.integrate($($a,)* |x| { k += 1; x });
                if k == self.degree() && self.iter().len() == k { Ok(()) } else { Err("a rule whose degree is not its number of nodes".into()) }
            }
        }
    )*};
}
sound_pairs!(GaussLegendre 0.0, 1.0; GaussHermite; GaussChebyshevFirstKind 0.0, 1.0; GaussChebyshevSecondKind 0.0, 1.0);
macro_rules! sound_comp {
    ($($t:ident),*) => {$(
        impl Sound for $t {
            fn sound(&self) -> Result<(), String> {
                if self.degree().get() < 5000 && !self.integrate(0.0, 1.0, |x| x).is_finite() {
                    return Err(format!("a rule that does not integrate x: {self:?}"));
                }
                Ok(())
            }
        }
    )*};
}
sound_comp!(Midpoint, Trapezoid, Simpson);

fn damaged<T: Sound + Debug>(v: &T, codec: Option<Codec<T>>, format: u8, edits: &[(u16, u8, u8)], obs: &mut Obs) -> Result<(), String> {
    let codec = codec.ok_or("serde's traits are not implemented")?;
    let mut bytes = (codec.encode)(v, format)?;
    for (at, how, with) in edits {
        if bytes.is_empty() {
            break;
        }
        let i = *at as usize % bytes.len();
        match how % 6 {
            0 => bytes[i] = *with,
            1 => bytes[i] ^= 1 << (with % 8),
            2 => {
                bytes.remove(i);
            }
            3 => bytes.insert(i, *with),
            4 => bytes.truncate(i),
            _ => {
                // text formats: put something meaningful in
                let piece: &[u8] = [b"-".as_slice(), b"1e999", b"-1.0", b"null", b"NaN", b"inf", b"0", b",", b"]", b"}"][*with as usize % 10];
                bytes.splice(i..i, piece.iter().copied());
            }
        }
    }
    match (codec.decode)(&bytes, format) {
        Ok(t) => {
            obs.label("damaged, accepted");
            t.sound().map_err(|e| format!("{} accepts {:?} as {t:?}: {e}", FORMATS[format as usize % 5], String::from_utf8_lossy(&bytes)))
        }
        Err(_) => {
            obs.label("damaged, rejected");
            Ok(())
        }
    }
}

fn param_codec() -> Result<Codec<FiniteAboveNegOneF64>, String> {
    Probe::<FiniteAboveNegOneF64>(PhantomData).serde().ok_or_else(|| "the parameter does not implement serde's traits".into())
}

/// Replaces the number stored under `name`, wherever it is in the tree, and counts.
fn replace(v: &mut ciborium::Value, name: &str, with: f64) -> usize {
    match v {
        ciborium::Value::Map(m) => {
            let mut n = 0;
            for (k, x) in m {
                if k.as_text() == Some(name) && x.as_float().is_some() {
                    *x = ciborium::Value::Float(with);
                    n += 1;
                } else {
                    n += replace(x, name, with);
                }
            }
            n
        }
        ciborium::Value::Array(a) => a.iter_mut().map(|x| replace(x, name, with)).sum(),
        _ => 0,
    }
}

/// The same in JSON, where only finite numbers can be written.
fn replace_json(v: &mut serde_json::Value, name: &str, with: f64) -> usize {
    match v {
        serde_json::Value::Object(m) => {
            let mut n = 0;
            for (k, x) in m {
                if k == name && x.is_number() {
                    *x = with.into();
                    n += 1;
                } else {
                    n += replace_json(x, name, with);
                }
            }
            n
        }
        serde_json::Value::Array(a) => a.iter_mut().map(|x| replace_json(x, name, with)).sum(),
        _ => 0,
    }
}

/// Spoils the `at`-th place of the tree: a field is removed, renamed, or holds something else, or a
/// pair loses its second number. Counts the places on the way.
fn spoil(v: &mut ciborium::Value, at: &mut usize, how: u8) -> bool {
    use ciborium::Value;
    match v {
        Value::Map(m) => {
            for i in 0..m.len() {
                if *at == 0 {
                    match how % 5 {
                        0 => {
                            m.remove(i);
                        }
                        1 => m[i].0 = Value::Text("another_name".into()),
                        2 => m[i].1 = Value::Null,
                        3 => m[i].1 = Value::Text("1".into()),
                        _ => m[i].1 = Value::Bool(true),
                    }
                    return true;
                }
                *at -= 1;
                if spoil(&mut m[i].1, at, how) {
                    return true;
                }
            }
            false
        }
        Value::Array(a) if a.len() == 2 && a.iter().all(|x| x.is_float()) => {
            if *at == 0 {
                if how % 2 == 0 {
                    a.pop();
                } else {
                    a[(how / 2 % 2) as usize] = Value::Null;
                }
                return true;
            }
            *at -= 1;
            false
        }
        Value::Array(a) => a.iter_mut().any(|x| spoil(x, at, how)),
        _ => false,
    }
}

fn incomplete<T: Debug>(v: &T, codec: Option<Codec<T>>, place: u16, how: u8, obs: &mut Obs) -> Result<(), String> {
    let codec = codec.ok_or("serde's traits are not implemented")?;
    let tree: ciborium::Value = decode(&(codec.encode)(v, 3)?, 3)?;
    let mut left = usize::MAX;
    spoil(&mut tree.clone(), &mut left, how);
    let places = usize::MAX - left;
    if places == 0 {
        obs.label("nothing to spoil");
        return Ok(());
    }
    // half of the time one of the last places, where the parameters are
    let place = place as usize;
    let mut at = if place % 2 == 0 { places - 1 - (place / 2) % places.min(3) } else { (place / 2) % places };
    let mut broken = tree;
    spoil(&mut broken, &mut at, how);
    for format in [3u8, 0, 1] {
        let bytes = if format == 3 { encode(&broken, 3)? } else { encode(&broken, 0)? };
        if let Ok(t) = (codec.decode)(&bytes, format) {
            let text = serde_json::to_string(&broken).unwrap_or_default();
            return Err(format!("{} accepts {text} as {t:?}", FORMATS[format as usize]));
        }
    }
    obs.label("incomplete, rejected");
    Ok(())
}

trait Parameters {
    fn parameter(&self, beta: bool) -> f64;
}
impl Parameters for GaussLaguerre {
    fn parameter(&self, _: bool) -> f64 {
        self.alpha().get()
    }
}
impl Parameters for GaussJacobi {
    fn parameter(&self, beta: bool) -> f64 {
        if beta { self.beta().get() } else { self.alpha().get() }
    }
}

fn replaced<T: Serialize + DeserializeOwned + Parameters>(rule: &T, beta: bool, v: f64, format: u8, obs: &mut Obs) -> Result<(), String> {
    let name = if beta { "beta" } else { "alpha" };
    let cbor = format % 2 == 0 || !v.is_finite();
    let got: Result<T, String> = if cbor {
        let bytes = encode(rule, 3)?;
        let mut tree: ciborium::Value = decode(&bytes, 3)?;
        if replace(&mut tree, name, v) == 0 {
            obs.label("parameter not stored under its name");
            return Ok(());
        }
        decode(&encode(&tree, 3)?, 3)
    } else {
        let mut tree = serde_json::to_value(rule).map_err(|e| e.to_string())?;
        if replace_json(&mut tree, name, v) == 0 {
            obs.label("parameter not stored under its name");
            return Ok(());
        }
        decode(tree.to_string().as_bytes(), 0)
    };
    match got {
        Ok(r) => obs.ensure(valid(v) && r.parameter(beta) == v, || {
            format!("a rule with {name} replaced by {v:?} is read with {name} {:?}", r.parameter(beta))
        }),
        Err(e) => obs.ensure(!valid(v), || format!("a rule with {name} replaced by the valid {v:?} is not read: {e}")),
    }
}

fn specs_small(ctx: &Ctx) -> BoxedStrategy<Spec> {
    prop_oneof![6 => specs(8, 12), 2 => specs(30, 60), 1 => specs(30, ctx.pick(500, 3000))].boxed()
}

fn bits() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>(),
        3 => prop::sample::select(vec![-1.0f64, 0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -2.0, -0.5, 5e-324, -1e-300, -100.0])
            .prop_flat_map(|v| (-3i64..=3).prop_map(move |d| v.to_bits().wrapping_add(d as u64))),
        2 => (-3.0f64..3.0).prop_map(f64::to_bits),
    ]
    .boxed()
}

impl Prop for Serial {
    type Case = SerCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> String {
        "cases: every rule type and the parameter type through JSON (text and tree), RON, CBOR, bincode and rkyv and back; rules whose stored alpha or beta is replaced by any f64; rules with a field removed, renamed or of another kind, or half a pair; any f64 and any text as a parameter; damaged encodings of everything; degree zero; the zerocopy traits on any eight bytes. Oracle: equality with the original (values, Debug form), and the invariants finite and > -1 on whatever is accepted. Non-trivial: the object has degree >= 2, or the number is not a valid parameter, or the encoding is damaged.".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "serde_json is used with its float_roundtrip feature, as its own documentation requires for exact floats".into(),
            "rkyv is used without bytecheck (the crate does not enable it), so only bytes that it wrote itself are read back".into(),
            "known finding: zerocopy's derived TryFromBytes accepts any eight bytes as a parameter".into(),
        ]
    }
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        let still = Probe::<FiniteAboveNegOneF64>(PhantomData).zero_bytes().is_some_and(|z| (z.read)(&f64::NAN.to_ne_bytes()).is_some());
        vec![(
            ZEROCOPY,
            format!("{ZEROCOPY}: FiniteAboveNegOneF64::try_read_from_bytes, which comes with zerocopy's derived FromZeros, accepts the bytes of NaN, -1.0 and every other f64"),
            still,
        )]
    }
    fn grid(&self, ctx: &Ctx) -> Vec<SerCase> {
        large_specs(ctx.thorough()).into_iter().map(|s| SerCase::Trip(What::Gauss(s))).collect()
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<SerCase> {
        let s = specs_small(ctx);
        let comp = prop::sample::select(vec![Comp::Midpoint, Comp::Trapezoid, Comp::Simpson]);
        let degree = prop_oneof![1u32..50, any::<u32>().prop_map(|n| n.max(1)), Just(u32::MAX)];
        let what = prop_oneof![
            6 => s.prop_map(What::Gauss),
            3 => (comp.clone(), degree).prop_map(|(k, n)| What::Comp(k, n)),
            2 => params(f64::MAX).prop_map(|a| What::Param(X(a))),
        ]
        .boxed();
        let with_params = prop_oneof![
            (degrees(12), params(170.0)).prop_map(|(n, a)| Spec::Laguerre(n, X(a))),
            (degrees(12), param_pairs(100.0)).prop_map(|(n, (a, b))| Spec::Jacobi(n, X(a), X(b))),
        ];
        prop_oneof![
            5 => what.clone().prop_map(SerCase::Trip),
            3 => (with_params, any::<bool>(), bits(), any::<u8>()).prop_map(|(s, b, v, f)| SerCase::Replaced(s, b, v, f)),
            3 => bits().prop_map(SerCase::Number),
            2 => prop_oneof![
                "[-+]?[0-9]{1,3}(\\.[0-9]{0,20})?([eE][-+]?[0-9]{1,3})?",
                "[ \\[(]{0,2}-?(inf|NaN|nan|null|true|1|0|\"1\"|-1|1.5|-1.5|1e999|-1e999|\\{\\})[ \\])]{0,2}",
                "[-+0-9.eE\\[\\](){}\", infNa]{0,10}",
            ]
            .prop_map(SerCase::Text),
            2 => (what.clone(), any::<u16>(), any::<u8>()).prop_map(|(w, p, h)| SerCase::Incomplete(w, p, h)),
            5 => (what, 0u8..5, prop::collection::vec((any::<u16>(), any::<u8>(), any::<u8>()), 1..5)).prop_map(|(w, f, e)| SerCase::Damaged(w, f, e)),
            1 => (comp, 0u8..5).prop_map(|(k, f)| SerCase::ZeroDegree(k, f)),
            2 => bits().prop_map(SerCase::Bytes),
        ]
        .boxed()
    }
    fn budget(&self, ctx: &Ctx) -> usize {
        ctx.pick(2_500_000, 30_000_000)
    }
    fn check(&self, c: &SerCase, ctx: &Ctx, obs: &mut Obs) -> Result<(), String> {
        match c {
            SerCase::Trip(what) => {
                let name = match what {
                    What::Gauss(s) => {
                        obs.nontrivial = s.n() >= 2;
                        s.name()
                    }
                    What::Comp(k, n) => {
                        obs.nontrivial = *n >= 2;
                        match k {
                            Comp::Midpoint => "midpoint",
                            Comp::Trapezoid => "trapezoid",
                            Comp::Simpson => "simpson",
                        }
                    }
                    What::Param(x) => {
                        obs.nontrivial = x.0 != 0.0;
                        "parameter"
                    }
                };
                obs.label(name);
                each_what!(what, v, p => trip(name, v, p.serde(), p.rkyv(), p.known_layout(), obs)).map_err(|e| format!("{what:?}: {e}"))
            }
            SerCase::Replaced(spec, beta, v, format) => {
                obs.nontrivial = true;
                let v = f64::from_bits(*v);
                obs.label(if valid(v) { "parameter replaced by a valid one" } else { "parameter replaced by an invalid one" });
                match spec.build() {
                    Rule::Lag(r) => replaced(&r, false, v, *format, obs),
                    Rule::Jac(r) => replaced(&r, *beta, v, *format, obs),
                    _ => Ok(()),
                }
                .map_err(|e| format!("{spec:?}: {e}"))
            }
            SerCase::Number(b) => {
                let v = f64::from_bits(*b);
                obs.nontrivial = !valid(v);
                obs.label("number as a parameter");
                let codec = param_codec()?;
                // how an f64 is written in the place of a parameter
                let template = (codec.encode)(&par(0.25), 3)?;
                let plain = encode(&0.25f64, 3)?;
                if template != plain {
                    obs.label("parameter not written like a number");
                    return Ok(());
                }
                for (k, format) in FORMATS.iter().enumerate() {
                    let k = k as u8;
                    // JSON has no way to write them
                    if k < 2 && !v.is_finite() {
                        continue;
                    }
                    let bytes = if k == 2 {
                        let t = String::from_utf8((codec.encode)(&par(0.25), 2)?).map_err(|e| e.to_string())?;
                        t.replace("0.25", &ron_number(v)).into_bytes()
                    } else {
                        encode(&v, k)?
                    };
                    match (codec.decode)(&bytes, k) {
                        Ok(p) => obs.ensure(valid(v) && p.get().to_bits() == v.to_bits(), || format!("{format}: {v:?} is read as the parameter {:?}", p.get()))?,
                        Err(e) => obs.ensure(!valid(v), || format!("{format}: the valid {v:?} is not read: {e}"))?,
                    }
                }
                Ok(())
            }
            SerCase::Text(s) => {
                obs.nontrivial = true;
                obs.label("text as a parameter");
                let codec = param_codec()?;
                for k in [0u8, 1, 2] {
                    if let Ok(p) = (codec.decode)(s.as_bytes(), k) {
                        obs.label("text accepted");
                        obs.ensure(valid(p.get()), || format!("{}: {s:?} is read as the invalid parameter {:?}", FORMATS[k as usize], p.get()))?;
                    }
                }
                Ok(())
            }
            SerCase::Damaged(what, format, edits) => {
                obs.nontrivial = true;
                let format = format % 5;
                each_what!(what, v, p => damaged(v, p.serde(), format, edits, obs)).map_err(|e| format!("{what:?}: {e}"))
            }
            SerCase::Incomplete(what, place, how) => {
                obs.nontrivial = true;
                each_what!(what, v, p => incomplete(v, p.serde(), *place, *how, obs)).map_err(|e| format!("{what:?}: {e}"))
            }
            SerCase::ZeroDegree(k, format) => {
                obs.nontrivial = true;
                obs.label("degree zero");
                let tree = serde_json::json!({"degree": 0});
                let format = format % 5;
                let accepted = match k {
                    Comp::Midpoint => zero::<Midpoint>(&tree, format),
                    Comp::Trapezoid => zero::<Trapezoid>(&tree, format),
                    Comp::Simpson => zero::<Simpson>(&tree, format),
                };
                obs.ensure(!accepted, || format!("{k:?} of degree zero is read from {}", FORMATS[format as usize]))
            }
            SerCase::Bytes(b) => {
                let v = f64::from_bits(*b);
                obs.nontrivial = !valid(v);
                obs.label("zerocopy");
                let p = Probe::<FiniteAboveNegOneF64>(PhantomData);
                obs.ensure(!p.any_bytes(), || "the parameter implements zerocopy's FromBytes: any bytes can become one".into())?;
                let z = p.zero_bytes().ok_or("the parameter does not implement zerocopy's KnownLayout, Immutable, FromZeros and IntoBytes")?;
                obs.ensure((z.zeroed)().get().to_bits() == 0, || format!("new_zeroed is {:?}", (z.zeroed)()))?;
                match FiniteAboveNegOneF64::new(v) {
                    Some(q) => {
                        obs.ensure((z.bytes)(&q) == v.to_ne_bytes(), || format!("the bytes of {v:?} are {:?}", (z.bytes)(&q)))?;
                        let back = (z.read)(&v.to_ne_bytes());
                        obs.ensure(back.is_some_and(|q| q.get().to_bits() == *b), || format!("the bytes of {v:?} are read as {back:?}"))
                    }
                    None => {
                        if let Some(q) = (z.read)(&v.to_ne_bytes()) {
                            obs.known_key = Some(ZEROCOPY);
                            let listed = ctx.known.contains(ZEROCOPY) && q.get().to_bits() == *b;
                            obs.ensure(listed, || format!("try_read_from_bytes accepts the bytes of {v:?}, as {q:?}"))?;
                        }
                        Ok(())
                    }
                }
            }
        }
    }
}

fn ron_number(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else if v.is_infinite() {
        if v > 0.0 { "inf".into() } else { "-inf".into() }
    } else {
        format!("{v:?}")
    }
}

fn zero<T: DeserializeOwned>(tree: &serde_json::Value, format: u8) -> bool {
    let bytes = match format {
        2 => Ok(b"(degree:0)".to_vec()),
        4 => Ok(vec![0; 4]),
        k => encode(tree, k),
    };
    bytes.is_ok_and(|b| decode::<T>(&b, format).is_ok())
}

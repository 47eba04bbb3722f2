//! Compares the double-double arithmetic and the reference rules, against which the crate is judged,
//! with 60-digit values computed by mpmath (data/oracle.json, made by tools/make_oracle.py). Does
//! not use the crate under test.

use crate::common::{Spec, X};
use crate::dd::*;
use crate::reference::*;
use serde_json::Value;

fn num(v: &Value) -> Dd {
    dd(v[0].as_f64().expect("hi")) + dd(v[1].as_f64().expect("lo"))
}

/// Ratio of the error to what is allowed.
struct Tally {
    worst: Vec<(String, f64)>,
}

impl Tally {
    fn see(&mut self, name: &str, err: Dd, allowed: f64) {
        let r = err.f().abs() / allowed;
        let r = if r.is_nan() { f64::INFINITY } else { r };
        match self.worst.iter_mut().find(|w| w.0 == name) {
            Some(w) => w.1 = w.1.max(r),
            None => self.worst.push((name.into(), r)),
        }
    }
}

pub fn selftest(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("the oracle file");
    let v: Value = serde_json::from_str(&text).expect("the oracle file");
    let mut t = Tally { worst: vec![] };
    for f in v["functions"].as_array().expect("functions") {
        let name = f["f"].as_str().expect("name");
        let x = dd(f["x"].as_f64().expect("x"));
        let want = num(&f["y"]);
        let (got, allowed) = match name {
            "exp" => (x.exp(), 1e-26 * want.f()),
            "ln" => (x.ln(), 1e-29 * want.f().abs().max(1.0)),
            "sqrt" => (x.sqrt(), 1e-30 * want.f()),
            "sin" => (x.sin(), 1e-29 * want.f().abs().max(1e-6)),
            "cos" => (x.cos(), 1e-29),
            "gamma" => (x.gamma(), 1e-24 * want.f()),
            _ => (x.ln_gamma(), 1e-25 * want.f().abs().max(1.0)),
        };
        t.see(name, got - want, allowed);
    }
    for r in v["rules"].as_array().expect("rules") {
        let n = r["n"].as_u64().expect("n") as usize;
        let (a, b) = (X(r["a"].as_f64().expect("a")), X(r["b"].as_f64().expect("b")));
        let spec = match r["kind"].as_str().expect("kind") {
            "hermite" => Spec::Hermite(n),
            "laguerre" => Spec::Laguerre(n, a),
            _ => Spec::Jacobi(n, a, b),
        };
        let got = spec.reference();
        let size = got.nodes.iter().fold(1.0, |m: f64, x| m.max(x.f().abs()));
        for (i, (x, w)) in r["nodes"].as_array().expect("nodes").iter().zip(r["weights"].as_array().expect("weights")).enumerate() {
            t.see("node", got.nodes[i] - num(x), 1e-26 * size);
            // relative to the weight, but not below what double-double rotations can resolve
            t.see("weight", got.weights[i] - num(w), 1e-22 * num(w).f() + 1e-28 * got.mu0.f());
        }
    }
    for r in v["legendre"].as_array().expect("legendre") {
        let (n, k) = (r["n"].as_u64().expect("n") as usize, r["k"].as_u64().expect("k") as usize);
        let (x, w) = legendre_node(n, k);
        t.see("legendre node", x - num(&r["node"]), 1e-24);
        t.see("legendre weight", (w - num(&r["weight"])) / w, 1e-20);
    }
    for (n, k) in [(9_001, 4_000), (9_001, 4_501), (65_537, 4_000), (65_537, 20_000), (300_001, 4_000), (300_001, 149_000), (1_000_003, 4_001)] {
        let (x, w) = legendre_node(n, k);
        let (y, v) = legendre_node_bulk(n, k);
        t.see("legendre node by the phase", x - y, 1e-17);
        t.see("legendre weight by the phase", (w - v) / w, 4e-17);
    }
    let mut ok = true;
    for (name, r) in &t.worst {
        println!("selftest {name}: worst error {r:.3} of what is allowed{}", if *r <= 1.0 { "" } else { "  FAILED" });
        ok &= *r <= 1.0;
    }
    if ok { 0 } else { 3 }
}

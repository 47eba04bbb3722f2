// Only the property that is asked for is compiled in (features c01 to c25), or all of them.
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports, unused_macros, unused_variables))]

mod common;
mod dd;
mod engine;
#[cfg(any(feature = "all", feature = "c13", feature = "c14"))]
mod props_api;
#[cfg(any(feature = "all", feature = "c25"))]
mod props_cost;
mod props_integrate;
#[cfg(all(feature = "full", any(feature = "all", feature = "c12")))]
mod props_par;
#[cfg(any(feature = "all", feature = "c15"))]
mod props_param;
#[cfg(any(feature = "all", feature = "c17", feature = "c18", feature = "c22"))]
mod props_rel;
mod props_rules;
#[cfg(all(feature = "full", any(feature = "all", feature = "c16")))]
mod props_ser;
#[cfg(any(feature = "all", feature = "c23", feature = "c24"))]
mod props_total;
#[cfg(any(feature = "all", feature = "c20", feature = "c21"))]
mod props_use;
mod reference;
mod selftest;

use engine::*;
use std::collections::HashSet;

#[cfg(any(feature = "all", feature = "c20", feature = "c21"))]
#[global_allocator]
static HEAP: props_use::Counting = props_use::Counting;

#[cfg(feature = "full")]
pub const VARIANT: &str = "full";
#[cfg(all(feature = "stdonly", not(feature = "full")))]
pub const VARIANT: &str = "std";
#[cfg(not(any(feature = "full", feature = "stdonly")))]
pub const VARIANT: &str = "libm";

/// Runs `$body` with the property of the given id.
macro_rules! with_prop {
    ($id:expr, $p:ident => $body:expr) => {
        match $id {
            #[cfg(any(feature = "all", feature = "c01"))]
            "C01" => { let $p = props_rules::LegendreNodes; $body }
            #[cfg(any(feature = "all", feature = "c02"))]
            "C02" => { let $p = props_rules::Family { id: "C02" }; $body }
            #[cfg(any(feature = "all", feature = "c03"))]
            "C03" => { let $p = props_rules::Family { id: "C03" }; $body }
            #[cfg(any(feature = "all", feature = "c04"))]
            "C04" => { let $p = props_rules::Family { id: "C04" }; $body }
            #[cfg(any(feature = "all", feature = "c05"))]
            "C05" => { let $p = props_rules::Family { id: "C05" }; $body }
            #[cfg(any(feature = "all", feature = "c06"))]
            "C06" => { let $p = props_rules::WellFormed; $body }
            #[cfg(any(feature = "all", feature = "c07"))]
            "C07" => { let $p = props_rules::Exactness; $body }
            #[cfg(any(feature = "all", feature = "c08"))]
            "C08" => { let $p = props_integrate::WeightedSum; $body }
            #[cfg(any(feature = "all", feature = "c09"))]
            "C09" => { let $p = props_integrate::Composite { id: "C09", rule: props_integrate::Comp::Midpoint }; $body }
            #[cfg(any(feature = "all", feature = "c10"))]
            "C10" => { let $p = props_integrate::Composite { id: "C10", rule: props_integrate::Comp::Trapezoid }; $body }
            #[cfg(any(feature = "all", feature = "c11"))]
            "C11" => { let $p = props_integrate::Composite { id: "C11", rule: props_integrate::Comp::Simpson }; $body }
            #[cfg(all(feature = "full", any(feature = "all", feature = "c12")))]
            "C12" => { let $p = props_par::Parallel; $body }
            #[cfg(any(feature = "all", feature = "c13"))]
            "C13" => { let $p = props_api::GaussApi; $body }
            #[cfg(any(feature = "all", feature = "c14"))]
            "C14" => { let $p = props_api::CompositeApi; $body }
            #[cfg(any(feature = "all", feature = "c15"))]
            "C15" => { let $p = props_param::Param; $body }
            #[cfg(all(feature = "full", any(feature = "all", feature = "c16")))]
            "C16" => { let $p = props_ser::Serial; $body }
            #[cfg(any(feature = "all", feature = "c20"))]
            "C20" => { let $p = props_use::History; $body }
            #[cfg(any(feature = "all", feature = "c21"))]
            "C21" => { let $p = props_use::Heap; $body }
            #[cfg(any(feature = "all", feature = "c17"))]
            "C17" => { let $p = props_rel::JacobiFacts; $body }
            #[cfg(any(feature = "all", feature = "c18"))]
            "C18" => { let $p = props_rel::Backends::new(); $body }
            #[cfg(any(feature = "all", feature = "c22"))]
            "C22" => { let $p = props_rel::Structure; $body }
            #[cfg(any(feature = "all", feature = "c19"))]
            "C19" => { let $p = props_integrate::Smooth; $body }
            #[cfg(any(feature = "all", feature = "c23"))]
            "C23" => { let $p = props_total::Total; $body }
            #[cfg(any(feature = "all", feature = "c24"))]
            "C24" => { let $p = props_total::Cells; $body }
            #[cfg(any(feature = "all", feature = "c25"))]
            "C25" => { let $p = props_cost::Cost; $body }
            other => {
                println!("ERROR property={other} unknown property");
                3
            }
        }
    };
}

fn known_keys() -> HashSet<String> {
    let text = std::fs::read_to_string("KNOWN_FINDINGS.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .flat_map(|l| l.split_whitespace())
        .filter_map(|w| w.strip_prefix("key="))
        .map(str::to_string)
        .collect()
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let ctx = Ctx {
        tier,
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        variant: VARIANT,
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        known: known_keys(),
        peers: args.iter().filter_map(|a| a.strip_prefix("--peer=")).filter_map(|a| a.split_once(':')).map(|(a, b)| (a.into(), b.into())).collect(),
    };
    let code = match args.get(1).map(String::as_str) {
        Some("run") => {
            let id = args[2].as_str();
            let out = opt("--out").unwrap_or_else(|| format!("evidence/{id}.{VARIANT}.part"));
            with_prop!(id, p => run(&p, &ctx, &out))
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let id = v["property"].as_str().expect("property").to_string();
            with_prop!(id.as_str(), p => replay(&p, v["case"].clone(), &ctx))
        }
        #[cfg(any(feature = "all", feature = "c17", feature = "c18", feature = "c22"))]
        Some("serve") => props_rel::serve(),
        #[cfg(any(feature = "all", feature = "c25"))]
        Some("cost") => props_cost::work(&args[2]),
        Some("selftest") => selftest::selftest(&args[2]),
        Some("calib") => {
            use common::*;
            let mut worst = vec![0f64; 16];
            let mut wj = vec![0f64; 16];
            for i in 0..400_000u64 {
                let u = (i as f64 * 0.6180339887498949).fract();
                let v = (i as f64 * 0.7548776662466927).fract();
                let a = -1.0 + 10f64.powf(-3.0 + 5.2 * u);
                let b = -1.0 + 10f64.powf(-3.0 + 5.2 * v);
                if a < 170.0 {
                let s = Spec::Laguerre(1, X(a));
                let e = ((dd::dd(s.build().pairs()[0].1) / s.mu0()) - dd::ONE).f().abs();
                let k = ((a + 1.0).log2() + 4.0).max(0.0) as usize;
                worst[k] = worst[k].max(e);
                }
                let s = Spec::Jacobi(1, X(a), X(b));
                let e = ((dd::dd(s.build().pairs()[0].1) / s.mu0()) - dd::ONE).f().abs();
                let k = ((a + b + 2.0).log2() + 4.0).max(0.0) as usize;
                wj[k] = wj[k].max(e);
            }
            for k in 0..16 { println!("size<{} lag {:e} jac {:e}", 2f64.powi(k as i32 - 3), worst[k], wj[k]); }
            0
        }
        _ => {
            println!("usage: gq-check run ID | replay FILE");
            3
        }
    };
    std::process::exit(code);
}

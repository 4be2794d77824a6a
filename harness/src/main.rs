//! Bounded checks of icsmw/brec: the search for a failing input behind every failed obligation and
//! the stand-in for functions outside the verifier's reach.
mod checks1;
mod checks2;
mod checks3;
mod model;
mod proto;
#[macro_use]
mod util;
use std::sync::Arc;
use std::sync::atomic::AtomicU64;
use std::time::{Duration, Instant};
use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "hold" {
        std::process::exit(checks3::hold(&args[2], &args[3]));
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--only").and_then(|s| {
        let (g, i) = s.rsplit_once(':')?;
        Some((g.to_string(), i.parse().ok()?))
    });
    let verbose = only.is_some();
    std::panic::set_hook(Box::new(move |i| {
        if verbose {
            eprintln!("{i}");
        }
    }));
    let beat = Arc::new(AtomicU64::new(0));
    watchdog(beat.clone(), Duration::from_secs(25));
    let mut ctx = Ctx {
        seed,
        scale: if thorough { 40 } else { 4 },
        evaluations: 0,
        distinct: Default::default(),
        samples: vec![],
        groups: vec![],
        only,
        progress: get("--progress").and_then(|p| std::fs::File::create(p).ok()),
        beat,
        fail: None,
        started: Instant::now(),
        exhaustive: false,
    };
    let f: fn(&mut Ctx) = match id.as_str() {
        "C01" => checks1::c01,
        "C02" => checks1::c02,
        "C03" => checks1::c03,
        "C04" => checks1::c04,
        "C05" => checks1::c05,
        "C06" => checks1::c06,
        "C07" => checks1::c07,
        "C08" => checks2::c08,
        "C09" => checks2::c09,
        "C10" => checks2::c10,
        "C11" => checks2::c11,
        "C12" => checks2::c12,
        "C13" => checks2::c13,
        "C14" => checks2::c14,
        "C15" => checks1::c15,
        "C16" => checks1::c16,
        "C17" => checks2::c17,
        "C18" => checks2::c18,
        "C20" => checks3::c20,
        _ => {
            eprintln!("usage: brec_bounded C01..C18 [--seed N] [--tier quick|thorough] [--out F] [--progress F] [--only group:index]");
            std::process::exit(2)
        }
    };
    f(&mut ctx);
    let groups: Vec<_> = ctx
        .groups
        .iter()
        .map(|(g, n, w)| serde_json::json!({"group": g, "cases": n, "what": w}))
        .collect();
    let fail = ctx.fail.as_ref().map(|f| {
        serde_json::json!({"group": f.group, "index": f.index, "what": cut(&f.what, 3000), "input": cut(&f.note, 6000)})
    });
    let out = serde_json::json!({
        "property": id, "seed": seed, "tier": if thorough {"thorough"} else {"quick"},
        "evaluations": ctx.evaluations, "distinct": ctx.distinct.len(), "groups": groups,
        "samples": ctx.samples, "failure": fail, "seconds": ctx.started.elapsed().as_secs_f64(),
    });
    if let Some(p) = get("--out") {
        let _ = std::fs::write(p, serde_json::to_string_pretty(&out).unwrap());
    }
    match &ctx.fail {
        None => println!("{id}: {} cases, {} distinct, held in {:.1}s", ctx.evaluations, ctx.distinct.len(), ctx.started.elapsed().as_secs_f64()),
        Some(f) => {
            println!("{id}: FAILED {}:{}: {}", f.group, f.index, cut(&f.what, 1500));
            println!("input: {}", cut(&f.note, 1500));
            std::process::exit(1)
        }
    }
}

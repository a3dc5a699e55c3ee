mod ctx;
mod oracle;
mod p_circuit;
mod p_field;
mod p_garble;
mod p_math;
mod p_net;
mod p_proto;
mod p_report;
mod p_sharing;
mod sim;

use ctx::Ctx;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args[1].clone();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let budget: u64 = std::env::var("VH_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 300 } else { 25 });
    let only = args.get(2).cloned();

    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "?".into(),
            },
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if ctx::PANICS.load(std::sync::atomic::Ordering::SeqCst) == 0 {
            *ctx::LAST_PANIC.lock().unwrap() = format!("{msg} at {loc}");
        }
        ctx::PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }));

    if id == "C02child" {
        p_field::init_child();
    }
    let mut c = Ctx {
        property: id.clone(),
        seed,
        thorough,
        only,
        cases: 0,
        evals: 0,
        classes: Default::default(),
        samples: vec![],
        fails: vec![],
        undecided: vec![],
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        skipped: 0,
        round: 0,
        progress: std::env::var_os("VH_PROGRESS").map(Into::into),
    };
    let f: fn(&mut Ctx) = match id.as_str() {
        "C01" => p_field::field_laws,
        "C02" => p_field::init,
        "C03" => p_field::canonical,
        "C04" => p_field::encoding,
        "C05" => p_proto::preproc_roundtrip,
        "C06" => p_math::lagrange,
        "C07" => p_math::matrices,
        "C08" => p_math::combination,
        "C09" => p_sharing::roundtrip,
        "C10" => p_sharing::detection,
        "C11" => p_sharing::hiding,
        "C12" => p_circuit::load,
        "C13" => p_circuit::eval,
        "C14" => p_circuit::pack,
        "C15" => p_net::ids,
        "C16" => p_net::gather,
        "C17" => p_net::delivery,
        "C18" => p_net::routing,
        "C19" => p_net::stats,
        "C20" => p_proto::reduce,
        "C21" => p_proto::trans,
        "C22" => p_proto::randtrans,
        "C23" => p_proto::randomness,
        "C24" => p_garble::counts,
        "C25" => p_proto::preproc,
        "C26" => p_proto::dummy,
        "C27" => p_garble::tables,
        "C28" => p_garble::matrices,
        "C29" => p_sharing::positions_all,
        "C30" => p_net::connecting,
        "C31" => p_report::reports,
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    // The first round runs every case; further rounds repeat them with fresh values.
    let rounds = if thorough { 200 } else { 10 };
    let round_budget = Duration::from_secs(if thorough { budget * 2 / 3 } else { 8 });
    let replay_round = c.only.as_ref().and_then(|o| o.rsplit_once('#')).and_then(|(_, r)| r.parse::<usize>().ok());
    while c.round < rounds {
        if replay_round.map_or(true, |r| r == c.round) {
            f(&mut c);
        }
        c.round += 1;
        if !c.fails.is_empty() || (c.only.is_none() && c.start.elapsed() > round_budget) || (c.only.is_some() && replay_round.is_none()) {
            break;
        }
    }
    let j = serde_json::json!({
        "property": c.property,
        "seed": c.seed,
        "cases": c.cases,
        "evaluations": c.evals,
        "classes": c.classes.iter().collect::<Vec<_>>(),
        "samples": c.samples,
        "rounds": c.round,
        "skipped_for_time": c.skipped,
        "undecided": c.undecided.iter().map(|f| serde_json::json!({"case": f.case, "message": f.message})).collect::<Vec<_>>(),
        "fails": c.fails.iter().map(|f| serde_json::json!({"case": f.case, "message": f.message})).collect::<Vec<_>>(),
        "wall_s": c.start.elapsed().as_secs_f64(),
    });
    println!("{j}");
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}

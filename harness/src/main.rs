//! Replays a property's statement against the real crate: generated histories, compared with the statement's own arithmetic.
//! Bounded; used to find a concrete failing input when a proof obligation fails, and to exercise the assumed contracts.
//! Usage: replay PID SEED quick|thorough
#[macro_use]
mod util;
mod cache;
mod defense;
mod master;
mod queue;
mod redis;
mod system;

use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pid = a[1].clone();
    if pid == "rng" {
        println!("@@{}", libmcaptcha::verif_hooks::get_random(32));
        return;
    }
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
    install_panic_hook();
    // no answer within this time counts as a hang
    let limit = if thorough { 400 } else { 150 };
    let p2 = pid.clone();
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        println!("\n@@{}", serde_json::json!({"property": p2, "ok": false, "hang": true, "what": format!("no end after {limit} s"), "trace": current()}));
        std::process::exit(1);
    });
    let k = if thorough { 20 } else { 1 };
    let r = match pid.as_str() {
        "C01" => pure(seed, 60000 * k, defense::c01),
        "C02" => pure(seed, 30000 * k, defense::c02),
        "C03" => pure(seed, 30000 * k, defense::c03),
        "C04" => pure(seed, 20000 * k, defense::c04).and_then(|n| paused(seed, 200 * k, |r, t| Box::pin(master::c04(r, t))).map(|m| n + m)),
        "C05" => paused(seed, 400 * k, |r, t| Box::pin(master::c05(r, t))).and_then(|n| paused(seed, 1, |r, t| Box::pin(master::many_visits(r, t))).map(|m| n + m)),
        "C06" => paused(seed, 400 * k, |r, t| Box::pin(cache::run(r, t, cache::What::Challenges))).and_then(|n| paused(seed, 1, |r, t| Box::pin(cache::many(r, t, cache::What::Challenges))).map(|m| n + m)),
        "C07" => paused(seed, 400 * k, |r, t| Box::pin(cache::run(r, t, cache::What::Tokens))).and_then(|n| real(seed, 20 * k, |r, t| Box::pin(system::c07(r, t))).map(|m| n + m)).and_then(|n| paused(seed, 1, |r, t| Box::pin(cache::many(r, t, cache::What::Tokens))).map(|m| n + m)),
        "C08" => paused(seed, 400 * k, |r, t| Box::pin(cache::run(r, t, cache::What::Expiry))).and_then(|n| paused(seed, 2, |r, t| Box::pin(cache::many(r, t, cache::What::Expiry))).map(|m| n + m)),
        "C09" => real(seed, 1000 * k, |r, t| Box::pin(system::c09(r, t))),
        "C10" => real(seed, 800 * k, |r, t| Box::pin(system::c10(r, t))),
        "C11" => pure(seed, 2000 * k, system::c11),
        "C12" | "C13" | "C14" | "C22" => {
            let p = pid.clone();
            real(seed, 150 * k, move |r, t| Box::pin(queue::run(r, t, p.clone())))
                .and_then(|n| if pid == "C14" { real(seed, 20 * k, |r, t| Box::pin(system::c14(r, t))).map(|m| n + m) } else { Ok(n) })
                .and_then(|n| real(seed, 1, |r, t| Box::pin(queue::many(r, t))).map(|m| n + m))
                .and_then(|n| if pid == "C22" { pure(seed, 4 * k, queue::shutdown).map(|m| n + m) } else { Ok(n) })
        }
        "C15" => paused(seed, 300 * k, |r, t| Box::pin(master::registry(r, t, master::Focus::Registry))).and_then(|n| paused(seed, 1, |r, t| Box::pin(master::many_sites(r, t))).map(|m| n + m)).and_then(|n| paused(seed, 40, |r, t| Box::pin(master::long_periods(r, t))).map(|m| n + m)),
        "C16" => paused(seed, 300 * k, |r, t| Box::pin(master::registry(r, t, master::Focus::Gc))).and_then(|n| paused(seed, 40 * k, |r, t| Box::pin(master::long_periods(r, t))).map(|m| n + m)).and_then(|n| paused(seed, 100 * k, |r, t| Box::pin(master::gc_race(r, t))).map(|m| n + m)).and_then(|n| paused(seed, 1, |r, t| Box::pin(master::many_sites(r, t))).map(|m| n + m)),
        "C17" => paused(seed, 300 * k, |r, t| Box::pin(master::registry(r, t, master::Focus::Snapshot))).and_then(|n| paused(seed, 1, |r, t| Box::pin(master::many_sites(r, t))).map(|m| n + m)),
        "C18" => real(seed, 60 * k, |r, t| Box::pin(redis::run(r, t, "C18"))),
        "C19" => real(seed, 40 * k, |r, t| Box::pin(redis::run(r, t, "C19"))),
        "C20" => paused(seed, 60 * k, |r, t| Box::pin(cache::run(r, t, cache::What::Departed)))
            .and_then(|n| paused(seed, 60 * k, |r, t| Box::pin(master::registry(r, t, master::Focus::Departed))).map(|m| n + m))
            .and_then(|n| paused(seed, 60 * k, |r, t| Box::pin(master::c05(r, t))).map(|m| n + m))
            .and_then(|n| paused(seed, 40 * k, |r, t| Box::pin(master::gc_race(r, t))).map(|m| n + m))
            .and_then(|n| paused(seed, 1, |r, t| Box::pin(master::many_visits(r, t))).map(|m| n + m))
            .and_then(|n| paused(seed, 1, |r, t| Box::pin(cache::many(r, t, cache::What::Departed))).map(|m| n + m))
            .and_then(|n| real(seed, 20 * k, |r, t| Box::pin(redis::run(r, t, "C20"))).map(|m| n + m))
            .and_then(|n| if panics().is_empty() { Ok(n) } else { Err(Failure { what: format!("panicked: {}", panics().join("; ")), trace: current() }) }),
        "C21" => pure(seed, 30 * k, system::c21).and_then(|n| real(seed, 3, |r, t| Box::pin(system::c21_system(r, t))).map(|m| n + m)),
        _ => {
            println!("\n@@{}", serde_json::json!({"property": pid, "ok": true, "cases": 0}));
            return;
        }
    };
    match r {
        Ok(n) => println!("\n@@{}", serde_json::json!({"property": pid, "ok": true, "cases": n, "distinct": distinct(), "sample": sample(), "panics": panics()})),
        Err(f) => {
            println!("\n@@{}", serde_json::json!({"property": pid, "ok": false, "what": f.what, "trace": f.trace, "panics": panics()}));
            std::process::exit(1);
        }
    }
    std::process::exit(0);
}

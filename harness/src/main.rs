//! bipsim: deterministic simulation of bip324 and bip324-traffic with fault injection.

mod crypto;
mod exec;
mod gen;
mod hist;
mod json;
mod kernel;
mod keys;
mod oracle;
mod pipe;
mod plan;
mod prng;
mod refpeer;
mod runner;
mod scen;
mod shrink;
mod world;

/// A defect of the harness, never of the code under test.
pub fn harness_error(m: &str) -> ! {
    if exec::in_child() {
        exec::child_error(m);
    }
    println!("HARNESS-ERROR {m}");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    let prop = opt("--prop").unwrap_or_else(|| "C01".into());
    let deep = opt("--tier").as_deref() == Some("thorough");
    let seed = num("--seed", 1);
    let code = match a.first().map(String::as_str) {
        Some("check") => runner::check(&prop, deep, seed, num("--runs", 0), num("--jobs", 0), opt("--out"), opt("--replay-dir"), opt("--known")),
        Some("replay") => runner::replay(&a[1], a.iter().any(|x| x == "-v")),
        Some("one") => runner::one(&prop, deep, seed, num("--idx", 0), a.iter().any(|x| x == "-v")),
        Some("determinism") => runner::determinism(&prop, deep, seed, num("--runs", 200)),
        Some("selftest") => match crypto::selftest().and_then(|_| keys::selftest()) {
            Ok(()) => {
                println!("selftest ok");
                0
            }
            Err(e) => {
                println!("selftest failed: {e}");
                2
            }
        },
        _ => {
            println!("usage: bipsim check|replay|one|determinism|selftest ...");
            2
        }
    };
    std::process::exit(code)
}

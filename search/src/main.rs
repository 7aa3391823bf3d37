mod ctx;
mod spec;
mod util;
mod p_value;
mod p_window;
mod p_sets;
mod p_move;
mod p_graph;
mod p_sched;
mod p_seq;
use ctx::Ctx;
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("usage: search PROPERTY [--seed N] [--budget SECONDS] [--case N]"); std::process::exit(2) }
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(6.0);
    let only: Option<u64> = opt("--case").and_then(|s| s.parse().ok());
    let mut c = Ctx::new(&a[1], seed, Duration::from_millis((budget * 1000.0) as u64), only);
    match a[1].as_str() {
        "C01" => p_value::c01(&mut c), "C02" => p_value::c02(&mut c), "C03" => p_value::c03(&mut c), "C04" => p_value::c04(&mut c),
        "C05" => p_window::c05(&mut c), "C06" => p_sets::c06(&mut c), "C07" => p_sets::c07(&mut c), "C08" => p_sets::c08(&mut c),
        "C09" => p_sets::c09(&mut c), "C10" => p_window::c10(&mut c), "C11" => p_window::c11(&mut c), "C12" => p_move::c12(&mut c),
        "C13" => p_move::c13(&mut c), "C14" => p_window::c14(&mut c), "C15" => p_graph::c15(&mut c), "C16" => p_graph::c16(&mut c),
        "C17" => p_graph::c17(&mut c), "C18" => p_graph::c18(&mut c), "C19" => p_sched::c19(&mut c), "C20" => p_seq::c20(&mut c),
        "C21" => p_seq::c21(&mut c), "C24" => p_move::c24(&mut c),
        x => { eprintln!("unknown property {}", x); std::process::exit(2) }
    }
    for (s, n) in &c.stages { println!("STAGE {} cases={}", s, n) }
    println!("DONE property={} cases={}", c.prop, ctx::CASE.load(std::sync::atomic::Ordering::SeqCst));
    use std::io::Write; std::io::stdout().flush().ok();
    std::process::exit(0)
}

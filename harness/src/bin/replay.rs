//! Runs a harness natively, against the real crate:
//!   replay list
//!   replay values <harness> <file>          file: bytes of the nondeterministic values, hex
//!   replay random <harness> <seed> <millis> [<file>]   random search; the failing input goes to <file>
//! exit 0: postconditions held; 3: the precondition excludes the input; 1: a postcondition failed.
use std::cell::RefCell;
use std::panic;
use std::time::{Duration, Instant};
use vp_harness::nd;

thread_local! { static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

enum Out {
    Held,
    Excluded,
    Failed(String),
}
fn once(f: fn()) -> Out {
    match panic::catch_unwind(f) {
        Ok(()) => Out::Held,
        Err(e) if e.is::<nd::AssumeFailed>() => Out::Excluded,
        Err(_) => Out::Failed(MSG.with(|m| m.borrow().clone())),
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = vp_harness::all();
    if args[1] == "list" {
        for (n, _) in &all {
            println!("{}", n.trim_start_matches("vp_harness::"));
        }
        return;
    }
    let name = format!("vp_harness::{}", args[2]);
    let f = match all.iter().find(|(n, _)| *n == name) {
        Some((_, f)) => *f,
        None => {
            eprintln!("no such harness");
            std::process::exit(2)
        }
    };
    panic::set_hook(Box::new(|i| {
        MSG.with(|m| *m.borrow_mut() = i.to_string());
    }));
    match args[1].as_str() {
        "values" => {
            let hex = std::fs::read_to_string(&args[3]).unwrap();
            nd::load(&hex);
            match once(f) {
                Out::Held => println!("held"),
                Out::Excluded => {
                    println!("excluded");
                    std::process::exit(3)
                }
                Out::Failed(m) => {
                    println!("FAILED {}", m);
                    std::process::exit(1)
                }
            }
        }
        "random" => {
            let seed: u64 = args[3].parse().unwrap();
            let end = Instant::now() + Duration::from_millis(args[4].parse().unwrap());
            let (mut ran, mut excl) = (0u64, 0u64);
            let mut k = 0u64;
            loop {
                nd::seed(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(k));
                k += 1;
                match once(f) {
                    Out::Held => ran += 1,
                    Out::Excluded => excl += 1,
                    Out::Failed(m) => {
                        if let Some(p) = args.get(5) {
                            std::fs::write(p, nd::recorded()).unwrap();
                        }
                        println!("FAILED after {} runs: {}", ran, m);
                        std::process::exit(1)
                    }
                }
                if k % 16 == 0 && Instant::now() > end {
                    break;
                }
            }
            println!("held on {} random inputs ({} excluded by the precondition)", ran, excl);
        }
        _ => std::process::exit(2),
    }
}

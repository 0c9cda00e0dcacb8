//! `replay HARNESS INDEX=VALUE,...`: runs a harness natively with the given inputs.
//!
//! Exit: 0 the property held, 10 violated, 77 the inputs are not admissible.

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match harness::lookup(&a[1]) {
        Some(f) => f,
        None => {
            println!("no such harness");
            std::process::exit(3)
        }
    };
    harness::env::set_inputs(a.get(2).map(|s| s.as_str()).unwrap_or(""));
    if a.get(3).map(|s| s.as_str()) != Some("-v") {
        std::panic::set_hook(Box::new(|_| ()));
    }
    match std::panic::catch_unwind(f) {
        Ok(()) => {
            println!("HELD");
            for c in harness::env::covered() {
                println!("COVERED {}", c);
            }
        }
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            println!("FAILED panic: {}", m);
            std::process::exit(10)
        }
    }
}

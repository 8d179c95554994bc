//! replay HARNESS FILE        run one harness on the values in FILE (one hex string per value)
//! replay HARNESS random N SEED   run it on N random inputs that satisfy its assumptions
//! Exit: 0 assertions hold, 1 violated, 77 the values do not satisfy the assumptions
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::s::{Rejected, S};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" { for (n, _) in vh::registry() { println!("{n}") } return; }
    let f = vh::registry().into_iter().find(|(n, _)| *n == a[1]).expect("unknown harness").1;
    let run = |mut s: S| -> Result<bool, String> {
        match catch_unwind(AssertUnwindSafe(|| f(&mut s))) {
            Ok(()) => Ok(true),
            Err(e) if e.is::<Rejected>() => Ok(false),
            Err(e) => Err(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
        }
    };
    if a[2] == "random" {
        std::panic::set_hook(Box::new(|_| {}));
        let n: u64 = a[3].parse().unwrap();
        let seed: u64 = a[4].parse().unwrap();
        let (mut ok, mut rej) = (0, 0u64);
        let mut i = 0u64;
        while ok < n && i < 40 * n {
            i += 1;
            match run(S::random(seed.wrapping_mul(1_000_003).wrapping_add(i))) {
                Ok(true) => ok += 1,
                Ok(false) => rej += 1,
                Err(m) => { println!("FAILED iteration {i}: {m}"); std::process::exit(1) }
            }
        }
        println!("ok {ok} rejected {rej}");
        return;
    }
    let vals = std::fs::read_to_string(&a[2]).unwrap().lines().filter(|l| !l.starts_with('#'))
        .map(|l| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    match run(S::replay(vals)) {
        Ok(true) => println!("holds"),
        Ok(false) => { println!("rejected"); std::process::exit(77) }
        Err(m) => { println!("violated: {m}"); std::process::exit(1) }
    }
}

//! replay list | HARNESS FILE | HARNESS random N SEED (one process per run of the harness: a failed check ends it)
//! Exit: 0 holds, 1 violated, 78 the values do not fit the harness
use vu::rt::native;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" { for (n, _) in vu::REGISTRY { println!("{n}") } return; }
    let f = vu::REGISTRY.iter().find(|x| x.0 == a[1]).expect("unknown harness").1;
    std::panic::set_hook(Box::new(|_| {}));
    if a[2] == "random" {
        let n: u64 = a[3].parse().unwrap();
        let seed: u64 = a[4].parse().unwrap();
        for i in 0..n { native::reset(None, seed.wrapping_mul(1_000_003).wrapping_add(i + 1)); f() }
        println!("ok {n} rejected 0");
        return;
    }
    let vals = std::fs::read_to_string(&a[2]).unwrap().lines().filter(|l| !l.starts_with('#') && !l.is_empty()).map(|l| u32::from_str_radix(l, 16).unwrap().swap_bytes()).collect();
    native::reset(Some(vals), 0);
    f();
    println!("holds");
}

//! replay <harness> <params,comma> <inputs,comma> [-v]      native run of one harness on concrete inputs
//! replay @<file>                                            many: lines "<harness> <params> <inputs>"; prints digests
use std::io::Write;
fn main() {
    #[cfg(not(target_arch = "riscv64"))]
    {
        let a: Vec<String> = std::env::args().collect();
        if let Some(f) = a[1].strip_prefix('@') {
            for l in std::fs::read_to_string(f).unwrap().lines() {
                let p: Vec<&str> = l.split(' ').collect();
                one(p[0], p[1], p[2], false);
                let (d, c, n) = harness::sx::imp::digest();
                println!("ok {} {} {}", d, c, n);
                std::io::stdout().flush().unwrap();
            }
            return;
        }
        one(&a[1], &a[2], &a[3], a.len() > 4);
        harness::sx::imp::dump();
        let (d, c, n) = harness::sx::imp::digest();
        println!("replay: ok digest={} covers={} asserts={}", d, c, n);
    }
}
#[cfg(not(target_arch = "riscv64"))]
fn one(h: &str, params: &str, inputs: &str, verbose: bool) {
    let list = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect() };
    harness::sx::imp::CTX.with(|c| {
        *c.borrow_mut() = harness::sx::imp::Ctx { inputs: list(inputs), params: list(params), verbose, ..Default::default() };
    });
    let f = harness::HARNESSES.iter().flat_map(|x| x.iter()).find(|x| x.0 == h).expect("harness").1;
    f();
}

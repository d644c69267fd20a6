// Replays properties against the real code: harness PROPERTY SEED TIER [trace]
// Exit 0: nothing found; exit 1 after "FAIL kind / input: / observed:" on a failing input.
mod common;
mod m1;
mod m2;
mod m3;

use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let mut cx = common::Ctx {
        rng: common::Rng::new(seed),
        thorough: a[3] == "thorough",
        cases: 0,
        distinct: Default::default(),
        trace: a.len() > 4,
    };
    common::install_hook();
    // a case that does not end within half a minute hangs
    std::thread::spawn(|| {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let n = common::CASE_NO.load(Ordering::SeqCst);
            if n != last.0 {
                last = (n, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(40) {
                println!("HANG case {}", n);
                std::process::exit(3);
            }
        }
    });
    // deep recursion of the code under test should not take the harness along
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        common::install_hook();
        match prop.as_str() {
            "C01" => m1::c01(&mut cx),
            "C02" => m1::c02(&mut cx),
            "C03" => m1::c03(&mut cx),
            "C04" => m1::c04(&mut cx),
            "C05" => m1::c05(&mut cx),
            "C06" => m1::c06(&mut cx),
            "C07" => m1::c07(&mut cx),
            "C08" => m1::c08(&mut cx),
            "C09" => m2::c09(&mut cx),
            "C10" => m2::c10(&mut cx),
            "C11" => m2::c11(&mut cx),
            "C12" => m2::c12(&mut cx),
            "C13" => m2::c13(&mut cx),
            "C14" => m2::c14(&mut cx),
            "C15" => m2::c15(&mut cx),
            "C16" => m2::c16(&mut cx),
            "C17" => m2::c17(&mut cx),
            "C18" => m2::c18(&mut cx),
            "C19" => m3::c19(&mut cx),
            "C20" => m3::c20(&mut cx),
            "C21" => m3::c21(&mut cx),
            "C22" => m3::c22(&mut cx),
            "C23" => m3::c23(&mut cx),
            "C24" => m3::c24(&mut cx),
            "C25" => m3::c25(&mut cx),
            p => panic!("unknown property {}", p),
        }
        println!("OK {} cases {:?}", cx.cases, cx.distinct);
    });
    match t.unwrap().join() {
        Ok(()) => {}
        Err(_) => {
            println!("HARNESS-PANIC outside a case");
            std::process::exit(4);
        }
    }
}

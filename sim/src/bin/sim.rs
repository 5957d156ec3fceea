use sim::ctx::*;
use sim::runner;
use std::env;

fn main() {
    let a: Vec<String> = env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("a number");
    runner::init();
    ctx().known = env::var("SIM_KNOWN").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    if let Ok(p) = env::var("SIM_PLAIN") {
        let o = std::process::Command::new(p).arg("table").env_remove("SIM_PLAIN").output().expect("the untraced build");
        sim::ops::load_table(&String::from_utf8_lossy(&o.stdout));
    }
    ctx().no_histories = env::var("SIM_NO_HISTORIES").is_ok();
    let choices = |s: &str| s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("a choice")).collect::<Vec<u64>>();
    let list = |c: &[u64]| c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    match a.get(1).map(|s| &s[..]) {
        // run PROP SEED FROM COUNT SIZE OUT
        Some("run") => runner::batch(&a[2], n(3), n(4), n(5), n(6), &a[7]),
        // shrink PROP CLASS SECONDS CHOICES
        Some("shrink") => println!("{}", list(&runner::shrink(&a[2], choices(&a[5]), &a[3], n(4)))),
        // replay PROP CHOICES
        Some("replay") => {
            let o = runner::replay(&a[2], choices(&a[3]), true);
            println!("class={}", o.class.unwrap_or_default());
            println!("message={}", o.msg);
            println!("digest={:016x}", o.digest);
            println!("---");
            print!("{}", o.log);
        }
        // table: the results of every traced operation
        Some("table") => sim::ops::print_table(),
        // sample PROP SEED INDEX: the trace of one run
        Some("sample") => print!("{}", runner::sample(&a[2], n(3), n(4))),
        // distinct FILES
        Some("distinct") => {
            let d = runner::distinct(&a[2..]);
            println!("{} {}", d.0, d.1);
        }
        _ => {
            eprintln!("usage: sim run|shrink|replay ...");
            std::process::exit(2)
        }
    }
}

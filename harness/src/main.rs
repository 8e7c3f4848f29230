//! Native replay: `replay ENTRY FILE` runs one harness on the values in FILE (one per line).
mod all;
pub use all::*;
use sym::replay::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = a[1].clone();
    let vals: Vec<u64> = std::fs::read_to_string(&a[2])
        .unwrap()
        .lines()
        .map(|l| l.split('#').next().unwrap().trim())
        .filter(|l| !l.is_empty())
        .map(|l| l.parse().unwrap())
        .collect();
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        let s = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(non-string)")
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *m2.lock().unwrap() = format!("{s} at {loc}");
    }));
    ST.with(|r| r.borrow_mut().vals = vals);
    let f = ENTRIES.iter().find(|(n, _)| *n == entry).expect("unknown entry").1;
    let r = std::panic::catch_unwind(|| f());
    ST.with(|s| {
        let s = s.borrow();
        for (l, v) in &s.log {
            println!("LOG {v} {l}");
        }
        for l in &s.reach {
            println!("REACH {l}");
        }
        for f in &s.fails {
            println!("ASSERT {f}");
        }
    });
    match r {
        Ok(()) => println!("RESULT ok"),
        Err(p) => {
            if p.is::<AssumeFailed>() {
                println!("RESULT assume")
            } else if p.is::<AssertFailed>() {
                println!("RESULT assert")
            } else {
                println!("PANIC {}", msg.lock().unwrap());
                println!("RESULT panic")
            }
        }
    }
}

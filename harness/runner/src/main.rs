//! verif-runner PROP SEED SCALE [CASE]: runs the runtime checks of one property on the real code.
//! Exit 0: no failing case; 1: a failing case (printed as JSON); 2: usage.
use cdn_proto::verif_common::{Case, Prop, Rng};
use std::sync::{Arc, Mutex};

fn props() -> Vec<Prop> {
    let mut v = vec![];
    /*MODULES*/
    v
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { for p in props() { println!("{} {}", p.id, p.name); } std::process::exit(2); }
    let (id, seed, scale) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap());
    let only: Option<(String, u64)> = a.get(4).map(|s| { let (n, c) = s.rsplit_once(':').unwrap(); (n.to_string(), c.parse().unwrap()) });
    let last = Arc::new(Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| { *l2.lock().unwrap() = i.to_string(); }));
    let ps: Vec<Prop> = props().into_iter().filter(|p| p.id == id).collect();
    let mut summary = vec![];
    // a case that makes no progress for two minutes of real time is reported as a hang
    let progress = Arc::new(Mutex::new((std::time::Instant::now(), String::new())));
    let pr = progress.clone();
    let idc = id.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let g = pr.lock().unwrap();
        if g.0.elapsed().as_secs() > 120 {
            println!("{{\"property\":\"{}\",\"seed\":{},\"case\":\"{}\",\"what\":\"the case did not finish within 120 s\",\"input\":\"\"}}", idc, seed, esc(&g.1));
            std::process::exit(1);
        }
    });
    for p in &ps {
        let n = ((p.quick as f64) * scale).ceil() as u64;
        let mut done = 0u64;
        let started = std::time::Instant::now();
        for i in 0..n {
            if let Some((pn, c)) = &only { if pn != p.name || *c != i { continue; } }
            *progress.lock().unwrap() = (std::time::Instant::now(), format!("{}:{}", p.name, i));
            let mut s = Rng(seed.wrapping_mul(0x1000_0001) ^ i.wrapping_mul(0x5851_F42D_4C95_7F2D) ^ (p.name.len() as u64) << 56);
            s.next();
            let mut c = Case { rng: s, index: i, log: String::new() };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut c)));
            done += 1;
            let what = match r { Ok(Ok(())) => continue, Ok(Err(e)) => e, Err(_) => format!("panic: {}", last.lock().unwrap()) };
            println!("{{\"property\":\"{}\",\"seed\":{},\"scale\":{},\"case\":\"{}:{}\",\"what\":\"{}\",\"input\":\"{}\"}}", id, seed, scale, esc(p.name), i, esc(&what), esc(&c.log));
            std::process::exit(1);
        }
        summary.push(format!("{{\"check\":\"{}\",\"cases\":{},\"ms\":{}}}", esc(p.name), done, started.elapsed().as_millis()));
    }
    println!("{{\"property\":\"{}\",\"seed\":{},\"ok\":[{}]}}", id, seed, summary.join(","));
    std::process::exit(0);
}

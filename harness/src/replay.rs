//! replay FILE TIER PATTERN: every line of FILE is "<harness> <w>:<hex> <w>:<hex> ...".
//! Each line runs in a child process of its own (`replay --one`), so that aborts are observed.
use harness::native;
use std::io::Read;

fn one(harness: &str, inputs: &str, tier: u32, pattern: u8) {
    native::COUNTED.with(|c| c.set(true)); native::PATTERN.store(pattern, std::sync::atomic::Ordering::Relaxed);
    { let mut s = native::ST.lock().unwrap(); s.tier = tier; s.obs.reserve(1 << 16);
      s.inputs = inputs.split_whitespace().map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), u64::from_str_radix(b, 16).unwrap()) }).collect(); }
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default(); println!("PANIC {} at {}", m.replace('\n', " "), l); }));
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(25)); println!("END hang"); std::process::exit(0) });
    let f = harness::lookup(harness).expect("unknown harness");
    let r = std::panic::catch_unwind(f);
    println!("UHASH {:x}", native::UNINIT_HASH.load(std::sync::atomic::Ordering::Relaxed));
    match r {
        Ok(()) => native::finish("ret"),
        Err(_) => { let e = match native::ST.lock() { Ok(s) => s.expect, Err(p) => p.into_inner().expect }; native::finish(if e { "panic" } else { "unexpected-panic" }) }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--one" {
        let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
        one(&a[2], &s, a[3].parse().unwrap(), a[4].parse().unwrap());
    }
    let text = std::fs::read_to_string(&a[1]).unwrap(); let exe = std::env::current_exe().unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let next = std::sync::atomic::AtomicUsize::new(0); let out = std::sync::Mutex::new(vec![String::new(); lines.len()]);
    std::thread::scope(|sc| { for _ in 0..n { sc.spawn(|| loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed); if i >= lines.len() { break; }
        let (h, ins) = lines[i].split_once(' ').unwrap_or((lines[i], ""));
        use std::io::Write; use std::process::{Command, Stdio};
        let mut c = Command::new(&exe).args(["--one", h, &a[2], &a[3]]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
        let _ = c.stdin.take().unwrap().write_all(ins.as_bytes());
        let o = c.wait_with_output().unwrap();
        let err = String::from_utf8_lossy(&o.stderr); let mut r = String::from_utf8_lossy(&o.stdout).into_owned();
        if !o.status.success() || !r.contains("END ") { r.push_str(&format!("\nEND crash:{:?} {}", o.status, err.replace('\n', " "))); }
        out.lock().unwrap()[i] = r;
    }); } });
    for (i, r) in out.into_inner().unwrap().iter().enumerate() { println!("## {}", i); println!("{}", r.trim_end()); }
}

//! Native driver: `dv list`, `dv run <module> [names] --iters N --seed S --secs T`, `dv replay <module> <name> <hexvals>`
use dv::src::*;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex, atomic::{AtomicU64, Ordering::Relaxed}};
use dv::PHASE;

thread_local! { static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn hex(v: &[Vec<u8>]) -> String {
    v.iter().map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")
}
fn unhex(s: &str) -> Vec<Vec<u8>> {
    s.split(',').filter(|x| !x.is_empty()).map(|p| (0..p.len() / 2).map(|i| u8::from_str_radix(&p[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()
}
/// None = contract held or input discarded; Some(msg) = violated
fn exec(e: &dv::Entry, s: &mut dyn Src, skipped: &mut bool) -> Option<String> {
    MSG.with(|m| m.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| (e.run)(s)));
    *skipped = matches!(r, Ok(Out::Skip));
    match (e.kind.trim_start_matches("modular_"), r) {
        (_, Ok(Out::Skip)) => None,
        ("panics", Ok(Out::Done)) => Some("returned normally where the contract demands rejection by panic".into()),
        ("panics", Err(_)) => {
            let m = MSG.with(|m| m.borrow().clone());
            if m.contains("ENSURES") { Some(m) } else { None }
        }
        (_, Ok(Out::Done)) => None,
        (_, Err(_)) => Some(MSG.with(|m| m.borrow().clone())),
    }
}
fn once(e: &dv::Entry) -> bool { e.kind == "native" && e.name.starts_with("all_") }

static ITER: AtomicU64 = AtomicU64::new(u64::MAX);
static DONE: AtomicU64 = AtomicU64::new(0);
static SKIP: AtomicU64 = AtomicU64::new(0);
unsafe extern "C" { fn signal(n: i32, h: extern "C" fn(i32)) -> usize; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
/// A stack overflow or abort: tell the supervisor which iteration died
extern "C" fn on_abort(_: i32) {
    let mut b = [0u8; 160];
    let mut n = 0;
    let mut put = |x: &[u8]| for c in x { b[n] = *c; n += 1; };
    let num = |mut v: u64| { let mut d = [b'0'; 20]; let mut k = 20; loop { k -= 1; d[k] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } } (d, k) };
    let (i, p) = (ITER.load(Relaxed), PHASE.load(Relaxed));
    let (d, k) = num(i);
    if p == 1 { put(b"STUCK "); put(&d[k..]); } else { put(b"FAIL iter:"); put(&d[k..]); put(b" :: ENSURES does not abort the process (stack overflow or abort)"); }
    put(b"\nSTAT ");
    let (d, k) = num(DONE.load(Relaxed)); put(&d[k..]); put(b" ");
    let (d, k) = num(SKIP.load(Relaxed)); put(&d[k..]); put(b"\n");
    unsafe { write(1, b.as_ptr(), n); _exit(4) }
}
/// Abandons an iteration that exhausts time or memory. While the harness itself or a step whose cost is
/// not under contract (PHASE 1, e.g. building lookahead tables) is running this discards the input;
/// while the code under contract is running it is a failure to terminate.
fn watchdog(is_once: bool) {
    let (mut last, mut ph, mut since) = (u64::MAX, 0, std::time::Instant::now());
    loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let (i, p) = (ITER.load(Relaxed), PHASE.load(Relaxed));
        if i != last || p != ph { (last, ph, since) = (i, p, std::time::Instant::now()); continue; }
        if i == u64::MAX || is_once { continue; }
        let mb = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) / 256;
        let secs = since.elapsed().as_secs();
        let (d, s) = (DONE.load(Relaxed), SKIP.load(Relaxed));
        if p == 1 && (secs > 2 || mb > 1500) || mb > 6000 {
            println!("STAT {d} {s}\nSTUCK {i}");
            std::process::exit(3);
        }
        if p != 1 && secs > 60 {
            println!("FAIL iter:{i} :: ENSURES terminates: still running after {secs} s\nSTAT {d} {s}");
            std::process::exit(1);
        }
    }
}
#[derive(Default)]
struct Shard { done: u64, skip: u64, stuck: u64, fail: Option<String>, broken: bool }
fn supervise(module: &str, e: &dv::Entry, seed: u64, from: u64, iters: u64, secs: f64, min: bool) -> Shard {
    let t = std::time::Instant::now();
    let mut r = Shard::default();
    let (start, mut from) = (from, from);
    loop {
        let left = (secs - t.elapsed().as_secs_f64()).max(0.0);
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["work", module, e.name, &seed.to_string(), &from.to_string(), &(start + iters - from).to_string(), &left.to_string(), &min.to_string()])
            .output().unwrap();
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut again = false;
        let mut stat = false;
        for l in out.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "STAT" => { stat = true; r.done += w[1].parse::<u64>().unwrap(); r.skip += w[2].parse::<u64>().unwrap(); }
                "FAIL" => { let m = l[5..].to_string(); if r.fail.as_ref().is_none_or(|x| m.len() < x.len()) { r.fail = Some(m); } }
                "STUCK" => { r.stuck += 1; from = w[1].parse::<u64>().unwrap() + 1; again = true; }
                _ => {}
            }
        }
        if !stat {
            // the worker died (stack overflow, abort): the iteration it reached is not known
            eprintln!("worker for {} died: {:?} {}", e.name, o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>());
            r.broken = true;
            return r;
        }
        if !again || t.elapsed().as_secs_f64() > secs || (r.fail.is_some() && !min) { return r; }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string(); if std::env::var_os("DVPANIC").is_some() { eprintln!("{m}"); }
        MSG.with(|x| *x.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    let find = |m: &str| dv::MODULES.iter().find(|x| x.0 == m).expect("module").1;
    match a[1].as_str() {
        "list" => {
            for (m, es) in dv::MODULES { for e in *es { println!("{m} {} {}", e.name, e.kind); } }
        }
        "replay" => {
            let e = find(&a[2]).iter().find(|e| e.name == a[3]).expect("contract");
            if let Some(x) = a.get(4).and_then(|x| x.strip_prefix("iter:")) {
                let (i, seed) = (x.parse::<u64>().unwrap(), a.get(5).map(|x| x.parse::<u64>().unwrap()).unwrap_or(1));
                let mut sk = false;
                match exec(e, &mut RandSrc::new(seed.wrapping_mul(1_000_003).wrapping_add(i)), &mut sk) {
                    Some(m) => { println!("REPLAY-FAIL {}: {}", e.name, m.replace('\n', " ")); std::process::exit(1) }
                    None => println!("REPLAY-OK {} skipped={sk}", e.name),
                }
                return;
            }
            let mut s = ReplaySrc { vals: unhex(a.get(4).map(|x| x.as_str()).unwrap_or("")), ix: 0 };
            let mut sk = false;
            match exec(e, &mut s, &mut sk) {
                Some(m) => { println!("REPLAY-FAIL {}: {}", e.name, m.replace('\n', " ")); std::process::exit(1) }
                None => { println!("REPLAY-OK {} skipped={sk}", e.name); }
            }
        }
        "run" => {
            let es = find(&a[2]);
            let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
            let names = get("--only", "");
            let names: Vec<&str> = names.split(',').filter(|x| !x.is_empty()).collect();
            let seed: u64 = get("--seed", "1").parse().unwrap();
            let iters: u64 = get("--iters", "200000").parse().unwrap();
            let secs: f64 = get("--secs", "20").parse().unwrap();
            let min = a.iter().any(|x| x == "--min");
            let shards = if names.len() == 1 { 8 } else { (8 / es.len()).max(1) };
            let todo: Vec<(&'static dv::Entry, u64)> = es.iter().filter(|e| names.is_empty() || names.contains(&e.name))
                .flat_map(|e| (0..if once(e) { 1 } else { shards as u64 }).map(move |k| (e, k))).collect();
            let q = Arc::new(Mutex::new(todo));
            let res: Arc<Mutex<Vec<(&'static str, Shard)>>> = Default::default();
            let module = a[2].clone();
            let hs: Vec<_> = (0..8).map(|_| { let (q, res, module) = (q.clone(), res.clone(), module.clone()); std::thread::spawn(move || loop {
                let Some((e, k)) = q.lock().unwrap().pop() else { break };
                let r = supervise(&module, e, seed, k << 40, iters, secs, min);
                res.lock().unwrap().push((e.name, r));
            }) }).collect();
            for h in hs { h.join().unwrap(); }
            let mut bad = false;
            for e in es {
                let rs = res.lock().unwrap();
                let mine: Vec<&Shard> = rs.iter().filter(|r| r.0 == e.name).map(|r| &r.1).collect();
                if mine.is_empty() { continue; }
                if let Some(m) = mine.iter().filter_map(|r| r.fail.as_ref()).min_by_key(|m| m.len()) { bad = true; println!("NATIVE-FAIL {} {m}", e.name); continue; }
                if mine.iter().any(|r| r.broken) { println!("NATIVE-NONE {}", e.name); continue; }
                println!("NATIVE-OK {} executed={} discarded={} abandoned={}", e.name, mine.iter().map(|r| r.done).sum::<u64>(), mine.iter().map(|r| r.skip).sum::<u64>(), mine.iter().map(|r| r.stuck).sum::<u64>());
            }
            if bad { std::process::exit(1) }
        }
        // one contract from iteration `from` on; exits 3 when an iteration had to be abandoned
        "work" => {
            let e = find(&a[2]).iter().find(|e| e.name == a[3]).expect("contract");
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (seed, from, iters, secs, min) = (n(4), n(5), n(6), a[7].parse::<f64>().unwrap(), a[8] == "true");
            let is_once = once(e);
            unsafe { signal(6, on_abort); }
            std::thread::spawn(move || watchdog(is_once));
            let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
                let t = std::time::Instant::now();
                let (mut done, mut skip) = (0u64, 0u64);
                let mut fail = None;
                for i in from..(if is_once { from + 1 } else { from + iters }) {
                    let mut s = RandSrc::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                    let mut sk = false;
                    PHASE.store(0, Relaxed);
                    ITER.store(i, Relaxed);
                    if let Some(m) = exec(e, &mut s, &mut sk) {
                        // --min: keep searching for the shortest failing case
                        if fail.as_ref().is_none_or(|(n, _): &(String, Vec<Vec<u8>>)| m.len() < n.len()) { fail = Some((m, s.log)); }
                        if !min { break; }
                    }
                    if sk { skip += 1 } else { done += 1 }
                    DONE.store(done, Relaxed);
                    SKIP.store(skip, Relaxed);
                    if i % 16 == 0 && t.elapsed().as_secs_f64() > secs { break; }
                }
                ITER.store(u64::MAX, Relaxed);
                if let Some((m, log)) = fail { println!("FAIL {} :: {}", hex(&log), m.replace('\n', " ")); }
                println!("STAT {done} {skip}");
            }).unwrap();
            h.join().unwrap();
        }
        // deep formats need a deep stack
        "emit" | "judge" => std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let p = std::path::Path::new(&a[2]);
            if a[1] == "emit" { dv::gencode::emit(p, n(3), n(4)) } else { dv::gencode::judge(p, n(3)) }
        }).unwrap().join().unwrap(),
        _ => panic!("usage"),
    }
}

//! Concrete executor of the property bodies against the real crates.
//!
//!   vharness search ID --seed N --secs S [--max N]    random search (+ exhaustive prefix enumeration)
//!   vharness replay ID FILE|CHOICES                   one case; exit 1 when it violates the property
//!   vharness list
//!
//! A property body returns Err(message) or panics when the property is violated.

mod src_;
mod props;

use src_::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

fn run_case(p: &props::Prop, rec: &mut Rec) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(rec))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(p: &props::Prop, choices: Vec<u64>, until: Instant) -> Vec<u64> {
    let fails = |c: &[u64]| run_case(p, &mut Rec::replay(c.to_vec())).is_err();
    let mut best = choices;
    let mut progress = true;
    while progress && Instant::now() < until {
        progress = false;
        for size in [32, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && Instant::now() < until {
                let mut c = best.clone();
                c.drain(i..i + size);
                if fails(&c) { best = c; progress = true; } else { i += 1; }
            }
        }
        for i in 0..best.len() {
            if Instant::now() > until { break; }
            let v = best[i];
            for n in [0, v / 2, v.saturating_sub(1)] {
                if n < best[i] {
                    let mut c = best.clone();
                    c[i] = n;
                    if fails(&c) { best = c; progress = true; break; }
                }
            }
        }
        while best.last() == Some(&0) {
            let mut c = best.clone();
            c.pop();
            if fails(&c) { best = c; } else { break; }
        }
    }
    best
}

fn describe(p: &props::Prop, choices: &[u64]) -> (String, String) {
    let mut r = Rec::replay(choices.to_vec());
    r.want_notes = true;
    let m = run_case(p, &mut r).err().unwrap_or_default();
    (r.notes.join("; "), m)
}

fn fail_json(id: &str, choices: &[u64], note: &str, msg: &str) -> String {
    format!("{{\"property\":{},\"choices\":{:?},\"case\":{},\"message\":{}}}", esc(id), choices, esc(note), esc(msg))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    match args.get(1).map(|x| x.as_str()) {
        Some("list") => for p in props::all() { println!("{}", p.id); },
        Some("replay") => {
            let props = props::all();
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            let text = std::fs::read_to_string(&args[3]).unwrap_or_else(|_| args[3].clone());
            let list = match text.find("\"choices\"") { Some(i) => &text[i + 9..], None => &text[..] };
            let a = list.find('[').expect("choices");
            let b = list[a..].find(']').expect("choices") + a;
            let choices: Vec<u64> = list[a + 1..b].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
            let (note, msg) = describe(p, &choices);
            println!("case: {note}");
            if msg.is_empty() { println!("property holds on this case"); } else { println!("violated: {msg}"); std::process::exit(1); }
        }
        Some("search") => search(&args),
        Some("forked") => forked(&args),
        Some("trace") => {
            // random cases one by one on one thread; the seed of the running case is kept in a file
            use std::os::unix::fs::FileExt;
            let props = props::all();
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            let f = std::fs::File::create(&args[3]).unwrap();
            let (mut seed, end) = (args[4].parse::<u64>().unwrap(), Instant::now() + Duration::from_secs_f64(args[5].parse().unwrap()));
            while Instant::now() < end {
                f.write_all_at(&seed.to_le_bytes(), 0).unwrap();
                let (p2, s) = (p.run, seed);
                let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || catch_unwind(AssertUnwindSafe(|| p2(&mut Rec::random(s))))).unwrap().join();
                seed = seed.wrapping_add(1);
            }
        }
        Some("one") => {
            // records the choices of one seed as they are drawn (the case may kill the process)
            let props = props::all();
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            let mut r = Rec::random(args[4].parse().unwrap());
            r.sink = Some(std::fs::File::create(&args[3]).unwrap());
            let run = p.run;
            let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || catch_unwind(AssertUnwindSafe(|| run(&mut r)))).unwrap().join();
        }
        _ => { eprintln!("usage: vharness search|replay|list"); std::process::exit(2); }
    }
}

fn wait(mut c: std::process::Child, secs: f64) -> Option<std::process::ExitStatus> {
    let end = Instant::now() + Duration::from_secs_f64(secs);
    loop {
        if let Ok(Some(s)) = c.try_wait() { return Some(s); }
        if Instant::now() > end { let _ = c.kill(); let _ = c.wait(); return None; }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// The search died or hung: find the case in child processes.
fn forked(args: &[String]) {
    let get = |k: &str, d: f64| args.iter().position(|a| a == k).map(|i| args[i + 1].parse::<f64>().unwrap()).unwrap_or(d);
    let (id, seed, secs) = (&args[2], get("--seed", 1.0) as u64, get("--secs", 30.0));
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (f1, f2) = (dir.join("seed"), dir.join("choices"));
    let spawn = |a: &[&std::ffi::OsStr]| std::process::Command::new(&exe).args(a).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let o = |s: &str| std::ffi::OsString::from(s);
    let st = wait(spawn(&[&o("trace"), &o(id), f1.as_os_str(), &o(&seed.to_string()), &o(&secs.to_string())]), secs + 30.0);
    if !st.is_some_and(|s| s.success()) {
        let b = std::fs::read(&f1).unwrap();
        let s = u64::from_le_bytes(b[..8].try_into().unwrap());
        let st = wait(spawn(&[&o("one"), &o(id), f2.as_os_str(), &o(&s.to_string())]), 60.0);
        if !st.is_some_and(|s| s.success()) {
            let text = std::fs::read_to_string(&f2).unwrap_or_default();
            let mut best: Vec<u64> = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let bad = |c: &[u64]| -> bool {
                let st = wait(spawn(&[&o("replay"), &o(id), &o(&format!("\"choices\":{c:?}"))]), 20.0);
                !st.is_some_and(|s| s.code().is_some())
            };
            let end = Instant::now() + Duration::from_secs(40);
            for size in [32, 8, 2, 1] {
                let mut i = 0;
                while i + size <= best.len() && Instant::now() < end {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if bad(&c) { best = c; } else { i += size; }
                }
            }
            let msg = match st { None => "the case does not terminate within 60 s".to_string(), Some(s) => format!("the process died: {s}") };
            println!("{{\"fail\":{}}}", fail_json(id, &best, "case that ends the process: see choices", &msg));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

struct Slot { since: Option<Instant>, choices: Vec<u64>, seed: u64 }

fn search(args: &[String]) {
    let props = Arc::new(props::all());
    let pi = props.iter().position(|p| p.id == args[2]).expect("unknown property");
    let get = |k: &str, d: f64| args.iter().position(|a| a == k).map(|i| args[i + 1].parse::<f64>().unwrap()).unwrap_or(d);
    let seed = get("--seed", 1.0) as u64;
    let secs = get("--secs", 10.0);
    let max = get("--max", 1e15) as u64;
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let threads = 8u64;
    let stop = Arc::new(AtomicBool::new(false));
    let count = Arc::new(AtomicU64::new(0));
    let seen: Arc<Mutex<(HashSet<u64>, u64)>> = Default::default();
    let fail: Arc<Mutex<Option<(Vec<u64>, String)>>> = Default::default();
    let samples: Arc<Mutex<Vec<String>>> = Default::default();
    let exhausted = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Mutex<Slot>>> = Arc::new((0..=threads).map(|_| Mutex::new(Slot { since: None, choices: vec![], seed: 0 })).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (props, stop, count, seen, fail, samples, exhausted, slots) = (props.clone(), stop.clone(), count.clone(), seen.clone(), fail.clone(), samples.clone(), exhausted.clone(), slots.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let p = &props[pi];
            let mut local: HashSet<u64> = HashSet::new();
            let mut nt = 0u64;
            // thread 0 first enumerates small cases depth-first
            let mut enumerate: Option<Vec<u64>> = if t == 0 && p.enumerate { Some(vec![]) } else { None };
            let mut k = 0u64;
            while !stop.load(Ordering::Relaxed) && Instant::now() < end && count.load(Ordering::Relaxed) < max {
                let s = seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(t << 56).wrapping_add(k);
                k += 1;
                let mut rec = match &enumerate { Some(c) => Rec::exhaust(c.clone()), None => Rec::random(s) };
                { let mut sl = slots[t as usize].lock().unwrap(); sl.since = Some(Instant::now()); sl.seed = s; sl.choices = enumerate.clone().unwrap_or_default(); }
                rec.want_notes = k <= 2 && enumerate.is_none();
                let r = run_case(p, &mut rec);
                { slots[t as usize].lock().unwrap().since = None; }
                count.fetch_add(1, Ordering::Relaxed);
                if rec.nontrivial && local.len() < 4_000_000 {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    rec.out.hash(&mut h);
                    if local.insert(h.finish()) { nt += 1; }
                }
                if !rec.notes.is_empty() { let mut s = samples.lock().unwrap(); if s.len() < 6 { let mut x = rec.notes.join("; "); if x.len() > 600 { x = x.chars().take(600).collect(); } s.push(x); } }
                if let Err(m) = r {
                    stop.store(true, Ordering::Relaxed);
                    *fail.lock().unwrap() = Some((rec.out.clone(), m));
                    break;
                }
                if enumerate.is_some() {
                    enumerate = rec.successor();
                    if enumerate.is_none() { exhausted.store(true, Ordering::Relaxed); if p.finite { stop.store(true, Ordering::Relaxed); } }
                }
            }
            let mut g = seen.lock().unwrap();
            g.0.extend(local);
            g.1 += nt;
        }).unwrap());
    }
    // watchdog: a case that runs for a minute counts as non-terminating
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        for sl in slots.iter() {
            let sl = sl.lock().unwrap();
            if let Some(t) = sl.since {
                if t.elapsed() > Duration::from_secs(60) {
                    println!("{{\"evaluations\":{},\"hang\":true,\"seed\":{},\"choices\":{:?}}}", count.load(Ordering::Relaxed), sl.seed, sl.choices);
                    std::process::exit(4);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for h in hs { let _ = h.join(); }
    let p = &props[pi];
    let f = fail.lock().unwrap().take();
    let mut out = format!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"exhausted\":{},\"rule\":{},\"samples\":[{}]",
        esc(p.id), count.load(Ordering::Relaxed), seen.lock().unwrap().0.len(), exhausted.load(Ordering::Relaxed) && p.finite, esc(p.rule),
        samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    if let Some((c, m)) = f {
        let c2 = shrink(p, c, Instant::now() + Duration::from_secs(20));
        let (note, msg) = describe(p, &c2);
        out.push_str(&format!(",\"fail\":{}", fail_json(p.id, &c2, &note, if msg.is_empty() { &m } else { &msg })));
    }
    out.push('}');
    println!("{out}");
}

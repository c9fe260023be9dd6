//! Native oracle: runs the real library on generated inputs and compares with references.
mod generate;
mod lib_view;
mod props;
mod refs;
mod rng;
use props::{Fail, Kind};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static LASTP: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{u:04x}")); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// one case: Ok(non-trivial?) or a failure
fn run_case(prop: &str, seed: u64, idx: u64) -> Result<Option<u64>, Fail> {
    let kind = props::kind(prop, seed, idx);
    let t = Instant::now();
    let r = panic::catch_unwind(AssertUnwindSafe(|| props::case(prop, seed, idx)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LASTP.with(|l| l.borrow().clone());
            // counters overflowed in a loop without end
            if prop == "P05" && t.elapsed().as_secs_f64() > 2.0 {
                return Err(Fail { input: props::input(prop, seed, idx), detail: format!("no end: {m} after {:.1} s", t.elapsed().as_secs_f64()) });
            }
            // a panic on arbitrary text is the matter of P06; on a document of known meaning it loses the meaning
            if kind == Kind::Text && prop != "P06" { return Ok(None); }
            Err(Fail { input: props::input(prop, seed, idx), detail: format!("panic: {m}") })
        }
    }
}

fn fail_json(prop: &str, seed: u64, idx: u64, f: &Fail) -> String {
    format!("{{\"property\":{},\"seed\":{seed},\"case\":{idx},\"input\":{},\"detail\":{}}}", esc(prop), esc(&f.input), esc(&f.detail))
}

fn main() {
    panic::set_hook(Box::new(|i| { let s = format!("{i}"); LASTP.with(|l| *l.borrow_mut() = s); }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("one") => {
            let (prop, seed, idx) = (a[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap());
            println!("input: {:?}", props::input(&prop, seed, idx));
            std::io::stdout().flush().unwrap();
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || match run_case(&prop, seed, idx) {
                Ok(_) => { println!("holds"); 0 }
                Err(f) => { println!("FAILS\n{}", f.detail); 1 }
            }).unwrap();
            std::process::exit(h.join().unwrap());
        }
        Some("input") => {
            println!("{}", esc(&props::input(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap())));
        }
        Some("kind") => {
            let k = props::kind(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            println!("{}", if k == Kind::Document { "document" } else { "text" });
        }
        Some("run") => run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], a.get(6).map_or(8, |x| x.parse().unwrap())),
        _ => { eprintln!("oracle run PROP SEED SECONDS DIR [THREADS] | one PROP SEED CASE | input PROP SEED CASE"); std::process::exit(2); }
    }
}

fn run(prop: &str, seed: u64, secs: f64, dir: &str, threads: usize) {
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let distinct: Arc<Mutex<std::collections::HashSet<u64>>> = Arc::new(Mutex::new(Default::default()));
    let done = Arc::new(AtomicU64::new(0));
    let fails: Arc<Mutex<Vec<(u64, Fail)>>> = Arc::new(Mutex::new(vec![]));
    let cur: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let finished = Arc::new(AtomicUsize::new(0));
    std::fs::create_dir_all(dir).unwrap();
    let mut hs = vec![];
    for t in 0..threads {
        let (next, stop, distinct, done, fails, cur, finished) = (next.clone(), stop.clone(), distinct.clone(), done.clone(), fails.clone(), cur.clone(), finished.clone());
        let prop = prop.to_string();
        let state = std::fs::File::create(format!("{dir}/cur.{t}")).unwrap();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            use std::os::unix::fs::FileExt;
            let mut mine = std::collections::HashSet::new();
            while !stop.load(Relaxed) {
                let lo = next.fetch_add(16, Relaxed);
                for idx in lo..lo + 16 {
                    if stop.load(Relaxed) { break; }
                    let _ = state.write_at(&idx.to_le_bytes(), 0);
                    cur[t].1.store(t0.elapsed().as_millis() as u64, Relaxed);
                    cur[t].0.store(idx, Relaxed);
                    match run_case(&prop, seed, idx) {
                        Ok(Some(h)) => { if mine.len() < 1_000_000 { mine.insert(h); } }
                        Ok(None) => {}
                        Err(f) => {
                            let mut v = fails.lock().unwrap();
                            v.push((idx, f));
                            if v.len() >= 5 { stop.store(true, Relaxed); }
                        }
                    }
                    done.fetch_add(1, Relaxed);
                    cur[t].0.store(u64::MAX, Relaxed);
                }
                if t0.elapsed().as_secs_f64() > secs { break; }
            }
            distinct.lock().unwrap().extend(mine);
            finished.fetch_add(1, Relaxed);
        }).unwrap());
    }
    let mut hang = None;
    while finished.load(Relaxed) < threads {
        std::thread::sleep(Duration::from_millis(50));
        let now = t0.elapsed().as_millis() as u64;
        for c in cur.iter() {
            let i = c.0.load(Relaxed);
            if i != u64::MAX && now.saturating_sub(c.1.load(Relaxed)) > 15_000 && c.0.load(Relaxed) == i { hang = Some(i); }
        }
        if hang.is_some() { break; }
    }
    let mut v = std::mem::take(&mut *fails.lock().unwrap());
    if let Some(i) = hang {
        if prop == "P05" || props::kind(prop, seed, i) == Kind::Document {
            v.push((i, Fail { input: props::input(prop, seed, i), detail: "no end after 15 s".into() }));
        }
    }
    v.sort_by_key(|x| x.1.input.len());
    let vs: Vec<String> = v.iter().map(|(i, f)| fail_json(prop, seed, *i, f)).collect();
    let samples: Vec<String> = (0..6u64).map(|k| esc(&props::input(prop, seed, k * 7 + 1))).collect();
    let j = format!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"hang\":{},\"violations\":[{}],\"samples\":[{}],\"wall_s\":{:.2}}}",
        done.load(Relaxed), distinct.lock().unwrap().len(), hang.is_some(), vs.join(","), samples.join(","), t0.elapsed().as_secs_f64()
    );
    std::fs::write(format!("{dir}/result.json"), &j).unwrap();
    std::process::exit(if v.is_empty() { 0 } else { 1 });
}

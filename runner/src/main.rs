//! Runs the contracts of /verif/contracts natively, against the real code:
//!   runner list
//!   runner replay NAME FILE        one recorded input
//!   runner search SECONDS SEED NAME...   random inputs
//! A failed contract ends in exit code 1 and a JSON line on stdout.

use rtps_rs::verif::{native::Rejected, tables, NativeSrc, ALLOCATED, WITNESSES};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

struct Watching;

/// The largest single request a contract may lead to before the run is ended
const LIMIT: usize = 1 << 24;
static CASE: AtomicUsize = AtomicUsize::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
/// When the case that runs was started, in seconds since the program was
static SINCE: AtomicU64 = AtomicU64::new(u64::MAX);
/// A case takes well under a millisecond
const ENDLESS: u64 = 30;

fn watch_for_endless(started: Instant) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let since = SINCE.load(Ordering::Relaxed);
        if since != u64::MAX && started.elapsed().as_secs() > since + ENDLESS {
            eprintln!("ENDLESS CASE {} SEED {}", CASE.load(Ordering::Relaxed), SEED.load(Ordering::Relaxed));
            std::process::exit(4);
        }
    });
}

fn watch(size: usize) {
    ALLOCATED.fetch_max(size, Ordering::Relaxed);
    if size > LIMIT {
        // this request would fail or starve the machine: say which case made it
        eprintln!(
            "ALLOCATION {} CASE {} SEED {}",
            size,
            CASE.load(Ordering::Relaxed),
            SEED.load(Ordering::Relaxed)
        );
        std::process::exit(3);
    }
}

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        watch(layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        watch(size);
        System.realloc(ptr, layout, size)
    }
}

#[global_allocator]
static ALLOCATOR: Watching = Watching;

enum Outcome {
    Holds,
    Rejected,
    Fails(String),
}

fn run(body: fn(&mut NativeSrc), src: &mut NativeSrc) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| body(src))) {
        Ok(()) => Outcome::Holds,
        Err(payload) => {
            if payload.is::<Rejected>() {
                Outcome::Rejected
            } else if let Some(message) = payload.downcast_ref::<String>() {
                Outcome::Fails(message.clone())
            } else if let Some(message) = payload.downcast_ref::<&str>() {
                Outcome::Fails(message.to_string())
            } else {
                Outcome::Fails("panic".to_string())
            }
        }
    }
}

fn hex(values: &[Vec<u8>]) -> String {
    values
        .iter()
        .map(|v| v.iter().map(|b| format!("{:02x}", b)).collect::<String>())
        .collect::<Vec<_>>()
        .join(",")
}

fn unhex(text: &str) -> Vec<Vec<u8>> {
    text.trim()
        .split(',')
        .map(|v| {
            (0..v.len() / 2)
                .map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap())
                .collect()
        })
        .collect()
}

fn quoted(text: &str) -> String {
    let mut out = String::from("\"");
    for c in text.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 32 => out.push(' '),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tables = tables();
    let find = |name: &str| match tables.iter().find(|(n, _)| *n == name) {
        Some((_, body)) => *body,
        None => {
            eprintln!("no contract named {}", name);
            std::process::exit(2)
        }
    };
    static PLACE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|info| {
        if !info.payload().is::<Rejected>() {
            *PLACE.lock().unwrap() = info.location().map(|l| l.to_string()).unwrap_or_default();
        }
    }));
    let report = |name: &str, src: &NativeSrc, message: &str| {
        println!(
            "{{\"contract\": {}, \"message\": {}, \"at\": {}, \"values\": {}}}",
            quoted(name),
            quoted(message),
            quoted(&PLACE.lock().unwrap()),
            quoted(&hex(&src.log))
        );
    };
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for (name, _) in &tables {
                println!("{}", name);
            }
        }
        Some("replay") => {
            let values = unhex(&std::fs::read_to_string(&args[3]).unwrap());
            let mut src = NativeSrc::replay(values);
            match run(find(&args[2]), &mut src) {
                Outcome::Holds => println!("HOLDS"),
                Outcome::Rejected => println!("REJECTED"),
                Outcome::Fails(message) => {
                    report(&args[2], &src, &message);
                    std::process::exit(1)
                }
            }
        }
        Some("seed") => {
            // one case of a search, again
            watch_for_endless(Instant::now());
            SINCE.store(0, Ordering::Relaxed);
            let mut src = NativeSrc::random(args[3].parse().unwrap());
            let _ = run(find(&args[2]), &mut src);
        }
        Some("search") => {
            let seconds: f64 = args[2].parse().unwrap();
            let seed: u64 = args[3].parse().unwrap();
            let names = &args[4..];
            let mut evaluations = 0u64;
            let mut rejected = 0u64;
            let mut failed = false;
            let mut counts = vec![];
            let started = Instant::now();
            watch_for_endless(started);
            for (index, name) in names.iter().enumerate() {
                let body = find(name);
                CASE.store(index, Ordering::Relaxed);
                let end = Instant::now() + Duration::from_secs_f64(seconds / names.len() as f64);
                let mut i = 0u64;
                let mut ran = 0u64;
                while i < 64 || Instant::now() < end {
                    let case = seed.wrapping_mul(1_000_003).wrapping_add(i << 20);
                    SEED.store(case, Ordering::Relaxed);
                    if i % 64 == 0 {
                        SINCE.store(started.elapsed().as_secs(), Ordering::Relaxed);
                    }
                    let mut src = NativeSrc::random(case);
                    match run(body, &mut src) {
                        Outcome::Holds => ran += 1,
                        Outcome::Rejected => rejected += 1,
                        Outcome::Fails(message) => {
                            report(name, &src, &message);
                            failed = true;
                            break;
                        }
                    }
                    i += 1;
                }
                evaluations += ran;
                counts.push(format!("{}: {}", quoted(name), ran));
            }
            let witnesses = WITNESSES.with(|w| {
                w.borrow()
                    .iter()
                    .map(|(k, v)| format!("{}: {}", quoted(k), v))
                    .collect::<Vec<_>>()
                    .join(", ")
            });
            println!(
                "{{\"evaluations\": {}, \"rejected\": {}, \"runs\": {{{}}}, \"witnesses\": {{{}}}}}",
                evaluations,
                rejected,
                counts.join(", "),
                witnesses
            );
            if failed {
                std::process::exit(1)
            }
        }
        _ => std::process::exit(2),
    }
}

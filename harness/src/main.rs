//! Conformance harness: replays scenarios (ndjson in) on the real library and
//! records what it did (ndjson out). It decides nothing; the TLA+ trace
//! specifications under /verif/spec judge the recorded events.
mod conc;
mod conv;
mod ctag;
mod files;
mod id3;
mod tags;
mod keys;
mod pager;
mod parse;
mod pics;
mod probe;
mod props;
mod robust;
mod streams;
mod synth;
mod tagops;
mod util;
mod values;
mod views;
mod tagged;
mod threads;
mod ways;

use serde_json::{Value, json};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[global_allocator]
static COUNTING: robust::Counting = robust::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "threads-child") {
        util::install_panic_hook();
        return threads::child();
    }
    if args.len() < 4 {
        eprintln!("usage: lvh <suite> <scenarios.ndjson> <events.ndjson>");
        std::process::exit(2);
    }
    util::install_panic_hook();
    let run: fn(&Value, &mut util::Out) = match args[1].as_str() {
        "tagops" => tagops::run,
        "keymap" => tagops::keymap,
        "ctag" => ctag::run,
        "acc" => ctag::accessors,
        "conv" => conv::run,
        "files" => files::run,
        "views" => views::run,
        "ways" => ways::run,
        "tagged" => tagged::run,
        "pager" => pager::run,
        "values" => values::run,
        "streams" => streams::run,
        "pics" => pics::run,
        "probe" => probe::run,
        "props" => props::run,
        "robust" => robust::run,
        "id3" => id3::run,
        "tags" => tags::run,
        "threads" => threads::run,
        s => {
            eprintln!("unknown suite {s}");
            std::process::exit(2);
        },
    };
    let inp = BufReader::new(std::fs::File::open(&args[2]).expect("scenarios"));
    let lines: Vec<String> = inp.lines().map(|l| l.expect("utf-8")).filter(|l| !l.is_empty()).collect();
    let threads: usize = std::env::var("LVH_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let n = lines.len();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: std::sync::Mutex<Vec<Option<Vec<u8>>>> = std::sync::Mutex::new(vec![None; n]);
    // which scenario each worker is busy with: for the driver when the process dies or hangs
    let progress = std::env::var("LVH_PROGRESS").ok().map(|p| std::fs::File::create(p).expect("progress"));
    let busy: Vec<std::sync::Mutex<Option<(usize, std::time::Instant)>>> = (0..threads.max(1)).map(|_| std::sync::Mutex::new(None)).collect();
    let done = std::sync::atomic::AtomicUsize::new(0);
    let limit = std::env::var("LVH_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(90u64);
    std::thread::scope(|s| {
        let (busy, done) = (&busy, &done);
        s.spawn(move || {
            while done.load(std::sync::atomic::Ordering::Relaxed) < threads.max(1) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for b in busy {
                    if let Some((i, t)) = *b.lock().unwrap()
                        && t.elapsed().as_secs() > limit
                    {
                        println!("HUNG {i}");
                        std::process::exit(5);
                    }
                }
            }
        });
        for w in 0..threads.max(1) {
            let (lines, next, results, progress) = (&lines, &next, &results, &progress);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n {
                        done.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        *busy[w].lock().unwrap() = None;
                        break;
                    }
                    *busy[w].lock().unwrap() = Some((i, std::time::Instant::now()));
                    if let Some(f) = progress {
                        let _ = std::os::unix::fs::FileExt::write_all_at(f, format!("{i:>9}\n").as_bytes(), w as u64 * 10);
                    }
                    let v: Value = serde_json::from_str(&lines[i]).expect("scenario json");
                    let mut out = util::Out::new(i);
                    let r = catch_unwind(AssertUnwindSafe(|| run(&v, &mut out)));
                    if r.is_err() {
                        let m = util::last_panic();
                        if m.contains("HARNESS") {
                            eprintln!("harness error in scenario {i}: {m}\n{}", lines[i]);
                            std::process::exit(3);
                        }
                        out.ev(json!({"op": {"a": "PANIC"}, "panic": m}));
                    }
                    let bytes = out.finish();
                    results.lock().unwrap()[i] = Some(bytes);
                })
                .expect("spawn");
        }
    });
    let mut w = BufWriter::new(std::fs::File::create(&args[3]).expect("events"));
    for r in results.into_inner().unwrap() {
        w.write_all(&r.expect("result")).expect("write");
    }
    w.flush().expect("flush");
}

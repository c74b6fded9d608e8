//! Suite `streams`: the same operation on devices that deliver differently, or fail.
use crate::conc;
use crate::files::{self, file_type, own_save, read_conc, write_options};
use crate::util::{self, Out, arr, b, guard, hash, n, s};
use crate::views;
use lofty::config::ParseOptions;
use lofty::file::{AudioFile, TaggedFile, TaggedFileExt};
use lofty::io::{Length, Truncate};
use lofty::probe::Probe;
use serde_json::{Value, json};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::{BufReader, Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Default)]
pub struct Dev {
    pub data: Vec<u8>,
    pos: u64,
    rs: Vec<usize>,
    ws: Vec<usize>,
    int: usize,
    // faults: which kinds of calls count, at which count, and whether only once
    kinds: String,
    at: usize,
    once: bool,
    counted: Cell<usize>,
    faulted: Cell<bool>,
    calls: usize,
    ints: usize,
    modified: bool,
    clean_fault: Cell<bool>,
    trace: std::cell::RefCell<String>,
}
impl Dev {
    fn gate(&self, kind: char) -> std::io::Result<()> {
        if !self.kinds.contains(kind) {
            return Ok(());
        }
        let c = self.counted.get() + 1;
        self.counted.set(c);
        if self.at > 0 && (c == self.at || (c > self.at && !self.once)) {
            if !self.faulted.get() {
                self.faulted.set(true);
                self.clean_fault.set(!self.modified);
                if std::env::var("LVH_BT").is_ok() {
                    *self.trace.borrow_mut() = std::backtrace::Backtrace::force_capture().to_string();
                }
            }
            return Err(Error::other("injected fault"));
        }
        Ok(())
    }
    fn interrupted(&mut self) -> bool {
        self.ints += 1;
        self.int > 0 && self.ints % self.int == 0
    }
}
impl Read for Dev {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupted() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.gate('r')?;
        let left = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let mut k = out.len().min(left);
        if !self.rs.is_empty() {
            k = k.min(self.rs[self.calls % self.rs.len()]);
            self.calls += 1;
        }
        let p = self.pos as usize;
        if k > 0 {
            out[..k].copy_from_slice(&self.data[p..p + k]);
        }
        self.pos += k as u64;
        Ok(k)
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.interrupted() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.gate('w')?;
        let mut k = buf.len();
        if !self.ws.is_empty() {
            k = k.min(self.ws[self.calls % self.ws.len()]);
            self.calls += 1;
        }
        if k > 0 {
            self.modified = true;
            let p = self.pos as usize;
            if self.data.len() < p + k {
                self.data.resize(p + k, 0);
            }
            self.data[p..p + k].copy_from_slice(&buf[..k]);
            self.pos += k as u64;
        }
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.gate('s')?;
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
impl Truncate for Dev {
    fn truncate(&mut self, l: u64) -> std::io::Result<()> {
        self.gate('t')?;
        if (l as usize) < self.data.len() {
            self.modified = true;
            self.data.truncate(l as usize);
        }
        Ok(())
    }
}
impl Length for Dev {
    fn len(&self) -> std::io::Result<u64> {
        self.gate('l')?;
        Ok(self.data.len() as u64)
    }
}

fn es(e: impl std::fmt::Display) -> String {
    e.to_string()
}
fn show(f: &TaggedFile) -> String {
    json!([format!("{:?}", f.file_type()), f.tags().iter().map(util::tag_j).collect::<Vec<_>>(), files::props(f)]).to_string()
}
/// the operation, and what it shows (besides the bytes it leaves)
pub fn operate<F: lofty::io::FileLike>(fmt: &str, op: &Value, f: &mut F) -> Result<String, String> {
    let o = write_options(&op["o"]);
    let po = files::parse_options(&op["po"]);
    match s(op, "a") {
        "probe" => {
            let start = f.stream_position().map_err(es)?;
            let p = Probe::new(&mut *f).guess_file_type().map_err(es)?;
            let t = p.file_type();
            let end = p.into_inner().stream_position().map_err(es)?;
            Ok(format!("{t:?} {}", start == end))
        },
        "read" => Probe::new(f).options(po).guess_file_type().map_err(es)?.read().map_err(es).map(|t| show(&t)),
        "readas" => Probe::with_file_type(f, file_type(fmt)).options(po).read().map_err(es).map(|t| show(&t)),
        "readc" => read_conc(fmt, f, po).map(|v| json!(v).to_string()).map_err(es),
        "save" => conc::ctag(op).save(f, o).map(|()| String::new()),
        "gen" => lofty::tag::TagExt::save_to(&conc::ctag(op).generic(), f, o).map(|()| String::new()).map_err(es),
        "own" => own_save(fmt, &conc::ctag(op), f, o).map(|()| String::new()),
        "remove" => util::ty(s(op, "type")).remove_from(f, o).map(|()| String::new()).map_err(es),
        "tagged" => {
            let t = Probe::new(&mut *f).options(po).guess_file_type().map_err(es)?.read().map_err(es)?;
            f.rewind().map_err(es)?;
            t.save_to(f, o).map(|()| String::new()).map_err(es)
        },
        "bound" => {
            // the bound file keeps the device
            let mut t = lofty::file::BoundTaggedFile::read_from(f, po).map_err(es)?;
            t.insert_tag(conc::ctag(op).generic());
            t.save(o).map(|()| String::new()).map_err(es)
        },
        "pages" => {
            let mut v = vec![];
            loop {
                match ogg_pager::Page::read(f) {
                    Ok(p) => v.push(hash(p.content())),
                    Err(ogg_pager::PageError::Io(e)) if e.kind() == ErrorKind::UnexpectedEof => break,
                    Err(e) => return Err(es(e)),
                }
            }
            f.rewind().map_err(es)?;
            let p = ogg_pager::Packets::read(f).map_err(es)?;
            Ok(format!("{v:?} {:?}", p.iter().map(hash).collect::<Vec<_>>()))
        },
        "packets" => {
            let p = ogg_pager::Packets::read_count(f, n(op, "count") as isize).map_err(es)?;
            Ok(format!("{:?}", p.iter().map(hash).collect::<Vec<_>>()))
        },
        x => panic!("HARNESS: stream op {x}"),
    }
}

struct Run {
    res: &'static str,
    err: String,
    shown: String,
    bytes: Vec<u8>,
}
fn finish(r: Result<Result<String, String>, String>, bytes: Vec<u8>) -> Run {
    match r {
        Ok(Ok(x)) => Run { res: "ok", err: String::new(), shown: hash(x.as_bytes()), bytes },
        Ok(Err(e)) => Run { res: "err", err: e, shown: String::new(), bytes },
        Err(m) => Run { res: "panic", err: m, shown: String::new(), bytes },
    }
}
/// for triage: where in the library the failing call was made
fn place(t: &str) -> String {
    t.lines().filter(|l| l.contains("/repo/")).take(6).map(|l| l.trim().trim_start_matches("at /repo/")).collect::<Vec<_>>().join(" < ")
}
fn on_dev(fmt: &str, op: &Value, mut d: Dev) -> (Run, Dev) {
    let r = guard(|| operate(fmt, op, &mut d));
    let bytes = std::mem::take(&mut d.data);
    (finish(r, bytes), d)
}

pub fn run(v: &Value, out: &mut Out) {
    let fmt = s(v, "fmt");
    let op = &v["op"];
    let bytes = views::file(v);
    let mut c = Cursor::new(bytes.clone());
    let r = guard(|| operate(fmt, op, &mut c));
    let reference = finish(r, c.into_inner());
    // frames of a generic ID3v2 tag come in no particular order
    let any_order = matches!(s(op, "a"), "gen" | "tagged" | "bound");
    let alike = |a: &[u8], b: &[u8]| {
        let bag = |x: &[u8]| {
            let mut h = [0usize; 256];
            x.iter().for_each(|c| h[*c as usize] += 1);
            h
        };
        a == b || (any_order && bag(a) == bag(b))
    };
    let eq = |r: &Run| r.res == reference.res && alike(&r.bytes, &reference.bytes) && r.shown == reference.shown;
    let refj = json!({"res": reference.res, "err": reference.err, "changed": reference.bytes != bytes});
    let what = json!({"a": s(op, "a"), "type": op.get("type").cloned().unwrap_or(json!("")), "fmt": fmt});
    if v.get("scheds").is_some() {
        let mut runs = vec![];
        for d in arr(v, "scheds") {
            let sizes = |k: &str| arr(d, k).iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
            let r = match s(d, "dev") {
                "file" => {
                    let p = std::path::Path::new(&std::env::var("LVH_SCRATCH").expect("HARNESS: LVH_SCRATCH"))
                        .join(format!("s{}", format!("{:?}", std::thread::current().id()).chars().filter(char::is_ascii_digit).collect::<String>()));
                    std::fs::write(&p, &bytes).expect("HARNESS: scratch");
                    let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&p).expect("HARNESS: open");
                    let r = guard(|| operate(fmt, op, &mut f));
                    drop(f);
                    finish(r, std::fs::read(&p).expect("HARNESS: scratch"))
                },
                // readers only
                "buffered" => {
                    let r = guard(|| match s(op, "a") {
                        "read" => Probe::new(BufReader::with_capacity(n(d, "cap") as usize, Cursor::new(&bytes[..]))).options(files::parse_options(&op["po"])).guess_file_type().map_err(es)?.read().map_err(es).map(|t| show(&t)),
                        "readc" => read_conc(fmt, &mut BufReader::with_capacity(n(d, "cap") as usize, Cursor::new(&bytes[..])), files::parse_options(&op["po"])).map(|v| json!(v).to_string()).map_err(es),
                        _ => operate(fmt, op, &mut Cursor::new(bytes.clone())),
                    });
                    let mut r = finish(r, bytes.clone());
                    if !matches!(s(op, "a"), "read" | "readc") {
                        r.bytes = reference.bytes.clone();
                    }
                    r
                },
                _ => on_dev(fmt, op, Dev { data: bytes.clone(), rs: sizes("rs"), ws: sizes("ws"), int: n(d, "int") as usize, ..Default::default() }).0,
            };
            runs.push(json!({"dev": d, "res": r.res, "err": r.err, "bytes": alike(&r.bytes, &reference.bytes), "shown": r.shown == reference.shown}));
        }
        out.ev(json!({"op": what, "ref": refj, "runs": runs, "faults": []}));
        return;
    }
    let mut groups: BTreeMap<String, (Value, u64)> = BTreeMap::new();
    for f in arr(v, "faults") {
        let kinds = s(f, "kinds").to_string();
        let (_, d) = on_dev(fmt, op, Dev { data: bytes.clone(), kinds: kinds.clone(), ..Default::default() });
        let total = d.counted.get();
        let max = n(f, "max") as usize;
        let mut ks: Vec<usize> = (1..=total.min(max)).collect();
        if total > max {
            // the rest in steps, from a given offset, and the last ones
            let step = (total / max).max(1) * 2 + 1;
            ks.extend((max + 1 + n(f, "seed") as usize % step..=total).step_by(step));
            ks.extend(total.saturating_sub(20).max(max + 1)..=total);
        }
        for k in ks {
            let (r, d) = on_dev(fmt, op, Dev { data: bytes.clone(), kinds: kinds.clone(), at: k, once: b(f, "once"), ..Default::default() });
            let j = json!({"res": r.res, "eq": eq(&r), "same": r.bytes == bytes, "clean": d.clean_fault.get(), "hit": d.faulted.get(), "kinds": kinds, "once": b(f, "once"), "err": if r.res == "panic" { r.err.clone() } else if r.res == "ok" && !eq(&r) { place(&d.trace.borrow()) } else { String::new() }});
            let e = groups.entry(j.to_string()).or_insert((json!({"k": k}), 0));
            e.1 += 1;
        }
    }
    let faults: Vec<Value> = groups
        .into_iter()
        .map(|(j, (k, n))| {
            let mut j: Value = serde_json::from_str(&j).unwrap();
            j["k"] = k["k"].clone();
            j["n"] = json!(n);
            j
        })
        .collect();
    out.ev(json!({"op": what, "ref": refj, "runs": [], "faults": faults}));
}

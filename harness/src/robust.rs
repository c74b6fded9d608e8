//! Suite `robust`: readers on damaged bytes. A sweep damages one file in many places; what happened
//! (outcomes, largest allocation, calls made on the stream) is summarised in one event.
use crate::conc::CTag;
use crate::files::{self, file_type, parse_options};
use crate::util::{self, Out, arr, guard, n, s};
use crate::views;
use lofty::config::{GlobalOptions, ParseOptions, WriteOptions, apply_global_options};
use lofty::file::{AudioFile, TaggedFile, TaggedFileExt};
use lofty::id3::v2::{AudioTextFrame, Frame, GeneralEncapsulatedObject, Id3v2Tag, SynchronizedTextFrame};
use lofty::probe::Probe;
use lofty::tag::{Accessor, Tag, TagExt, TagType};
use serde_json::{Value, json};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{Cursor, Read, Seek, SeekFrom};

/// counts what each thread asks for
pub struct Counting;
thread_local! {
    static BIG: Cell<usize> = const { Cell::new(0) };
    static SUM: Cell<usize> = const { Cell::new(0) };
}
fn note(n: usize) {
    let _ = BIG.try_with(|b| b.set(b.get().max(n)));
    let _ = SUM.try_with(|b| b.set(b.get().saturating_add(n)));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
}

/// counts what is asked of the stream
struct Meter<'a> {
    c: Cursor<&'a [u8]>,
    calls: usize,
    bytes: usize,
}
impl<'a> Meter<'a> {
    fn new(b: &'a [u8]) -> Self {
        Self { c: Cursor::new(b), calls: 0, bytes: 0 }
    }
}
impl Read for Meter<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let r = self.c.read(b)?;
        self.bytes += r;
        Ok(r)
    }
}
impl Seek for Meter<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.calls += 1;
        self.c.seek(p)
    }
}

#[derive(Default)]
struct Sum {
    n: usize,
    ok: usize,
    errs: usize,
    bad: Vec<Value>,
    // worst cases: (figure, where)
    alloc: (usize, String),
    total: (usize, String),
    calls: (usize, String),
    bytes: (usize, String),
    seen: std::collections::HashSet<u64>,
    reused: usize,
    t0: Option<std::time::Instant>,
}
fn worst(w: &mut (usize, String), v: usize, at: &str) {
    if v > w.0 {
        *w = (v, at.to_string());
    }
}

const TYPES: [TagType; 7] = [
    TagType::Id3v1,
    TagType::Id3v2,
    TagType::Ape,
    TagType::VorbisComments,
    TagType::Mp4Ilst,
    TagType::RiffInfo,
    TagType::AiffText,
];

/// frames whose content is only decoded on request
fn frames(t: &Id3v2Tag) {
    for f in t {
        if let Frame::Binary(b) = f {
            match f.id().as_str() {
                "SYLT" => {
                    let _ = SynchronizedTextFrame::parse(&b.data, b.flags()).map(|s| s.as_bytes(WriteOptions::default()));
                },
                "GEOB" => {
                    let _ = GeneralEncapsulatedObject::parse(&b.data, b.flags()).map(|s| s.as_bytes(WriteOptions::default()));
                },
                "ATXT" => {
                    let _ = AudioTextFrame::parse(&b.data, b.flags()).map(|s| s.as_bytes(WriteOptions::default()));
                },
                _ => {},
            }
        }
    }
}

fn conc_tag(fmt: &str, bytes: &[u8], ty: &str) -> Option<CTag> {
    let c = &mut Cursor::new(bytes);
    let po = ParseOptions::new();
    match (fmt, ty) {
        ("vorbis", _) => lofty::ogg::VorbisFile::read_from(c, po).ok().map(|f| CTag::Vc(f.vorbis_comments().clone())),
        ("opus", _) => lofty::ogg::OpusFile::read_from(c, po).ok().map(|f| CTag::Vc(f.vorbis_comments().clone())),
        ("speex", _) => lofty::ogg::SpeexFile::read_from(c, po).ok().map(|f| CTag::Vc(f.vorbis_comments().clone())),
        ("flac", "Id3v2") => lofty::flac::FlacFile::read_from(c, po).ok().and_then(|f| f.id3v2().cloned()).map(CTag::Id3v2),
        ("flac", _) => lofty::flac::FlacFile::read_from(c, po).ok().and_then(|f| f.vorbis_comments().cloned()).map(CTag::Vc),
        _ => files::read_conc_tag(fmt, bytes, ty),
    }
}

/// everything one can do with what was read
fn reuse(fmt: &str, bytes: &[u8], po: ParseOptions, f: TaggedFile, full: bool, bad: &mut dyn FnMut(&str, String)) {
    let mut step = |what: &str, g: &mut dyn FnMut()| {
        if let Err(m) = guard(g) {
            bad(what, m);
        }
    };
    step("inspect", &mut || {
        let _ = files::props(&f);
        for t in f.tags() {
            let _ = util::tag_j(t);
            let _ = (t.track(), t.track_total(), t.disk(), t.disk_total(), t.date(), t.genre(), t.comment(), t.title());
            let _ = t.pictures().len();
        }
    });
    step("convert", &mut || {
        for t in f.tags() {
            for ty in TYPES {
                let mut g: Tag = t.clone();
                g.re_map(ty);
                let _ = g.dump_to(&mut std::io::sink(), WriteOptions::default());
            }
        }
    });
    let conc = guard(|| files::read_conc(fmt, &mut Cursor::new(bytes), po));
    if let Ok(Ok(l)) = conc {
        let types: Vec<String> = l.iter().map(|t| s(t, "type").to_string()).collect();
        for ty in types {
            step("dump", &mut || {
                if let Some(t) = conc_tag(fmt, bytes, &ty) {
                    let _ = t.dump(WriteOptions::default());
                    if let CTag::Id3v2(t) = t {
                        frames(&t);
                    }
                }
            });
            if full {
                step("save-concrete", &mut || {
                    if let Some(t) = conc_tag(fmt, bytes, &ty) {
                        let mut c = Cursor::new(bytes.to_vec());
                        let _ = t.save(&mut c, WriteOptions::default());
                    }
                });
                step("remove", &mut || {
                    let mut c = Cursor::new(bytes.to_vec());
                    let _ = util::ty(&ty).remove_from(&mut c, WriteOptions::default());
                });
            }
        }
    }
    if full {
        step("save", &mut || {
            let mut c = Cursor::new(bytes.to_vec());
            let _ = f.save_to(&mut c, WriteOptions::default());
        });
        step("save-v23", &mut || {
            let mut c = Cursor::new(bytes.to_vec());
            let _ = f.save_to(&mut c, WriteOptions::default().use_id3v23(true).preferred_padding(0));
        });
    }
}

/// read with the format's own type, keep nothing
fn read_only(fmt: &str, r: &mut Meter<'_>, po: ParseOptions) -> Result<(), lofty::error::FileParseError> {
    macro_rules! f {
        ($t:ty) => {
            <$t>::read_from(r, po).map(|f| drop(f))
        };
    }
    match fmt {
        "mpeg" => f!(lofty::mpeg::MpegFile),
        "aac" => f!(lofty::aac::AacFile),
        "ape" => f!(lofty::ape::ApeFile),
        "mpc" => f!(lofty::musepack::MpcFile),
        "wv" => f!(lofty::wavpack::WavPackFile),
        "wav" => f!(lofty::iff::wav::WavFile),
        "aiff" => f!(lofty::iff::aiff::AiffFile),
        "mp4" => f!(lofty::mp4::Mp4File),
        "vorbis" => f!(lofty::ogg::VorbisFile),
        "opus" => f!(lofty::ogg::OpusFile),
        "speex" => f!(lofty::ogg::SpeexFile),
        "flac" => f!(lofty::flac::FlacFile),
        x => panic!("HARNESS: format {x}"),
    }
}

/// one damaged file
fn one(fmt: &str, bytes: &[u8], po: ParseOptions, post: &str, at: &str, u: &mut Sum) {
    // a sweep has its time
    if u.t0.get_or_insert_with(std::time::Instant::now).elapsed().as_secs() > 12 {
        return;
    }
    u.n += 1;
    let mut note_bad = |st: &str, m: String, u: &mut Sum| {
        if u.bad.len() < 4 && u.bad.iter().all(|b| b["msg"] != m.as_str()) {
            u.bad.push(json!({"at": at, "stage": st, "msg": m}));
        }
    };
    for way in ["conc", "gen", "guess"] {
        if way == "guess" && post == "" {
            continue;
        }
        let mut m = Meter::new(bytes);
        let (b0, s0) = (BIG.replace(0), SUM.replace(0));
        let r = guard(|| match way {
            "conc" => read_only(fmt, &mut m, po).map(|()| None),
            "gen" => Probe::with_file_type(&mut m, file_type(fmt)).options(po).read().map(Some),
            _ => Probe::new(std::io::BufReader::new(&mut m)).options(po).guess_file_type().map_err(|_| ()).ok().map_or(Ok(None), |p| if p.file_type().is_some() { p.read().map(Some) } else { Ok(None) }),
        });
        let (big, sum) = (BIG.replace(b0), SUM.replace(s0));
        worst(&mut u.alloc, big, &format!("{way} {at}"));
        worst(&mut u.total, sum, &format!("{way} {at}"));
        worst(&mut u.calls, m.calls, &format!("{way} {at}"));
        // (a buffered reader reads again after each seek)
        if way != "guess" {
            worst(&mut u.bytes, m.bytes, &format!("{way} {at}"));
        }
        match r {
            Err(m) => note_bad(way, m, u),
            Ok(Err(_)) if way == "gen" => u.errs += 1,
            Ok(Err(_)) => {},
            Ok(Ok(None)) => {},
            Ok(Ok(Some(f))) => {
                if way == "gen" {
                    u.ok += 1;
                }
                if post != "" && way == "gen" {
                    let h = guard(|| util::fnv(format!("{:?}{:?}", files::props(&f), f.tags().iter().map(util::tag_j).collect::<Vec<_>>()).as_bytes()));
                    let Ok(h) = h else {
                        note_bad("show", util::last_panic(), u);
                        continue;
                    };
                    if u.seen.insert(h) {
                        u.reused += 1;
                        let mut l = vec![];
                        reuse(fmt, bytes, po, f, post == "full", &mut |st, m| l.push((st.to_string(), m)));
                        for (st, m) in l {
                            note_bad(&st, m, u);
                        }
                    }
                }
            },
        }
    }
}

/// the value a class stands for
fn class(c: &str, orig: u64, left: u64, max: u64) -> u64 {
    (match c {
        "zero" => 0,
        "one" => 1,
        "seven" => 7,
        "eight" => 8,
        "minus" => orig.wrapping_sub(1),
        "plus" => orig.wrapping_add(1),
        "half" => orig / 2,
        "double" => orig.wrapping_mul(2),
        "left" => left,
        "leftp" => left + 1,
        "leftm" => left.saturating_sub(1),
        "mega" => 1 << 20,
        "signed" => max / 2,
        "signedp" => max / 2 + 1,
        "top" => max,
        "topm" => max - 7,
        x => panic!("HARNESS: class {x}"),
    }) & max
}
/// a field's value written over whatever is there
fn put(b: &mut [u8], at: usize, w: usize, e: &str, c: &str) -> bool {
    if at + w > b.len() {
        return false;
    }
    let left = (b.len() - at - w) as u64;
    let max = if e == "sync" { (1 << (7 * w)) - 1 } else if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let f = &mut b[at..at + w];
    let mut orig = 0u64;
    for i in 0..w {
        let x = u64::from(if e == "le" { f[w - 1 - i] } else { f[i] });
        orig = if e == "sync" { (orig << 7) | (x & 0x7F) } else { (orig << 8) | x };
    }
    let mut v = class(c, orig, left, max);
    for i in 0..w {
        let x = if e == "sync" { v & 0x7F } else { v & 0xFF } as u8;
        v >>= if e == "sync" { 7 } else { 8 };
        if e == "le" {
            f[i] = x;
        } else {
            f[w - 1 - i] = x;
        }
    }
    true
}
/// places which look like a size: (offset, width, endianness)
fn fields(b: &[u8]) -> Vec<(usize, usize, &'static str)> {
    let mut l = vec![];
    for at in 0..b.len().saturating_sub(4) {
        let left = (b.len() - at) as u64;
        let be = u64::from(u32::from_be_bytes(b[at..at + 4].try_into().unwrap()));
        let le = u64::from(u32::from_le_bytes(b[at..at + 4].try_into().unwrap()));
        if be > 3 && be <= left && b[at + 3] != 0 {
            l.push((at, 4, "be"));
        } else if le > 3 && le <= left && b[at] != 0 {
            l.push((at, 4, "le"));
        }
    }
    l
}
fn places(len: usize, cap: usize, off: usize) -> Vec<usize> {
    if len <= cap {
        return (0..len).collect();
    }
    let (head, tail) = (cap / 2, cap / 4);
    let mid = len - head - tail;
    let step = (mid * 4 / cap).max(1);
    let mut l: Vec<usize> = (0..head).collect();
    l.extend((head + off % step..len - tail).step_by(step));
    l.extend(len - tail..len);
    l
}

pub fn run(v: &Value, out: &mut Out) {
    let fmt = s(v, "fmt");
    let limit = n(v, "limit") as usize;
    let good = if let Some(h) = v.get("raw") { crate::props::segs(h.as_array().expect("HARNESS: raw")) } else { views::file(v) };
    let po = parse_options(&v["o"]);
    let post = s(v, "post");
    let w = &v["sweep"];
    let (k, cap) = (s(w, "k"), n(v, "cap") as usize);
    let off = n(v, "off") as usize;
    apply_global_options(GlobalOptions::new().allocation_limit(limit).use_custom_resolvers(false));
    let mut u = Sum::default();
    let mut d = good.clone();
    match k {
        "none" => one(fmt, &good, po, post, "as is", &mut u),
        "trunc" => {
            for at in places(good.len(), cap, off) {
                one(fmt, &good[..at], po, post, &format!("truncated to {at}"), &mut u);
            }
        },
        "byte" => {
            for at in places(good.len(), cap, off) {
                for x in arr(w, "v") {
                    let x = x.as_u64().expect("HARNESS: byte") as u8;
                    if d[at] != x {
                        d[at] = x;
                        one(fmt, &d, po, post, &format!("byte {at} set to {x}"), &mut u);
                        d[at] = good[at];
                    }
                }
            }
        },
        "bits" => {
            for at in places(good.len(), cap, off) {
                for i in 0..8 {
                    d[at] ^= 1 << i;
                    one(fmt, &d, po, post, &format!("byte {at} bit {i} flipped"), &mut u);
                    d[at] = good[at];
                }
            }
        },
        // every place as a field of width and order, one of the classes
        "field" => {
            let (wd, e) = (n(w, "w") as usize, s(w, "e"));
            for at in places(good.len(), cap, off) {
                for c in arr(w, "cls") {
                    let c = c.as_str().expect("HARNESS: class");
                    if put(&mut d, at, wd, e, c) {
                        if d != good {
                            one(fmt, &d, po, post, &format!("{e}{wd} at {at} {c}"), &mut u);
                        }
                        d[at..at + wd].copy_from_slice(&good[at..at + wd]);
                    }
                }
            }
        },
        // two likely sizes
        "pair" => {
            let l = fields(&good);
            let step = (l.len() * l.len() / 2 / cap.max(1)).max(1);
            let mut i = off;
            for a in 0..l.len() {
                for b in a + 1..l.len() {
                    i += 1;
                    if i % step == 0 {
                        put(&mut d, l[a].0, l[a].1, l[a].2, s(w, "c1"));
                        put(&mut d, l[b].0, l[b].1, l[b].2, s(w, "c2"));
                        one(fmt, &d, po, post, &format!("{:?} {} and {:?} {}", l[a], s(w, "c1"), l[b], s(w, "c2")), &mut u);
                        d.copy_from_slice(&good);
                    }
                }
            }
        },
        // a likely size, and the file ends early
        "cut" => {
            let l = fields(&good);
            let step = (l.len() * 8 / cap.max(1)).max(1);
            for &(at, wd, e) in l.iter().skip(off % step).step_by(step) {
                put(&mut d, at, wd, e, s(w, "c1"));
                for i in 0..8 {
                    let end = at + wd + (good.len() - at - wd) * i / 8;
                    one(fmt, &d[..end], po, post, &format!("{e}{wd} at {at} {} cut at {end}", s(w, "c1")), &mut u);
                }
                d.copy_from_slice(&good);
            }
        },
        // random damage, given
        "given" => {
            for m in arr(w, "l") {
                let mut d = good.clone();
                views::damage(&mut d, m.as_array().expect("HARNESS: damages"));
                one(fmt, &d, po, post, &m.to_string(), &mut u);
            }
        },
        x => panic!("HARNESS: sweep {x}"),
    }
    apply_global_options(GlobalOptions::default());
    let j = |w: &(usize, String)| json!({"v": w.0.min(i32::MAX as usize), "at": w.1});
    out.ev(json!({"op": {"a": "sweep", "k": k}, "type": fmt, "len": good.len(), "limit": limit, "n": u.n, "ok": u.ok, "errs": u.errs, "reused": u.reused, "bad": u.bad,
        "alloc": j(&u.alloc), "total": j(&u.total), "calls": j(&u.calls), "bytes": j(&u.bytes)}));
}

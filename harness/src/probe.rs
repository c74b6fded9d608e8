//! Suite `probe`: file type detection, resolvers, and histories of one probe.
use crate::files::file_type;
use crate::synth;
use crate::util::{Out, arr, b, guard, n, s};
use lofty::config::{GlobalOptions, ParseOptions, WriteOptions, apply_global_options};
use lofty::error::{FileEncodingError, FileParseError};
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use lofty::io::FileLike;
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use lofty::resolve::{FileResolver, register_custom_resolver};
use lofty::tag::{TagSupport, TagType};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::rc::Rc;

thread_local! {
    /// what the registered resolvers answer on this thread, and what they were shown
    static PATTERNS: RefCell<[Option<Vec<u8>>; 3]> = const { RefCell::new([None, None, None]) };
    static SEEN: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

macro_rules! resolver {
    ($t:ident, $k:literal, $n:literal, $x:literal) => {
        struct $t(FileProperties);
        impl From<$t> for TaggedFile {
            fn from(x: $t) -> TaggedFile {
                TaggedFile::new(FileType::Custom($n), x.0, vec![])
            }
        }
        impl AudioFile for $t {
            type Properties = FileProperties;
            fn read_from<R: Read + Seek>(_: &mut R, _: ParseOptions) -> Result<Self, FileParseError> {
                Ok($t(FileProperties::default()))
            }
            fn save_to<F: FileLike>(&self, _: &mut F, _: WriteOptions) -> Result<(), FileEncodingError> {
                Ok(())
            }
            fn properties(&self) -> &FileProperties {
                &self.0
            }
            fn contains_tag(&self) -> bool {
                false
            }
            fn contains_tag_type(&self, _: TagType) -> bool {
                false
            }
        }
        impl FileResolver for $t {
            fn extension() -> Option<&'static str> {
                Some($x)
            }
            fn primary_tag_type() -> TagType {
                TagType::Ape
            }
            fn tag_support(_: TagType) -> TagSupport {
                TagSupport::ReadOnly
            }
            fn guess(buf: &[u8]) -> Option<FileType> {
                SEEN.with(|x| x.borrow_mut().push(buf.to_vec()));
                PATTERNS.with(|p| p.borrow()[$k].as_ref().is_some_and(|p| buf.starts_with(p))).then_some(FileType::Custom($n))
            }
        }
    };
}
resolver!(R0, 0, "R0", "xr0");
resolver!(R1, 1, "R1", "xr1");
resolver!(R2, 2, "R2", "xr2");

fn register() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        register_custom_resolver::<R0>("R0");
        register_custom_resolver::<R1>("R1");
        register_custom_resolver::<R2>("R2");
    });
}

#[derive(Clone)]
struct Shared(Rc<RefCell<Cursor<Vec<u8>>>>);
impl Read for Shared {
    fn read(&mut self, x: &mut [u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().read(x)
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.borrow_mut().seek(p)
    }
}

pub fn name(t: Option<FileType>) -> String {
    match t {
        None => String::new(),
        Some(FileType::Custom(c)) => format!("custom:{c}"),
        Some(t) => ["mpeg", "aac", "ape", "wv", "mpc", "wav", "aiff", "flac", "vorbis", "opus", "speex", "mp4"]
            .into_iter()
            .find(|f| file_type(f) == t)
            .unwrap_or("unknown")
            .to_string(),
    }
}

pub fn segs(v: &[Value]) -> Vec<u8> {
    let mut out = Vec::new();
    for x in v {
        let part: Vec<u8> = arr(x, "b").iter().map(|y| y.as_u64().expect("HARNESS: byte") as u8).collect();
        for _ in 0..n(x, "n") {
            out.extend(&part);
        }
    }
    out
}

pub fn run(v: &Value, out: &mut Out) {
    register();
    apply_global_options(GlobalOptions::new());
    PATTERNS.with(|p| *p.borrow_mut() = [None, None, None]);
    let fmt = s(v, "fmt");
    let start = n(v, "start") as u64;
    let mut bytes = segs(arr(v, "segs"));
    if !fmt.is_empty() {
        let parts: Vec<&str> = arr(v, "parts").iter().map(|x| x.as_str().expect("HARNESS: part")).collect();
        bytes.extend(synth::build(fmt, &parts));
    }
    let head = &bytes[..bytes.len().min(64)];
    let mut stream: Vec<u8> = (0..start).map(|i| [b'f', b'L', b'a', b'C', 0xFF, 0xFB][i as usize % 6]).collect();
    stream.extend(&bytes);
    let shared = Shared(Rc::new(RefCell::new(Cursor::new(stream))));
    shared.0.borrow_mut().set_position(start);
    let mut probe = Some(Probe::new(shared.clone()));
    let mut opts = ParseOptions::new();
    let mut steps = vec![];
    for op in arr(v, "steps") {
        SEEN.with(|x| x.borrow_mut().clear());
        let mut res = "ok".to_string();
        let p = probe.take().expect("HARNESS: probe");
        match s(op, "a") {
            "set" => probe = Some(p.set_file_type(file_type(s(op, "ty")))),
            "junk" => {
                opts = opts.max_junk_bytes(n(op, "n") as usize);
                probe = Some(p.options(opts));
            },
            "use" => {
                apply_global_options(GlobalOptions::new().use_custom_resolvers(b(op, "b")));
                probe = Some(p);
            },
            "rs" => {
                PATTERNS.with(|q| {
                    let mut q = q.borrow_mut();
                    *q = [None, None, None];
                    for r in arr(op, "rs") {
                        let k: usize = s(r, "name")[1..].parse().expect("HARNESS: resolver");
                        q[k] = Some(arr(r, "pat").iter().map(|y| y.as_u64().unwrap() as u8).collect());
                    }
                });
                probe = Some(p);
            },
            "guess" => match guard(|| p.guess_file_type()) {
                Ok(Ok(p)) => probe = Some(p),
                Ok(Err(_)) => res = "err".into(),
                Err(_) => res = "panic".into(),
            },
            x => panic!("HARNESS: probe step {x}"),
        }
        let ty = probe.as_ref().map_or(String::new(), |p| name(p.file_type()));
        let pos = shared.0.borrow().position();
        let seen = SEEN.with(|x| x.borrow().clone());
        steps.push(json!({"op": op, "res": res, "ty": ty, "pos": pos, "seen": seen}));
        if res != "ok" {
            break;
        }
    }
    // reading what was detected
    let (mut read, mut fin) = (String::new(), String::new());
    if let Some(p) = probe {
        fin = name(p.file_type());
        if start == 0 {
            read = match guard(|| p.read()) {
                Ok(Ok(f)) => name(Some(f.file_type())),
                Ok(Err(_)) => "err".into(),
                Err(_) => "panic".into(),
            };
        }
    }
    PATTERNS.with(|p| *p.borrow_mut() = [None, None, None]);
    apply_global_options(GlobalOptions::new());
    let buf = name(FileType::from_buffer(&bytes));
    let ext = s(v, "ext");
    let (mut opened, mut after) = (String::new(), String::new());
    if !ext.is_empty() {
        let dir = std::env::var("LVH_SCRATCH").expect("HARNESS: scratch");
        let path = std::path::Path::new(&dir).join(format!("probe-{:?}.{ext}", std::thread::current().id()));
        std::fs::write(&path, &bytes).expect("HARNESS: write");
        (opened, after) = match guard(|| {
            let p = Probe::open(&path).map_err(|_| ())?;
            let o = name(p.file_type());
            let p = p.guess_file_type().map_err(|_| ())?;
            Ok::<_, ()>((o, name(p.file_type())))
        }) {
            Ok(Ok(x)) => x,
            Ok(Err(())) => ("err".into(), "err".into()),
            Err(_) => ("panic".into(), "panic".into()),
        };
        std::fs::remove_file(&path).expect("HARNESS: remove");
    }
    out.ev(json!({"op": {"a": "probe"}, "segs": v["segs"], "fmt": fmt, "parts": v["parts"], "start": start, "head": head, "steps": steps,
        "buf": buf, "ext": ext, "opened": opened, "after": after, "final": fin, "read": read}));
}

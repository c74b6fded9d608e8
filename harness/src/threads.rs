//! Suite `threads`: options and resolvers under schedules of several threads. The registry lives as
//! long as the process, so every scenario runs in a process of its own.
use crate::synth;
use crate::util::{Out, arr, guard, n, s};
use lofty::config::{GlobalOptions, ParseOptions, apply_global_options};
use lofty::error::FileParseError;
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use lofty::id3::v2::{BinaryFrame, Frame, FrameId, Id3v2Tag};
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use lofty::resolve::{FileResolver, register_custom_resolver};
use lofty::tag::{Accessor, Tag, TagSupport, TagType};
use serde_json::{Value, json};
use std::borrow::Cow;
use std::io::{Cursor, Read, Seek, Write};
use std::sync::{Arc, Barrier, mpsc};

macro_rules! resolver {
    ($t:ident, $k:literal, $n:literal, $e:literal, $m:literal, $a:literal) => {
        struct $t {
            tag: Id3v2Tag,
        }
        impl AudioFile for $t {
            type Properties = FileProperties;
            fn read_from<R: Read + Seek>(_: &mut R, _: ParseOptions) -> Result<Self, FileParseError> {
                let mut tag = Id3v2Tag::default();
                tag.set_artist($a.to_string());
                Ok(Self { tag })
            }
            fn save_to<F: lofty::io::FileLike>(&self, _: &mut F, _: lofty::config::WriteOptions) -> Result<(), lofty::error::FileEncodingError> {
                Ok(())
            }
            fn properties(&self) -> &Self::Properties {
                unimplemented!("HARNESS")
            }
            fn contains_tag(&self) -> bool {
                true
            }
            fn contains_tag_type(&self, _: TagType) -> bool {
                true
            }
        }
        impl From<$t> for TaggedFile {
            fn from(f: $t) -> TaggedFile {
                TaggedFile::new(FileType::Custom($n), FileProperties::default(), vec![f.tag.into()])
            }
        }
        impl FileResolver for $t {
            fn extension() -> Option<&'static str> {
                Some($e)
            }
            fn primary_tag_type() -> TagType {
                TagType::Id3v2
            }
            fn tag_support(_: TagType) -> TagSupport {
                TagSupport::ReadWrite
            }
            fn guess(buf: &[u8]) -> Option<FileType> {
                if buf.starts_with(b"BOOM") {
                    panic!("resolver's own");
                }
                // a resolver may well use the library itself
                if buf.starts_with(b"NEST") {
                    return FileType::from_ext("xr9").or(FileType::from_buffer(b"fLaC0000")).or(Probe::new(Cursor::new(b"none")).guess_file_type().ok()?.file_type());
                }
                buf.starts_with($m).then_some(FileType::Custom($n))
            }
        }
    };
}
resolver!(T0, 0, "R0", "xr0", b"R0DATA", "A0");
resolver!(T1, 1, "R1", "xr1", b"R1DATA", "A1");
resolver!(T2, 2, "R2", "xr2", b"R2DATA", "A2");
resolver!(T3, 3, "R0", "xr3", b"R3DATA", "A3");
const NAMES: [&str; 3] = ["R0", "R1", "R2"];

fn ty(t: Option<FileType>) -> String {
    match t {
        None => "-".into(),
        Some(FileType::Custom(c)) => c.into(),
        Some(t) => format!("{t:?}"),
    }
}
fn file(limit: usize) -> Vec<u8> {
    let mut v = synth::comments(0, "v");
    let text = format!("A={}", "x".repeat(limit));
    v = [&synth::le32(1)[..], b"v", &synth::le32(1), &synth::le32(text.len() as u32), text.as_bytes()].concat();
    let mut o = b"fLaC\0\0\0\x22".to_vec();
    o.extend([0x10, 0, 0x10, 0, 0, 0, 0, 0, 0, 0, 0x0A, 0xC4, 0x42, 0xF0, 0, 0, 0x10, 0]);
    o.extend([0; 16]);
    o.push(0x84);
    o.extend(&(v.len() as u32).to_be_bytes()[1..]);
    o.extend(v);
    o.extend([0xFF, 0xF8, 0x69, 0x08, 0, 0, 0, 0]);
    o
}

fn step(op: &Value) -> String {
    let k = n(op, "n");
    let data = |k: i64| -> Vec<u8> {
        match k {
            9 => file(10),
            8 => b"NEST and then some".to_vec(),
            k => format!("R{k}DATA and then some").into_bytes(),
        }
    };
    let r = guard(|| match s(op, "a") {
        "apply" => {
            let mut o = GlobalOptions::new().use_custom_resolvers(n(op, "custom") == 1).preserve_format_specific_items(n(op, "keep") == 1);
            if n(op, "small") == 1 {
                o = o.allocation_limit(1024);
            }
            apply_global_options(o);
            "ok".to_string()
        },
        "reg" => {
            match n(op, "k") {
                0 => register_custom_resolver::<T0>(NAMES[k as usize]),
                1 => register_custom_resolver::<T1>(NAMES[k as usize]),
                2 => register_custom_resolver::<T2>(NAMES[k as usize]),
                _ => register_custom_resolver::<T3>(NAMES[k as usize]),
            }
            "ok".into()
        },
        "ext" => ty(FileType::from_ext(if k == 9 { "mp3".to_string() } else { format!("xr{k}") })),
        "buf" => match Probe::new(Cursor::new(data(k))).guess_file_type() {
            Ok(p) => ty(p.file_type()),
            Err(e) => format!("error {e}"),
        },
        "read" => {
            let t = if k == 9 { FileType::Flac } else { FileType::Custom(NAMES[k as usize]) };
            match Probe::with_file_type(Cursor::new(data(k)), t).read() {
                Ok(f) => f.primary_tag().and_then(Accessor::artist).map_or("value".into(), |a| a.to_string()),
                Err(_) => "error".into(),
            }
        },
        "big" => match Probe::with_file_type(Cursor::new(file(5000)), FileType::Flac).read() {
            Ok(_) => "value".into(),
            Err(_) => "error".into(),
        },
        "keep" => {
            let mut t = Id3v2Tag::default();
            t.set_title("x".into());
            t.insert(Frame::Binary(BinaryFrame::new(FrameId::Valid(Cow::Borrowed("XYZW")), vec![1, 2, 3])));
            let g: Tag = t.into();
            let t: Id3v2Tag = g.into();
            if t.len() == 2 { "kept" } else { "lost" }.into()
        },
        "boom" => match Probe::new(Cursor::new(b"BOOM and then some".to_vec())).guess_file_type() {
            Ok(p) => ty(p.file_type()),
            Err(e) => format!("error {e}"),
        },
        x => panic!("HARNESS: step {x}"),
    });
    r.unwrap_or_else(|_| "panic".into())
}

/// the child: one scenario on stdin, one event per step on stdout
pub fn child() {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).expect("HARNESS: stdin");
    let v: Value = serde_json::from_str(&t).expect("HARNESS: scenario");
    type Job = (Value, Option<Arc<Barrier>>);
    let mut threads: Vec<Option<(mpsc::Sender<Job>, mpsc::Receiver<String>)>> = (0..4).map(|_| None).collect();
    let mut send = |t: usize, j: Job, threads: &mut Vec<Option<(mpsc::Sender<Job>, mpsc::Receiver<String>)>>| {
        let (tx, _) = threads[t].get_or_insert_with(|| {
            let (tx, rx) = mpsc::channel::<Job>();
            let (rtx, rrx) = mpsc::channel();
            std::thread::spawn(move || {
                for (op, bar) in rx {
                    if let Some(b) = bar {
                        b.wait();
                    }
                    let _ = rtx.send(step(&op));
                }
            });
            (tx, rrx)
        });
        tx.send(j).expect("HARNESS: send");
    };
    let mut out = std::io::stdout();
    for op in arr(&v, "steps") {
        let res: Vec<String> = if s(op, "a") == "race" {
            let ops = arr(op, "ops");
            let bar = Arc::new(Barrier::new(ops.len()));
            for o in ops {
                send(n(o, "t") as usize, (o.clone(), Some(bar.clone())), &mut threads);
            }
            ops.iter().map(|o| threads[n(o, "t") as usize].as_ref().unwrap().1.recv().expect("HARNESS: recv")).collect()
        } else {
            let t = n(op, "t") as usize;
            send(t, (op.clone(), None), &mut threads);
            vec![threads[t].as_ref().unwrap().1.recv().expect("HARNESS: recv")]
        };
        writeln!(out, "{}", json!(res)).expect("HARNESS: stdout");
        out.flush().expect("HARNESS: stdout");
    }
    std::process::exit(0);
}

pub fn run(v: &Value, out: &mut Out) {
    let mut c = std::process::Command::new(std::env::current_exe().expect("HARNESS: exe"))
        .arg("threads-child")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("HARNESS: child");
    c.stdin.take().expect("HARNESS: stdin").write_all(v.to_string().as_bytes()).expect("HARNESS: stdin");
    let mut so = c.stdout.take().expect("HARNESS: stdout");
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut t = String::new();
        let _ = so.read_to_string(&mut t);
        let _ = tx.send(t);
    });
    let (text, end) = match rx.recv_timeout(std::time::Duration::from_secs(10)) {
        Ok(t) => {
            let st = c.wait().expect("HARNESS: wait");
            (t, if st.success() { String::new() } else { format!("process ended with {st}") })
        },
        Err(_) => {
            let _ = c.kill();
            let _ = c.wait();
            (rx.recv().unwrap_or_default(), "hung".to_string())
        },
    };
    let steps = arr(v, "steps");
    let mut res: Vec<Value> = text.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    assert!(res.len() == steps.len() || !end.is_empty(), "HARNESS: child said {text}");
    res.truncate(steps.len());
    out.ev(json!({"op": {"a": "schedule"}, "type": "threads", "steps": steps, "res": res, "end": end}));
}

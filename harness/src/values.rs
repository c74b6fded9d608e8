//! Suite `values`: value formats, one input at a time.
use crate::files::file_type;
use crate::util::{self, Out, arr, b, n, s, tok};
use lofty::TextEncoding;
use lofty::config::{ParsingMode, WriteOptions};
use lofty::file::{EXTENSIONS, FileType};
use lofty::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
use lofty::id3::v2::{
    AudioTextFrameFlags, ChannelType, CtocFlags, EventType, Frame, FrameFlags, FrameId, Id3v2Tag, Id3v2TagFlags, Id3v2Version, SyncTextContentType, TagRestrictions, TextInformationFrame,
    TimestampFormat, TimestampFrame,
};
use lofty::mp4::{AdvisoryRating, DataType};
use lofty::picture::{APE_PICTURE_TYPES, MimeType, PictureType};
use lofty::tag::items::Timestamp;
use lofty::tag::{ItemKey, Tag, TagType};
use serde_json::{Value, json};
use std::borrow::Cow;
use std::io::{Error, ErrorKind, Read};

fn bytes(v: &Value, k: &str) -> Vec<u8> {
    arr(v, k).iter().map(|x| x.as_u64().expect("HARNESS: byte") as u8).collect()
}
fn six(t: &Timestamp) -> Value {
    let o = |x: Option<u8>| x.map_or(json!([]), |x| json!([x]));
    json!([[t.year], o(t.month), o(t.day), o(t.hour), o(t.minute), o(t.second)])
}
fn mode(m: &str) -> ParsingMode {
    match m {
        "strict" => ParsingMode::Strict,
        "best" => ParsingMode::BestAttempt,
        _ => ParsingMode::Relaxed,
    }
}
fn ftype(t: Option<FileType>) -> String {
    t.map_or(String::new(), |t| format!("{t:?}"))
}

/// hands out its bytes in pieces of the given sizes, and is interrupted once
struct Slow {
    b: Vec<u8>,
    at: usize,
    sched: Vec<usize>,
    calls: usize,
    int: usize,
}
impl Read for Slow {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.int {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = self.sched[(self.calls - 1) % self.sched.len()].min(out.len()).min(self.b.len() - self.at);
        out[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

macro_rules! ints {
    ($t:ty, $w:ty, $b:expr) => {{
        let x = <$t>::from_be_bytes($b.try_into().expect("HARNESS: width"));
        let y: $w = x.widening_synch();
        json!({"synch": x.synch().map_or(vec![], |v| v.to_be_bytes().to_vec()), "widen": y.to_be_bytes().to_vec(), "unsynch": x.unsynch().to_be_bytes().to_vec()})
    }};
}

fn one(op: &Value) -> Value {
    match s(op, "a") {
        "ts" => {
            let t = bytes(op, "b");
            let r = Timestamp::parse(&mut &t[..], mode(s(op, "mode")));
            let fs: Value = std::str::from_utf8(&t).ok().and_then(|x| x.parse::<Timestamp>().ok()).map_or(json!([]), |t| six(&t));
            match r {
                Ok(Some(t)) => json!({"r": "some", "f": six(&t), "disp": t.to_string().into_bytes(), "fs": fs}),
                Ok(None) => json!({"r": "none", "f": [], "disp": [], "fs": fs}),
                Err(_) => json!({"r": "err", "f": [], "disp": [], "fs": fs}),
            }
        },
        "tsv" => {
            let f = arr(op, "f");
            let o = |i: usize| f[i].as_array().and_then(|a| a.first()).and_then(Value::as_u64);
            let t = Timestamp {
                year: o(0).expect("HARNESS: year") as u16,
                month: o(1).map(|x| x as u8),
                day: o(2).map(|x| x as u8),
                hour: o(3).map(|x| x as u8),
                minute: o(4).map(|x| x as u8),
                second: o(5).map(|x| x as u8),
            };
            let fr = TimestampFrame::new(FrameId::Valid(Cow::Borrowed("TDRC")), TextEncoding::UTF8, t);
            let enc = fr.as_bytes(WriteOptions::default()).unwrap_or_default();
            let back = if enc.is_empty() {
                json!([])
            } else {
                match TimestampFrame::parse(&mut &enc[..], FrameId::Valid(Cow::Borrowed("TDRC")), FrameFlags::default(), ParsingMode::Strict) {
                    Ok(Some(x)) => six(&x.timestamp),
                    _ => json!([]),
                }
            };
            json!({"disp": t.to_string().into_bytes(), "enc": enc, "back": back})
        },
        "synch" => {
            let x = bytes(op, "b");
            match x.len() {
                1 => ints!(u8, u16, x),
                2 => ints!(u16, u32, x),
                4 => ints!(u32, u64, x),
                _ => panic!("HARNESS: width"),
            }
        },
        "stream" => {
            let sched = |k: &str| arr(op, k).iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
            let fill = n(op, "fill") as usize;
            let mut all = vec![7; fill];
            all.extend(bytes(op, "b"));
            let slow = Slow { b: all, at: 0, sched: sched("inner"), calls: 0, int: n(op, "int") as usize };
            let mut u = UnsynchronizedStream::new(slow);
            let (outer, mut got, mut k) = (sched("outer"), vec![], 0);
            loop {
                let mut buf = vec![0; outer[k % outer.len()]];
                k += 1;
                match u.read(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => got.extend(&buf[..n]),
                    Err(e) if e.kind() == ErrorKind::Interrupted => {},
                    Err(_) => break,
                }
            }
            let head = got.iter().take(fill).all(|x| *x == 7) && got.len() >= fill;
            json!({"b": if head { got[fill..].to_vec() } else { vec![1, 2, 3] }})
        },
        "enc" => {
            let t: String = arr(op, "t").iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).expect("HARNESS: scalar")).collect();
            let f = TextInformationFrame::new(FrameId::Valid(Cow::Borrowed("TIT2")), TextEncoding::try_from(n(op, "e") as u8).unwrap(), t);
            let r = f.as_bytes(WriteOptions::default().use_id3v23(b(op, "v23")).lossy_text_encoding(b(op, "lossy")));
            json!({"enc": r.unwrap_or_default()})
        },
        "dec" => {
            let ver = match n(op, "ver") {
                2 => Id3v2Version::V2,
                3 => Id3v2Version::V3,
                _ => Id3v2Version::V4,
            };
            let mut x = vec![n(op, "e") as u8];
            x.extend(bytes(op, "b"));
            match TextInformationFrame::parse(&mut &x[..], FrameId::Valid(Cow::Borrowed("TIT2")), FrameFlags::default(), ver) {
                Ok(Some(f)) => json!({"ok": true, "t": f.value.chars().map(|c| c as u32).collect::<Vec<_>>(), "e": f.encoding as u8}),
                _ => json!({"ok": false, "t": [], "e": 0}),
            }
        },
        "byte" => {
            let v = n(op, "v") as u8;
            let p = PictureType::from_u8(v);
            let d = |x: Option<String>| x.unwrap_or_default();
            let ev = EventType::from_u8(v);
            let adv = AdvisoryRating::try_from(v);
            let re = TagRestrictions::from_byte(v);
            json!({
                "pic": format!("{p:?}"), "picb": p.as_u8(),
                "apek": p.as_ape_key().map_or(vec![], |k| vec![k]),
                "apeback": p.as_ape_key().map_or(vec![], |k| vec![PictureType::from_ape_key(k).as_u8(), PictureType::from_ape_key(&k.to_ascii_lowercase()).as_u8(), PictureType::from_ape_key(&k.to_ascii_uppercase()).as_u8()]),
                "apelist": APE_PICTURE_TYPES.get(v as usize).map_or(vec![], |k| vec![*k]),
                "enc": d(TextEncoding::try_from(v).ok().map(|x| format!("{x:?}"))),
                "tsf": d(TimestampFormat::try_from(v).ok().map(|x| format!("{x:?}"))),
                "sct": d(SyncTextContentType::try_from(v).ok().map(|x| format!("{x:?}"))),
                "chn": d(ChannelType::try_from(v).ok().map(|x| format!("{x:?}"))),
                "ev": format!("{ev:?}"), "evb": ev as u8,
                "adv": d(adv.ok().map(|x| format!("{x:?}"))), "advb": AdvisoryRating::try_from(v).map_or(0, |x| x.as_u8()),
                "atxt": AudioTextFrameFlags::from_u8(v).as_u8(), "ctoc": u8::from(CtocFlags::from(v)),
                "restr": [re.size as u8, re.text_encoding as u8, re.text_fields_size.map_or(0, |x| x as u8 + 1), re.image_encoding as u8, re.image_size.map_or(0, |x| x as u8 + 1)],
                "restrb": re.as_bytes(),
                "prof": lofty::musepack::sv7::Profile::from_u8(v).is_some() as u8, "link": lofty::musepack::sv7::Link::from_u8(v).is_some() as u8,
            })
        },
        "word" => {
            let v = n(op, "v") as u16;
            let bits = |f: &FrameFlags| {
                vec![
                    f.tag_alter_preservation as u8,
                    f.file_alter_preservation as u8,
                    f.read_only as u8,
                    f.grouping_identity.is_some() as u8,
                    f.compression as u8,
                    f.encryption.is_some() as u8,
                    f.unsynchronisation as u8,
                    f.data_length_indicator.is_some() as u8,
                ]
            };
            let (a, c) = (FrameFlags::parse_id3v24(v), FrameFlags::parse_id3v23(v));
            json!({"f24": bits(&a), "f23": bits(&c), "b24": a.as_id3v24_bytes(), "b23": c.as_id3v23_bytes(), "dt": u32::from(DataType::from(v as u32))})
        },
        "tflags" => {
            let v = n(op, "v");
            let f = Id3v2TagFlags { unsynchronisation: v & 1 != 0, experimental: v & 2 != 0, footer: v & 4 != 0, ..Default::default() };
            json!({"b24": f.as_id3v24_byte(), "b23": f.as_id3v23_byte()})
        },
        "mime" => {
            let m = MimeType::from_str(s(op, "s"));
            json!({"s": m.as_str(), "disp": m.to_string(), "ext": m.ext().unwrap_or(""), "again": MimeType::from_str(m.as_str()).as_str(), "dt": u32::from(DataType::from(&m))})
        },
        "fid" => match FrameId::new(s(op, "s").to_string()) {
            Err(_) => json!({"k": "err", "s": ""}),
            Ok(f) => json!({"k": if f.is_valid() && !f.is_outdated() { "valid" } else if f.is_outdated() && !f.is_valid() { "outdated" } else { "both" }, "s": f.as_str()}),
        },
        "genre" => {
            let mut t = Id3v2Tag::new();
            t.insert(Frame::Text(TextInformationFrame::new(FrameId::Valid(Cow::Borrowed("TCON")), TextEncoding::UTF8, s(op, "s").replace('~', "\0"))));
            json!({"g": t.genres().map_or(vec![], |g| g.map(|x| tok(x.as_bytes())).collect::<Vec<_>>())})
        },
        "rating" => {
            let mut t = Tag::new(TagType::Id3v2);
            t.insert_text(ItemKey::Popularimeter, s(op, "s").to_string());
            let r: Vec<_> = t.ratings().collect();
            match r.first() {
                None => json!({"r": [], "disp": ""}),
                Some(p) => json!({"r": [p.email().unwrap_or(""), (p.rating() as u8).to_string(), p.play_counter.to_string()], "disp": p.to_string()}),
            }
        },
        "ext" => {
            let e = s(op, "s");
            json!({"t": ftype(FileType::from_ext(e)), "path": ftype(FileType::from_path(format!("/a.b/x y.{e}"))), "listed": EXTENSIONS.contains(&e.to_ascii_lowercase().as_str())})
        },
        "support" => {
            let f = file_type(&match s(op, "f") {
                "WavPack" => "wv".to_string(),
                x => x.to_ascii_lowercase(),
            });
            let sup: Vec<_> = util::TYPES.iter().map(|(k, t)| json!([k, format!("{:?}", f.tag_support(*t))])).collect();
            json!({"primary": util::ty_name(f.primary_tag_type()), "s": sup})
        },
        "scramble" => {
            let mut x = bytes(op, "b");
            lofty::id3::v2::scramble(&mut x);
            let once = x.clone();
            lofty::id3::v2::scramble(&mut x);
            json!({"b": once, "twice": x})
        },
        a => panic!("HARNESS: op {a}"),
    }
}

pub fn run(v: &Value, out: &mut Out) {
    let mut op = v["x"].clone();
    op["a"] = v["a"].clone();
    let o = one(&op);
    out.ev(json!({"op": op, "out": o}));
}

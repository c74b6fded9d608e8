//! ID3v2 tags as bytes: what lofty makes of given bytes ("read"), and the bytes it makes of given frames ("write").
use crate::conc;
use crate::files::parse_options;
use crate::util::{Out, arr, b, expand, expand_s, guard, n, s};
use lofty::config::WriteOptions;
use lofty::file::AudioFile;
use lofty::id3::v2::*;
use lofty::mpeg::MpegFile;
use lofty::tag::TagExt;
use serde_json::{Value, json};
use std::borrow::Cow;
use std::io::Cursor;

fn cps(x: &str) -> Value {
    json!(x.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn opt<T: Into<i64>>(o: Option<T>) -> i64 {
    o.map_or(-1, Into::into)
}
fn fl_j(f: FrameFlags) -> Value {
    json!({"tap": f.tag_alter_preservation, "fap": f.file_alter_preservation, "ro": f.read_only, "g": opt(f.grouping_identity), "m": opt(f.encryption),
           "z": f.compression, "u": f.unsynchronisation, "d": opt(f.data_length_indicator)})
}
struct R {
    k: &'static str,
    e: i64,
    s: Vec<Value>,
    n: Vec<i64>,
    b: Vec<u8>,
    c: Vec<Value>,
}
fn r(k: &'static str, e: Option<lofty::TextEncoding>, st: &[&str], n: Vec<i64>, b: &[u8]) -> R {
    R { k, e: e.map_or(-1, |e| e as u8 as i64), s: st.iter().map(|x| cps(x)).collect(), n, b: b.to_vec(), c: vec![] }
}
fn be(x: u32) -> Vec<i64> {
    x.to_be_bytes().iter().map(|b| *b as i64).collect()
}
fn sylt(x: &SynchronizedTextFrame<'_>) -> R {
    let mut st = vec![x.description.as_deref().unwrap_or("")];
    let mut nn = vec![x.timestamp_format as u8 as i64, x.content_type as u8 as i64];
    for (t, y) in &x.content {
        st.push(y);
        nn.extend(be(*t));
    }
    r("sylt", Some(x.encoding), &st, nn, &x.language)
}
fn geob(x: &GeneralEncapsulatedObject<'_>) -> R {
    let o = |y: &Option<String>| y.clone().unwrap_or_default();
    r("geob", Some(x.encoding), &[&o(&x.mime_type), &o(&x.file_name), &o(&x.descriptor)], vec![], &x.data)
}
fn atxt(x: &AudioTextFrame<'_>) -> R {
    r("atxt", Some(x.encoding), &[&x.mime_type, &x.equivalent_text], vec![x.flags.as_u8() as i64], &x.audio_data)
}
fn kids(l: &FrameList<'_>) -> Vec<Value> {
    l.iter().map(raw).collect()
}
fn join(id: &str, fl: FrameFlags, x: R) -> Value {
    json!({"id": id, "fl": fl_j(fl), "k": x.k, "e": x.e, "s": x.s, "n": x.n, "b": x.b, "c": x.c})
}
pub fn raw(f: &Frame<'_>) -> Value {
    let id = f.id_str().to_string();
    let x = match f {
        Frame::Text(x) => r("text", Some(x.encoding), &[&x.value], vec![], &[]),
        Frame::UserText(x) => r("txxx", Some(x.encoding), &[&x.description, &x.content], vec![], &[]),
        Frame::Url(x) => r("url", None, &[x.url()], vec![], &[]),
        Frame::UserUrl(x) => r("wxxx", Some(x.encoding), &[&x.description, &x.content], vec![], &[]),
        Frame::Comment(x) => r("comm", Some(x.encoding), &[&x.description, &x.content], vec![], &x.language),
        Frame::UnsynchronizedText(x) => r("uslt", Some(x.encoding), &[&x.description, &x.content], vec![], &x.language),
        Frame::Picture(x) => {
            let p = &x.picture;
            r("apic", Some(x.encoding), &[p.mime_type().map_or("", |m| m.as_str()), p.description().unwrap_or("")], vec![p.pic_type().as_u8() as i64], p.data())
        },
        Frame::Popularimeter(x) => r("popm", None, &[&x.email], vec![x.rating as i64], &x.counter.to_be_bytes()),
        Frame::KeyValue(x) => {
            let l: Vec<&str> = x.key_value_pairs.iter().flat_map(|(a, b)| [&**a, &**b]).collect();
            r("kv", Some(x.encoding), &l, vec![], &[])
        },
        Frame::UniqueFileIdentifier(x) => r("ufid", None, &[&x.owner], vec![], &x.identifier),
        Frame::Private(x) => r("priv", None, &[&x.owner], vec![], &x.private_data),
        Frame::Timestamp(x) => {
            let t = x.timestamp;
            r("time", Some(x.encoding), &[], vec![t.year as i64, opt(t.month), opt(t.day), opt(t.hour), opt(t.minute), opt(t.second)], &[])
        },
        Frame::RelativeVolumeAdjustment(x) => {
            let mut l: Vec<(u8, Vec<i64>)> = x
                .channels
                .values()
                .map(|c| {
                    let mut v = vec![c.channel_type as u8 as i64];
                    v.extend(c.volume_adjustment.to_be_bytes().iter().map(|b| *b as i64));
                    v.push(c.bits_representing_peak as i64);
                    v.extend(c.peak_volume.iter().flatten().map(|b| *b as i64));
                    (c.channel_type as u8, v)
                })
                .collect();
            l.sort();
            r("rva2", None, &[&x.identification], l.into_iter().flat_map(|x| x.1).collect(), &[])
        },
        Frame::Ownership(x) => r("owne", Some(x.encoding), &[&x.price_paid, &x.date_of_purchase, &x.seller], vec![], &[]),
        Frame::EventTimingCodes(x) => {
            let mut v = vec![x.timestamp_format as u8 as i64];
            for e in x.events.iter() {
                v.push(e.event_type as u8 as i64);
                v.extend(be(e.timestamp));
            }
            r("etco", None, &[], v, &[])
        },
        Frame::Chapter(x) => {
            let mut d = vec![];
            for t in [x.times.start, x.times.end, x.offsets.start, x.offsets.end] {
                d.extend(t.to_be_bytes());
            }
            R { c: kids(&x.children), ..r("chap", None, &[&x.id], vec![], &d) }
        },
        Frame::TableOfContents(x) => {
            let fl = x.toc_flags();
            let mut st = vec![&*x.id];
            st.extend(x.entries.iter().map(|e| &**e));
            R { c: kids(&x.children), ..r("ctoc", None, &st, vec![if fl.top_level { 2 } else { 0 } + i64::from(fl.ordered)], &[]) }
        },
        Frame::Binary(x) => {
            let parsed = if f.flags().encryption.is_some() {
                None
            } else {
                match &*id {
                    "GEOB" => GeneralEncapsulatedObject::parse(&x.data, f.flags()).ok().map(|y| geob(&y)),
                    "SYLT" => SynchronizedTextFrame::parse(&x.data, f.flags()).ok().map(|y| sylt(&y)),
                    "ATXT" => AudioTextFrame::parse(&x.data, f.flags()).ok().map(|y| atxt(&y)),
                    _ => None,
                }
            };
            parsed.unwrap_or_else(|| r("bin", None, &[], vec![], &x.data))
        },
        _ => r("?", None, &[], vec![], &[]),
    };
    join(&id, f.flags(), x)
}
fn tf(f: &Id3v2TagFlags) -> Value {
    let res = f.restrictions.map_or(json!([]), |r| {
        json!([r.size as u8, r.text_encoding as u8, r.text_fields_size.map_or(0, |x| x as u8 + 1), r.image_encoding as u8, r.image_size.map_or(0, |x| x as u8 + 1)])
    });
    json!({"exp": f.experimental, "foot": f.footer, "crc": f.crc, "res": res, "u": f.unsynchronisation})
}
const AUDIO: usize = 208;

fn read(v: &Value, out: &mut Out) {
    let bytes: Vec<u8> = arr(v, "b").iter().map(|x| x.as_u64().expect("HARNESS: byte") as u8).collect();
    let mut file = bytes.clone();
    for _ in 0..2 {
        file.extend([0xFF, 0xFB, 0x50, 0xC4]);
        file.extend(vec![0; AUDIO - 4]);
    }
    let o = v.get("o").cloned().unwrap_or(json!({}));
    let mut ev = json!({"op": {"a": "read"}, "b": v["b"], "impl": o.get("impl").and_then(Value::as_bool).unwrap_or(true), "art": o.get("art").and_then(Value::as_bool).unwrap_or(true), "mode": s(&o, "mode")});
    let (ok, err, ver, fs, t) = match guard(|| MpegFile::read_from(&mut Cursor::new(&file), parse_options(&o))) {
        Err(p) => {
            ev["op"]["a"] = json!("PANIC");
            (false, p, 0, vec![], json!({}))
        },
        Ok(Err(e)) => (false, format!("{e:?}"), 0, vec![], json!({})),
        Ok(Ok(f)) => match f.id3v2() {
            None => (false, "no tag".into(), 0, vec![], json!({})),
            Some(t) => (
                true,
                String::new(),
                match t.original_version() {
                    Id3v2Version::V2 => 2,
                    Id3v2Version::V3 => 3,
                    Id3v2Version::V4 => 4,
                },
                t.into_iter().map(raw).collect(),
                tf(t.flags()),
            ),
        },
    };
    let o = ev.as_object_mut().expect("HARNESS");
    o.insert("ok".into(), json!(ok));
    o.insert("err".into(), json!(err.chars().take(160).collect::<String>()));
    o.insert("ver".into(), json!(ver));
    o.insert("fs".into(), json!(fs));
    o.insert("tf".into(), t);
    out.ev(ev);
}

fn object(v: &Value, wo: WriteOptions) -> Result<Option<(Frame<'static>, Value)>, String> {
    let f: Vec<&str> = arr(v, "f").iter().filter_map(Value::as_str).collect();
    let id = || FrameId::Valid(Cow::Owned(s(v, "id").to_string()));
    let fl = conc::flags(s(v, "fl"));
    let done = |x: R, d: Result<Vec<u8>, String>| {
        d.map(|d| {
            let mut fr = Frame::Binary(BinaryFrame::new(id(), d));
            fr.set_flags(fl);
            Some((fr, join(s(v, "id"), fl, x)))
        })
    };
    match s(v, "k") {
        "geob" => {
            let o = |x: &str| if x == "-" { None } else { Some(expand_s(x)) };
            let g = GeneralEncapsulatedObject::new(conc::enc(f[0]), o(f[1]), o(f[2]), o(f[3]), expand(f[4]));
            done(geob(&g), g.as_bytes(wo).map_err(|e| format!("{e:?}")))
        },
        "sylt" => {
            let l: [u8; 3] = f[1].as_bytes().try_into().expect("HARNESS: lang");
            let c = f[5..].iter().map(|x| x.split_once(':').map(|(t, y)| (t.parse().expect("HARNESS: time"), expand_s(y))).expect("HARNESS: line")).collect();
            let x = SynchronizedTextFrame::new(
                conc::enc(f[0]),
                l,
                if f[2] == "MS" { TimestampFormat::MS } else { TimestampFormat::MPEG },
                SyncTextContentType::try_from(f[3].parse::<u8>().expect("HARNESS")).expect("HARNESS: content type"),
                if f[4] == "-" { None } else { Some(expand_s(f[4])) },
                c,
            );
            done(sylt(&x), x.as_bytes(wo).map_err(|e| format!("{e:?}")))
        },
        "atxt" => {
            let x = AudioTextFrame::new(conc::enc(f[0]), expand_s(f[1]), AudioTextFrameFlags { scrambling: false }, expand_s(f[2]), expand(f[3]));
            done(atxt(&x), x.as_bytes(wo).map_err(|e| format!("{e:?}")))
        },
        _ => Ok(None),
    }
}

fn write(v: &Value, out: &mut Out) {
    let wo = {
        let w = WriteOptions::new().use_id3v23(b(v, "v3")).lossy_text_encoding(b(v, "lossy"));
        match n(v, "pad") {
            0 => w.preferred_padding(0),
            p => w.preferred_padding(p as u32),
        }
    };
    let mut t = Id3v2Tag::new();
    let mut given: Vec<(Value, bool)> = vec![];
    let mut err = String::new();
    for i in arr(v, "items") {
        match object(i, wo) {
            Ok(Some((f, j))) => {
                t.insert(f);
                given.push((j, true));
            },
            Ok(None) => {
                t.insert(conc::frame(i));
            },
            Err(e) => err = e,
        }
    }
    let mut fl = Id3v2TagFlags::default();
    for h in arr(v, "hd").iter().filter_map(Value::as_str) {
        match h {
            "footer" => fl.footer = true,
            "crc" => fl.crc = true,
            "exp" => fl.experimental = true,
            "unsync" => fl.unsynchronisation = true,
            h => fl.restrictions = Some(TagRestrictions::from_byte(h[5..].parse().expect("HARNESS: restrictions"))),
        }
    }
    t.set_flags(fl);
    // objects are reported as they were before they were encoded
    let fs: Vec<Value> = (&t)
        .into_iter()
        .map(|f| {
            let x = raw(f);
            given.iter().find(|g| g.0["id"] == x["id"]).map_or(x, |g| g.0.clone())
        })
        .collect();
    let mut ev = json!({"op": {"a": "write"}, "v3": b(v, "v3"), "lossy": b(v, "lossy"), "pad": n(v, "pad"), "tf": tf(t.flags()), "fs": fs});
    let mut d = vec![];
    let res = if err.is_empty() { guard(|| t.dump_to(&mut d, wo)) } else { Ok(Ok(())) };
    match res {
        Err(p) => {
            ev["op"]["a"] = json!("PANIC");
            err = p;
        },
        Ok(Err(e)) => err = format!("{e:?}"),
        Ok(Ok(())) => {},
    }
    let o = ev.as_object_mut().expect("HARNESS");
    o.insert("ok".into(), json!(err.is_empty()));
    o.insert("err".into(), json!(err.chars().take(160).collect::<String>()));
    o.insert("b".into(), json!(d));
    out.ev(ev);
}

pub fn run(v: &Value, out: &mut Out) {
    match s(v, "dir") {
        "read" => read(v, out),
        _ => write(v, out),
    }
}

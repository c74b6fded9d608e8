//! The smaller tag formats as bytes: what lofty makes of given bytes ("read"), and the bytes it makes of given tags ("write").
//! Both are described as records [k, id, s, n, b]: kind, key, strings (code points), numbers, data.
use crate::conc::{self, CTag};
use crate::files::parse_options;
use crate::util::{Out, arr, guard, n, s};
use lofty::ape::ApeTag;
use lofty::config::WriteOptions;
use lofty::file::AudioFile;
use lofty::flac::FlacFile;
use lofty::id3::v1::Id3v1Tag;
use lofty::iff::aiff::{AiffFile, AiffTextChunks};
use lofty::iff::wav::{RiffInfoList, WavFile};
use lofty::mp4::{AtomData, AtomIdent, Ilst, Mp4File};
use lofty::mpeg::MpegFile;
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation};
use lofty::tag::ItemValue;
use serde_json::{Value, json};
use std::io::Cursor;

fn cps(x: &str) -> Value {
    json!(x.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn rec(k: &str, id: Value, st: &[&str], n: Vec<i64>, b: &[u8]) -> Value {
    json!({"k": k, "id": id, "s": st.iter().map(|x| cps(x)).collect::<Vec<_>>(), "n": n, "b": b})
}
fn be(x: u32) -> Vec<i64> {
    x.to_be_bytes().iter().map(|b| *b as i64).collect()
}
fn ape(t: &ApeTag) -> Vec<Value> {
    t.into_iter()
        .map(|i| {
            let ro = vec![i64::from(i.read_only)];
            match i.value() {
                ItemValue::Text(x) => rec("T", cps(i.key()), &[x], ro, &[]),
                ItemValue::Locator(x) => rec("L", cps(i.key()), &[x], ro, &[]),
                ItemValue::Binary(x) => rec("B", cps(i.key()), &[], ro, x),
            }
        })
        .collect()
}
fn pic(p: &Picture, i: PictureInformation) -> Value {
    let mut nn = vec![p.pic_type().as_u8() as i64];
    for x in [i.width, i.height, i.color_depth, i.num_colors] {
        nn.extend(be(x));
    }
    rec("pic", json!([]), &[p.mime_type().map_or("", |m| m.as_str()), p.description().unwrap_or("")], nn, p.data())
}
fn vc(t: &VorbisComments) -> Vec<Value> {
    let mut v = vec![rec("vendor", json!([]), &[t.vendor()], vec![], &[])];
    v.extend(t.items().map(|(k, x)| rec("c", cps(k), &[x], vec![], &[])));
    v.extend(t.pictures().iter().map(|(p, i)| pic(p, *i)));
    v
}
fn ilst(t: &Ilst) -> Vec<Value> {
    let mut v = vec![];
    for a in t {
        let id = match a.ident() {
            AtomIdent::Fourcc(f) => json!(f),
            AtomIdent::Freeform { mean, name } => json!(mean.chars().map(|c| c as u32).chain([0]).chain(name.chars().map(|c| c as u32)).collect::<Vec<_>>()),
        };
        for (i, d) in a.data().enumerate() {
            let i = i as i64;
            v.push(match d {
                AtomData::UTF8(x) => rec("u8", id.clone(), &[x], vec![i], &[]),
                AtomData::UTF16(x) => rec("u16", id.clone(), &[x], vec![i], &[]),
                AtomData::SignedInteger(x) => rec("si", id.clone(), &[], [vec![i], be(*x as u32)].concat(), &[]),
                AtomData::UnsignedInteger(x) => rec("ui", id.clone(), &[], [vec![i], be(*x)].concat(), &[]),
                AtomData::Bool(x) => rec("bool", id.clone(), &[], vec![i, i64::from(*x)], &[]),
                AtomData::Picture(p) => {
                    let m = match p.mime_type() {
                        None => 0,
                        Some(MimeType::Gif) => 12,
                        Some(MimeType::Jpeg) => 13,
                        Some(MimeType::Png) => 14,
                        Some(MimeType::Bmp) => 27,
                        _ => -1,
                    };
                    rec("pic", id.clone(), &[], vec![i, m], p.data())
                },
                AtomData::Unknown { code, data } => rec("x", id.clone(), &[], vec![i, i64::from(u32::from(*code))], data),
            });
        }
    }
    v
}
fn riff(t: &RiffInfoList) -> Vec<Value> {
    t.into_iter().map(|(k, x)| rec("c", cps(k), &[x], vec![], &[])).collect()
}
fn aiff(t: &AiffTextChunks) -> Vec<Value> {
    let mut v = vec![];
    for (k, x) in [("NAME", &t.name), ("AUTH", &t.author), ("(c) ", &t.copyright)] {
        v.extend(x.iter().map(|x| rec(k, json!([]), &[x], vec![], &[])));
    }
    v.extend(t.annotations.iter().flatten().map(|x| rec("ANNO", json!([]), &[x], vec![], &[])));
    for c in t.comments.iter().flatten() {
        v.push(rec("COMT", json!([]), &[&c.text], [be(c.timestamp), vec![c.marker_id as i64]].concat(), &[]));
    }
    v
}
fn v1(t: &Id3v1Tag) -> Vec<Value> {
    let mut v = vec![];
    for (k, x) in [("title", &t.title), ("artist", &t.artist), ("album", &t.album), ("comment", &t.comment)] {
        v.extend(x.iter().map(|x| rec(k, json!([]), &[x], vec![], &[])));
    }
    v.extend(t.year.map(|y| rec("year", json!([]), &[], vec![y as i64], &[])));
    v.extend(t.track_number.map(|y| rec("track", json!([]), &[], vec![y as i64], &[])));
    v.extend(t.genre.map(|y| rec("genre", json!([]), &[], vec![y as i64], &[])));
    v
}

fn bx(id: &[u8; 4], parts: &[&[u8]]) -> Vec<u8> {
    let c = parts.concat();
    [&(c.len() as u32 + 8).to_be_bytes()[..], id, &c].concat()
}
fn ck(id: &[u8; 4], c: &[u8], le: bool) -> Vec<u8> {
    let z = c.len() as u32;
    let mut v = [&id[..], &if le { z.to_le_bytes() } else { z.to_be_bytes() }, c].concat();
    if z % 2 == 1 {
        v.push(0);
    }
    v
}
fn frames() -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..2 {
        v.extend([0xFF, 0xFB, 0x50, 0xC4]);
        v.extend(vec![0; 204]);
    }
    v
}
/// a file of the format around the bytes of its tag
fn host(ty: &str, b: &[u8]) -> Vec<u8> {
    match ty {
        "Ape" | "Id3v1" => [frames(), b.to_vec()].concat(),
        "VorbisComments" => {
            let z = (b.len() as u32).to_be_bytes();
            let mut v = b"fLaC\x00\x00\x00\x22".to_vec();
            v.extend([0x10, 0, 0x10, 0, 0, 0, 0, 0, 0, 0, 0x0A, 0xC4, 0x42, 0xF0, 0, 0, 0, 100]);
            v.extend([0; 16]);
            v.extend([0x84, z[1], z[2], z[3]]);
            v.extend(b);
            v.extend([0xFF, 0xF8, 0xC9, 0x18, 0, 0, 1, 2, 3, 4]);
            v
        },
        "Mp4Ilst" => {
            let hdlr = bx(b"hdlr", &[&[0; 8], b"mdirappl", &[0; 9]]);
            let meta = bx(b"meta", &[&[0; 4], &hdlr, b]);
            [bx(b"ftyp", &[b"M4A \0\0\0\0M4A isom"]), bx(b"moov", &[&bx(b"mvhd", &[&[0; 100]]), &bx(b"udta", &[&meta])]), bx(b"mdat", &[&[7; 40]])].concat()
        },
        "RiffInfo" => {
            let fmt = [1, 0, 1, 0, 0x40, 0x1F, 0, 0, 0x40, 0x1F, 0, 0, 1, 0, 8, 0];
            let c = [b"WAVE".to_vec(), ck(b"fmt ", &fmt, true), b.to_vec(), ck(b"data", &[9; 40], true)].concat();
            ck(b"RIFF", &c, true)
        },
        "AiffText" => {
            let comm = [0, 1, 0, 0, 0, 40, 0, 8, 0x40, 0x0B, 0xFA, 0, 0, 0, 0, 0, 0, 0];
            let c = [b"AIFF".to_vec(), ck(b"COMM", &comm, false), b.to_vec(), ck(b"SSND", &[9; 48], false)].concat();
            ck(b"FORM", &c, false)
        },
        x => panic!("HARNESS: {x}"),
    }
}
fn parse(ty: &str, file: &[u8], o: &Value, ro: &mut bool) -> Result<Option<Vec<Value>>, String> {
    let mut c = Cursor::new(file);
    let o = parse_options(o).read_properties(false);
    macro_rules! rd {
        ($f:ty) => {
            <$f>::read_from(&mut c, o).map_err(|e| format!("{e:?}"))?
        };
    }
    Ok(match ty {
        "Ape" => rd!(MpegFile).ape().map(|t| {
            *ro = t.read_only;
            ape(t)
        }),
        "Id3v1" => rd!(MpegFile).id3v1().map(v1),
        "VorbisComments" => rd!(FlacFile).vorbis_comments().map(vc),
        "Mp4Ilst" => rd!(Mp4File).ilst().map(ilst),
        "RiffInfo" => rd!(WavFile).riff_info().map(riff),
        _ => rd!(AiffFile).text_chunks().map(aiff),
    })
}

fn read(v: &Value, out: &mut Out) {
    let bytes: Vec<u8> = arr(v, "b").iter().map(|x| x.as_u64().expect("HARNESS: byte") as u8).collect();
    let ty = s(v, "type");
    let file = host(ty, &bytes);
    let o = v.get("o").cloned().unwrap_or(json!({}));
    let flag = |k: &str| o.get(k).and_then(Value::as_bool).unwrap_or(true);
    let mut ev = json!({"op": {"a": "read"}, "type": ty, "b": v["b"], "impl": flag("impl"), "art": flag("art"), "mode": s(&o, "mode")});
    let mut ro = false;
    let (ok, found, fs, err) = match guard(|| parse(ty, &file, &o, &mut ro)) {
        Err(p) => {
            ev["op"]["a"] = json!("PANIC");
            (false, false, vec![], p)
        },
        Ok(Err(e)) => (false, false, vec![], e),
        Ok(Ok(None)) => (true, false, vec![], String::new()),
        Ok(Ok(Some(x))) => (true, true, x, String::new()),
    };
    ev["ro"] = json!(ro);
    ev["ok"] = json!(ok);
    ev["found"] = json!(found);
    ev["fs"] = json!(fs);
    ev["err"] = json!(err.chars().take(160).collect::<String>());
    out.ev(ev);
}

fn write(v: &Value, out: &mut Out) {
    let t = conc::ctag(v);
    let fs = match &t {
        CTag::Ape(t) => ape(t),
        CTag::Vc(t) => vc(t),
        CTag::Ilst(t) => ilst(t),
        CTag::Riff(t) => riff(t),
        CTag::Aiff(t) => aiff(t),
        CTag::V1(t) => v1(t),
        CTag::Id3v2(_) => panic!("HARNESS: id3v2"),
    };
    let ro = matches!(&t, CTag::Ape(t) if t.read_only);
    let mut ev = json!({"op": {"a": "write"}, "type": s(v, "type"), "fs": fs, "ro": ro, "empty": t.is_empty()});
    let (b, err) = match guard(|| t.dump(WriteOptions::default().preferred_padding(n(v, "pad") as u32))) {
        Err(p) => {
            ev["op"]["a"] = json!("PANIC");
            (vec![], p)
        },
        Ok(Err(e)) => (vec![], e),
        Ok(Ok(b)) => (b, String::new()),
    };
    ev["ok"] = json!(err.is_empty());
    ev["err"] = json!(err.chars().take(160).collect::<String>());
    ev["b"] = json!(b);
    out.ev(ev);
}

pub fn run(v: &Value, out: &mut Out) {
    match s(v, "dir") {
        "read" => read(v, out),
        _ => write(v, out),
    }
}

//! Suite `pics`: image recognition, picture encodings, pictures through containers.
use crate::files::write_options;
use crate::synth;
use crate::util::{self, Out, arr, guard, n, s};
use lofty::config::{ParseOptions, ParsingMode};
use lofty::file::TaggedFileExt;
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::probe::Probe;
use lofty::tag::{Tag, TagExt};
use serde_json::{Value, json};
use std::io::Cursor;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("HARNESS: bytes").iter().map(|x| x.as_u64().expect("HARNESS: byte") as u8).collect()
}
fn w(x: u32) -> Value {
    json!([x >> 16, x & 0xFFFF])
}
fn info_j(i: &PictureInformation) -> Value {
    json!({"w": w(i.width), "h": w(i.height), "depth": i.color_depth, "colors": i.num_colors})
}
fn info2_j(i: &PictureInformation) -> Value {
    json!({"w": w(i.width), "h": w(i.height), "depth": w(i.color_depth), "colors": w(i.num_colors)})
}
fn opt<E>(r: Result<Result<PictureInformation, E>, String>) -> Value {
    match r {
        Ok(Ok(i)) => json!(["+", info_j(&i)]),
        Ok(Err(_)) => json!(["-"]),
        Err(_) => json!(["panic"]),
    }
}
fn full(p: &Picture) -> Value {
    json!({"pt": p.pic_type().as_u8(), "m": p.mime_type().map_or("", MimeType::as_str).as_bytes(), "d": p.description().unwrap_or("").as_bytes(), "data": p.data()})
}

pub fn run(v: &Value, out: &mut Out) {
    match s(v, "k") {
        "info" => {
            let b = bytes(&v["bytes"]);
            let p = Picture::unchecked(b.clone()).build();
            let vc = opt(guard(|| {
                let mut t = VorbisComments::default();
                t.insert_picture(p.clone(), None).map(|_| t.pictures()[0].1)
            }));
            let (sniff, kept) = match Picture::from_reader(&mut Cursor::new(&b)) {
                Ok(q) => (q.mime_type().map_or("-", MimeType::as_str).to_string(), q.data() == b && q.pic_type() == PictureType::Other && q.description().is_none()),
                Err(_) => (String::new(), false),
            };
            out.ev(json!({"op": {"a": "info"}, "bytes": b, "png": opt(guard(|| PictureInformation::from_png(&b))), "jpeg": opt(guard(|| PictureInformation::from_jpeg(&b))),
                "pic": opt(guard(|| PictureInformation::from_picture(&p))), "vc": vc, "sniff": sniff, "kept": kept}));
        },
        "flac" => {
            let p = util::pic(&v["p"]);
            let i = arr(v, "info");
            let u = |k: usize| ((i[k][0].as_u64().unwrap() << 16) | i[k][1].as_u64().unwrap()) as u32;
            let inf = PictureInformation { width: u(0), height: u(1), color_depth: u(2), num_colors: u(3) };
            let raw = p.as_flac_bytes(inf, false);
            let enc = p.as_flac_bytes(inf, true);
            let mut back = vec![];
            for mode in [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed] {
                for (x, e) in [(&raw, false), (&enc, true)] {
                    back.push(match Picture::from_flac_bytes(x, e, mode) {
                        Ok((q, j)) => json!(["+", full(&q), info2_j(&j)]),
                        Err(e) => json!(["-", e.to_string()]),
                    });
                }
            }
            let ape = p.as_ape_bytes();
            let pt = p.pic_type();
            let key = pt.as_ape_key();
            let apeback = match Picture::from_ape_bytes(key.unwrap_or("Cover Art (Other)"), &ape) {
                Ok(q) => json!(["+", full(&q)]),
                Err(_) => json!(["-"]),
            };
            let sniffed = Picture::from_reader(&mut Cursor::new(p.data())).ok().and_then(|q| q.mime_type().cloned());
            out.ev(json!({"op": {"a": "flac"}, "p": full(&p), "info": info2_j(&inf), "raw": raw, "enc": enc, "back": back, "ape": ape, "key": key.is_some(),
                "sniffed": sniffed.as_ref().map_or("", MimeType::as_str).as_bytes(), "apeback": apeback}));
        },
        "trip" => {
            let fmt = s(v, "fmt");
            let ty = util::ty(s(v, "ty"));
            let parts: Vec<&str> = arr(v, "parts").iter().map(|x| x.as_str().expect("HARNESS: part")).collect();
            let mut b = synth::build(fmt, &parts);
            let mut t = Tag::new(util::ty(s(v, "src")));
            for i in arr(v, "items") {
                t.push(util::item(i));
            }
            for p in arr(v, "pics") {
                t.push_picture(util::pic(p));
            }
            t.re_map(ty);
            let r = guard(|| {
                let mut c = Cursor::new(std::mem::take(&mut b));
                let r = t.save_to(&mut c, write_options(&v["o"])).map_err(|e| e.to_string());
                b = c.into_inner();
                r
            });
            let res = match r {
                Ok(Ok(())) => "ok".to_string(),
                Ok(Err(e)) => e,
                Err(e) => format!("panic {e}"),
            };
            let back: Vec<Value> = match Probe::with_file_type(Cursor::new(&b), crate::files::file_type(fmt)).options(ParseOptions::new()).read() {
                Ok(f) => f.tag(ty).map_or(vec![], |t| t.pictures().iter().map(util::pic_j).collect()),
                Err(_) => vec![],
            };
            let sn: Vec<Value> = arr(v, "pics")
                .iter()
                .map(|p| {
                    let q = util::pic(p);
                    let mut j = util::pic_j(&q);
                    j["sn"] = json!(Picture::from_reader(&mut Cursor::new(q.data())).ok().and_then(|q| q.mime_type().cloned()).map_or(String::new(), |m| m.as_str().to_string()));
                    j
                })
                .collect();
            out.ev(json!({"op": {"a": "trip"}, "ty": s(v, "ty"), "pics": sn, "res": res, "panic": res.starts_with("panic"), "back": back, "n": n(v, "n")}));
        },
        x => panic!("HARNESS: pics {x}"),
    }
}

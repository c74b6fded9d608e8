//! Suite `files`: edit histories on synthesised files of every format.
use crate::conc::{self, CTag};
use crate::util::{self, Out, arr, b, guard, hash, n, s};
use crate::{parse, synth};
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::error::FileParseError;
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use lofty::io::FileLike;
use lofty::probe::Probe;
use lofty::tag::{Tag, TagExt, TagType};
use lofty::{aac, ape, flac, iff, mp4, mpeg, musepack, ogg, wavpack};
use serde_json::{Value, json};
use std::io::{Cursor, Read, Seek};

pub fn file_type(fmt: &str) -> FileType {
    match fmt {
        "mpeg" => FileType::Mpeg,
        "aac" => FileType::Aac,
        "ape" => FileType::Ape,
        "wv" => FileType::WavPack,
        "mpc" => FileType::Mpc,
        "wav" => FileType::Wav,
        "aiff" => FileType::Aiff,
        "flac" => FileType::Flac,
        "vorbis" => FileType::Vorbis,
        "opus" => FileType::Opus,
        "speex" => FileType::Speex,
        "mp4" => FileType::Mp4,
        x => panic!("HARNESS: format {x}"),
    }
}

pub fn parse_options(v: &Value) -> ParseOptions {
    let mut o = ParseOptions::new();
    if let Some(x) = v.get("tags").and_then(Value::as_bool) {
        o = o.read_tags(x);
    }
    if let Some(x) = v.get("props").and_then(Value::as_bool) {
        o = o.read_properties(x);
    }
    if let Some(x) = v.get("art").and_then(Value::as_bool) {
        o = o.read_cover_art(x);
    }
    if let Some(x) = v.get("impl").and_then(Value::as_bool) {
        o = o.implicit_conversions(x);
    }
    if let Some(x) = v.get("junk").and_then(Value::as_u64) {
        o = o.max_junk_bytes(x as usize);
    }
    match s(v, "mode") {
        "strict" => o.parsing_mode(ParsingMode::Strict),
        "relaxed" => o.parsing_mode(ParsingMode::Relaxed),
        "best" => o.parsing_mode(ParsingMode::BestAttempt),
        _ => o,
    }
}

pub fn write_options(v: &Value) -> WriteOptions {
    let mut o = WriteOptions::new();
    if let Some(x) = v.get("pad").and_then(Value::as_u64) {
        o = o.preferred_padding(x as u32);
    }
    if let Some(x) = v.get("ro").and_then(Value::as_bool) {
        o = o.respect_read_only(x);
    }
    if let Some(x) = v.get("v23").and_then(Value::as_bool) {
        o = o.use_id3v23(x);
    }
    if let Some(x) = v.get("lossy").and_then(Value::as_bool) {
        o = o.lossy_text_encoding(x);
    }
    if let Some(x) = v.get("upper").and_then(Value::as_bool) {
        o = o.uppercase_id3v2_chunk(x);
    }
    if let Some(x) = v.get("others").and_then(Value::as_bool) {
        o = o.remove_others(x);
    }
    if let Some(x) = v.get("po") {
        o = o.parse_options(parse_options(x));
    }
    o
}

/// concrete tags through the format's own file type
pub fn read_conc<R: Read + Seek>(fmt: &str, r: &mut R, po: ParseOptions) -> Result<Vec<Value>, FileParseError> {
    let mut v = vec![];
    macro_rules! f {
        ($t:ty, $($m:ident => $j:path),*) => {{
            let x = <$t>::read_from(r, po)?;
            $(if let Some(t) = x.$m() { v.push($j(t)); })*
        }};
    }
    fn vc(t: &ogg::tag::VorbisComments) -> Value {
        conc::vc_j(t, &[])
    }
    match fmt {
        "mpeg" => f!(mpeg::MpegFile, id3v2 => conc::v2_j, ape => conc::ape_j, id3v1 => conc::v1_j),
        "aac" => f!(aac::AacFile, id3v2 => conc::v2_j, id3v1 => conc::v1_j),
        "ape" => f!(ape::ApeFile, id3v2 => conc::v2_j, ape => conc::ape_j, id3v1 => conc::v1_j),
        "mpc" => f!(musepack::MpcFile, id3v2 => conc::v2_j, ape => conc::ape_j, id3v1 => conc::v1_j),
        "wv" => f!(wavpack::WavPackFile, ape => conc::ape_j, id3v1 => conc::v1_j),
        "wav" => f!(iff::wav::WavFile, id3v2 => conc::v2_j, riff_info => conc::riff_j),
        "aiff" => f!(iff::aiff::AiffFile, id3v2 => conc::v2_j, text_chunks => conc::aiff_j),
        "mp4" => f!(mp4::Mp4File, ilst => conc::ilst_j),
        "vorbis" => v.push(vc(ogg::VorbisFile::read_from(r, po)?.vorbis_comments())),
        "opus" => v.push(vc(ogg::OpusFile::read_from(r, po)?.vorbis_comments())),
        "speex" => v.push(vc(ogg::SpeexFile::read_from(r, po)?.vorbis_comments())),
        "flac" => {
            use lofty::ogg::OggPictureStorage;
            let x = flac::FlacFile::read_from(r, po)?;
            if let Some(t) = x.id3v2() {
                v.push(conc::v2_j(t));
            }
            match x.vorbis_comments() {
                Some(t) => v.push(conc::vc_j(t, x.pictures())),
                None if !x.pictures().is_empty() => {
                    let mut t = ogg::tag::VorbisComments::default();
                    t.set_vendor(String::new());
                    v.push(conc::vc_j(&t, x.pictures()));
                },
                None => {},
            }
        },
        x => panic!("HARNESS: format {x}"),
    }
    Ok(v)
}

pub fn props(t: &TaggedFile) -> Vec<String> {
    props_of(t.properties())
}
pub fn props_of(p: &lofty::properties::FileProperties) -> Vec<String> {
    vec![
        format!("ms{}", p.duration().as_millis()),
        format!("br{:?}", p.audio_bitrate()),
        format!("sr{:?}", p.sample_rate()),
        format!("bd{:?}", p.bit_depth()),
        format!("ch{:?}", p.channels()),
        format!("cm{:?}", p.channel_mask()),
    ]
}

/// everything observable about a file
pub fn observe(fmt: &str, bytes: &[u8], po: ParseOptions) -> Value {
    let p = parse::file(fmt, bytes);
    let mut j = p.json();
    let o = j.as_object_mut().unwrap();
    o.insert("len".into(), json!(bytes.len()));
    o.insert("hash".into(), json!(hash(bytes)));
    let mut rerr = String::new();
    let tags = match guard(|| read_conc(fmt, &mut Cursor::new(bytes), po)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => {
            rerr = format!("err {e}");
            vec![]
        },
        Err(m) => {
            rerr = format!("panic {m}");
            vec![]
        },
    };
    let (mut gen_, mut pr, mut ft) = (vec![], vec![], String::new());
    match guard(|| Probe::new(Cursor::new(bytes)).guess_file_type().map(|p| (p.file_type(), p.options(po).read()))) {
        Ok(Ok((t, Ok(f)))) => {
            ft = format!("{t:?}");
            gen_ = f.tags().iter().map(util::tag_j).collect();
            pr = props(&f);
        },
        Ok(Ok((t, Err(e)))) => {
            ft = format!("{t:?}");
            rerr = format!("{rerr}/generic err {e}");
        },
        Ok(Err(e)) => rerr = format!("{rerr}/io {e}"),
        Err(m) => rerr = format!("{rerr}/generic panic {m}"),
    }
    o.insert("tags".into(), json!(tags));
    o.insert("gen".into(), json!(gen_));
    o.insert("props".into(), json!(pr));
    o.insert("ft".into(), json!(ft));
    o.insert("rerr".into(), json!(rerr));
    j
}

fn scratch() -> std::path::PathBuf {
    let d = std::env::var("LVH_SCRATCH").expect("HARNESS: LVH_SCRATCH");
    let id: String = format!("{:?}", std::thread::current().id()).chars().filter(char::is_ascii_digit).collect();
    std::path::Path::new(&d).join(format!("f{id}"))
}

pub fn read_conc_tag(fmt: &str, bytes: &[u8], ty: &str) -> Option<CTag> {
    macro_rules! f {
        ($t:ty, $($n:literal => $v:ident $get:ident),*) => {{
            let x = <$t>::read_from(&mut Cursor::new(bytes), ParseOptions::new()).ok()?;
            match ty {
                $($n => x.$get().map(|t| CTag::$v(t.clone())),)*
                _ => None,
            }
        }};
    }
    match fmt {
        "mpeg" => f!(mpeg::MpegFile, "Id3v2" => Id3v2 id3v2, "Ape" => Ape ape, "Id3v1" => V1 id3v1),
        "aac" => f!(aac::AacFile, "Id3v2" => Id3v2 id3v2, "Id3v1" => V1 id3v1),
        "ape" => f!(ape::ApeFile, "Id3v2" => Id3v2 id3v2, "Ape" => Ape ape, "Id3v1" => V1 id3v1),
        "mpc" => f!(musepack::MpcFile, "Id3v2" => Id3v2 id3v2, "Ape" => Ape ape, "Id3v1" => V1 id3v1),
        "wv" => f!(wavpack::WavPackFile, "Ape" => Ape ape, "Id3v1" => V1 id3v1),
        "wav" => f!(iff::wav::WavFile, "Id3v2" => Id3v2 id3v2, "RiffInfo" => Riff riff_info),
        "aiff" => f!(iff::aiff::AiffFile, "Id3v2" => Id3v2 id3v2, "AiffText" => Aiff text_chunks),
        "mp4" => f!(mp4::Mp4File, "Mp4Ilst" => Ilst ilst),
        // pictures and comments are kept apart, or the comments are not optional
        _ => {
            let v = read_conc(fmt, &mut Cursor::new(bytes), ParseOptions::new()).ok()?;
            v.iter().find(|t| s(t, "type") == ty).map(conc::ctag)
        },
    }
}

/// how the edit reaches the file
pub fn apply(fmt: &str, bytes: &mut Vec<u8>, op: &Value) -> Result<(), String> {
    let o = write_options(&op["o"]);
    let ty = util::ty(s(op, "type"));
    let via = s(op, "via");
    let on_path = |bytes: &mut Vec<u8>, f: &mut dyn FnMut(&std::path::Path) -> Result<(), String>| {
        let p = scratch();
        std::fs::write(&p, &*bytes).expect("HARNESS: scratch write");
        let r = guard(|| f(&p));
        *bytes = std::fs::read(&p).expect("HARNESS: scratch read");
        r.unwrap_or_else(|m| panic!("{m}"))
    };
    let on_cursor = |bytes: &mut Vec<u8>, f: &mut dyn FnMut(&mut Cursor<Vec<u8>>) -> Result<(), String>| {
        let mut c = Cursor::new(std::mem::take(bytes));
        let r = guard(|| f(&mut c));
        *bytes = c.into_inner();
        r.unwrap_or_else(|m| panic!("{m}"))
    };
    match s(op, "a") {
        "save" => {
            let t = conc::ctag(op);
            match via {
                "" | "conc" => on_cursor(bytes, &mut |c| t.save(c, o)),
                "path" => on_path(bytes, &mut |p| t.save_path(p, o)),
                "file" => on_path(bytes, &mut |p| {
                    let mut f = std::fs::OpenOptions::new().read(true).write(true).open(p).expect("HARNESS: open");
                    t.save(&mut f, o)
                }),
                // the generic tag made from the concrete one
                "gen" => {
                    let g = t.generic();
                    on_cursor(bytes, &mut |c| TagExt::save_to(&g, c, o).map_err(|e| e.to_string()))
                },
                // the concrete tag the generic one converts to
                "conv" => {
                    let g = CTag::from_generic(&t.generic());
                    on_cursor(bytes, &mut |c| g.save(c, o))
                },
                "genpath" => {
                    let g = t.generic();
                    on_path(bytes, &mut |p| TagExt::save_to_path(&g, p, o).map_err(|e| e.to_string()))
                },
                "tagged" => {
                    let g = t.generic();
                    let mut tf = TaggedFile::new(file_type(fmt), Default::default(), vec![]);
                    tf.insert_tag(g);
                    on_cursor(bytes, &mut |c| tf.save_to(c, o).map_err(|e| e.to_string()))
                },
                "taggedpath" => {
                    let g = t.generic();
                    let mut tf = TaggedFile::new(file_type(fmt), Default::default(), vec![]);
                    tf.insert_tag(g);
                    on_path(bytes, &mut |p| tf.save_to_path(p, o).map_err(|e| e.to_string()))
                },
                // the format's own file type, everything else as read
                "own" => on_cursor(bytes, &mut |c| own_save(fmt, &t, c, o)),
                x => panic!("HARNESS: via {x}"),
            }
        },
        "savegen" => {
            let g: Tag = util::tag(&op["g"]);
            match via {
                "path" => on_path(bytes, &mut |p| TagExt::save_to_path(&g, p, o).map_err(|e| e.to_string())),
                "conv" => {
                    let g = CTag::from_generic(&g);
                    on_cursor(bytes, &mut |c| g.save(c, o))
                },
                _ => on_cursor(bytes, &mut |c| TagExt::save_to(&g, c, o).map_err(|e| e.to_string())),
            }
        },
        "remove" => match via {
            "" | "type" => on_cursor(bytes, &mut |c| ty.remove_from(c, o).map_err(|e| e.to_string())),
            "path" => on_path(bytes, &mut |p| ty.remove_from_path(p, o).map_err(|e| e.to_string())),
            // the tag's own method
            "ext" => {
                let t = conc::ctag(&json!({"type": s(op, "type"), "hd": [], "items": []}));
                on_cursor(bytes, &mut |c| t.remove(c, o))
            },
            // saving an empty tag
            "empty" => {
                let t = conc::ctag(&json!({"type": s(op, "type"), "hd": [], "items": []}));
                on_cursor(bytes, &mut |c| t.save(c, o))
            },
            "emptygen" => {
                let t = Tag::new(ty);
                on_cursor(bytes, &mut |c| TagExt::save_to(&t, c, o).map_err(|e| e.to_string()))
            },
            x => panic!("HARNESS: via {x}"),
        },
        // read the tag from the file and save it back
        "resave" => {
            let Some(t) = read_conc_tag(fmt, bytes, s(op, "type")) else { return Err("nothing to save".into()) };
            on_cursor(bytes, &mut |c| t.save(c, o))
        },
        // read the whole file generically and save it back
        "resaveall" => on_cursor(bytes, &mut |c| {
            let f = Probe::new(&mut *c).options(ParseOptions::new()).guess_file_type().map_err(|e| e.to_string())?.read().map_err(|e| e.to_string())?;
            f.save_to(c, o).map_err(|e| e.to_string())
        }),
        x => panic!("HARNESS: file op {x}"),
    }
}

pub fn own_save<F: FileLike>(fmt: &str, t: &CTag, c: &mut F, o: WriteOptions) -> Result<(), String> {
    macro_rules! f {
        ($ft:ty, $($v:ident => $set:ident),*) => {{
            let mut x = <$ft>::read_from(c, ParseOptions::new()).map_err(|e| e.to_string())?;
            match t {
                $(CTag::$v(y) => { let _ = x.$set(y.clone()); },)*
                _ => return Err("unsupported".into()),
            }
            c.rewind().map_err(|e| e.to_string())?;
            x.save_to(c, o).map_err(|e| e.to_string())
        }};
    }
    match fmt {
        "mpeg" => f!(mpeg::MpegFile, Id3v2 => set_id3v2, Ape => set_ape, V1 => set_id3v1),
        "aac" => f!(aac::AacFile, Id3v2 => set_id3v2, V1 => set_id3v1),
        "ape" => f!(ape::ApeFile, Id3v2 => set_id3v2, Ape => set_ape, V1 => set_id3v1),
        "mpc" => f!(musepack::MpcFile, Id3v2 => set_id3v2, Ape => set_ape, V1 => set_id3v1),
        "wv" => f!(wavpack::WavPackFile, Ape => set_ape, V1 => set_id3v1),
        "wav" => f!(iff::wav::WavFile, Id3v2 => set_id3v2, Riff => set_riff_info),
        "aiff" => f!(iff::aiff::AiffFile, Id3v2 => set_id3v2, Aiff => set_text_chunks),
        "mp4" => f!(mp4::Mp4File, Ilst => set_ilst),
        "vorbis" => f!(ogg::VorbisFile, Vc => set_vorbis_comments),
        "opus" => f!(ogg::OpusFile, Vc => set_vorbis_comments),
        "speex" => f!(ogg::SpeexFile, Vc => set_vorbis_comments),
        "flac" => {
            use lofty::ogg::OggPictureStorage;
            let mut x = flac::FlacFile::read_from(c, ParseOptions::new()).map_err(|e| e.to_string())?;
            match t {
                CTag::Vc(y) => {
                    // pictures live in the file itself
                    x.remove_pictures();
                    let _ = x.set_vorbis_comments(y.clone());
                },
                CTag::Id3v2(y) => {
                    let _ = x.set_id3v2(y.clone());
                },
                _ => return Err("unsupported".into()),
            }
            c.rewind().map_err(|e| e.to_string())?;
            x.save_to(c, o).map_err(|e| e.to_string())
        },
        x => panic!("HARNESS: format {x}"),
    }
}

const GENVIA: &[&str] = &["gen", "genpath", "conv", "tagged", "taggedpath"];
pub fn run(v: &Value, out: &mut Out) {
    let fmt = s(v, "fmt");
    let parts: Vec<&str> = arr(v, "parts").iter().map(|x| x.as_str().expect("HARNESS: part")).collect();
    let mut bytes = synth::build(fmt, &parts);
    let po = parse_options(&v["po"]);
    out.ev(json!({"op": {"a": "open", "type": "", "via": "", "rep": false, "o": {"none": 0}}, "fmt": fmt, "res": "ok", "prevres": "", "err": "", "same": true, "tag": {"type": "", "hd": [], "items": []}, "F": observe(fmt, &bytes, po)}));
    let mut prev: Option<&Value> = None;
    let mut prevres = "";
    for op in arr(v, "ops") {
        // the tag in hand (what the collection made of the items is judged elsewhere)
        let tag = match s(op, "a") {
            "save" => conc::ctag_j(&if GENVIA.contains(&s(op, "via")) { CTag::from_generic(&conc::ctag(op).generic()) } else { conc::ctag(op) }),
            "savegen" => conc::ctag_j(&CTag::from_generic(&util::tag(&op["g"]))),
            _ => json!({"type": s(op, "type"), "hd": [], "items": []}),
        };
        let before = bytes.clone();
        // an editing step may consume the bytes when it panics: keep what it left
        let r = guard(|| apply(fmt, &mut bytes, op));
        let (res, err) = match r {
            Ok(Ok(())) => ("ok", String::new()),
            Ok(Err(e)) => ("err", e),
            Err(m) => ("panic", m),
        };
        let mut o = op.clone();
        o["rep"] = json!(prev == Some(op));
        for (k, d) in [("via", json!("")), ("o", json!({"none": 0}))] {
            if o.get(k).is_none() {
                o[k] = d;
            }
        }
        out.ev(json!({"op": o, "fmt": fmt, "res": res, "prevres": prevres, "err": err, "same": bytes == before, "tag": tag, "F": observe(fmt, &bytes, po)}));
        if res == "panic" {
            break;
        }
        prev = Some(op);
        prevres = res;
    }
    let _ = (b(v, "x"), n(v, "x"));
}
#[allow(unused)]
fn _t(_: TagType) {}

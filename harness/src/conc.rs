//! Concrete (format specific) tags <-> the uniform description used by the
//! specifications: {"type", "hd": [..], "items": [{"id","k","f":[..]}]}.
use crate::util::{arr, expand, expand_s, s, tok, ty_name};
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::WriteOptions;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::*;
use lofty::iff::aiff::{AiffTextChunks, Comment};
use lofty::iff::wav::RiffInfoList;
use lofty::io::FileLike;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::items::Timestamp;
use lofty::tag::{ItemValue, Tag, TagExt, TagType};
use serde_json::{Value, json};
use std::borrow::Cow;
use std::collections::HashMap;

pub enum CTag {
    Id3v2(Id3v2Tag),
    Ape(ApeTag),
    Vc(VorbisComments),
    Ilst(Ilst),
    Riff(RiffInfoList),
    Aiff(AiffTextChunks),
    V1(Id3v1Tag),
}

macro_rules! each {
    ($s:expr, $t:ident => $e:expr) => {
        match $s {
            CTag::Id3v2($t) => $e,
            CTag::Ape($t) => $e,
            CTag::Vc($t) => $e,
            CTag::Ilst($t) => $e,
            CTag::Riff($t) => $e,
            CTag::Aiff($t) => $e,
            CTag::V1($t) => $e,
        }
    };
}

impl CTag {
    pub fn ty(&self) -> TagType {
        match self {
            CTag::Id3v2(_) => TagType::Id3v2,
            CTag::Ape(_) => TagType::Ape,
            CTag::Vc(_) => TagType::VorbisComments,
            CTag::Ilst(_) => TagType::Mp4Ilst,
            CTag::Riff(_) => TagType::RiffInfo,
            CTag::Aiff(_) => TagType::AiffText,
            CTag::V1(_) => TagType::Id3v1,
        }
    }
    pub fn save<F: FileLike>(&self, f: &mut F, o: WriteOptions) -> Result<(), String> {
        each!(self, t => TagExt::save_to(t, f, o).map_err(|e| e.to_string()))
    }
    pub fn save_path(&self, p: &std::path::Path, o: WriteOptions) -> Result<(), String> {
        each!(self, t => TagExt::save_to_path(t, p, o).map_err(|e| e.to_string()))
    }
    pub fn dump(&self, o: WriteOptions) -> Result<Vec<u8>, String> {
        let mut v = Vec::new();
        each!(self, t => TagExt::dump_to(t, &mut v, o).map_err(|e| e.to_string()))?;
        Ok(v)
    }
    pub fn remove<F: FileLike>(&self, f: &mut F, o: WriteOptions) -> Result<(), String> {
        each!(self, t => TagExt::remove_from(t, f, o).map_err(|e| e.to_string()))
    }
    pub fn is_empty(&self) -> bool {
        each!(self, t => TagExt::is_empty(t))
    }
    pub fn len(&self) -> usize {
        each!(self, t => TagExt::len(t))
    }
    pub fn generic(&self) -> Tag {
        match self {
            CTag::Id3v2(t) => t.clone().into(),
            CTag::Ape(t) => t.clone().into(),
            CTag::Vc(t) => t.clone().into(),
            CTag::Ilst(t) => t.clone().into(),
            CTag::Riff(t) => t.clone().into(),
            CTag::Aiff(t) => t.clone().into(),
            CTag::V1(t) => t.clone().into(),
        }
    }
    pub fn from_generic(t: &Tag) -> CTag {
        let t = t.clone();
        match t.tag_type() {
            TagType::Id3v2 => CTag::Id3v2(t.into()),
            TagType::Ape => CTag::Ape(t.into()),
            TagType::VorbisComments => CTag::Vc(t.into()),
            TagType::Mp4Ilst => CTag::Ilst(t.into()),
            TagType::RiffInfo => CTag::Riff(t.into()),
            TagType::AiffText => CTag::Aiff(t.into()),
            TagType::Id3v1 => CTag::V1(t.into()),
            x => panic!("HARNESS: {x:?}"),
        }
    }
}

pub fn enc(n: &str) -> TextEncoding {
    match n {
        "L1" => TextEncoding::Latin1,
        "U16" => TextEncoding::UTF16,
        "U16B" => TextEncoding::UTF16BE,
        "U8" => TextEncoding::UTF8,
        x => panic!("HARNESS: encoding {x}"),
    }
}
pub fn enc_n(e: TextEncoding) -> &'static str {
    match e {
        TextEncoding::Latin1 => "L1",
        TextEncoding::UTF16 => "U16",
        TextEncoding::UTF16BE => "U16B",
        TextEncoding::UTF8 => "U8",
    }
}

fn f(v: &Value, i: usize) -> &str {
    v["f"].get(i).and_then(Value::as_str).unwrap_or_else(|| panic!("HARNESS: field {i} of {v}"))
}
fn nf(v: &Value) -> usize {
    v["f"].as_array().map_or(0, Vec::len)
}
fn num<T: std::str::FromStr>(x: &str) -> T {
    x.parse().unwrap_or_else(|_| panic!("HARNESS: number {x}"))
}
fn lang(x: &str) -> [u8; 3] {
    x.as_bytes().try_into().unwrap_or_else(|_| panic!("HARNESS: lang {x}"))
}

/// frame flags as a short text: "" or e.g. "taa,fap,ro,g7,c,u,d12,e3"
/// (how the content was transported - unsynchronised, compressed, with a data length - is no
/// part of the frame unless it is encrypted, and so opaque)
pub fn flags_j(fl: FrameFlags) -> String {
    let mut o = vec![];
    if fl.tag_alter_preservation {
        o.push("tap".to_string());
    }
    if fl.file_alter_preservation {
        o.push("fap".into());
    }
    if fl.read_only {
        o.push("ro".into());
    }
    if let Some(g) = fl.grouping_identity {
        o.push(format!("g{g}"));
    }
    if fl.compression && fl.encryption.is_some() {
        o.push("c".into());
    }
    if let Some(g) = fl.encryption {
        o.push(format!("e{g}"));
    }
    if let (Some(g), Some(_)) = (fl.data_length_indicator, fl.encryption) {
        o.push(format!("d{g}"));
    }
    o.join(",")
}
pub fn flags(x: &str) -> FrameFlags {
    let mut fl = FrameFlags::default();
    for p in x.split(',').filter(|p| !p.is_empty()) {
        match p {
            "tap" => fl.tag_alter_preservation = true,
            "fap" => fl.file_alter_preservation = true,
            "ro" => fl.read_only = true,
            "c" => fl.compression = true,
            "u" => fl.unsynchronisation = true,
            p if p.starts_with('g') => fl.grouping_identity = Some(num(&p[1..])),
            p if p.starts_with('e') => fl.encryption = Some(num(&p[1..])),
            p if p.starts_with('d') => fl.data_length_indicator = Some(num(&p[1..])),
            p => panic!("HARNESS: frame flag {p}"),
        }
    }
    fl
}

pub fn picture(f: &[&str]) -> Picture {
    let mut p = Picture::unchecked(expand(f[3])).pic_type(PictureType::from_u8(num(f[0])));
    if f[1] != "-" {
        p = p.mime_type(MimeType::from_str(f[1]));
    }
    if f[2] != "-" {
        p = p.description(expand_s(f[2]));
    }
    p.build()
}
fn picture_f(p: &Picture) -> Vec<String> {
    vec![
        p.pic_type().as_u8().to_string(),
        p.mime_type().map_or("-".into(), |m| m.as_str().to_string()),
        p.description().map_or("-".into(), |d| tok(d.as_bytes())),
        tok(p.data()),
    ]
}
fn fs(v: &Value) -> Vec<&str> {
    (0..nf(v)).map(|i| f(v, i)).collect()
}

pub fn frame(v: &Value) -> Frame<'static> {
    let id = FrameId::new(s(v, "id").to_string()).unwrap_or_else(|e| panic!("HARNESS: frame id {e:?}"));
    let mut fr: Frame<'static> = match s(v, "k") {
        "text" => Frame::Text(TextInformationFrame::new(id, enc(f(v, 0)), expand_s(f(v, 1)))),
        "txxx" => Frame::UserText(ExtendedTextFrame::new(enc(f(v, 0)), expand_s(f(v, 1)), expand_s(f(v, 2)))),
        "url" => Frame::Url(UrlLinkFrame::new(id, expand_s(f(v, 0)))),
        "wxxx" => Frame::UserUrl(ExtendedUrlFrame::new(enc(f(v, 0)), expand_s(f(v, 1)), expand_s(f(v, 2)))),
        "comm" => Frame::Comment(CommentFrame::new(enc(f(v, 0)), lang(f(v, 1)), expand_s(f(v, 2)), expand_s(f(v, 3)))),
        "uslt" => Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(enc(f(v, 0)), lang(f(v, 1)), expand_s(f(v, 2)), expand_s(f(v, 3)))),
        "apic" => Frame::Picture(AttachedPictureFrame::new(enc(f(v, 0)), picture(&fs(v)[1..]))),
        "popm" => Frame::Popularimeter(PopularimeterFrame::new(expand_s(f(v, 0)), num(f(v, 1)), num(f(v, 2)))),
        "kv" => {
            let l: Vec<(Cow<'static, str>, Cow<'static, str>)> =
                fs(v)[1..].chunks(2).map(|c| (Cow::Owned(expand_s(c[0])), Cow::Owned(expand_s(c[1])))).collect();
            Frame::KeyValue(KeyValueFrame::new(id, enc(f(v, 0)), l))
        },
        "ufid" => Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new(expand_s(f(v, 0)), expand(f(v, 1)))),
        "priv" => Frame::Private(PrivateFrame::new(expand_s(f(v, 0)), expand(f(v, 1)))),
        "ts" => Frame::Timestamp(TimestampFrame::new(id, enc(f(v, 0)), timestamp(f(v, 1)))),
        "bin" => Frame::Binary(BinaryFrame::new(id, expand(f(v, 0)))),
        "rva2" => {
            let mut m = HashMap::new();
            for c in &fs(v)[1..] {
                let p: Vec<&str> = c.split(':').collect();
                let ct = ChannelType::try_from(num::<u8>(p[0])).expect("HARNESS: channel");
                let bits: u8 = num(p[2]);
                m.insert(
                    ct,
                    ChannelInformation {
                        channel_type: ct,
                        volume_adjustment: num(p[1]),
                        bits_representing_peak: bits,
                        peak_volume: if bits == 0 { None } else { Some(expand(&format!("~b{}", (bits as usize).div_ceil(8)))) },
                    },
                );
            }
            Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new(expand_s(f(v, 0)), Cow::Owned(m)))
        },
        "owne" => Frame::Ownership(OwnershipFrame::new(enc(f(v, 0)), expand_s(f(v, 1)), expand_s(f(v, 2)), expand_s(f(v, 3)))),
        "etco" => {
            let ev: Vec<Event> = fs(v)[1..]
                .iter()
                .map(|c| {
                    let (a, b) = c.split_once(':').expect("HARNESS: event");
                    Event { event_type: EventType::from_u8(num(a)), timestamp: num(b) }
                })
                .collect();
            let tf = if f(v, 0) == "MS" { TimestampFormat::MS } else { TimestampFormat::MPEG };
            Frame::EventTimingCodes(EventTimingCodesFrame::new(tf, ev))
        },
        "chap" => Frame::Chapter(ChapterFrame::new(
            expand_s(f(v, 0)),
            num(f(v, 1))..num(f(v, 2)),
            num(f(v, 3))..num(f(v, 4)),
            frames(arr(v, "ch")),
        )),
        "ctoc" => {
            let e: Vec<Cow<'static, str>> = fs(v)[2..].iter().map(|x| Cow::Owned(expand_s(x))).collect();
            Frame::TableOfContents(ChapterTableOfContentsFrame::new(
                expand_s(f(v, 0)),
                CtocFlags { top_level: f(v, 1).contains('t'), ordered: f(v, 1).contains('o') },
                e,
                frames(arr(v, "ch")),
            ))
        },
        x => panic!("HARNESS: frame kind {x}"),
    };
    let fl = s(v, "fl");
    if !fl.is_empty() {
        fr.set_flags(flags(fl));
    }
    fr
}

fn frames(l: &[Value]) -> FrameList<'static> {
    let mut o = FrameList::new();
    for x in l {
        o.insert(frame(x));
    }
    o
}

/// "!year,month,day,hour,minute,second" has gaps, which the text form cannot say
pub fn timestamp(x: &str) -> Timestamp {
    if let Some(l) = x.strip_prefix('!') {
        let v: Vec<Option<u16>> = l.split(',').map(|y| y.parse().ok()).collect();
        let o = |i: usize| v.get(i).copied().flatten().map(|y| y as u8);
        return Timestamp { year: v[0].expect("HARNESS: year"), month: o(1), day: o(2), hour: o(3), minute: o(4), second: o(5) };
    }
    x.parse().unwrap_or_else(|_| panic!("HARNESS: timestamp {x}"))
}

pub fn stamp(t: Timestamp) -> String {
    let l = [t.month, t.day, t.hour, t.minute, t.second];
    match l.iter().position(Option::is_none) {
        Some(i) if l[i..].iter().any(Option::is_some) => {
            format!("!{},{}", t.year, l.iter().map(|x| x.map_or(String::new(), |x| x.to_string())).collect::<Vec<_>>().join(","))
        },
        _ => t.to_string(),
    }
}

pub fn frame_j(fr: &Frame<'_>) -> Value {
    let t = |x: &str| tok(x.as_bytes());
    let mut ch = vec![];
    let (k, fields): (&str, Vec<String>) = match fr {
        Frame::Text(x) => ("text", vec![enc_n(x.encoding).into(), t(&x.value)]),
        Frame::UserText(x) => ("txxx", vec![enc_n(x.encoding).into(), t(&x.description), t(&x.content)]),
        Frame::Url(x) => ("url", vec![t(x.url())]),
        Frame::UserUrl(x) => ("wxxx", vec![enc_n(x.encoding).into(), t(&x.description), t(&x.content)]),
        Frame::Comment(x) => (
            "comm",
            vec![enc_n(x.encoding).into(), String::from_utf8_lossy(&x.language).into(), t(&x.description), t(&x.content)],
        ),
        Frame::UnsynchronizedText(x) => (
            "uslt",
            vec![enc_n(x.encoding).into(), String::from_utf8_lossy(&x.language).into(), t(&x.description), t(&x.content)],
        ),
        Frame::Picture(x) => {
            let mut v = vec![enc_n(x.encoding).to_string()];
            v.extend(picture_f(&x.picture));
            ("apic", v)
        },
        Frame::Popularimeter(x) => ("popm", vec![t(&x.email), x.rating.to_string(), x.counter.to_string()]),
        Frame::KeyValue(x) => {
            let mut v = vec![enc_n(x.encoding).to_string()];
            for (a, b) in x.key_value_pairs.iter() {
                v.push(t(a));
                v.push(t(b));
            }
            ("kv", v)
        },
        Frame::UniqueFileIdentifier(x) => ("ufid", vec![t(&x.owner), tok(&x.identifier)]),
        Frame::Private(x) => ("priv", vec![t(&x.owner), tok(&x.private_data)]),
        Frame::Timestamp(x) => ("ts", vec![enc_n(x.encoding).into(), stamp(x.timestamp)]),
        Frame::Binary(x) => ("bin", vec![tok(&x.data)]),
        Frame::RelativeVolumeAdjustment(x) => {
            let mut l: Vec<String> = x
                .channels
                .values()
                .map(|c| {
                    let mut s = format!("{}:{}:{}", c.channel_type as u8, c.volume_adjustment, c.bits_representing_peak);
                    // the generator derives the peak from the bit count; anything else is shown
                    let want = if c.bits_representing_peak == 0 {
                        None
                    } else {
                        Some(expand(&format!("~b{}", (c.bits_representing_peak as usize).div_ceil(8))))
                    };
                    if c.peak_volume != want {
                        s.push_str(&format!(":{:?}", c.peak_volume.as_ref().map(|b| tok(b))));
                    }
                    s
                })
                .collect();
            l.sort();
            let mut v = vec![t(&x.identification)];
            v.extend(l);
            ("rva2", v)
        },
        Frame::Ownership(x) => ("owne", vec![enc_n(x.encoding).into(), t(&x.price_paid), t(&x.date_of_purchase), t(&x.seller)]),
        Frame::EventTimingCodes(x) => {
            let mut v = vec![if x.timestamp_format == TimestampFormat::MS { "MS".to_string() } else { "MPEG".into() }];
            v.extend(x.events.iter().map(|e| format!("{}:{}", e.event_type as u8, e.timestamp)));
            ("etco", v)
        },
        Frame::Chapter(x) => {
            ch = x.children.iter().map(frame_j).collect();
            (
                "chap",
                vec![
                    t(&x.id),
                    x.times.start.to_string(),
                    x.times.end.to_string(),
                    x.offsets.start.to_string(),
                    x.offsets.end.to_string(),
                ],
            )
        },
        Frame::TableOfContents(x) => {
            ch = x.children.iter().map(frame_j).collect();
            let fl = x.toc_flags();
            let mut v = vec![t(&x.id), format!("{}{}", if fl.top_level { "t" } else { "" }, if fl.ordered { "o" } else { "" })];
            v.extend(x.entries.iter().map(|e| t(e)));
            ("ctoc", v)
        },
        _ => ("?", vec![]),
    };
    let mut f = fields;
    if !ch.is_empty() {
        // nested frames as text: the uniform item stays flat
        f.push(serde_json::to_string(&ch).expect("HARNESS").replace('"', "'"));
    }
    json!({"id": fr.id_str(), "k": k, "f": f, "fl": flags_j(fr.flags())})
}

pub fn ident(x: &str) -> AtomIdent<'static> {
    if let Some(r) = x.strip_prefix("----:") {
        let (m, n) = r.split_once(':').expect("HARNESS: freeform");
        AtomIdent::Freeform { mean: Cow::Owned(expand_s(m)), name: Cow::Owned(expand_s(n)) }
    } else {
        let b: Vec<u8> = x.chars().map(|c| if c == '@' { 0xA9 } else { c as u8 }).collect();
        AtomIdent::Fourcc(b.try_into().unwrap_or_else(|_| panic!("HARNESS: fourcc {x}")))
    }
}
pub fn ident_j(i: &AtomIdent<'_>) -> String {
    match i {
        AtomIdent::Fourcc(b) => b.iter().map(|c| if *c == 0xA9 { '@' } else { *c as char }).collect(),
        AtomIdent::Freeform { mean, name } => format!("----:{}:{}", tok(mean.as_bytes()), tok(name.as_bytes())),
    }
}
pub fn atom(v: &Value) -> Atom<'static> {
    let data: Vec<AtomData> = fs(v)
        .chunks(2)
        .map(|c| match c[0] {
            "u8" => AtomData::UTF8(expand_s(c[1])),
            "u16" => AtomData::UTF16(expand_s(c[1])),
            "si" => AtomData::SignedInteger(num(c[1])),
            "ui" => AtomData::UnsignedInteger(num(c[1])),
            "bool" => AtomData::Bool(c[1] == "true"),
            x if x.starts_with("pic") => {
                let mut p = Picture::unchecked(expand(c[1]));
                if let Some(m) = x.strip_prefix("pic:") {
                    p = p.mime_type(MimeType::from_str(m));
                }
                AtomData::Picture(p.build())
            },
            "pair" => {
                let (n, t) = c[1].split_once('/').unwrap();
                let (n, t): (u16, u16) = (num(n), num(t));
                let mut data = vec![0, 0];
                data.extend(n.to_be_bytes());
                data.extend(t.to_be_bytes());
                data.extend([0, 0]);
                AtomData::Unknown { code: DataType::Reserved, data }
            },
            x => AtomData::Unknown { code: DataType::from(num::<u32>(x)), data: expand(c[1]) },
        })
        .collect();
    Atom::from_collection(ident(s(v, "id")), data).unwrap_or_else(|| panic!("HARNESS: empty atom"))
}
pub fn atom_j(a: &Atom<'_>) -> Value {
    let mut o: Vec<String> = vec![];
    for d in a.data() {
        match d {
            AtomData::UTF8(x) => o.extend(["u8".into(), tok(x.as_bytes())]),
            AtomData::UTF16(x) => o.extend(["u16".into(), tok(x.as_bytes())]),
            AtomData::SignedInteger(x) => o.extend(["si".into(), x.to_string()]),
            AtomData::UnsignedInteger(x) => o.extend(["ui".into(), x.to_string()]),
            AtomData::Bool(x) => o.extend(["bool".into(), x.to_string()]),
            AtomData::Picture(p) => o.extend([p.mime_type().map_or("pic".into(), |m| format!("pic:{}", m.as_str())), tok(p.data())]),
            AtomData::Unknown { code, data } => o.extend([u32::from(*code).to_string(), tok(data)]),
        }
    }
    json!({"id": ident_j(a.ident()), "k": "", "f": o, "fl": ""})
}

pub fn info(f: &[&str]) -> PictureInformation {
    PictureInformation { width: num(f[0]), height: num(f[1]), color_depth: num(f[2]), num_colors: num(f[3]) }
}

/// Build a concrete tag.
pub fn ctag(v: &Value) -> CTag {
    let items = arr(v, "items");
    let hd: Vec<&str> = arr(v, "hd").iter().filter_map(Value::as_str).collect();
    match s(v, "type") {
        "Id3v2" => {
            let mut t = Id3v2Tag::new();
            for i in items {
                t.insert(frame(i));
            }
            let mut fl = Id3v2TagFlags::default();
            for h in &hd {
                match *h {
                    "footer" => fl.footer = true,
                    "crc" => fl.crc = true,
                    "exp" => fl.experimental = true,
                    "unsync" => fl.unsynchronisation = true,
                    h if h.starts_with("restr") => fl.restrictions = Some(TagRestrictions::from_byte(num(&h[5..]))),
                    h => panic!("HARNESS: id3v2 flag {h}"),
                }
            }
            t.set_flags(fl);
            CTag::Id3v2(t)
        },
        "Ape" => {
            let mut t = ApeTag::new();
            t.read_only = hd.contains(&"ro");
            for i in items {
                t.push(ape_item(i));
            }
            CTag::Ape(t)
        },
        "VorbisComments" => {
            let mut t = VorbisComments::new();
            if let Some(h) = hd.first() {
                t.set_vendor(expand_s(h));
            }
            for i in items {
                if s(i, "k") == "pic" {
                    let x = fs(i);
                    let n = t.pictures().len();
                    t.set_picture(n, picture(&x[..4]), info(&x[4..]));
                } else {
                    t.push(s(i, "id").to_string(), expand_s(f(i, 0)));
                }
            }
            CTag::Vc(t)
        },
        "Mp4Ilst" => {
            // built the way the reader builds one: one atom after the other
            let mut t = Ilst::new();
            for i in items {
                t.insert(atom(i));
            }
            CTag::Ilst(t)
        },
        "RiffInfo" => {
            let mut t = RiffInfoList::new();
            for i in items {
                t.insert(s(i, "id").to_string(), expand_s(f(i, 0)));
            }
            CTag::Riff(t)
        },
        "AiffText" => {
            let mut t = AiffTextChunks::new();
            for i in items {
                match s(i, "id") {
                    "NAME" => t.name = Some(expand_s(f(i, 0))),
                    "AUTH" => t.author = Some(expand_s(f(i, 0))),
                    "(c) " => t.copyright = Some(expand_s(f(i, 0))),
                    "ANNO" => t.annotations.get_or_insert_with(Vec::new).push(expand_s(f(i, 0))),
                    "COMT" => t.comments.get_or_insert_with(Vec::new).push(Comment {
                        timestamp: num(f(i, 0)),
                        marker_id: num(f(i, 1)),
                        text: expand_s(f(i, 2)),
                    }),
                    x => panic!("HARNESS: aiff {x}"),
                }
            }
            CTag::Aiff(t)
        },
        "Id3v1" => {
            let mut t = Id3v1Tag::new();
            for i in items {
                let x = f(i, 0);
                match s(i, "id") {
                    "title" => t.title = Some(expand_s(x)),
                    "artist" => t.artist = Some(expand_s(x)),
                    "album" => t.album = Some(expand_s(x)),
                    "year" => t.year = Some(num(x)),
                    "comment" => t.comment = Some(expand_s(x)),
                    "track" => t.track_number = Some(num(x)),
                    "genre" => t.genre = Some(num(x)),
                    x => panic!("HARNESS: id3v1 {x}"),
                }
            }
            CTag::V1(t)
        },
        x => panic!("HARNESS: tag type {x}"),
    }
}

pub fn ape_item(i: &Value) -> ApeItem {
    let val = match s(i, "k") {
        "T" => ItemValue::Text(expand_s(f(i, 0))),
        "L" => ItemValue::Locator(expand_s(f(i, 0))),
        "B" => ItemValue::Binary(expand(f(i, 0))),
        x => panic!("HARNESS: ape kind {x}"),
    };
    let mut a = ApeItem::new(s(i, "id").to_string(), val).unwrap_or_else(|e| panic!("HARNESS: ape item {e}"));
    a.read_only = s(i, "fl") == "ro";
    a
}

pub fn pic_item(p: &Picture, inf: PictureInformation) -> Value {
    let mut v = picture_f(p);
    v.extend([inf.width.to_string(), inf.height.to_string(), inf.color_depth.to_string(), inf.num_colors.to_string()]);
    json!({"id": "pic", "k": "pic", "f": v, "fl": ""})
}

fn it(id: &str, k: &str, v: String) -> Value {
    json!({"id": id, "k": k, "f": [v], "fl": ""})
}

pub fn v2_j(t: &Id3v2Tag) -> Value {
    let mut hd = vec![];
    let fl = t.flags();
    if fl.footer {
        hd.push("footer".to_string());
    }
    if fl.crc {
        hd.push("crc".into());
    }
    if fl.experimental {
        hd.push("exp".into());
    }
    if fl.unsynchronisation {
        hd.push("unsync".into());
    }
    if let Some(r) = fl.restrictions {
        hd.push(format!("restr{}", r.as_bytes()));
    }
    json!({"type": "Id3v2", "hd": hd, "items": t.iter().map(frame_j).collect::<Vec<_>>()})
}
pub fn ape_j(t: &ApeTag) -> Value {
    let items: Vec<Value> = t
        .into_iter()
        .map(|i| {
            let (k, v) = crate::util::value_j(i.value());
            json!({"id": i.key(), "k": k, "f": [v], "fl": if i.read_only { "ro" } else { "" }})
        })
        .collect();
    let hd: Vec<&str> = if t.read_only { vec!["ro"] } else { vec![] };
    json!({"type": "Ape", "hd": hd, "items": items})
}
pub fn vc_j(t: &VorbisComments, extra: &[(Picture, PictureInformation)]) -> Value {
    let mut items: Vec<Value> = t.items().map(|(k, v)| it(k, "", tok(v.as_bytes()))).collect();
    items.extend(t.pictures().iter().chain(extra).map(|(p, i)| pic_item(p, *i)));
    json!({"type": "VorbisComments", "hd": [tok(t.vendor().as_bytes())], "items": items})
}
pub fn ilst_j(t: &Ilst) -> Value {
    json!({"type": "Mp4Ilst", "hd": [], "items": t.into_iter().map(atom_j).collect::<Vec<_>>()})
}
pub fn riff_j(t: &RiffInfoList) -> Value {
    let items: Vec<Value> = t.into_iter().map(|(k, v)| it(k, "", tok(v.as_bytes()))).collect();
    json!({"type": "RiffInfo", "hd": [], "items": items})
}
pub fn aiff_j(t: &AiffTextChunks) -> Value {
    let mut items = vec![];
    let tk = |x: &String| tok(x.as_bytes());
    if let Some(x) = &t.name {
        items.push(it("NAME", "", tk(x)));
    }
    if let Some(x) = &t.author {
        items.push(it("AUTH", "", tk(x)));
    }
    if let Some(x) = &t.copyright {
        items.push(it("(c) ", "", tk(x)));
    }
    for c in t.comments.iter().flatten() {
        items.push(json!({"id": "COMT", "k": "", "f": [c.timestamp.to_string(), c.marker_id.to_string(), tk(&c.text)], "fl": ""}));
    }
    for x in t.annotations.iter().flatten() {
        items.push(it("ANNO", "", tk(x)));
    }
    json!({"type": "AiffText", "hd": [], "items": items})
}
pub fn v1_j(t: &Id3v1Tag) -> Value {
    let mut items = vec![];
    for (n, x) in [("title", &t.title), ("artist", &t.artist), ("album", &t.album)] {
        if let Some(x) = x {
            items.push(it(n, "", tok(x.as_bytes())));
        }
    }
    if let Some(y) = t.year {
        items.push(it("year", "", y.to_string()));
    }
    if let Some(x) = &t.comment {
        items.push(it("comment", "", tok(x.as_bytes())));
    }
    if let Some(y) = t.track_number {
        items.push(it("track", "", y.to_string()));
    }
    if let Some(y) = t.genre {
        items.push(it("genre", "", y.to_string()));
    }
    json!({"type": "Id3v1", "hd": [], "items": items})
}
pub fn ctag_j(t: &CTag) -> Value {
    match t {
        CTag::Id3v2(x) => v2_j(x),
        CTag::Ape(x) => ape_j(x),
        CTag::Vc(x) => vc_j(x, &[]),
        CTag::Ilst(x) => ilst_j(x),
        CTag::Riff(x) => riff_j(x),
        CTag::Aiff(x) => aiff_j(x),
        CTag::V1(x) => v1_j(x),
    }
}
#[allow(dead_code)]
pub fn empty_j(t: TagType) -> Value {
    json!({"type": ty_name(t), "hd": [], "items": []})
}

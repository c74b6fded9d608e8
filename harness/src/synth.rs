//! Independent builders: a file is described by a format name and a list of
//! part tokens (the regions of the layout models); nothing here uses lofty.
use crate::util::expand;

pub fn be32(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}
pub fn le32(v: u32) -> [u8; 4] {
    v.to_le_bytes()
}
pub fn sync7(v: u32) -> [u8; 4] {
    [(v >> 21) as u8 & 0x7F, (v >> 14) as u8 & 0x7F, (v >> 7) as u8 & 0x7F, v as u8 & 0x7F]
}

/// name, +opts, #content, :args
pub struct Part<'a> {
    pub name: &'a str,
    pub opts: Vec<&'a str>,
    pub c: usize,
    pub args: Vec<usize>,
}
pub fn part(t: &str) -> Part<'_> {
    let (rest, args) = match t.split_once(':') {
        Some((r, a)) => (r, a.split(':').map(|x| x.parse().unwrap_or_else(|_| panic!("HARNESS: part {t}"))).collect()),
        None => (t, vec![]),
    };
    let (rest, c) = match rest.split_once('#') {
        Some((r, c)) => (r, c.parse().unwrap_or_else(|_| panic!("HARNESS: part {t}"))),
        None => (rest, 1),
    };
    let mut it = rest.split('+');
    Part { name: it.next().unwrap(), opts: it.collect(), c, args }
}
impl Part<'_> {
    pub fn has(&self, o: &str) -> bool {
        self.opts.contains(&o)
    }
    pub fn arg(&self, i: usize, d: usize) -> usize {
        self.args.get(i).copied().unwrap_or(d)
    }
    pub fn opt_n(&self, p: &str) -> Option<usize> {
        self.opts.iter().find_map(|o| o.strip_prefix(p).and_then(|x| x.parse().ok()))
    }
}

/// Pseudo random payload without 0xFF (no false frame syncs)
pub fn payload(n: usize, salt: usize) -> Vec<u8> {
    let mut v = expand(&format!("~b{n}.{salt}"));
    for b in &mut v {
        if *b == 0xFF {
            *b = 0x7E;
        }
    }
    v
}

// ---------------------------------------------------------------- ID3v2
pub fn unsync(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    for (i, x) in b.iter().enumerate() {
        o.push(*x);
        if *x == 0xFF && b.get(i + 1).is_none_or(|n| *n >= 0xE0 || *n == 0) {
            o.push(0);
        }
    }
    o
}

pub fn v2_frame(ver: u8, id: &str, content: &[u8]) -> Vec<u8> {
    let mut o = id.as_bytes().to_vec();
    let n = content.len() as u32;
    match ver {
        2 => o.extend(&be32(n)[1..]),
        3 => {
            o.extend(be32(n));
            o.extend([0, 0]);
        },
        _ => {
            o.extend(sync7(n));
            o.extend([0, 0]);
        },
    }
    o.extend(content);
    o
}

/// frames of the content variants used as "old" tags
pub fn v2_frames(ver: u8, c: usize) -> Vec<u8> {
    let id = |a: &'static str, b: &'static str| if ver == 2 { a } else { b };
    let txt = |s: &str| [&[0u8][..], s.as_bytes()].concat();
    let mut f = v2_frame(ver, id("TT2", "TIT2"), &txt(&format!("old title {c}")));
    if c >= 2 {
        f.extend(v2_frame(ver, id("TP1", "TPE1"), &txt("old artist")));
        let mut comm = vec![0];
        comm.extend(b"engd\0old comment");
        f.extend(v2_frame(ver, id("COM", "COMM"), &comm));
    }
    if c >= 3 {
        // binary data holding sync-like and tag-like bytes
        let mut b = b"owner\0".to_vec();
        b.extend([0xFF, 0xFB, 0x90, 0x00, 0xFF, 0xE0, 0xFF, 0x00]);
        b.extend(b"APETAGEX ID3 TAG 3DI");
        if ver > 2 {
            f.extend(v2_frame(ver, "PRIV", &b));
        }
    }
    f
}

pub fn id3v2(p: &Part) -> Vec<u8> {
    let ver: u8 = p.name[3..].parse().expect("HARNESS: id3v2 version");
    let frames = v2_frames(ver, p.c);
    id3v2_raw(ver, &frames, p.has("u"), p.has("x"), p.has("f"), p.opt_n("p").unwrap_or(0))
}

pub fn id3v2_raw(ver: u8, frames: &[u8], un: bool, ext: bool, footer: bool, pad: usize) -> Vec<u8> {
    let mut body = vec![];
    let mut flags = 0u8;
    let mut fr = frames.to_vec();
    if un && ver == 4 {
        flags |= 0x80; // all frames unsynchronised individually; flag each frame
        fr = vec![];
        let mut i = 0;
        while i + 10 <= frames.len() {
            let n = u32::from_be_bytes(frames[i + 4..i + 8].try_into().unwrap());
            let n = ((n >> 24 & 0x7F) << 21 | (n >> 16 & 0x7F) << 14 | (n >> 8 & 0x7F) << 7 | n & 0x7F) as usize;
            let c = unsync(&frames[i + 10..i + 10 + n]);
            fr.extend(&frames[i..i + 4]);
            fr.extend(sync7(c.len() as u32));
            fr.extend([frames[i + 8], frames[i + 9] | 2]);
            fr.extend(c);
            i += 10 + n;
        }
    }
    if ext {
        flags |= 0x40;
        if ver == 3 {
            // v2.3: size excludes itself, flags(2), padding size(4)
            body.extend(be32(6));
            body.extend([0, 0]);
            body.extend(be32(pad as u32));
        } else if ver == 4 {
            // v2.4: synchsafe size including itself, number of flag bytes, flags, data
            body.extend(sync7(8));
            body.extend([1, 0x10, 1, 0x00]); // restrictions present
        }
    }
    body.extend(&fr);
    body.extend(vec![0; if footer { 0 } else { pad }]);
    if un && ver <= 3 {
        flags |= 0x80;
        body = unsync(&body);
    }
    if footer {
        flags |= 0x10;
    }
    let mut o = b"ID3".to_vec();
    o.extend([ver, 0, flags]);
    o.extend(sync7(body.len() as u32));
    o.extend(&body);
    if footer {
        o.extend(b"3DI");
        o.extend([ver, 0, flags]);
        o.extend(sync7(body.len() as u32));
    }
    o
}

// ---------------------------------------------------------------- ID3v1 / Lyrics3 / APE
pub fn id3v1(c: usize) -> Vec<u8> {
    let mut o = b"TAG".to_vec();
    let f = |s: &str, n: usize| {
        let mut v = s.as_bytes().to_vec();
        v.resize(n, 0);
        v
    };
    o.extend(f(&format!("old v1 title {c}"), 30));
    o.extend(f("old v1 artist", 30));
    o.extend(f("", 30));
    o.extend(f("1999", 4));
    o.extend(f("old comment", 28));
    o.extend([0, 5, 17]);
    o
}
pub fn lyrics3v2() -> Vec<u8> {
    let mut o = b"LYRICSBEGININD0000200LYR00011la la la la".to_vec();
    o.truncate(o.len());
    let n = o.len();
    o.extend(format!("{n:06}").as_bytes());
    o.extend(b"LYRICS200");
    o
}
pub fn ape_items(c: usize) -> (Vec<u8>, u32) {
    let mut o = vec![];
    let mut n = 0;
    let mut add = |k: &str, v: &[u8], fl: u32| {
        o.extend(le32(v.len() as u32));
        o.extend(le32(fl));
        o.extend(k.as_bytes());
        o.push(0);
        o.extend(v);
        n += 1;
    };
    add("Title", format!("old ape title {c}").as_bytes(), 0);
    if c >= 2 {
        add("Artist", b"a\0b", 0);
        add("Custom", &[1, 2, 3, 0, 0xFF, 0xFB], 2);
    }
    if c >= 3 {
        add("Locked", b"read only", 1);
    }
    (o, n)
}
/// opts: h = with header, 1 = version 1000 (footer only)
pub fn ape(p: &Part) -> Vec<u8> {
    let (items, n) = ape_items(p.c);
    let v1 = p.has("1");
    let hdr = p.has("h");
    let blk = |is_header: bool| {
        let mut b = b"APETAGEX".to_vec();
        b.extend(le32(if v1 { 1000 } else { 2000 }));
        b.extend(le32(items.len() as u32 + 32));
        b.extend(le32(n));
        let mut fl = 0u32;
        if hdr {
            fl |= 1 << 31;
        }
        if is_header {
            fl |= 1 << 29;
        }
        if v1 {
            fl = 0;
        }
        b.extend(le32(fl));
        b.extend([0; 8]);
        b
    };
    let mut o = vec![];
    if hdr {
        o.extend(blk(true));
    }
    o.extend(&items);
    o.extend(blk(false));
    o
}

// ---------------------------------------------------------------- audio streams
fn magic(p: &Part, v: &mut [u8]) {
    // tag signatures inside the audio must not be taken for tags
    if p.has("magic") {
        let m: [&[u8]; 4] = [b"ID3\x04\0\0\0\0\0\x05", b"APETAGEX", b"TAG", b"LYRICS200"];
        let mut at = 8;
        for x in m {
            if at + x.len() < v.len() {
                v[at..at + x.len()].copy_from_slice(x);
            }
            at += 14;
        }
    }
}

pub fn mpeg_audio(p: &Part) -> Vec<u8> {
    // MPEG1 layer 3, 32 kbit/s, 44100 Hz stereo -> 104 bytes
    let n = p.arg(0, 12);
    let mut o = vec![];
    for i in 0..n {
        let mut b = payload(100, i + 1);
        b[..36].fill(0);
        if i == n / 2 {
            magic(p, &mut b);
        }
        o.extend([0xFF, 0xFB, 0x10, 0x00]);
        o.extend(b);
    }
    o
}
pub fn adts_audio(p: &Part) -> Vec<u8> {
    let n = p.arg(0, 12);
    let mut o = vec![];
    for i in 0..n {
        let mut b = payload(93, i + 1);
        if i == n / 2 {
            magic(p, &mut b);
        }
        let len = b.len() + 7;
        // MPEG-4, no CRC; AAC LC, 44100 Hz, stereo
        o.extend([0xFF, 0xF1, 0x50, 0x80 | (len >> 11) as u8, (len >> 3) as u8, ((len & 7) << 5) as u8 | 0x1F, 0xFC]);
        o.extend(b);
    }
    o
}
pub fn mac_audio(p: &Part) -> Vec<u8> {
    let mut o = b"MAC ".to_vec();
    o.extend(3990u16.to_le_bytes());
    o.extend([0, 0]);
    o.extend(le32(52)); // descriptor length
    o.extend(le32(24));
    o.extend(le32(0));
    o.extend([0; 32]);
    // header
    o.extend(2000u16.to_le_bytes());
    o.extend(0u16.to_le_bytes());
    o.extend(le32(73728));
    o.extend(le32(1000));
    o.extend(le32(3));
    o.extend(16u16.to_le_bytes());
    o.extend(2u16.to_le_bytes());
    o.extend(le32(44100));
    let mut b = payload(p.arg(0, 400), 7);
    magic(p, &mut b);
    o.extend(b);
    o
}
pub fn wv_audio(p: &Part) -> Vec<u8> {
    let n = p.arg(0, 3);
    let mut o = vec![];
    for i in 0..n {
        let mut b = payload(160, i + 3);
        if i == n / 2 {
            magic(p, &mut b);
        }
        o.extend(b"wvpk");
        o.extend(le32(24 + b.len() as u32));
        o.extend(0x410u16.to_le_bytes());
        o.extend([0, 0]);
        o.extend(le32(3000));
        o.extend(le32(1000 * i as u32));
        o.extend(le32(1000));
        o.extend(le32(0x1800 | 1 | (9 << 23))); // initial+final, 16 bit, 44100
        o.extend(le32(0xDEAD_BEEF));
        o.extend(b);
    }
    o
}
pub fn mpc_audio(p: &Part) -> Vec<u8> {
    let mut b = payload(p.arg(0, 300), 5);
    magic(p, &mut b);
    let mut o;
    if p.has("sv7") {
        o = b"MP+\x07".to_vec();
        o.extend(le32(100));
        o.extend(le32((0x40u32 | 20) << 24 | (0xA0) << 16 | 1000));
        o.extend([0; 8]);
        o.extend(le32((1 << 31) | (500 << 20) | (1 << 19)));
        o.push(106);
        o.extend([0; 3]);
        o.extend(b);
    } else if p.has("sv5") {
        o = le32((5 << 11) | (20 << 6) | 1).to_vec();
        o.extend(le32(100));
        o.extend([0; 24]);
        o.extend(b);
    } else {
        o = b"MPCK".to_vec();
        let mut pk = |k: &[u8], c: &[u8]| {
            o.extend(k);
            // the size counts the key and itself
            let mut w = 1;
            while c.len() + 2 + w >= 1 << (7 * w) {
                w += 1;
            }
            let n = c.len() + 2 + w;
            for k in (0..w).rev() {
                o.push((n >> (7 * k)) as u8 & 0x7F | if k > 0 { 0x80 } else { 0 });
            }
            o.extend(c);
        };
        pk(b"SH", &[1, 2, 3, 4, 8, 0x81, 0x80, 0x00, 0x00, 0x05, 0x18]);
        pk(b"RG", &[1, 0, 0, 0, 0, 0, 0, 0, 0]);
        pk(b"EI", &[0x28, 1, 30, 0]);
        pk(b"AP", &b);
        pk(b"SE", &[]);
    }
    o
}

// ---------------------------------------------------------------- IFF
fn chunk(o: &mut Vec<u8>, be: bool, id: &[u8], c: &[u8]) {
    o.extend(id);
    let n = c.len() as u32;
    o.extend(if be { n.to_be_bytes() } else { n.to_le_bytes() });
    o.extend(c);
    if c.len() % 2 == 1 {
        o.push(0);
    }
}
pub fn info_list(c: usize) -> Vec<u8> {
    let mut l = b"INFO".to_vec();
    let mut add = |k: &[u8], v: &str| {
        let mut b = v.as_bytes().to_vec();
        b.push(0);
        chunk(&mut l, false, k, &b);
    };
    add(b"INAM", &format!("old riff title {c}"));
    if c >= 2 {
        add(b"IART", "abc");
        add(b"IXYZ", "x");
    }
    l
}
pub fn wav(parts: &[&str]) -> Vec<u8> {
    let mut b = b"WAVE".to_vec();
    let mut tail = vec![];
    for t in parts {
        let p = part(t);
        match p.name {
            "fmt" => {
                let mut c = vec![];
                c.extend(1u16.to_le_bytes());
                c.extend(2u16.to_le_bytes());
                c.extend(le32(44100));
                c.extend(le32(44100 * 4));
                c.extend(4u16.to_le_bytes());
                c.extend(16u16.to_le_bytes());
                chunk(&mut b, false, b"fmt ", &c);
            },
            "data" => {
                let mut c = payload(p.arg(0, 400), 11);
                magic(&p, &mut c);
                if p.has("magic") {
                    c[80..84].copy_from_slice(b"LIST");
                    c[90..94].copy_from_slice(b"id3 ");
                }
                chunk(&mut b, false, b"data", &c);
            },
            "INFO" => {
                let mut l = info_list(p.c);
                if p.has("odd") {
                    l.extend([b'I', b'C', b'O', b'P', 1, 0, 0, 0, b'z']); // last value unpadded: odd LIST size
                }
                chunk(&mut b, false, b"LIST", &l);
            },
            "adtl" => chunk(&mut b, false, b"LIST", b"adtllabl\x06\0\0\0\x01\0\0\0a\0"),
            "id3" => {
                let mut c = id3v2_raw(4, &v2_frames(4, p.c), false, p.has("x"), false, p.opt_n("p").unwrap_or(0));
                if p.has("odd") && c.len() % 2 == 0 {
                    let f = [v2_frames(4, p.c), v2_frame(4, "TALB", &[0, b'o', b'd', b'd', b'!', b'x', b'y'])].concat();
                    c = id3v2_raw(4, &f, false, false, false, p.opt_n("p").unwrap_or(0));
                }
                chunk(&mut b, false, if p.has("up") { b"ID3 " } else { b"id3 " }, &c);
            },
            "fact" => chunk(&mut b, false, b"fact", &le32(100)),
            "JUNK" => chunk(&mut b, false, b"JUNK", &vec![0; p.arg(0, 28)]),
            "cue" => chunk(&mut b, false, b"cue ", &[le32(0)].concat()),
            "unk" => chunk(&mut b, false, b"unkn", &payload(p.arg(0, 13), 21)),
            "noise" => tail = payload(p.arg(0, 9), 22),
            x => panic!("HARNESS: wav part {x}"),
        }
    }
    let mut o = b"RIFF".to_vec();
    o.extend(le32(b.len() as u32));
    o.extend(b);
    o.extend(tail);
    o
}
pub fn aiff(parts: &[&str]) -> Vec<u8> {
    let aifc = parts.contains(&"aifc");
    let mut b = if aifc { b"AIFC".to_vec() } else { b"AIFF".to_vec() };
    let mut tail = vec![];
    for t in parts {
        let p = part(t);
        match p.name {
            "aifc" => {},
            "COMM" => {
                let mut c = vec![];
                c.extend(2u16.to_be_bytes());
                c.extend(be32(1000));
                c.extend(16u16.to_be_bytes());
                c.extend([0x40, 0x0E, 0xAC, 0x44, 0, 0, 0, 0, 0, 0]); // 44100 as 80 bit float
                if aifc {
                    c.extend(b"NONE");
                    c.extend(b"\x0enot compressed\0");
                }
                chunk(&mut b, true, b"COMM", &c);
            },
            "SSND" => {
                let mut c = vec![0; 8];
                c.extend(payload(p.arg(0, 400), 12));
                magic(&p, &mut c[8..]);
                chunk(&mut b, true, b"SSND", &c);
            },
            "NAME" | "AUTH" | "ANNO" => {
                let mut s = format!("old {} {}", p.name, p.c).into_bytes();
                if p.has("odd") != (s.len() % 2 == 1) {
                    s.push(b'!');
                }
                chunk(&mut b, true, p.name.as_bytes(), &s);
            },
            "(c)" => chunk(&mut b, true, b"(c) ", b"old copyright"),
            "COMT" => {
                let mut c = (p.c as u16).to_be_bytes().to_vec();
                for i in 0..p.c {
                    c.extend(be32(i as u32 + 7));
                    c.extend([0, 0]);
                    let s = if p.has("odd") { "abc" } else { "abcd" };
                    c.extend((s.len() as u16).to_be_bytes());
                    c.extend(s.as_bytes());
                    if s.len() % 2 == 1 {
                        c.push(0);
                    }
                }
                chunk(&mut b, true, b"COMT", &c);
            },
            "ID3" => {
                let c = id3v2_raw(4, &v2_frames(4, p.c), false, p.has("x"), false, p.opt_n("p").unwrap_or(0));
                chunk(&mut b, true, if p.has("lo") { b"id3 " } else { b"ID3 " }, &c);
            },
            "MARK" => chunk(&mut b, true, b"MARK", &[0, 0]),
            "FVER" => chunk(&mut b, true, b"FVER", &[0xA2, 0x80, 0x51, 0x40]),
            "unk" => chunk(&mut b, true, b"unkn", &payload(p.arg(0, 13), 21)),
            "noise" => tail = payload(p.arg(0, 9), 22),
            x => panic!("HARNESS: aiff part {x}"),
        }
    }
    let mut o = b"FORM".to_vec();
    o.extend(be32(b.len() as u32));
    o.extend(b);
    o.extend(tail);
    o
}

// ---------------------------------------------------------------- Vorbis comments / pictures
pub fn comments(c: usize, vendor: &str) -> Vec<u8> {
    let mut l: Vec<String> = vec![format!("TITLE=old vc title {c}")];
    if c >= 2 {
        l.push("ARTIST=a".into());
        l.push("ARTIST=b".into());
        l.push("X_CUSTOM=y=z".into());
    }
    let mut o = le32(vendor.len() as u32).to_vec();
    o.extend(vendor.as_bytes());
    if c == 0 {
        o.extend(le32(0));
        return o;
    }
    if c >= 3 {
        l.push(format!("FILLER={}", "f".repeat(c * 1000)));
    }
    o.extend(le32(l.len() as u32));
    for s in l {
        o.extend(le32(s.len() as u32));
        o.extend(s.as_bytes());
    }
    o
}
pub fn flac_picture(c: usize, data: &[u8]) -> Vec<u8> {
    let mut o = be32(if c == 1 { 3 } else { 4 }).to_vec();
    o.extend(be32(9));
    o.extend(b"image/png");
    o.extend(be32(3));
    o.extend(b"pic");
    for x in [1u32, 2, 24, 0] {
        o.extend(be32(x));
    }
    o.extend(be32(data.len() as u32));
    o.extend(data);
    o
}
pub fn flac(parts: &[&str]) -> Vec<u8> {
    let mut o = vec![];
    let mut blocks: Vec<(u8, Vec<u8>)> = vec![];
    let mut audio = vec![];
    for t in parts {
        let p = part(t);
        match p.name {
            n if n.starts_with("v2.") => o.extend(id3v2(&p)),
            "junk" => o.extend(vec![0x11; p.arg(0, 10)]),
            "SI" => {
                let mut s = vec![];
                s.extend(4096u16.to_be_bytes());
                s.extend(4096u16.to_be_bytes());
                s.extend([0; 6]);
                // 20 bits rate 44100, 3 bits channels-1, 5 bits bps-1, 36 bits samples
                let v: u64 = (44100u64 << 44) | (1u64 << 41) | (15u64 << 36) | 88200;
                s.extend(v.to_be_bytes());
                s.extend([0xAB; 16]);
                blocks.push((0, s));
            },
            "PAD" => blocks.push((1, vec![0; p.arg(0, 100)])),
            "APPL" => blocks.push((2, [&b"test"[..], &payload(p.arg(0, 12), 31)].concat())),
            "SEEK" => blocks.push((3, payload(18 * p.arg(0, 2), 32))),
            "VC" => blocks.push((4, comments(p.c, "old vendor"))),
            "CUE" => blocks.push((5, payload(p.arg(0, 396), 33))),
            "PIC" => blocks.push((6, flac_picture(p.c, &payload(p.arg(0, 50), 34 + p.c)))),
            "RES" => blocks.push((100, payload(p.arg(0, 9), 35))),
            "audio" => {
                audio = vec![0xFF, 0xF8, 0xC9, 0x18, 0x00];
                let mut b = payload(p.arg(0, 300), 36);
                magic(&p, &mut b);
                audio.extend(b);
            },
            x => panic!("HARNESS: flac part {x}"),
        }
    }
    o.extend(b"fLaC");
    let n = blocks.len();
    for (i, (ty, c)) in blocks.iter().enumerate() {
        o.push(*ty | if i + 1 == n { 0x80 } else { 0 });
        o.extend(&be32(c.len() as u32)[1..]);
        o.extend(c);
    }
    o.extend(audio);
    o
}

// ---------------------------------------------------------------- Ogg
pub fn ogg_crc(b: &[u8]) -> u32 {
    let mut c: u32 = 0;
    for &x in b {
        c ^= u32::from(x) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 };
        }
    }
    c
}
pub fn ogg_page(flags: u8, gran: u64, serial: u32, seq: u32, lacing: &[u8], body: &[u8]) -> Vec<u8> {
    let mut o = b"OggS\0".to_vec();
    o.push(flags);
    o.extend(gran.to_le_bytes());
    o.extend(le32(serial));
    o.extend(le32(seq));
    o.extend(le32(0));
    o.push(lacing.len() as u8);
    o.extend(lacing);
    o.extend(body);
    let c = ogg_crc(&o);
    o[22..26].copy_from_slice(&le32(c));
    o
}
/// lay out packets into pages of at most `segs` segments; returns pages
pub fn ogg_pages(pk: &[Vec<u8>], serial: u32, seq: &mut u32, gran: u64, segs: usize, bos: bool) -> Vec<u8> {
    let mut lac: Vec<(u8, bool)> = vec![]; // (lacing, ends packet)
    let mut body = vec![];
    for p in pk {
        let mut n = p.len();
        loop {
            let l = n.min(255);
            lac.push((l as u8, l < 255));
            n -= l;
            if l < 255 {
                break;
            }
        }
        body.extend(p);
    }
    let mut o = vec![];
    let mut at = 0;
    let mut cont = false;
    let mut first = bos;
    for ch in lac.chunks(segs) {
        let l: Vec<u8> = ch.iter().map(|x| x.0).collect();
        let n: usize = l.iter().map(|x| *x as usize).sum();
        let ends = ch.iter().any(|x| x.1);
        let mut fl = if cont { 1 } else { 0 };
        if first {
            fl |= 2;
            first = false;
        }
        o.extend(ogg_page(fl, if ends { gran } else { u64::MAX }, serial, *seq, &l, &body[at..at + n]));
        *seq += 1;
        at += n;
        cont = !ch.last().unwrap().1;
    }
    o
}
/// fmt: vorbis | opus | speex ; parts: "vc#c[+own][+pN]" "setup:N" "audio:pages:size" "chain" "noise:N" "mux"
pub fn ogg(fmt: &str, parts: &[&str]) -> Vec<u8> {
    let mut o = vec![];
    let mut serial = 0x1234;
    let mut seq = 0;
    let mut setup = 300;
    let mut vcp = part("vc#1");
    for t in parts {
        let p = part(t);
        match p.name {
            "vc" => vcp = part(t),
            "setup" => setup = p.arg(0, 300),
            _ => {},
        }
    }
    let headers = |serial: u32, seq: &mut u32| {
        let vc = comments(vcp.c, "old vendor");
        let mut h = vec![];
        let segs = vcp.opt_n("s").unwrap_or(255);
        match fmt {
            "vorbis" => {
                let mut id = b"\x01vorbis".to_vec();
                id.extend(le32(0));
                id.push(2);
                id.extend(le32(44100));
                id.extend(le32(0));
                id.extend(le32(128_000));
                id.extend(le32(0));
                id.extend([0xB8, 1]);
                h.extend(ogg_pages(&[id], serial, seq, 0, 255, true));
                let mut c = b"\x03vorbis".to_vec();
                c.extend(&vc);
                c.push(1);
                if let Some(n) = vcp.opt_n("p") {
                    c.extend(vec![0; n]);
                }
                let mut s = b"\x05vorbis".to_vec();
                s.extend(payload(setup, 41));
                if vcp.has("own") {
                    h.extend(ogg_pages(&[c], serial, seq, 0, segs, false));
                    h.extend(ogg_pages(&[s], serial, seq, 0, segs, false));
                } else {
                    h.extend(ogg_pages(&[c, s], serial, seq, 0, segs, false));
                }
            },
            "opus" => {
                let mut id = b"OpusHead\x01\x02".to_vec();
                id.extend(312u16.to_le_bytes());
                id.extend(le32(48000));
                id.extend([0, 0, 0]);
                h.extend(ogg_pages(&[id], serial, seq, 0, 255, true));
                let mut c = b"OpusTags".to_vec();
                c.extend(&vc);
                if let Some(n) = vcp.opt_n("p") {
                    c.extend(vec![0; n]);
                }
                h.extend(ogg_pages(&[c], serial, seq, 0, segs, false));
            },
            _ => {
                let mut id = b"Speex   ".to_vec();
                id.extend(b"1.2.1\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0");
                for x in [1u32, 80, 16000, 1, 4, 1, 16000, 320, 0, 1, 0, 0, 0] {
                    id.extend(le32(x));
                }
                h.extend(ogg_pages(&[id], serial, seq, 0, 255, true));
                h.extend(ogg_pages(&[vc.clone()], serial, seq, 0, segs, false));
            },
        }
        h
    };
    let streams = 1 + parts.iter().filter(|p| **p == "chain").count();
    let mut audio_sz = (3usize, 120usize);
    for t in parts {
        let p = part(t);
        if p.name == "audio" {
            audio_sz = (p.arg(0, 3), p.arg(1, 120));
        }
    }
    let mux = parts.contains(&"mux");
    for _ in 0..streams {
        if mux {
            // a second logical stream, grouped: both BOS pages come first
            let mut both = headers(serial, &mut seq);
            let first_len = page_len(&both);
            let rest = both.split_off(first_len);
            o.extend(&both);
            let mut oseq = 0;
            o.extend(ogg_pages(&[b"fishead\0mux".to_vec()], 0x999, &mut oseq, 0, 255, true));
            o.extend(rest);
            o.extend(ogg_page(0, 5, 0x999, 1, &[4], b"muxd"));
        } else {
            o.extend(headers(serial, &mut seq));
        }
        for i in 0..audio_sz.0 {
            let b = payload(audio_sz.1, 50 + i);
            let mut lac = vec![255u8; b.len() / 255];
            lac.push((b.len() % 255) as u8);
            let last = i + 1 == audio_sz.0;
            let (mut at, mut cont) = (0, 0);
            while lac.len() > 255 {
                o.extend(ogg_page(cont, u64::MAX, serial, seq, &lac[..255], &b[at..at + 65025]));
                lac.drain(..255);
                at += 65025;
                cont = 1;
                seq += 1;
            }
            o.extend(ogg_page(cont | if last { 4 } else { 0 }, 48000 * (i as u64 + 1), serial, seq, &lac, &b[at..]));
            seq += 1;
        }
        if mux {
            o.extend(ogg_page(4, 9, 0x999, 2, &[4], b"muxe"));
        }
        serial += 1;
        seq = 0;
    }
    for t in parts {
        let p = part(t);
        if p.name == "noise" {
            o.extend(payload(p.arg(0, 9), 22));
        }
    }
    o
}
pub fn page_len(b: &[u8]) -> usize {
    let n = b[26] as usize;
    27 + n + b[27..27 + n].iter().map(|x| *x as usize).sum::<usize>()
}

// ---------------------------------------------------------------- MP4
/// tokens: nested "name[child,child]" text; "@64" extended size, "@0" size 0 (to EOF)
struct Fix {
    at: usize,
    wide: bool,
    rel: usize,
}
pub struct Mp4 {
    out: Vec<u8>,
    fix: Vec<Fix>,
    mdat: Option<usize>,
}
fn split_children(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let (mut d, mut st) = (0, 0);
    for (i, c) in s.char_indices() {
        match c {
            '[' => d += 1,
            ']' => d -= 1,
            ',' if d == 0 => {
                v.push(&s[st..i]);
                st = i + 1;
            },
            _ => {},
        }
    }
    if st < s.len() {
        v.push(&s[st..]);
    }
    v
}
impl Mp4 {
    fn atom(&mut self, id: &[u8; 4], size_mode: &str, f: impl FnOnce(&mut Self)) {
        let st = self.out.len();
        self.out.extend([0, 0, 0, 0]);
        self.out.extend(id);
        if size_mode == "64" {
            self.out.extend([0; 8]);
        }
        f(self);
        let n = self.out.len() - st;
        match size_mode {
            "64" => {
                self.out[st..st + 4].copy_from_slice(&be32(1));
                self.out[st + 8..st + 16].copy_from_slice(&(n as u64).to_be_bytes());
            },
            "0" => {},
            _ => self.out[st..st + 4].copy_from_slice(&be32(n as u32)),
        }
    }
    fn add(&mut self, tok: &str) {
        let (head, kids) = match tok.split_once('[') {
            Some((h, k)) => (h, split_children(&k[..k.len() - 1])),
            None => (tok, vec![]),
        };
        let (head, sm) = head.split_once('@').map_or((head, ""), |(h, s)| (h, s));
        let p = part(head);
        match p.name {
            "ftyp" => self.atom(b"ftyp", sm, |s| s.out.extend(b"M4A \0\0\x02\0M4A mp42")),
            "free" => self.atom(b"free", sm, |s| s.out.extend(vec![0; p.arg(0, 0)])),
            "skip" => self.atom(b"skip", sm, |s| s.out.extend(vec![0; p.arg(0, 4)])),
            "uuid" => self.atom(b"uuid", sm, |s| s.out.extend(payload(16 + p.arg(0, 8), 60))),
            "unkn" => self.atom(b"unkn", sm, |s| s.out.extend(payload(p.arg(0, 9), 61))),
            "mdat" => {
                let n = p.arg(0, 200);
                self.atom(b"mdat", sm, |s| {
                    s.mdat.get_or_insert(s.out.len());
                    let mut b = payload(n, 62);
                    magic(&p, &mut b);
                    s.out.extend(b);
                });
            },
            "moov" | "udta" | "mdia" | "minf" | "stbl" | "edts" | "moof" | "mvex" => {
                let id: [u8; 4] = p.name.as_bytes().try_into().unwrap();
                self.atom(&id, sm, |s| kids.iter().for_each(|k| s.add(k)));
            },
            "meta" => self.atom(b"meta", sm, |s| {
                if !p.has("qt") {
                    s.out.extend([0; 4]);
                }
                kids.iter().for_each(|k| s.add(k));
            }),
            "mvhd" => self.atom(b"mvhd", sm, |s| {
                let mut b = vec![0; 100];
                b[12..16].copy_from_slice(&be32(1000));
                b[16..20].copy_from_slice(&be32(2000));
                s.out.extend(b);
            }),
            "hdlr" => self.atom(b"hdlr", sm, |s| {
                s.out.extend([0; 8]);
                s.out.extend(b"mdirappl");
                s.out.extend([0; 9]);
            }),
            "chpl" => self.atom(b"chpl", sm, |s| s.out.extend(payload(17, 63))),
            "name" => self.atom(b"name", sm, |s| s.out.extend(b"trackname")),
            "ilst" => self.atom(b"ilst", sm, |s| {
                s.text_atom(b"\xa9nam", &format!("old mp4 title {}", p.c));
                if p.c >= 2 {
                    s.text_atom(b"\xa9ART", "old artist");
                    s.atom(b"trkn", "", |s| s.data(0, &[0, 0, 0, 3, 0, 9, 0, 0]));
                    s.atom(b"----", "", |s| {
                        s.atom(b"mean", "", |s| s.out.extend(b"\0\0\0\0com.x"));
                        s.atom(b"name", "", |s| s.out.extend(b"\0\0\0\0NAME"));
                        s.data(1, b"free form");
                    });
                }
                if p.c >= 3 {
                    s.text_atom(b"\xa9cmt", &"c".repeat(1000 * p.c));
                }
                if p.c == 0 {
                    let _ = s;
                }
            }),
            "ilst0" => self.atom(b"ilst", sm, |_| {}),
            // trak+stco | trak+co64 ; args: number of chunk offsets
            "trak" => self.atom(b"trak", sm, |s| {
                s.atom(b"tkhd", "", |s| s.out.extend(vec![0; 84]));
                let mdia = |s: &mut Self| {
                    s.atom(b"mdia", "", |s| {
                        s.atom(b"mdhd", "", |s| {
                            let mut b = vec![0; 24];
                            b[12..16].copy_from_slice(&be32(44100));
                            b[16..20].copy_from_slice(&be32(88200));
                            s.out.extend(b);
                        });
                        s.atom(b"hdlr", "", |s| {
                            s.out.extend([0; 8]);
                            s.out.extend(if p.has("text") { b"text" } else { b"soun" });
                            s.out.extend([0; 13]);
                        });
                        s.atom(b"minf", "", |s| {
                            s.atom(b"smhd", "", |s| s.out.extend([0; 8]));
                            s.atom(b"stbl", "", |s| {
                                s.stsd();
                                s.atom(b"stts", "", |s| s.out.extend([0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 86, 0, 0, 4, 0]));
                                s.offsets(p.has("co64"), p.arg(0, 3), p.opt_n("r").unwrap_or(0));
                                if p.has("both") {
                                    s.offsets(true, p.arg(0, 3), 7);
                                }
                            });
                        });
                    });
                };
                if p.has("udtafirst") {
                    kids.iter().for_each(|k| s.add(k));
                    mdia(s);
                } else {
                    mdia(s);
                    kids.iter().for_each(|k| s.add(k));
                }
            }),
            "mfhd" => self.atom(b"mfhd", sm, |s| s.out.extend([0, 0, 0, 0, 0, 0, 0, 1])),
            "traf" => self.atom(b"traf", sm, |s| {
                // tfhd with base-data-offset-present
                s.atom(b"tfhd", "", |s| {
                    let abs = p.has("abs");
                    s.out.extend(if abs { [0, 0, 0, 1] } else { [0, 2, 0, 0] });
                    s.out.extend(be32(1));
                    if abs {
                        s.fix.push(Fix { at: s.out.len(), wide: true, rel: p.arg(0, 20) });
                        s.out.extend([0; 8]);
                    }
                });
                s.atom(b"trun", "", |s| s.out.extend([0, 0, 0, 0, 0, 0, 0, 1]));
            }),
            "trex" => self.atom(b"trex", sm, |s| s.out.extend([0; 24])),
            "noise" => self.out.extend(payload(p.arg(0, 5), 22)),
            x => panic!("HARNESS: mp4 part {x}"),
        }
    }
    fn data(&mut self, code: u32, b: &[u8]) {
        self.atom(b"data", "", |s| {
            s.out.extend(be32(code));
            s.out.extend([0; 4]);
            s.out.extend(b);
        });
    }
    fn text_atom(&mut self, id: &[u8; 4], v: &str) {
        self.atom(id, "", |s| s.data(1, v.as_bytes()));
    }
    fn offsets(&mut self, wide: bool, n: usize, rel0: usize) {
        self.atom(if wide { b"co64" } else { b"stco" }, "", |s| {
            s.out.extend([0; 4]);
            s.out.extend(be32(n as u32));
            for i in 0..n {
                s.fix.push(Fix { at: s.out.len(), wide, rel: rel0 + i * 50 });
                s.out.extend(if wide { vec![0; 8] } else { vec![0; 4] });
            }
        });
    }
    fn stsd(&mut self) {
        self.atom(b"stsd", "", |s| {
            s.out.extend([0, 0, 0, 0, 0, 0, 0, 1]);
            s.atom(b"mp4a", "", |s| {
                s.out.extend([0, 0, 0, 0, 0, 0, 0, 1]);
                s.out.extend([0; 8]);
                s.out.extend(2u16.to_be_bytes());
                s.out.extend(16u16.to_be_bytes());
                s.out.extend([0; 4]);
                s.out.extend(be32(44100 << 16));
                s.atom(b"esds", "", |s| {
                    s.out.extend([0; 4]);
                    s.out.extend([0x03, 25, 0, 1, 0, 0x04, 17, 0x40, 0x15, 0, 0, 0]);
                    s.out.extend(be32(128_000));
                    s.out.extend(be32(128_000));
                    s.out.extend([0x05, 2, 0x12, 0x10, 0x06, 1, 2]);
                });
            });
        });
    }
}
pub fn mp4(parts: &[&str]) -> Vec<u8> {
    let mut m = Mp4 { out: vec![], fix: vec![], mdat: None };
    for t in parts {
        m.add(t);
    }
    let base = m.mdat.unwrap_or(0);
    for f in &m.fix {
        let v = (base + f.rel) as u64;
        if f.wide {
            m.out[f.at..f.at + 8].copy_from_slice(&v.to_be_bytes());
        } else {
            m.out[f.at..f.at + 4].copy_from_slice(&be32(v as u32));
        }
    }
    m.out
}

// ---------------------------------------------------------------- entry
pub fn build(fmt: &str, parts: &[&str]) -> Vec<u8> {
    match fmt {
        "wav" => wav(parts),
        "aiff" => aiff(parts),
        "flac" => flac(parts),
        "vorbis" | "opus" | "speex" => ogg(fmt, parts),
        "mp4" => mp4(parts),
        _ => {
            let mut o = vec![];
            for t in parts {
                let p = part(t);
                match p.name {
                    n if n.starts_with("v2.") => o.extend(id3v2(&p)),
                    "ape" => o.extend(ape(&p)),
                    "v1" => o.extend(id3v1(p.c)),
                    "lyr" => o.extend(lyrics3v2()),
                    "junk" => o.extend(vec![0x11; p.arg(0, 10)]),
                    "zero" => o.extend(vec![0; p.arg(0, 10)]),
                    "noise" => o.extend(payload(p.arg(0, 9), 22)),
                    "audio" => o.extend(match fmt {
                        "mpeg" => mpeg_audio(&p),
                        "aac" => adts_audio(&p),
                        "ape" => mac_audio(&p),
                        "wv" => wv_audio(&p),
                        "mpc" => mpc_audio(&p),
                        x => panic!("HARNESS: format {x}"),
                    }),
                    x => panic!("HARNESS: part {x}"),
                }
            }
            o
        },
    }
}

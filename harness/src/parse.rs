//! Independent structural parsers (no lofty code): bytes -> the abstract file
//! the layout specification speaks about.
use crate::synth::{ogg_crc, page_len};
use crate::util::hash;
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct P {
    pub decl: Vec<(String, u64, u64)>,
    pub units: Vec<(String, String)>,
    pub audio: Vec<String>,
    pub refs: Vec<String>,
    pub raw: BTreeMap<&'static str, usize>,
    pub pad: usize,
}
impl P {
    fn decl(&mut self, w: impl Into<String>, d: usize, a: usize) {
        self.decl.push((w.into(), d as u64, a as u64));
    }
    fn unit(&mut self, id: impl Into<String>, b: &[u8]) {
        self.units.push((id.into(), hash(b)));
    }
    fn raw(&mut self, t: &'static str) {
        *self.raw.entry(t).or_default() += 1;
    }
    pub fn json(&self) -> Value {
        // only declarations that fail are interesting, but the count shows they were looked at
        let bad: Vec<Value> = self
            .decl
            .iter()
            .filter(|(_, d, a)| d != a)
            .map(|(w, d, a)| json!({"w": w, "d": d.to_string(), "a": a.to_string()}))
            .collect();
        let mut raw: Vec<Value> = vec![];
        for (t, n) in &self.raw {
            raw.push(json!({"ty": t, "n": n}));
        }
        json!({
            "ndecl": self.decl.len(), "decl": bad,
            "units": self.units.iter().map(|(a, b)| json!({"id": a, "h": b})).collect::<Vec<_>>(),
            "audio": self.audio, "refs": self.refs, "raw": raw, "pad": self.pad,
        })
    }
}

fn b32(b: &[u8], i: usize) -> usize {
    b.get(i..i + 4).map_or(0, |x| u32::from_be_bytes(x.try_into().unwrap()) as usize)
}
fn l32(b: &[u8], i: usize) -> usize {
    b.get(i..i + 4).map_or(0, |x| u32::from_le_bytes(x.try_into().unwrap()) as usize)
}
fn b64(b: &[u8], i: usize) -> usize {
    b.get(i..i + 8).map_or(0, |x| u64::from_be_bytes(x.try_into().unwrap()) as usize)
}
fn sync(b: &[u8], i: usize) -> usize {
    (0..4).fold(0, |a, k| a << 7 | (*b.get(i + k).unwrap_or(&0) & 0x7F) as usize)
}

/// ID3v2 tag at the front of `b`: total length; frame walk checked
fn v2_at(p: &mut P, b: &[u8], wh: &str) -> Option<usize> {
    if b.len() < 10 || &b[..3] != b"ID3" || b[3] == 0xFF || b[6..10].iter().any(|x| x & 0x80 != 0) {
        return None;
    }
    let (ver, flags, size) = (b[3], b[5], sync(b, 6));
    let footer = flags & 0x10 != 0 && ver == 4;
    let total = 10 + size + if footer { 10 } else { 0 };
    p.decl(format!("{wh}.end"), total.min(b.len()), total);
    if total > b.len() {
        return Some(b.len());
    }
    if footer {
        let f = &b[10 + size..total];
        p.decl(format!("{wh}.footer"), usize::from(&f[..3] == b"3DI" && f[3..] == b[3..10]), 1);
    }
    // walk the frames (tag level unsynchronisation is not undone here: skip those)
    if !(flags & 0x80 != 0 && ver < 4) {
        let body = &b[10..10 + size];
        let mut i = 0;
        if flags & 0x40 != 0 {
            i += if ver == 4 { sync(body, 0) } else { 4 + b32(body, 0) };
        }
        let (hl, il) = if ver == 2 { (6, 3) } else { (10, 4) };
        let mut pad = false;
        while i < size {
            if body[i] == 0 {
                pad = true;
                break;
            }
            if i + hl > size {
                break;
            }
            let n = match ver {
                2 => (body[i + 3] as usize) << 16 | (body[i + 4] as usize) << 8 | body[i + 5] as usize,
                3 => b32(body, i + 4),
                _ => sync(body, i + 4),
            };
            if ver == 4 && body[i + 4..i + 8].iter().any(|x| x & 0x80 != 0) {
                p.decl(format!("{wh}.synchsafe"), 1, 0);
            }
            let idok = body[i..i + il].iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit());
            p.decl(format!("{wh}.frameid"), usize::from(idok), 1);
            i += hl + n;
        }
        if pad {
            p.pad = size - i;
            p.decl(format!("{wh}.padding"), body[i..].iter().filter(|x| **x != 0).count(), 0);
        } else {
            p.decl(format!("{wh}.frames"), size, i);
        }
    }
    Some(total)
}

/// APE tag whose footer ends `b`: total length
fn ape_end(p: &mut P, b: &[u8]) -> Option<usize> {
    let n = b.len();
    if n < 32 || &b[n - 32..n - 24] != b"APETAGEX" {
        return None;
    }
    let f = n - 32;
    let (ver, size, items, flags) = (l32(b, f + 8), l32(b, f + 12), l32(b, f + 16), l32(b, f + 20));
    let hdr = ver >= 2000 && flags & (1 << 31) != 0;
    let total = size + if hdr { 32 } else { 0 };
    p.decl("ape.fits", usize::from(total <= n && size >= 32), 1);
    if total > n || size < 32 {
        return Some(32);
    }
    let st = n - size;
    if hdr {
        let h = &b[n - total..n - total + 32];
        let ok = &h[..8] == b"APETAGEX" && h[8..20] == b[f + 8..f + 20] && l32(h, 20) & (1 << 29) != 0;
        p.decl("ape.header", usize::from(ok), 1);
    }
    p.decl("ape.footerflag", usize::from(flags & (1 << 29) == 0), 1);
    ape_walk(p, &b[st..f], items);
    Some(total)
}
fn ape_walk(p: &mut P, b: &[u8], items: usize) {
    let (mut i, mut k) = (0, 0);
    while i + 8 < b.len() && k < items {
        let n = l32(b, i);
        let Some(z) = b[i + 8..].iter().position(|x| *x == 0) else { break };
        i += 8 + z + 1 + n;
        k += 1;
    }
    p.decl("ape.items", items, k);
    p.decl("ape.itemsize", b.len(), i);
}

fn chain(p: &mut P, b: &[u8]) {
    let mut s = 0;
    loop {
        let r = &b[s..];
        if let Some(n) = v2_at(p, r, "v2") {
            p.raw("Id3v2");
            s += n;
        } else if r.len() >= 32 && r.starts_with(b"APETAGEX") && l32(r, 20) & (1 << 29) != 0 {
            let n = l32(r, 12) + 32;
            p.decl("apefront.fits", usize::from(n <= r.len()), 1);
            if n > r.len() {
                break;
            }
            ape_walk(p, &r[32..n - 32], l32(r, 16));
            p.raw("Ape");
            s += n;
        } else {
            break;
        }
    }
    let mut e = b.len();
    // The order is APE, Lyrics3, ID3v1: a region in another place is not a tag
    let mut stage = 0;
    loop {
        let r = &b[s..e];
        if stage < 1 && r.len() >= 128 && &r[r.len() - 128..r.len() - 125] == b"TAG" && !(r.len() >= 131 && r[r.len() - 131..].starts_with(b"APETAGEX")) {
            p.raw("Id3v1");
            e -= 128;
            stage = 1;
        } else if stage < 2 && r.ends_with(b"LYRICS200") {
            let n: usize = std::str::from_utf8(&r[r.len() - 15..r.len() - 9]).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
            p.decl("lyr.fits", usize::from(n + 15 <= r.len() && r[r.len() - 15 - n..].starts_with(b"LYRICSBEGIN")), 1);
            let t = (n + 15).min(r.len());
            p.unit("lyrics3", &r[r.len() - t..]);
            e -= t;
            stage = 2;
        } else if let Some(n) = ape_end(p, r) {
            p.raw("Ape");
            e -= n;
            stage = 3;
        } else {
            break;
        }
    }
    p.audio.push(hash(&b[s..e]));
}

fn iff(p: &mut P, b: &[u8], be: bool) {
    let rd = |b: &[u8], i: usize| if be { b32(b, i) } else { l32(b, i) };
    if b.len() < 12 {
        p.decl("iff.len", 1, 0);
        return;
    }
    let end = (8 + rd(b, 4)).min(b.len());
    p.decl("iff.size", 8 + rd(b, 4), end);
    p.audio.push(hash(&[&b[..4], &b[8..12]].concat()));
    let mut i = 12;
    let mut text = false;
    while i + 8 <= end {
        let id = &b[i..i + 4];
        let n = rd(b, i + 4);
        let name: String = id.iter().map(|c| if (32..127).contains(c) { *c as char } else { '?' }).collect();
        if i + 8 + n > end {
            p.decl(format!("chunk.{name}"), i + 8 + n, end);
            p.unit(format!("broken.{name}"), &b[i..end]);
            i = end;
            break;
        }
        let c = &b[i + 8..i + 8 + n];
        match (be, name.as_str()) {
            (false, "LIST") if c.starts_with(b"INFO") => {
                p.raw("RiffInfo");
                let mut k = 4;
                while k + 8 <= c.len() {
                    let m = l32(c, k + 4);
                    k += 8 + m;
                    if m % 2 == 1 && k < c.len() {
                        k += 1;
                    }
                }
                p.decl("info.items", c.len(), k);
            },
            (_, "ID3 " | "id3 ") => {
                p.raw("Id3v2");
                if let Some(m) = v2_at(p, c, "chunkv2") {
                    // a pad byte inside the chunk is tolerated, anything else is not
                    p.decl("chunkv2.size", usize::from(c.len() == m || (c.len() == m + 1 && c[m] == 0)), 1);
                }
            },
            (true, "NAME" | "AUTH" | "(c) " | "ANNO" | "COMT") => {
                text = true;
                if name == "COMT" {
                    let cnt = (c.first().copied().unwrap_or(0) as usize) << 8 | c.get(1).copied().unwrap_or(0) as usize;
                    let (mut k, mut seen) = (2, 0);
                    while k + 8 <= c.len() && seen < cnt {
                        let m = (c[k + 6] as usize) << 8 | c[k + 7] as usize;
                        k += 8 + m + m % 2;
                        seen += 1;
                    }
                    p.decl("comt.count", cnt, seen);
                    p.decl("comt.size", c.len(), k.min(c.len() + (k > c.len() + 1) as usize));
                }
            },
            (false, "JUNK") => p.pad += n,
            (_, "fmt " | "data" | "fact" | "COMM" | "SSND" | "FVER") => p.audio.push(format!("{name}{}", hash(c))),
            _ => p.unit(name.clone(), c),
        }
        i += 8 + n;
        if n % 2 == 1 {
            if i < end {
                p.decl(format!("pad.{name}"), b[i] as usize, 0);
                i += 1;
            } else {
                p.decl(format!("padmissing.{name}"), end + 1, i + 1);
            }
        }
    }
    p.decl("iff.walk", end, i);
    if text {
        p.raw("AiffText");
    }
    if end < b.len() {
        p.unit("tail", &b[end..]);
    }
}

fn vc_walk(p: &mut P, c: &[u8], exact: bool) {
    let mut i = 4 + l32(c, 0);
    let n = l32(c, i);
    i += 4;
    let mut k = 0;
    while k < n && i + 4 <= c.len() {
        i += 4 + l32(c, i);
        k += 1;
    }
    p.decl("vc.count", n, k);
    p.decl("vc.size", if exact { c.len() } else { c.len().max(i) }, if exact { i } else { c.len() });
}

fn flac(p: &mut P, b: &[u8]) {
    let mut s = 0;
    while let Some(n) = v2_at(p, &b[s..], "v2") {
        p.raw("Id3v2");
        s += n;
    }
    if !b[s..].starts_with(b"fLaC") {
        p.decl("flac.magic", 1, 0);
        p.audio.push(hash(&b[s..]));
        return;
    }
    s += 4;
    let mut lastseen = false;
    while !lastseen {
        if s + 4 > b.len() {
            p.decl("flac.last", 1, 0);
            break;
        }
        let (ty, n) = (b[s] & 0x7F, b32(b, s) & 0xFF_FFFF);
        lastseen = b[s] & 0x80 != 0;
        if s + 4 + n > b.len() {
            p.decl("flac.block", s + 4 + n, b.len());
            s = b.len();
            break;
        }
        let c = &b[s + 4..s + 4 + n];
        match ty {
            0 | 3 => p.audio.push(format!("{ty}{}", hash(c))),
            1 => p.pad += n,
            4 => {
                p.raw("VorbisComments");
                vc_walk(p, c, true);
            },
            6 => {
                p.raw("FlacPicture");
                let m = b32(c, 4);
                let d = b32(c, 8 + m);
                let dl = b32(c, 8 + m + 4 + d + 16);
                p.decl("flacpic.size", c.len(), 8 + m + 4 + d + 16 + 4 + dl);
            },
            _ => p.unit(format!("block{ty}"), c),
        }
        s += 4 + n;
    }
    let r = &b[s..];
    p.decl("flac.audiosync", usize::from(r.is_empty() || (r[0] == 0xFF && r.get(1).is_some_and(|x| x & 0xFC == 0xF8))), 1);
    p.audio.push(hash(r));
}

struct Strm {
    serial: u32,
    packets: Vec<(Vec<u8>, Vec<u64>)>,
    open: bool,
    seq: Vec<u32>,
    cur: Vec<u8>,
    flags: Vec<u8>,
    badcont: usize,
    badgran: usize,
}
pub fn ogg(p: &mut P, b: &[u8], fmt: &str) {
    let mut i = 0;
    let mut strms: Vec<Strm> = vec![];
    let (mut badcrc, mut pages) = (0, 0);
    while i + 27 <= b.len() && &b[i..i + 4] == b"OggS" {
        let n = b[i + 26] as usize;
        if i + 27 + n > b.len() {
            break;
        }
        let l = page_len(&b[i..]);
        if i + l > b.len() {
            break;
        }
        let pg = &b[i..i + l];
        i += l;
        pages += 1;
        let mut z = pg.to_vec();
        z[22..26].fill(0);
        if ogg_crc(&z) != u32::from_le_bytes(pg[22..26].try_into().unwrap()) {
            badcrc += 1;
        }
        let serial = l32(pg, 14) as u32;
        let gran = u64::from_le_bytes(pg[6..14].try_into().unwrap());
        let ix = match strms.iter().position(|s| s.serial == serial) {
            Some(x) => x,
            None => {
                strms.push(Strm { serial, packets: vec![], open: false, seq: vec![], cur: vec![], flags: vec![], badcont: 0, badgran: 0 });
                strms.len() - 1
            },
        };
        let s = &mut strms[ix];
        s.seq.push(l32(pg, 18) as u32);
        s.flags.push(pg[5]);
        if (pg[5] & 1 != 0) != s.open {
            s.badcont += 1;
        }
        let mut at = 27 + n;
        let mut ends = 0;
        for k in 0..n {
            let v = pg[27 + k] as usize;
            s.cur.extend(&pg[at..at + v]);
            at += v;
            if v < 255 {
                s.packets.push((std::mem::take(&mut s.cur), vec![]));
                s.open = false;
                ends += 1;
            } else {
                s.open = true;
            }
        }
        if ends > 0 {
            s.packets.last_mut().unwrap().1.push(gran);
            if gran == u64::MAX {
                s.badgran += 1;
            }
        } else if gran != u64::MAX {
            s.badgran += 1;
        }
    }
    p.decl("ogg.crc", badcrc, 0);
    p.decl("ogg.pages", usize::from(pages > 0), 1);
    let mut chainpos = 0;
    for s in &strms {
        let want: Vec<u32> = (0..s.seq.len() as u32).map(|k| s.seq[0] + k).collect();
        p.decl("ogg.seq", usize::from(s.seq == want && s.seq[0] == 0), 1);
        p.decl("ogg.bos", usize::from(s.flags.iter().enumerate().all(|(k, f)| (f & 2 != 0) == (k == 0))), 1);
        p.decl("ogg.eos", usize::from(s.flags.iter().enumerate().all(|(k, f)| (f & 4 == 0) || k + 1 == s.flags.len())), 1);
        p.decl("ogg.cont", s.badcont, 0);
        p.decl("ogg.gran", s.badgran, 0);
        p.decl("ogg.open", usize::from(s.open), 0);
        let ours = s.packets.first().is_some_and(|x| match fmt {
            "vorbis" => x.0.starts_with(b"\x01vorbis"),
            "opus" => x.0.starts_with(b"OpusHead"),
            _ => x.0.starts_with(b"Speex   "),
        });
        let eos = s.flags.last().is_some_and(|f| f & 4 != 0);
        if !ours {
            let all: Vec<u8> = s.packets.iter().flat_map(|(a, g)| [&a[..], format!("|{g:?}").as_bytes()].concat()).collect();
            p.unit(format!("stream{:x}eos{eos}", s.serial), &all);
            continue;
        }
        chainpos += 1;
        let nh = if fmt == "vorbis" { 3 } else { 2 };
        for (k, (pk, g)) in s.packets.iter().enumerate() {
            if k == 1 && chainpos == 1 {
                p.raw("VorbisComments");
                let skip = match fmt {
                    "vorbis" => 7,
                    "opus" => 8,
                    _ => 0,
                };
                let lead: &[u8] = match fmt {
                    "vorbis" => b"\x03vorbis",
                    "opus" => b"OpusTags",
                    _ => b"",
                };
                p.decl("ogg.commentmagic", usize::from(pk.starts_with(lead)), 1);
                if pk.len() > skip {
                    vc_walk(p, &pk[skip..], false);
                }
                continue;
            }
            // granule positions of audio packets belong to the audio
            let gs = if k < nh { String::new() } else { format!("@{g:?}") };
            p.audio.push(format!("{}{gs}", hash(pk)));
        }
        p.audio.push(format!("serial{:x}eos{eos}", s.serial));
    }
    if i < b.len() {
        p.unit("tail", &b[i..]);
    }
}

struct M4<'a> {
    b: &'a [u8],
    tables: Vec<(usize, bool)>, // entry positions
    mdat: Vec<(usize, usize)>,
}
fn mp4_walk(p: &mut P, m: &mut M4<'_>, s: usize, e: usize, path: &str, depth: usize) {
    let b = m.b;
    let mut i = s;
    while i + 8 <= e {
        let mut n = b32(b, i);
        let id: String = b[i + 4..i + 8].iter().map(|c| if (32..127).contains(c) { *c as char } else { '?' }).collect();
        let mut h = 8;
        if n == 1 {
            n = b64(b, i + 8);
            h = 16;
        } else if n == 0 {
            n = e - i;
        }
        if n < h || i + n > e {
            p.decl(format!("atom.{path}{id}"), i + n, e);
            p.unit(format!("broken.{path}{id}"), &b[i..e]);
            return;
        }
        let full = format!("{path}{id}");
        let (cs, ce) = (i + h, i + n);
        match (id.as_str(), full.as_str()) {
            ("free", _) => p.pad += n,
            ("moov" | "udta" | "mdia" | "minf" | "stbl" | "edts" | "moof" | "mvex" | "trak" | "traf", _) if depth < 8 => {
                mp4_walk(p, m, cs, ce, &format!("{full}/"), depth + 1);
            },
            ("meta", _) => {
                let qt = ce - cs >= 8 && b[cs + 4..cs + 8].iter().all(|c| c.is_ascii_alphabetic()) && b32(b, cs) != 0;
                mp4_walk(p, m, if qt { cs } else { cs + 4 }, ce, &format!("{full}/"), depth + 1);
            },
            (_, "moov/udta/meta/ilst") => {
                p.raw("Mp4Ilst");
                let mut k = cs;
                while k + 8 <= ce {
                    let z = b32(b, k);
                    if z < 8 || k + z > ce {
                        p.decl("ilst.item", k + z, ce);
                        break;
                    }
                    // children
                    let mut q = k + 8;
                    while q + 8 <= k + z {
                        let y = b32(b, q);
                        if y < 8 {
                            break;
                        }
                        q += y;
                    }
                    p.decl("ilst.children", k + z, q);
                    k += z;
                }
                p.decl("ilst.walk", ce, k);
            },
            ("mdat", _) => {
                m.mdat.push((cs, ce));
                p.audio.push(format!("mdat{}", hash(&b[cs..ce])));
            },
            ("stco" | "co64", _) => {
                let w = if id == "stco" { 4 } else { 8 };
                let cnt = b32(b, cs + 4);
                p.decl(format!("{full}.count"), cs + 8 + cnt * w, ce);
                for k in 0..cnt.min((ce - cs).saturating_sub(8) / w) {
                    m.tables.push((cs + 8 + k * w, w == 8));
                }
                p.audio.push(format!("{full}{}", hash(&b[cs..(cs + 8).min(ce)])));
            },
            ("tfhd", _) => {
                let mut v = b[cs..ce].to_vec();
                if v.len() >= 16 && v[3] & 1 != 0 {
                    m.tables.push((cs + 8, true));
                    v[8..16].fill(0);
                }
                p.audio.push(format!("{full}{}", hash(&v)));
            },
            ("ftyp" | "mvhd" | "tkhd" | "mdhd" | "stsd" | "stts" | "smhd" | "trun" | "mfhd" | "trex", _) => {
                p.audio.push(format!("{full}{}", hash(&b[cs..ce])));
            },
            _ => p.unit(full.clone(), &b[cs..ce]),
        }
        i += n;
    }
    if depth > 0 {
        // up to 4 bytes of terminator are allowed in udta (QuickTime)
        p.decl(format!("{path}fill"), e, if path.ends_with("udta/") && e - i == 4 && b32(b, i) == 0 { e } else { i });
    } else if i < e {
        p.unit("tail", &b[i..e]);
    }
}
fn mp4(p: &mut P, b: &[u8]) {
    let mut m = M4 { b, tables: vec![], mdat: vec![] };
    mp4_walk(p, &mut m, 0, b.len(), "", 0);
    for (at, wide) in &m.tables {
        let v = if *wide { b64(b, *at) } else { b32(b, *at) };
        let t = m.mdat.iter().find(|(s, e)| v >= *s && v < *e);
        p.refs.push(match t {
            Some((s, e)) => format!("+{}{}", v - s, hash(&b[v..(v + 40).min(*e)])),
            None => format!("outside{}", if v > b.len() { "eof" } else { "" }),
        });
    }
}

pub fn file(fmt: &str, b: &[u8]) -> P {
    let mut p = P::default();
    match fmt {
        "wav" => iff(&mut p, b, false),
        "aiff" => iff(&mut p, b, true),
        "flac" => flac(&mut p, b),
        "vorbis" | "opus" | "speex" => ogg(&mut p, b, fmt),
        "mp4" => mp4(&mut p, b),
        _ => chain(&mut p, b),
    }
    p
}

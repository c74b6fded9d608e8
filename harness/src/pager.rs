//! Ogg pager: packets, pagination and the page codec (ogg_pager).
use crate::util::{Out, arr, guard, hash, n, s};
use ogg_pager::{PAGE_HEADER_SIZE, Packets, Page, PageHeader};
use serde_json::{Value, json};
use std::io::Cursor;

/// Independent CRC-32 (polynomial 04c11db7, not reflected, no xor)
pub fn crc(b: &[u8]) -> u32 {
    let mut c = 0u32;
    for &x in b {
        c ^= u32::from(x) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
        }
    }
    c
}

fn body(len: usize, salt: usize) -> Vec<u8> {
    (0..len).map(|i| (i.wrapping_mul(131) ^ (i >> 8).wrapping_mul(7) ^ salt.wrapping_mul(53)) as u8).collect()
}

fn page_bytes(flag: u8, gran: u64, serial: u32, seq: u32, segs: &[u8], content: &[u8]) -> Vec<u8> {
    let mut o = b"OggS\0".to_vec();
    o.push(flag);
    o.extend(gran.to_le_bytes());
    o.extend(serial.to_le_bytes());
    o.extend(seq.to_le_bytes());
    o.extend([0; 4]);
    o.push(segs.len() as u8);
    o.extend(segs);
    o.extend(content);
    let c = crc(&o);
    o[22..26].copy_from_slice(&c.to_le_bytes());
    o
}

fn pk(b: &[u8]) -> Value {
    json!({"n": b.len(), "h": hash(b)})
}

fn list(p: &Packets) -> Value {
    Value::Array(p.iter().map(pk).collect())
}

/// the raw pages of a byte string, taken apart without the library
fn split(b: &[u8]) -> (Vec<Value>, Vec<Vec<u8>>) {
    let (mut out, mut raw, mut i) = (Vec::new(), Vec::new(), 0);
    while i + 27 <= b.len() && &b[i..i + 4] == b"OggS" {
        let k = b[i + 26] as usize;
        let segs = &b[i + 27..(i + 27 + k).min(b.len())];
        let len: usize = segs.iter().map(|x| *x as usize).sum();
        let e = i + 27 + k + len;
        if e > b.len() {
            break;
        }
        let mut z = b[i..e].to_vec();
        z[22..26].fill(0);
        let sum = u32::from_le_bytes(b[i + 22..i + 26].try_into().unwrap());
        let g = u64::from_le_bytes(b[i + 6..i + 14].try_into().unwrap());
        out.push(json!({
            "v": b[i + 4], "flag": b[i + 5], "gran": g.to_string(), "serial": u32::from_le_bytes(b[i + 14..i + 18].try_into().unwrap()).to_string(),
            "seq": u32::from_le_bytes(b[i + 18..i + 22].try_into().unwrap()), "crc": crc(&z) == sum, "segs": segs, "size": len, "h": hash(&b[e - len..e]),
        }));
        raw.push(b[i..e].to_vec());
        i = e;
    }
    if i != b.len() {
        out.push(json!({"v": 255, "flag": 0, "gran": "", "serial": "", "seq": 0, "crc": false, "segs": [], "size": b.len() - i, "h": ""}));
    }
    (out, raw)
}

fn layout(pages: &[Value]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut open = false;
    for (i, p) in pages.iter().enumerate() {
        let segs: Vec<u8> = p.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let len: usize = segs.iter().map(|x| *x as usize).sum();
        let flag = u8::from(open) | if i == 0 { 2 } else { 0 };
        o.extend(page_bytes(flag, i as u64, 7, i as u32, &segs, &body(len, i + 100)));
        open = segs.last() == Some(&255);
    }
    o
}

pub fn run(v: &Value, out: &mut Out) {
    let lens: Vec<usize> = arr(v, "pk").iter().map(|x| x.as_u64().unwrap() as usize).collect();
    // a stream of one packet after the other, in pages filled to the brim
    let mut segs: Vec<u8> = Vec::new();
    let mut content = Vec::new();
    for (i, l) in lens.iter().enumerate() {
        segs.extend(std::iter::repeat_n(255u8, l / 255));
        segs.push((l % 255) as u8);
        content.extend(body(*l, i));
    }
    let mut stream = Vec::new();
    let (mut at, mut open) = (0, false);
    for (i, c) in segs.chunks(255).enumerate() {
        let len: usize = c.iter().map(|x| *x as usize).sum();
        stream.extend(page_bytes(u8::from(open), 0, 1, i as u32, c, &content[at..at + len]));
        at += len;
        open = c.last() == Some(&255);
    }
    let mut p = match guard(|| Packets::read(&mut Cursor::new(&stream))) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => panic!("HARNESS: cannot build packets: {e}"),
        Err(m) => {
            out.ev(json!({"op": {"a": "PANIC"}, "panic": m}));
            return;
        },
    };
    let want: Vec<Value> = lens.iter().enumerate().map(|(i, l)| pk(&body(*l, i))).collect();
    let post = |p: &Packets| {
        json!({"all": list(p), "len": p.len(), "empty": p.is_empty(),
               "get": (0..p.len() + 2).map(|i| p.get(i).map_or(json!([]), |b| json!([pk(b)]))).collect::<Vec<_>>()})
    };
    out.ev(json!({"op": {"a": "init", "pk": want}, "ret": [], "post": post(&p)}));
    for op in arr(v, "ops") {
        let mut o = op.clone();
        let r: Result<Value, String> = guard(|| match s(op, "a") {
            "set" => {
                let b = body(n(op, "n") as usize, 1000 + n(op, "i") as usize);
                o["h"] = json!(hash(&b));
                json!([{"ok": p.set(n(op, "i") as usize, b)}])
            },
            a @ ("paginate" | "write") => {
                let gran: u64 = s(op, "gran").parse().expect("HARNESS: gran");
                let serial: u32 = s(op, "serial").parse().expect("HARNESS: serial");
                let flags = n(op, "flags") as u8;
                let (count, bytes) = if a == "write" {
                    let mut w = Vec::new();
                    match p.write_to(&mut w, serial, gran, flags) {
                        Ok(c) => (c as i64, w),
                        Err(_) => (-1, w),
                    }
                } else {
                    match p.paginate(serial, gran, flags) {
                        Ok(mut pages) => {
                            let mut w = Vec::new();
                            for g in &mut pages {
                                g.gen_crc();
                                w.extend(g.as_bytes());
                            }
                            (pages.len() as i64, w)
                        },
                        Err(_) => (-1, Vec::new()),
                    }
                };
                let (pages, raw) = split(&bytes);
                // every page read alone and in sequence gives its bytes back
                let mut alone = true;
                let mut c = Cursor::new(&bytes);
                for r in &raw {
                    let one = Page::read(&mut Cursor::new(r));
                    alone &= one.is_ok_and(|g| g.as_bytes() == *r && g.content().len() == r.len() - PAGE_HEADER_SIZE - r[26] as usize);
                    let start = c.position();
                    let seq = Page::read(&mut c);
                    alone &= seq.is_ok_and(|g| g.header().start == start && g.end == c.position() && g.as_bytes() == *r && g.take_content() == r[27 + r[26] as usize..]);
                }
                let mut back = Vec::new();
                for count in -1..=(p.len() as isize + 1) {
                    let mut c = Cursor::new(&bytes);
                    back.push(match Packets::read_count(&mut c, count) {
                        Ok(q) => json!({"c": count, "ok": true, "pk": list(&q)}),
                        Err(_) => json!({"c": count, "ok": false, "pk": []}),
                    });
                }
                json!([{"count": count, "pages": pages, "alone": alone, "back": back}])
            },
            "layout" => {
                let b = layout(arr(op, "pages"));
                let (pages, _) = split(&b);
                let mut res = Vec::new();
                for count in [-1isize, n(op, "count") as isize] {
                    let mut c = Cursor::new(&b);
                    res.push(match Packets::read_count(&mut c, count) {
                        Ok(q) => json!({"c": count, "ok": true, "pk": q.iter().map(|x| x.len()).collect::<Vec<_>>(), "cat": hash(&q.iter().flatten().copied().collect::<Vec<u8>>())}),
                        Err(_) => json!({"c": count, "ok": false, "pk": [], "cat": ""}),
                    });
                }
                // the content of the pages that the complete packets occupy
                let mut all = Vec::new();
                let mut cats = vec![hash(&[])];
                let mut cur = Vec::new();
                let mut i = 0;
                let mut m = Vec::new();
                for pg in arr(op, "pages") {
                    let segs: Vec<usize> = pg.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                    let c = body(segs.iter().sum(), i + 100);
                    let mut at = 0;
                    for sg in segs {
                        cur.extend(&c[at..at + sg]);
                        at += sg;
                        if sg < 255 {
                            all.append(&mut cur);
                            cats.push(hash(&all));
                            m.push(());
                        }
                    }
                    i += 1;
                }
                json!([{"pages": pages, "back": res, "cats": cats}])
            },
            "damage" => {
                // one page, damaged in one place or cut short
                let g = layout(&[op["segs"].clone()]);
                let mut ok = Vec::new();
                for cut in 0..g.len() {
                    if Page::read(&mut Cursor::new(&g[..cut])).is_ok() {
                        ok.push(format!("cut {cut}"));
                    }
                    if cut < 27 + g[26] as usize && PageHeader::read(&mut Cursor::new(&g[..cut])).is_ok() {
                        ok.push(format!("header cut {cut}"));
                    }
                }
                for (i, x) in [(0usize, 0x20u8), (1, 1), (2, 0xff), (3, 0x80), (4, 1), (4, 0xff)] {
                    let mut h = g.clone();
                    h[i] ^= x;
                    if Page::read(&mut Cursor::new(&h)).is_ok() || PageHeader::read(&mut Cursor::new(&h)).is_ok() {
                        ok.push(format!("byte {i}"));
                    }
                }
                let mut h = g.clone();
                h[26] = 0;
                if Page::read(&mut Cursor::new(&h)).is_ok() {
                    ok.push("no segments".into());
                }
                let pg = Page::read(&mut Cursor::new(&g));
                json!([{"accepted": ok, "whole": pg.is_ok_and(|mut x| {
                    let same = x.as_bytes() == g;
                    x.header_mut().sequence_number = 77;
                    x.gen_crc();
                    let y = x.as_bytes();
                    let mut z = y.clone();
                    z[22..26].fill(0);
                    same && u32::from_le_bytes(y[22..26].try_into().unwrap()) == crc(&z) && y[18] == 77 && ogg_pager::crc32(&z) == crc(&z) && x.header().checksum() == crc(&z)
                })}])
            },
            x => panic!("HARNESS: op {x}"),
        });
        match r {
            Ok(ret) => out.ev(json!({"op": o, "ret": ret, "post": post(&p)})),
            Err(m) => {
                out.ev(json!({"op": o, "ret": [], "post": {}, "panic": m}));
                return;
            },
        }
    }
}

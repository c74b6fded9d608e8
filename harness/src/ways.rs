//! Suite `ways`: the same tag written through every entry point.
use crate::conc::{self, CTag};
use crate::files::{apply, file_type, read_conc, write_options};
use crate::util::{self, Out, arr, b, guard, hash, s};
use crate::views;
use lofty::config::ParseOptions;
use lofty::file::{AudioFile, BoundTaggedFile, TaggedFile, TaggedFileExt};
use lofty::ogg::tag::VorbisComments;
use lofty::probe::Probe;
use lofty::tag::{Tag, TagExt};
use serde_json::{Value, json};
use std::io::Cursor;

/// the bytes a tag is looked for in: pages of an Ogg file joined
fn payload(fmt: &str, b: &[u8]) -> Vec<u8> {
    if !matches!(fmt, "vorbis" | "opus" | "speex") {
        return b.to_vec();
    }
    let (mut v, mut at) = (vec![], 0);
    while at + 27 <= b.len() && &b[at..at + 4] == b"OggS" {
        let n = b[at + 26] as usize;
        let len: usize = b[at + 27..at + 27 + n].iter().map(|x| *x as usize).sum();
        v.extend(&b[at + 27 + n..(at + 27 + n + len).min(b.len())]);
        at += 27 + n + len;
    }
    v
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    if n.is_empty() {
        return true;
    }
    let mut at = 0;
    while let Some(p) = h[at..].iter().position(|x| *x == n[0]) {
        if h[at + p..].starts_with(n) {
            return true;
        }
        at += p + 1;
    }
    false
}
fn scratch() -> std::path::PathBuf {
    let d = std::env::var("LVH_SCRATCH").expect("HARNESS: LVH_SCRATCH");
    let id: String = format!("{:?}", std::thread::current().id()).chars().filter(char::is_ascii_digit).collect();
    std::path::Path::new(&d).join(format!("w{id}"))
}

/// one more way for generic tags
fn generic_way(fmt: &str, bytes: &mut Vec<u8>, g: &Tag, via: &str, o: &Value) -> Result<(), String> {
    let o = write_options(o);
    let p = scratch();
    let es = |e: &dyn std::fmt::Display| e.to_string();
    let tagged = || {
        let mut tf = TaggedFile::new(file_type(fmt), Default::default(), vec![]);
        tf.insert_tag(g.clone());
        tf
    };
    if via == "cursor" || via == "tagged" {
        let mut c = Cursor::new(std::mem::take(bytes));
        let r = if via == "cursor" { g.save_to(&mut c, o).map_err(|e| es(&e)) } else { tagged().save_to(&mut c, o).map_err(|e| es(&e)) };
        *bytes = c.into_inner();
        return r;
    }
    std::fs::write(&p, &*bytes).expect("HARNESS: scratch");
    let open = || std::fs::OpenOptions::new().read(true).write(true).open(&p).expect("HARNESS: open");
    let r = match via {
        "path" => g.save_to_path(&p, o).map_err(|e| es(&e)),
        "file" => g.save_to(&mut open(), o).map_err(|e| es(&e)),
        "taggedpath" => tagged().save_to_path(&p, o).map_err(|e| es(&e)),
        "taggedfile" => tagged().save_to(&mut open(), o).map_err(|e| es(&e)),
        "bound" => (|| {
            let mut f = BoundTaggedFile::read_from(open(), ParseOptions::new()).map_err(|e| es(&e))?;
            f.insert_tag(g.clone());
            f.save(o).map_err(|e| es(&e))
        })(),
        "edited" => (|| {
            let mut f = Probe::open(&p).map_err(|e| es(&e))?.guess_file_type().map_err(|e| es(&e))?.read().map_err(|e| es(&e))?;
            f.insert_tag(g.clone());
            f.save_to_path(&p, o).map_err(|e| es(&e))
        })(),
        x => panic!("HARNESS: way {x}"),
    };
    *bytes = std::fs::read(&p).expect("HARNESS: scratch");
    r
}

fn seen(fmt: &str, bytes: &[u8], ty: &str) -> Value {
    match guard(|| read_conc(fmt, &mut Cursor::new(bytes), ParseOptions::new())) {
        Ok(Ok(v)) => json!(v.into_iter().filter(|t| s(t, "type") == ty).collect::<Vec<_>>()),
        _ => json!([{"type": "unreadable", "hd": [], "items": []}]),
    }
}

pub fn run(v: &Value, out: &mut Out) {
    let fmt = s(v, "fmt");
    let bytes = views::file(v);
    let ty = s(v, "type");
    let o = &v["o"];
    let mut ways = vec![];
    let mut put = |group: &str, way: &str, f: &mut dyn FnMut(&mut Vec<u8>) -> Result<(), String>| {
        let mut x = bytes.clone();
        let (res, err) = match guard(|| f(&mut x)) {
            Ok(Ok(())) => ("ok", String::new()),
            Ok(Err(e)) => ("err", e),
            Err(m) => ("panic", m),
        };
        ways.push(json!({"group": group, "way": way, "res": res, "err": err, "hash": hash(&x), "len": x.len(), "seen": seen(fmt, &x, ty)}));
        x
    };
    let alone = match guard(|| read_conc(fmt, &mut Cursor::new(&bytes), ParseOptions::new())) {
        Ok(Ok(v)) => v.iter().all(|t| s(t, "type") == ty),
        _ => false,
    };
    let (mut dump, mut conc_tag) = (json!({"res": "none", "len": 0, "in": true, "pics": false}), None);
    if v.get("g").is_none() {
        let mut t = conc::ctag(v);
        if let CTag::Vc(x) = &mut t {
            // the vendor is the file's
            if let Ok(Ok(all)) = guard(|| read_conc(fmt, &mut Cursor::new(&bytes), ParseOptions::new()))
                && let Some(h) = all.iter().find(|t| s(t, "type") == ty).and_then(|t| arr(t, "hd").first().cloned())
            {
                x.set_vendor(util::expand_s(h.as_str().unwrap_or("")));
            }
        }
        let wo = write_options(o);
        let mut op = conc::ctag_j(&t);
        op["a"] = json!("save");
        op["o"] = o.clone();
        let mut last = vec![];
        for way in ["cursor", "path", "file", "own"] {
            if way == "own" && !alone {
                continue;
            }
            let mut f = |x: &mut Vec<u8>| match way {
                "cursor" => {
                    let mut c = Cursor::new(std::mem::take(x));
                    let r = t.save(&mut c, wo);
                    *x = c.into_inner();
                    r
                },
                "path" => {
                    let p = scratch();
                    std::fs::write(&p, &*x).expect("HARNESS: scratch");
                    let r = t.save_path(&p, wo);
                    *x = std::fs::read(&p).expect("HARNESS: scratch");
                    r
                },
                "file" => {
                    let p = scratch();
                    std::fs::write(&p, &*x).expect("HARNESS: scratch");
                    let mut h = std::fs::OpenOptions::new().read(true).write(true).open(&p).expect("HARNESS: open");
                    let r = t.save(&mut h, wo);
                    drop(h);
                    *x = std::fs::read(&p).expect("HARNESS: scratch");
                    r
                },
                _ => {
                    let mut q = op.clone();
                    q["via"] = json!("own");
                    apply(fmt, x, &q)
                },
            };
            let got = put("concrete", way, &mut f);
            if way == "cursor" {
                last = got;
            }
        }
        match guard(|| t.dump(wo)) {
            Ok(Ok(d)) => dump = json!({"res": "ok", "len": d.len(), "in": contains(&payload(fmt, &last), &d), "pics": matches!(&t, CTag::Vc(x) if !lofty::ogg::OggPictureStorage::pictures(x).is_empty())}),
            Ok(Err(e)) => dump = json!({"res": "err", "err": e, "len": 0, "in": true, "pics": false}),
            Err(_) => dump = json!({"res": "panic", "len": 0, "in": true, "pics": false}),
        }
        conc_tag = Some(t);
    }
    // the generic ways
    let g: Tag = match &conc_tag {
        Some(t) => t.generic(),
        None => util::tag(&v["g"]),
    };
    for way in ["cursor", "path", "file", "tagged", "taggedpath", "taggedfile"] {
        put("generic", way, &mut |x| generic_way(fmt, x, &g, way, o));
    }
    if alone {
        for way in ["bound", "edited"] {
            put("generic", way, &mut |x| generic_way(fmt, x, &g, way, o));
        }
    }
    put("generic", "conv", &mut |x| {
        let c = CTag::from_generic(&g);
        let mut k = Cursor::new(std::mem::take(x));
        let r = c.save(&mut k, write_options(o));
        *x = k.into_inner();
        r
    });
    // dumps of the generic tag and of what it converts to
    let gd = |r: Result<Result<Vec<u8>, String>, String>| match r {
        Ok(Ok(d)) => json!({"res": "ok", "len": d.len(), "hash": hash(&d)}),
        Ok(Err(_)) => json!({"res": "err", "len": 0, "hash": ""}),
        Err(_) => json!({"res": "panic", "len": 0, "hash": ""}),
    };
    let d1 = gd(guard(|| {
        let mut w = vec![];
        g.dump_to(&mut w, write_options(o)).map_err(|e| e.to_string())?;
        Ok(w)
    }));
    let d2 = gd(guard(|| CTag::from_generic(&g).dump(write_options(o))));
    let _ = (b(v, "x"), VorbisComments::new());
    out.ev(json!({"op": {"a": "ways"}, "fmt": fmt, "type": ty, "before": hash(&bytes), "gempty": g.is_empty(), "ways": ways, "dump": dump, "gdump": d1, "cdump": d2}));
}

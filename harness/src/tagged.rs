//! Suite `tagged`: a tagged file in memory next to its file on disk.
use crate::files::{file_type, props, write_options};
use crate::util::{self, Out, arr, b, expand_s, guard, hash, k, s, ty};
use crate::views;
use lofty::config::ParseOptions;
use lofty::file::{AudioFile, BoundTaggedFile, FileType, TaggedFile, TaggedFileExt};
use lofty::probe::Probe;
use lofty::tag::{ItemValue, Tag, TagItem, TagType};
use serde_json::{Value, json};
use std::fs::File;
use std::io::{Cursor, Read, Seek, SeekFrom};

pub const TYPES: [&str; 7] = ["Ape", "Id3v1", "Id3v2", "Mp4Ilst", "VorbisComments", "RiffInfo", "AiffText"];
const FMTS: [&str; 12] = ["mpeg", "aac", "ape", "wv", "mpc", "wav", "aiff", "flac", "vorbis", "opus", "speex", "mp4"];

fn ft_name(t: FileType) -> String {
    FMTS.iter().find(|f| file_type(f) == t).map_or_else(|| format!("{t:?}"), |f| (*f).to_string())
}
fn ext(fmt: &str) -> &str {
    match fmt {
        "mpeg" => "mp3",
        "vorbis" => "ogg",
        "speex" => "spx",
        "mp4" => "m4a",
        x => x,
    }
}
fn tag_in(v: &Value) -> Tag {
    let mut t = Tag::new(ty(s(v, "type")));
    for i in arr(v, "items") {
        t.push_unchecked(TagItem::new(k(i[0].as_str().unwrap()), ItemValue::Text(expand_s(i[1].as_str().unwrap()))));
    }
    for p in arr(v, "pics") {
        t.push_picture(util::pic(p));
    }
    t
}
fn tag_out(t: &Tag) -> Value {
    let mut items: Vec<[String; 2]> = t.items().map(|i| [crate::keys::name(i.key()).to_string(), util::value_j(i.value()).1]).collect();
    items.sort();
    json!({"type": util::ty_name(t.tag_type()), "items": items, "pics": t.pictures().iter().map(util::pic_j).collect::<Vec<_>>()})
}
fn tags_out(t: &[Tag]) -> Value {
    t.iter().map(tag_out).collect()
}
fn one(t: Option<&Tag>) -> Value {
    t.into_iter().map(tag_out).collect()
}
fn disk(fmt: &str, bytes: &[u8]) -> Value {
    match guard(|| Probe::with_file_type(Cursor::new(bytes), file_type(fmt)).read()) {
        Ok(Ok(f)) => tags_out(f.tags()),
        _ => json!([{"type": "unreadable", "items": [], "pics": []}]),
    }
}

enum Held {
    Tagged(TaggedFile),
    Bound(BoundTaggedFile<File>),
    None,
}

fn look<T: TaggedFileExt + AudioFile>(f: &mut T) -> Value {
    let types: Vec<Value> = TYPES
        .iter()
        .map(|n| {
            let t: TagType = ty(n);
            let (read, write) = (f.tag_support(t).is_readable(), f.tag_support(t).is_writable());
            let tag = one(f.tag(t));
            let mu: Value = one(f.tag_mut(t).map(|t| &*t));
            json!({"ty": n, "tag": tag, "mut": mu, "has": f.contains_tag_type(t), "read": read, "write": write})
        })
        .collect();
    let pm: Value = one(f.primary_tag_mut().map(|t| &*t));
    let fm: Value = one(f.first_tag_mut().map(|t| &*t));
    let (p, fi) = (one(f.primary_tag()), one(f.first_tag()));
    json!({"primary_type": util::ty_name(f.primary_tag_type()), "primary": if pm == p { p } else { json!([{"type": "mut-differs", "items": [], "pics": []}]) },
        "first": if fm == fi { fi } else { json!([{"type": "mut-differs", "items": [], "pics": []}]) }, "contains": f.contains_tag(), "types": types})
}

fn edit<T: TaggedFileExt>(f: &mut T, op: &Value) -> Value {
    let put = |t: Option<&mut Tag>| {
        if let Some(t) = t {
            t.insert_text(k(s(op, "k")), expand_s(s(op, "v")));
        }
    };
    match s(op, "a") {
        "insert" => return one(f.insert_tag(tag_in(&op["tag"])).as_ref()),
        "remove" => return one(f.remove(ty(s(op, "type"))).as_ref()),
        "clear" => f.clear(),
        "edit" => put(f.tag_mut(ty(s(op, "type")))),
        "primary" => put(f.primary_tag_mut()),
        "first" => put(f.first_tag_mut()),
        "wipe" => {
            if let Some(t) = f.tag_mut(ty(s(op, "type"))) {
                lofty::tag::TagExt::clear(t);
            }
        },
        x => panic!("HARNESS: op {x}"),
    }
    json!([])
}

pub fn run(v: &Value, out: &mut Out) {
    let (fmt, kind) = (s(v, "fmt"), s(v, "kind"));
    let bytes = views::file(v);
    let d = std::env::var("LVH_SCRATCH").expect("HARNESS: LVH_SCRATCH");
    let id: String = format!("{:?}", std::thread::current().id()).chars().filter(char::is_ascii_digit).collect();
    let (own, other) = (std::path::Path::new(&d).join(format!("t{id}.{}", ext(fmt))), std::path::Path::new(&d).join(format!("o{id}")));
    std::fs::write(&own, &bytes).expect("HARNESS: scratch");
    std::fs::write(&other, &bytes).expect("HARNESS: scratch");
    let rw = |p: &std::path::Path| std::fs::OpenOptions::new().read(true).write(true).open(p).expect("HARNESS: open");
    let mut h = Held::None;
    let mut ops = vec![json!({"a": "open"})];
    ops.extend(arr(v, "ops").iter().cloned());
    let state = |h: &Held| {
        let (ft, held, pr) = match h {
            Held::Tagged(f) => (ft_name(f.file_type()), tags_out(f.tags()), props(f)),
            // a bound file shows its properties only by reference
            Held::Bound(f) => (ft_name(f.file_type()), tags_out(f.tags()), crate::files::props_of(f.properties())),
            Held::None => (String::new(), json!([]), vec![]),
        };
        let (x, y) = (std::fs::read(&own).expect("HARNESS: scratch"), std::fs::read(&other).expect("HARNESS: scratch"));
        (json!({"ft": ft, "held": held, "props": pr, "disk": disk(fmt, &x), "other": disk(fmt, &y)}), hash(&x))
    };
    let mut pre = state(&h);
    for op in &ops {
        let mut ret = json!([]);
        let r: Result<Result<(), String>, String> = guard(|| {
            let wo = write_options(op.get("o").unwrap_or(&json!({})));
            match s(op, "a") {
                "open" => {
                    h = Held::None;
                    if kind == "bound" {
                        h = Held::Bound(BoundTaggedFile::read_from(rw(&own), ParseOptions::new()).map_err(|e| e.to_string())?);
                    } else {
                        h = Held::Tagged(if b(op, "path") { lofty::read_from_path(&own).map_err(|e| e.to_string())? } else { TaggedFile::read_from(&mut rw(&own), ParseOptions::new()).map_err(|e| e.to_string())? });
                    }
                },
                "save" => match &mut h {
                    Held::Bound(f) => f.save(wo).map_err(|e| e.to_string())?,
                    Held::Tagged(f) if b(op, "path") => f.save_to_path(&own, wo).map_err(|e| e.to_string())?,
                    Held::Tagged(f) => {
                        // a handle that was used before
                        let mut x = rw(&own);
                        let _ = x.seek(SeekFrom::Start(7));
                        f.save_to(&mut x, wo).map_err(|e| e.to_string())?;
                    },
                    Held::None => {},
                },
                "saveother" => match &mut h {
                    Held::Bound(f) if b(op, "path") => f.save_to_path(&other, wo).map_err(|e| e.to_string())?,
                    Held::Bound(f) => f.save_to(&mut rw(&other), wo).map_err(|e| e.to_string())?,
                    Held::Tagged(f) if b(op, "path") => f.save_to_path(&other, wo).map_err(|e| e.to_string())?,
                    Held::Tagged(f) => f.save_to(&mut rw(&other), wo).map_err(|e| e.to_string())?,
                    Held::None => {},
                },
                "changetype" => {
                    if let Held::Tagged(f) = &mut h {
                        f.change_file_type(file_type(s(op, "to")));
                    }
                },
                // a bound file goes on as an unbound one, or gives its handle back
                "close" => {
                    let x = std::mem::replace(&mut h, Held::None);
                    if let Held::Bound(f) = x {
                        let mut file = f.into_inner();
                        let (mut a, disk) = (vec![], std::fs::read(&own).expect("HARNESS: scratch"));
                        file.rewind().map_err(|e| e.to_string())?;
                        file.read_to_end(&mut a).map_err(|e| e.to_string())?;
                        if a != disk {
                            return Err("handle is not the file".into());
                        }
                    }
                },
                _ => match &mut h {
                    Held::Bound(f) => ret = edit(f, op),
                    Held::Tagged(f) => ret = edit(f, op),
                    Held::None => {},
                },
            }
            Ok(())
        });
        let (res, err) = match r {
            Ok(Ok(())) => ("ok", String::new()),
            Ok(Err(e)) => ("err", e),
            Err(e) => ("panic", e),
        };
        let post = state(&h);
        let lk = match &mut h {
            Held::Tagged(f) => look(f),
            Held::Bound(f) => look(f),
            Held::None => json!({}),
        };
        let mut o = op.clone();
        o.as_object_mut().unwrap().remove("o");
        out.ev(json!({"op": o, "kind": kind, "fmt": fmt, "pre": pre.0, "post": post.0, "res": res, "err": err, "ret": ret, "look": lk, "same": pre.1 == post.1}));
        pre = post;
        if matches!(h, Held::None) {
            break;
        }
    }
}

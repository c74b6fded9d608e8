//! Format specific tags as collections, and the common accessors on every tag type.
use crate::conc::{CTag, ape_item, atom, atom_j, ctag, ctag_j, frame, frame_j, ident, info, pic_item, picture, timestamp};
use crate::util::{self, Out, arr, expand, expand_s, n, s, tok};
use lofty::ape::ApeItem;
use lofty::id3::v2::{Frame, FrameId, TextInformationFrame};
use lofty::mp4::AdvisoryRating;
use lofty::ogg::OggPictureStorage;
use lofty::picture::PictureType;
use lofty::tag::{Accessor, ItemKey, ItemValue, Tag, TagExt};
use serde_json::{Value, json};

fn fs(v: &Value) -> Vec<&str> {
    arr(v, "f").iter().map(|x| x.as_str().expect("HARNESS: f")).collect()
}
fn fid(x: &str) -> FrameId<'static> {
    FrameId::new(x.to_string()).unwrap_or_else(|_| panic!("HARNESS: frame id {x}"))
}
fn opt<T>(o: Option<T>, f: impl Fn(T) -> Value) -> Value {
    json!(o.map(f).into_iter().collect::<Vec<_>>())
}
fn txt(x: &str) -> Value {
    json!(tok(x.as_bytes()))
}

/// what a call returned: a list of texts / items, or "refused"
fn apply(t: &mut CTag, op: &Value) -> Value {
    let a = s(op, "a");
    let key = || s(op, "key");
    let i = &op["item"];
    match t {
        CTag::Vc(t) => match a {
            "push" => {
                t.push(expand_s(s(i, "id")), expand_s(fs(i)[0]));
                json!([])
            },
            "insert" => {
                t.insert(expand_s(s(i, "id")), expand_s(fs(i)[0]));
                json!([])
            },
            "remove" => json!(t.remove(key()).map(|x| tok(x.as_bytes())).collect::<Vec<_>>()),
            // the removal must not depend on how much of the result is looked at
            "remove_unread" => {
                let _ = t.remove(key());
                json!([])
            },
            "take_items" => json!(t.take_items().map(|(k, v)| format!("{k}={}", tok(v.as_bytes()))).collect::<Vec<_>>()),
            "set_vendor" => {
                t.set_vendor(expand_s(key()));
                json!([])
            },
            "insert_pic" => {
                let f = fs(i);
                let inf = if f.len() > 4 { Some(info(&f[4..])) } else { None };
                match t.insert_picture(picture(&f[..4]), inf) {
                    Ok(r) => opt(r, |(p, i)| pic_item(&p, i)),
                    Err(_) => json!([{"id": "refused", "k": "", "f": [], "fl": ""}]),
                }
            },
            "set_pic" => {
                let f = fs(i);
                t.set_picture(n(op, "idx") as usize, picture(&f[..4]), info(&f[4..]));
                json!([])
            },
            "remove_pic" => {
                let (p, i) = t.remove_picture(n(op, "idx") as usize);
                json!([pic_item(&p, i)])
            },
            "remove_pic_type" => {
                t.remove_picture_type(PictureType::from_u8(n(op, "pt") as u8));
                json!([])
            },
            "remove_pics" => json!(t.remove_pictures().iter().map(|(p, i)| pic_item(p, *i)).collect::<Vec<_>>()),
            "clear" => {
                t.clear();
                json!([])
            },
            a => panic!("HARNESS: vc op {a}"),
        },
        CTag::Ape(t) => match a {
            "push" | "insert" => {
                let v = match s(i, "k") {
                    "T" => ItemValue::Text(expand_s(fs(i)[0])),
                    "L" => ItemValue::Locator(expand_s(fs(i)[0])),
                    _ => ItemValue::Binary(expand(fs(i)[0])),
                };
                match ApeItem::new(expand_s(s(i, "id")), v) {
                    Ok(mut it) => {
                        it.read_only = s(i, "fl") == "ro";
                        if a == "push" { t.push(it) } else { t.insert(it) }
                        json!([])
                    },
                    Err(_) => json!(["refused"]),
                }
            },
            "remove" => {
                t.remove(key());
                json!([])
            },
            "clear" => {
                t.clear();
                json!([])
            },
            a => panic!("HARNESS: ape op {a}"),
        },
        CTag::Riff(t) => match a {
            "insert" => {
                t.insert(expand_s(s(i, "id")), expand_s(fs(i)[0]));
                json!([])
            },
            "remove" => opt(t.remove(key()), |x| txt(&x)),
            "clear" => {
                t.clear();
                json!([])
            },
            a => panic!("HARNESS: riff op {a}"),
        },
        CTag::Ilst(t) => match a {
            "insert" => {
                t.insert(atom(i));
                json!([])
            },
            "replace" => {
                t.replace_atom(atom(i));
                json!([])
            },
            "remove" => json!(t.remove(&ident(key())).map(|a| atom_j(&a)).collect::<Vec<_>>()),
            "remove_unread" => {
                let _ = t.remove(&ident(key()));
                json!([])
            },
            "retain_not" => {
                let k = ident(key());
                t.retain(|a| a.ident() != &k);
                json!([])
            },
            "set_flag" => {
                t.set_flag(ident(key()), s(op, "v") == "true");
                json!([])
            },
            "set_rating" => {
                t.set_advisory_rating(match s(op, "v") {
                    "0" => AdvisoryRating::Inoffensive,
                    "2" => AdvisoryRating::Clean,
                    _ => AdvisoryRating::Explicit,
                });
                json!([])
            },
            "insert_pic" => {
                t.insert_picture(picture(&fs(i)[..4]));
                json!([])
            },
            "remove_pics" => {
                t.remove_pictures();
                json!([])
            },
            "clear" => {
                t.clear();
                json!([])
            },
            a => panic!("HARNESS: ilst op {a}"),
        },
        CTag::Id3v2(t) => match a {
            "insert" => opt(t.insert(frame(i)), |f| frame_j(&f)),
            "insert_multi" => {
                let v: Vec<String> = arr(op, "vs").iter().map(|x| expand_s(x.as_str().unwrap())).collect();
                let f = Frame::Text(TextInformationFrame::new(fid(key()), lofty::TextEncoding::UTF8, v.join("\0")));
                opt(t.insert(f), |f| frame_j(&f))
            },
            "remove" => json!(t.remove(&fid(key())).map(|f| frame_j(&f)).collect::<Vec<_>>()),
            "remove_unread" => {
                let _ = t.remove(&fid(key()));
                json!([])
            },
            "insert_ut" => opt(t.insert_user_text(expand_s(key()), expand_s(s(op, "v"))), |f| frame_j(&f)),
            "remove_ut" => opt(t.remove_user_text(key()), |f| frame_j(&f)),
            "insert_pic" => opt(t.insert_picture(picture(&fs(i)[..4])), |f| frame_j(&f)),
            "remove_pic_type" => {
                t.remove_picture_type(PictureType::from_u8(n(op, "pt") as u8));
                json!([])
            },
            "retain_not" => {
                t.retain(|f| f.id_str() != key());
                json!([])
            },
            "clear" => {
                t.clear();
                json!([])
            },
            a => panic!("HARNESS: id3v2 op {a}"),
        },
        CTag::Aiff(t) => match a {
            "clear" => {
                t.clear();
                json!([])
            },
            a => panic!("HARNESS: aiff op {a}"),
        },
        CTag::V1(t) => match a {
            "clear" => {
                t.clear();
                json!([])
            },
            a => panic!("HARNESS: id3v1 op {a}"),
        },
    }
}

fn per_key(t: &CTag, key: &str) -> Value {
    let r = |get: Value, all: Value, contains: bool| json!({"k": key, "get": get, "all": all, "contains": contains});
    match t {
        CTag::Vc(t) => r(opt(t.get(key), txt), json!(t.get_all(key).map(txt).collect::<Vec<_>>()), t.contains(key)),
        CTag::Ape(t) => r(
            opt(t.get(key), |i| txt(i.key())),
            json!(t.get(key).and_then(|i| i.text_values().map(|v| v.map(txt).collect::<Vec<_>>())).unwrap_or_default()),
            t.contains(key),
        ),
        CTag::Riff(t) => r(opt(t.get(key), txt), json!([]), t.contains(key)),
        CTag::Ilst(t) => {
            let k = ident(key);
            r(opt(t.get(&k), atom_j), json!([]), t.contains(&k))
        },
        CTag::Id3v2(t) => {
            if let Some(d) = key.strip_prefix("TXXX:") {
                return r(opt(t.get_user_text(d), txt), json!([]), t.get_user_text(d).is_some());
            }
            let k = fid(key);
            let f = t.get(&k);
            let texts: Vec<Value> = t.get_texts(&k).map(|x| x.map(txt).collect()).unwrap_or_default();
            let text = t.get_text(&k);
            assert_eq!(text.is_some(), t.get_texts(&k).is_some(), "get_text and get_texts disagree");
            r(opt(f, frame_j), json!(texts), t.contains(&k))
        },
        CTag::V1(t) => {
            let k = match key {
                "title" => ItemKey::TrackTitle,
                "artist" => ItemKey::TrackArtist,
                "album" => ItemKey::AlbumTitle,
                "year" => ItemKey::Year,
                "comment" => ItemKey::Comment,
                "track" => ItemKey::TrackNumber,
                "genre" => ItemKey::Genre,
                _ => ItemKey::Composer,
            };
            r(json!([]), json!([]), t.contains(&k))
        },
        CTag::Aiff(_) => r(json!([]), json!([]), false),
    }
}

fn observe(t: &CTag, keys: &[Value]) -> Value {
    let mut flags = vec![];
    let mut pics: Vec<Value> = vec![];
    match t {
        CTag::Ilst(t) => {
            for (k, v) in [
                ("pcst", t.is_podcast()),
                ("pgap", t.is_gapless()),
                ("shwm", t.is_show_work()),
                ("hdvd", t.is_hd_video()),
                ("cpil", t.is_compilation()),
            ] {
                if v {
                    flags.push(k.to_string());
                }
            }
            flags.push(t.advisory_rating().map_or("-".into(), |r| r.as_u8().to_string()));
            pics = t.pictures().map(|p| p.map(|x| json!(tok(x.data()))).collect()).unwrap_or_default();
        },
        CTag::Vc(t) => pics = t.pictures().iter().map(|(p, i)| pic_item(p, *i)).collect(),
        CTag::Id3v2(t) => {
            pics = t.comments().map(|c| json!(tok(c.content.as_bytes()))).chain(t.unsync_text().map(|c| json!(tok(c.content.as_bytes())))).collect();
        },
        _ => {},
    }
    json!({
        "keys": keys.iter().map(|k| per_key(t, k.as_str().unwrap())).collect::<Vec<_>>(),
        "flags": flags,
        "extra": pics,
        "len": t.len(),
        "empty": t.is_empty(),
    })
}

pub fn run(sc: &Value, out: &mut Out) {
    let mut t = ctag(&sc["init"]);
    let keys = arr(sc, "keys");
    out.ev(json!({"op": {"a": "init"}, "init": sc["init"], "ret": [], "post": ctag_j(&t), "obs": observe(&t, keys)}));
    for op in arr(sc, "ops") {
        match util::guard(|| apply(&mut t, op)) {
            Ok(ret) => out.ev(json!({"op": op, "ret": ret, "post": ctag_j(&t), "obs": observe(&t, keys)})),
            Err(p) => {
                out.ev(json!({"op": op, "ret": [], "post": ctag_j(&t), "obs": {"keys": [], "flags": [], "extra": [], "len": 0, "empty": false}, "panic": p}));
                return;
            },
        }
    }
    let _ = ape_item;
}

// ---- accessors (C19) -------------------------------------------------------
pub enum Any {
    C(CTag),
    G(Tag),
}

macro_rules! any {
    ($x:expr, $t:ident => $e:expr) => {
        match $x {
            Any::C(CTag::Id3v2($t)) => $e,
            Any::C(CTag::Ape($t)) => $e,
            Any::C(CTag::Vc($t)) => $e,
            Any::C(CTag::Ilst($t)) => $e,
            Any::C(CTag::Riff($t)) => $e,
            Any::C(CTag::Aiff($t)) => $e,
            Any::C(CTag::V1($t)) => $e,
            Any::G($t) => $e,
        }
    };
}

fn set<T: Accessor>(t: &mut T, f: &str, v: &str) {
    let num = || v.parse::<u32>().unwrap_or_else(|_| panic!("HARNESS: number {v}"));
    match f {
        "artist" => t.set_artist(expand_s(v)),
        "title" => t.set_title(expand_s(v)),
        "album" => t.set_album(expand_s(v)),
        "genre" => t.set_genre(expand_s(v)),
        "comment" => t.set_comment(expand_s(v)),
        "date" => t.set_date(timestamp(v)),
        "track" => t.set_track(num()),
        "track_total" => t.set_track_total(num()),
        "disk" => t.set_disk(num()),
        "disk_total" => t.set_disk_total(num()),
        f => panic!("HARNESS: field {f}"),
    }
}
fn unset<T: Accessor>(t: &mut T, f: &str) {
    match f {
        "artist" => t.remove_artist(),
        "title" => t.remove_title(),
        "album" => t.remove_album(),
        "genre" => t.remove_genre(),
        "comment" => t.remove_comment(),
        "date" => t.remove_date(),
        "track" => t.remove_track(),
        "track_total" => t.remove_track_total(),
        "disk" => t.remove_disk(),
        "disk_total" => t.remove_disk_total(),
        f => panic!("HARNESS: field {f}"),
    }
}
fn acc<T: Accessor>(t: &T) -> Value {
    let c = |x: Option<std::borrow::Cow<'_, str>>| json!(x.map(|x| tok(x.as_bytes())).into_iter().collect::<Vec<_>>());
    let n = |x: Option<u32>| json!(x.map(|x| x.to_string()).into_iter().collect::<Vec<_>>());
    json!({
        "artist": c(t.artist()), "title": c(t.title()), "album": c(t.album()), "genre": c(t.genre()), "comment": c(t.comment()),
        "date": json!(t.date().map(|d| d.to_string()).into_iter().collect::<Vec<_>>()),
        "track": n(t.track()), "track_total": n(t.track_total()), "disk": n(t.disk()), "disk_total": n(t.disk_total()),
    })
}
fn any_j(t: &Any) -> Value {
    match t {
        Any::C(t) => ctag_j(t)["items"].clone(),
        Any::G(t) => {
            let mut v: Vec<Value> = t
                .items()
                .map(|i| {
                    let (k, v) = util::value_j(i.value());
                    json!({"id": crate::keys::name(i.key()), "k": k, "f": [v, String::from_utf8_lossy(i.lang()), tok(i.description().as_bytes())], "fl": ""})
                })
                .collect();
            v.extend(t.pictures().iter().map(|p| json!({"id": "pic", "k": "pic", "f": [p.pic_type().as_u8().to_string(), tok(p.data())], "fl": ""})));
            json!(v)
        },
    }
}

pub fn accessors(sc: &Value, out: &mut Out) {
    let init = &sc["init"];
    let g = util::b(sc, "generic");
    let mut t = if g { Any::G(util::tag(init)) } else { Any::C(ctag(init)) };
    let show = |t: &Any| json!({"type": init["type"], "generic": g, "items": any_j(t), "acc": any!(t, x => acc(x))});
    out.ev(json!({"op": {"a": "init"}, "pre": show(&t), "post": show(&t)}));
    for op in arr(sc, "ops") {
        let pre = show(&t);
        let r = util::guard(|| match s(op, "a") {
            "set" => any!(&mut t, x => set(x, s(op, "f"), s(op, "v"))),
            _ => any!(&mut t, x => unset(x, s(op, "f"))),
        });
        match r {
            Ok(()) => out.ev(json!({"op": op, "pre": pre, "post": show(&t)})),
            Err(p) => {
                out.ev(json!({"op": op, "pre": pre.clone(), "post": pre, "panic": p}));
                return;
            },
        }
    }
}

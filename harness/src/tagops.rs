//! Generic tag: ordered multimap of items + list of pictures.
use crate::util::{self, Out, arr, b, expand_s, item, item_j, k, n, opt_j, pic, pic_j, s, tag, tag_j, tok, ty};
use lofty::picture::PictureType;
use lofty::tag::{Accessor, ItemValue, Tag, TagExt, TagItem};
use serde_json::{Value, json};

fn pred(v: &Value) -> impl Fn(&TagItem) -> bool + use<> {
    let (p, x) = (s(v, "p").to_string(), s(v, "x").to_string());
    move |i: &TagItem| match p.as_str() {
        "all" => true,
        "none" => false,
        "empty" => i.value().is_empty(),
        "text" => i.value().text().is_some(),
        "nodesc" => i.description().is_empty(),
        "val" => util::value_j(i.value()).1 == x,
        "key" => crate::keys::name(i.key()) == x,
        _ => panic!("HARNESS: predicate"),
    }
}

fn boolr(x: bool) -> Value {
    json!([if x { "true" } else { "false" }])
}

fn apply(t: &mut Tag, op: &Value) -> Value {
    match s(op, "a") {
        "insert" => boolr(t.insert(item(&op["item"]))),
        "push" => boolr(t.push(item(&op["item"]))),
        "insert_unchecked" => {
            t.insert_unchecked(item(&op["item"]));
            json!([])
        },
        "push_unchecked" => {
            t.push_unchecked(item(&op["item"]));
            json!([])
        },
        "insert_text" => boolr(t.insert_text(k(s(op, "k")), expand_s(s(op, "v")))),
        "take" => json!(t.take(k(s(op, "k"))).map(|i| item_j(&i)).collect::<Vec<_>>()),
        "take_first" => json!(t.take(k(s(op, "k"))).take(1).map(|i| item_j(&i)).collect::<Vec<_>>()),
        "take_filter" => json!(t.take_filter(k(s(op, "k")), pred(op)).map(|i| item_j(&i)).collect::<Vec<_>>()),
        "take_strings" => json!(t.take_strings(k(s(op, "k"))).map(|x| tok(x.as_bytes())).collect::<Vec<_>>()),
        "remove_key" => {
            t.remove_key(k(s(op, "k")));
            json!([])
        },
        "retain" => {
            t.retain(pred(op));
            json!([])
        },
        "remove_empty" => {
            t.remove_empty();
            json!([])
        },
        "clear" => {
            t.clear();
            json!([])
        },
        "re_map" => {
            t.re_map(ty(s(op, "type")));
            json!([])
        },
        "push_picture" => {
            t.push_picture(pic(&op["pic"]));
            json!([])
        },
        "set_picture" => {
            t.set_picture(n(op, "idx") as usize, pic(&op["pic"]));
            json!([])
        },
        "remove_picture" => json!([pic_j(&t.remove_picture(n(op, "idx") as usize))]),
        "remove_picture_type" => {
            t.remove_picture_type(PictureType::from_u8(n(op, "pt") as u8));
            json!([])
        },
        "set" => {
            let v = s(op, "v");
            match s(op, "f") {
                "artist" => t.set_artist(expand_s(v)),
                "title" => t.set_title(expand_s(v)),
                "album" => t.set_album(expand_s(v)),
                "genre" => t.set_genre(expand_s(v)),
                "comment" => t.set_comment(expand_s(v)),
                "track" => t.set_track(v.parse().unwrap()),
                "track_total" => t.set_track_total(v.parse().unwrap()),
                "disk" => t.set_disk(v.parse().unwrap()),
                "disk_total" => t.set_disk_total(v.parse().unwrap()),
                f => panic!("HARNESS: field {f}"),
            }
            json!([])
        },
        "unset" => {
            match s(op, "f") {
                "artist" => t.remove_artist(),
                "title" => t.remove_title(),
                "album" => t.remove_album(),
                "genre" => t.remove_genre(),
                "comment" => t.remove_comment(),
                "track" => t.remove_track(),
                "track_total" => t.remove_track_total(),
                "disk" => t.remove_disk(),
                "disk_total" => t.remove_disk_total(),
                f => panic!("HARNESS: field {f}"),
            }
            json!([])
        },
        "new_checked" => {
            let i = &op["item"];
            let it = item(i);
            let (kk, vv) = it.consume();
            json!(TagItem::new_checked(ty(s(op, "type")), kk, vv).iter().map(item_j).collect::<Vec<_>>())
        },
        a => panic!("HARNESS: op {a}"),
    }
}

fn observe(t: &Tag, keys: &[Value], pts: &[Value]) -> Value {
    let per: Vec<Value> = keys
        .iter()
        .map(|kv| {
            let name = kv.as_str().unwrap();
            let key = k(name);
            let bin = |c: bool| t.get_binary(key, c).map(tok);
            json!({
                "k": name,
                "get": t.get(key).map(item_j).into_iter().collect::<Vec<_>>(),
                "string": t.get_string(key).map(|x| tok(x.as_bytes())).into_iter().collect::<Vec<_>>(),
                "items": t.get_items(key).map(item_j).collect::<Vec<_>>(),
                "strings": t.get_strings(key).map(|x| tok(x.as_bytes())).collect::<Vec<_>>(),
                "locators": t.get_locators(key).map(|x| tok(x.as_bytes())).collect::<Vec<_>>(),
                "bytes": t.get_bytes(key).map(tok).collect::<Vec<_>>(),
                "binary": bin(false).into_iter().collect::<Vec<_>>(),
                "binconv": bin(true).into_iter().collect::<Vec<_>>(),
                "contains": t.contains(key),
            })
        })
        .collect();
    let acc = json!({
        "artist": t.artist().map(|x| tok(x.as_bytes())).into_iter().collect::<Vec<_>>(),
        "title": t.title().map(|x| tok(x.as_bytes())).into_iter().collect::<Vec<_>>(),
        "album": t.album().map(|x| tok(x.as_bytes())).into_iter().collect::<Vec<_>>(),
        "genre": t.genre().map(|x| tok(x.as_bytes())).into_iter().collect::<Vec<_>>(),
        "comment": t.comment().map(|x| tok(x.as_bytes())).into_iter().collect::<Vec<_>>(),
        "track": t.track().map(|x| x.to_string()).into_iter().collect::<Vec<_>>(),
        "track_total": t.track_total().map(|x| x.to_string()).into_iter().collect::<Vec<_>>(),
        "disk": t.disk().map(|x| x.to_string()).into_iter().collect::<Vec<_>>(),
        "disk_total": t.disk_total().map(|x| x.to_string()).into_iter().collect::<Vec<_>>(),
    });
    json!({
        "keys": per,
        "acc": acc,
        "pt": pts.iter().map(|p| json!({"pt": p, "get": t.get_picture_type(PictureType::from_u8(p.as_i64().unwrap() as u8)).map(pic_j).into_iter().collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "len": t.len(),
        "item_count": t.item_count(),
        "picture_count": t.picture_count(),
        "empty": t.is_empty(),
        "specific": t.has_format_specific_items(),
        "iter": t.items().len(),
    })
}

pub fn run(sc: &Value, out: &mut Out) {
    let mut t = tag(&sc["init"]);
    let (keys, pts) = (arr(sc, "keys"), arr(sc, "pts"));
    out.ev(json!({"op": {"a": "init"}, "init": sc["init"], "ret": [], "post": tag_j(&t), "obs": observe(&t, keys, pts)}));
    for op in arr(sc, "ops") {
        match util::guard(|| apply(&mut t, op)) {
            Ok(ret) => out.ev(json!({"op": op, "ret": ret, "post": tag_j(&t), "obs": observe(&t, keys, pts)})),
            Err(p) => {
                out.ev(json!({"op": op, "ret": [], "post": tag_j(&t), "obs": observe(&t, keys, pts), "panic": p}));
                return;
            },
        }
    }
    let _ = (b, opt_j, ItemValue::is_empty);
}

/// Dump the whole key mapping (used to check it against the pinned table).
pub fn keymap(sc: &Value, out: &mut Out) {
    let t = ty(s(sc, "type"));
    for (name, key) in crate::keys::ALL {
        let m = key.map_key(t);
        let fk = |x: &str| lofty::tag::ItemKey::from_key(t, x).map(crate::keys::name);
        let back = m.map(|m| json!({"f": m, "exact": fk(m).unwrap_or("-".into()), "lower": fk(&m.to_ascii_lowercase()).unwrap_or("-".into()), "upper": fk(&m.to_ascii_uppercase()).unwrap_or("-".into())}));
        out.ev(json!({"op": {"a": "map", "k": name, "type": s(sc, "type")}, "ret": back.into_iter().collect::<Vec<_>>()}));
    }
    for a in arr(sc, "probe") {
        let x = a.as_str().unwrap();
        out.ev(json!({"op": {"a": "from", "s": x, "type": s(sc, "type")}, "ret": lofty::tag::ItemKey::from_key(t, x).map(crate::keys::name).into_iter().collect::<Vec<_>>()}));
    }
}

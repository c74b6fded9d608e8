//! Conversions between generic and format specific tags: split / edit / merge and From.
use crate::conc::{CTag, ctag, ctag_j};
use crate::util::{self, Out, arr, b, item, pic, s, tag, tag_j};
use lofty::mp4::{AtomData, AtomIdent, DataType};
use lofty::config::WriteOptions;
use lofty::prelude::*;
use lofty::probe::Probe;
use lofty::tag::Tag;
use serde_json::{Value, json};

/// A tag's content; number pairs of an ilst are shown as such.
fn conc_j(t: &CTag) -> Value {
    let mut j = ctag_j(t);
    if let CTag::Ilst(x) = t {
        for (n, a) in x.into_iter().enumerate() {
            if !matches!(a.ident(), AtomIdent::Fourcc(f) if f == b"trkn" || f == b"disk") {
                continue;
            }
            for (m, d) in a.data().enumerate() {
                if let AtomData::Unknown { code: DataType::Reserved, data } = d
                    && data.len() >= 6
                {
                    j["items"][n]["f"][2 * m] = json!("pair");
                    j["items"][n]["f"][2 * m + 1] = json!(format!("{}/{}", u16::from_be_bytes([data[2], data[3]]), u16::from_be_bytes([data[4], data[5]])));
                }
            }
        }
    }
    j
}

fn edit(t: &mut Tag, op: &Value) {
    match s(op, "a") {
        "insert" => {
            t.insert_unchecked(item(&op["item"]));
        },
        "push" => t.push_unchecked(item(&op["item"])),
        "remove" => t.remove_key(util::k(s(op, "k"))),
        "remove_pics" => {
            while !t.pictures().is_empty() {
                t.remove_picture(0);
            }
        },
        "push_pic" => t.push_picture(pic(&op["pic"])),
        x => panic!("HARNESS: edit {x}"),
    }
}

/// (remainder if it can be seen, generic part, merged without edits, merged after the edits)
fn split_merge(t: &CTag, edits: &[Value]) -> (Value, Value, Value, Value, Value) {
    macro_rules! seen {
        (deref, $r:ident, $v:path) => {
            json!([conc_j(&$v((*$r).clone()))])
        };
        (unit, $r:ident, $v:path) => {
            json!([])
        };
    }
    macro_rules! go {
        ($t:expr, $v:path, $seen:tt) => {{
            let (rem, gen_) = $t.clone().split_tag();
            let g0 = tag_j(&gen_);
            let r0 = seen!($seen, rem, $v);
            let m0 = conc_j(&$v(rem.clone().merge_tag(gen_.clone())));
            let mut g = gen_;
            for e in edits {
                edit(&mut g, e);
            }
            let g1 = tag_j(&g);
            let m1 = conc_j(&$v(rem.merge_tag(g)));
            (r0, g0, m0, g1, m1)
        }};
    }
    match t {
        CTag::Id3v2(x) => go!(x, CTag::Id3v2, deref),
        CTag::Ape(x) => go!(x, CTag::Ape, deref),
        CTag::Vc(x) => go!(x, CTag::Vc, deref),
        CTag::Ilst(x) => go!(x, CTag::Ilst, deref),
        CTag::Riff(x) => go!(x, CTag::Riff, unit),
        CTag::Aiff(x) => go!(x, CTag::Aiff, unit),
        CTag::V1(x) => go!(x, CTag::V1, unit),
    }
}

/// A generic tag saved to a minimal file and read back.
fn file(fmt: &str, parts: &[&str], g: &Tag, out: &mut Out) {
    let ty = g.tag_type();
    let mut f = std::io::Cursor::new(crate::synth::build(fmt, parts));
    let res = g.save_to(&mut f, WriteOptions::default());
    let (res, found, back) = match res {
        Err(e) => (e.to_string(), false, Tag::new(ty)),
        Ok(()) => {
            f.set_position(0);
            match Probe::new(&mut f).set_file_type(crate::files::file_type(fmt)).read() {
                Err(e) => (e.to_string(), false, Tag::new(ty)),
                Ok(t) => ("ok".to_string(), t.tag(ty).is_some(), t.tag(ty).cloned().unwrap_or_else(|| Tag::new(ty))),
            }
        },
    };
    out.ev(json!({"op": {"a": "file", "fmt": fmt}, "type": util::ty_name(ty), "gen": tag_j(g), "res": res, "found": found, "back": tag_j(&back)}));
}

pub fn run(sc: &Value, out: &mut Out) {
    let edits = arr(sc, "ops");
    let c = if b(sc, "to") {
        // generic -> concrete -> generic
        let g = tag(&sc["tag"]);
        let c = CTag::from_generic(&g);
        let back = c.generic();
        if !b(sc, "split") {
            out.ev(json!({"op": {"a": "to"}, "type": sc["tag"]["type"], "gen": tag_j(&g), "conc": conc_j(&c), "back": tag_j(&back)}));
            if !s(sc, "file").is_empty() {
                let parts: Vec<&str> = arr(sc, "parts").iter().map(|x| x.as_str().unwrap()).collect();
                file(s(sc, "file"), &parts, &g, out);
            }
            return;
        }
        let mut j = conc_j(&c);
        j["items"].as_array_mut().unwrap().extend(arr(sc, "extra").iter().cloned());
        ctag(&j)
    } else {
        ctag(&sc["tag"])
    };
    let (rem, gen_, merged, gen2, merged2) = split_merge(&c, edits);
    // the conversions, which carry what the generic form cannot express along
    let conv = c.generic();
    let back = CTag::from_generic(&conv);
    let mut conv2 = c.generic();
    for e in edits {
        edit(&mut conv2, e);
    }
    let back2 = CTag::from_generic(&conv2);
    out.ev(json!({"op": {"a": "split"}, "type": sc["tag"]["type"], "edits": edits, "conc": conc_j(&c), "rem": rem, "gen": gen_, "merged": merged,
        "gen2": gen2, "merged2": merged2, "conv": tag_j(&conv), "back": conc_j(&back), "back2": conc_j(&back2)}));
}

//! Suite `views`: one file seen through every parse option.
use crate::files::{apply, parse_options, props, read_conc};
use crate::util::{self, Out, arr, guard, hash, s};
use crate::synth;
use lofty::config::ParseOptions;
use lofty::file::TaggedFileExt;
use lofty::probe::Probe;
use serde_json::{Value, json};
use std::io::Cursor;

/// deterministic damage: a scenario names places relative to the length
pub fn damage(bytes: &mut Vec<u8>, muts: &[Value]) {
    for m in muts {
        let len = bytes.len() as u64;
        if len == 0 {
            return;
        }
        let at = match m.get("at").and_then(Value::as_u64) {
            Some(x) => x % len,
            None => (m["ppm"].as_u64().expect("HARNESS: ppm") * len / 1_000_000).min(len - 1),
        } as usize;
        let v = m.get("v").and_then(Value::as_u64).unwrap_or(0);
        match s(m, "k") {
            "trunc" => bytes.truncate(at),
            "set" => bytes[at] = v as u8,
            "xor" => bytes[at] ^= v as u8,
            "be32" => bytes[at..].iter_mut().zip((v as u32).to_be_bytes()).for_each(|(a, b)| *a = b),
            "le32" => bytes[at..].iter_mut().zip((v as u32).to_le_bytes()).for_each(|(a, b)| *a = b),
            "del" => {
                let e = (at + v as usize).min(bytes.len());
                bytes.drain(at..e);
            },
            "ins" => {
                for i in 0..v {
                    bytes.insert(at, (i * 7) as u8);
                }
            },
            "dup" => {
                let e = (at + v as usize).min(bytes.len());
                let part = bytes[at..e].to_vec();
                for (i, b) in part.into_iter().enumerate() {
                    bytes.insert(at + i, b);
                }
            },
            "zero" => {
                let e = (at + v as usize).min(bytes.len());
                bytes[at..e].fill(0);
            },
            "ones" => {
                let e = (at + v as usize).min(bytes.len());
                bytes[at..e].fill(255);
            },
            x => panic!("HARNESS: damage {x}"),
        }
    }
}

/// the file of a scenario: synthesised, edited, damaged
pub fn file(v: &Value) -> Vec<u8> {
    let fmt = s(v, "fmt");
    let parts: Vec<&str> = arr(v, "parts").iter().map(|x| x.as_str().expect("HARNESS: part")).collect();
    let mut bytes = synth::build(fmt, &parts);
    for op in arr(v, "prep") {
        let _ = guard(|| apply(fmt, &mut bytes, op));
    }
    damage(&mut bytes, arr(v, "mut"));
    bytes
}

/// an error with everything it stems from
pub fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut at = e.source();
    while let Some(x) = at {
        s += &format!(": {x}");
        at = x.source();
    }
    s
}

pub fn view(fmt: &str, bytes: &[u8], po: ParseOptions) -> Value {
    let conc = match guard(|| read_conc(fmt, &mut Cursor::new(bytes), po)) {
        Ok(Ok(v)) => ("ok", v, String::new()),
        Ok(Err(e)) => ("err", vec![], chain(&e)),
        Err(m) => ("panic", vec![], m),
    };
    let g = guard(|| {
        let p = Probe::with_file_type(Cursor::new(bytes), crate::files::file_type(fmt)).options(po);
        p.read()
    });
    let g = match g {
        Ok(Ok(f)) => ("ok", f.tags().iter().map(util::tag_j).collect(), props(&f)),
        Ok(Err(_)) => ("err", vec![], vec![]),
        Err(_) => ("panic", vec![], vec![]),
    };
    json!({"err": conc.2, "res": conc.0, "gres": g.0, "tags": conc.1, "gen": g.1, "props": g.2})
}

pub fn run(v: &Value, out: &mut Out) {
    let fmt = s(v, "fmt");
    let bytes = file(v);
    let before = hash(&bytes);
    let base = view(fmt, &bytes, ParseOptions::new());
    let views: Vec<Value> = arr(v, "opts").iter().map(|o| json!({"o": o, "v": view(fmt, &bytes, parse_options(o))})).collect();
    out.ev(json!({"op": {"a": "views"}, "fmt": fmt, "parts": v["parts"], "bad": !arr(v, "mut").is_empty(), "hash": before, "base": base, "views": views}));
}

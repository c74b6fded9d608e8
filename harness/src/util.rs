//! Shared projection helpers.
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::tag::{ItemKey, ItemValue, Tag, TagItem, TagType};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Out {
    sc: usize,
    i: usize,
    buf: Vec<u8>,
}

impl Out {
    pub fn new(sc: usize) -> Self {
        TOK.with(|t| t.borrow_mut().clear());
        Self { sc, i: 0, buf: Vec::new() }
    }
    pub fn ev(&mut self, mut v: Value) {
        let o = v.as_object_mut().expect("HARNESS: event object");
        o.insert("sc".into(), json!(self.sc));
        o.insert("i".into(), json!(self.i));
        if !o.contains_key("panic") {
            o.insert("panic".into(), json!(""));
        }
        self.i += 1;
        serde_json::to_writer(&mut self.buf, &v).expect("HARNESS: json");
        self.buf.push(b'\n');
    }
    pub fn finish(self) -> Vec<u8> {
        self.buf
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    // real content -> token, so that events speak the specification's vocabulary
    static TOK: RefCell<HashMap<Vec<u8>, String>> = RefCell::new(HashMap::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Run library code; a panic becomes data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        let m = last_panic();
        assert!(!m.contains("HARNESS"), "{m}");
        m
    })
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= u64::from(x);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub fn hash(b: &[u8]) -> String {
    format!("#{}:{:016x}", b.len(), fnv(b))
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(Value::as_str).unwrap_or("")
}
pub fn n(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(Value::as_i64).unwrap_or(0)
}
pub fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(Value::as_bool).unwrap_or(false)
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(Value::as_array).map_or(&[], |a| a.as_slice())
}

/// Expand a value token into real content. Tokens:
///   "~a<N>"  N times 'a'-style pattern text      "~u<N>" multi-byte text of N chars
///   "~b<N>"  N pseudo random bytes (binary)      "~z<N>" N zero bytes
///   "~s<N>"  N bytes full of 0xFF (synchronisation patterns)
///   anything else stands for itself
pub fn expand(tok: &str) -> Vec<u8> {
    let r = expand_raw(tok);
    if !r.is_empty() {
        TOK.with(|t| {
            t.borrow_mut().entry(r.clone()).or_insert_with(|| tok.to_string());
        });
    }
    r
}
fn expand_raw(tok: &str) -> Vec<u8> {
    if let Some(h) = tok.strip_prefix("~h") {
        return (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("HARNESS: hex")).collect();
    }
    if let Some(t) = tok.strip_prefix('~') {
        let (k, num) = t.split_at(1);
        let (num, salt) = num.split_once('.').unwrap_or((num, "0"));
        let len: usize = num.parse().unwrap_or_else(|_| panic!("HARNESS: token {tok}"));
        let salt: u64 = salt.parse().unwrap_or(0);
        match k {
            "a" => (0..len).map(|i| b'a' + ((i as u64 * 7 + salt) % 26) as u8).collect(),
            "u" => {
                let cs = ['é', '中', 'я', 'ß', 'ñ', '日', 'Ω'];
                (0..len).map(|i| cs[(i + salt as usize) % cs.len()]).collect::<String>().into_bytes()
            },
            "b" => {
                let mut x = 0x9E37_79B9_7F4A_7C15u64 ^ (salt.wrapping_mul(0xD134_2543_DE82_EF95));
                (0..len)
                    .map(|_| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        (x >> 32) as u8
                    })
                    .collect()
            },
            "z" => vec![0; len],
            "s" => (0..len).map(|i| if i % 3 == 2 { 0xE0 } else { 0xFF }).collect(),
            // image-like payloads
            "p" => {
                let mut v = vec![0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A];
                v.extend(expand_raw(&format!("~b{}.{salt}", len)));
                v
            },
            "j" => {
                let mut v = vec![0xFF, 0xD8, 0xFF, 0xE0];
                v.extend(expand_raw(&format!("~b{}.{salt}", len)));
                v
            },
            _ => panic!("HARNESS: token {tok}"),
        }
    } else {
        // "<0>" stands for a NUL character, "<e9>" for U+00E9
        let mut out = String::new();
        let mut rest = tok;
        while let Some(i) = rest.find('<') {
            out.push_str(&rest[..i]);
            let hex: String = rest[i + 1..].chars().take_while(|c| c.is_ascii_digit() || ('a'..='f').contains(c)).collect();
            match u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                Some(c) if rest[i + 1 + hex.len()..].starts_with('>') => {
                    out.push(c);
                    rest = &rest[i + 2 + hex.len()..];
                },
                _ => {
                    out.push('<');
                    rest = &rest[i + 1..];
                },
            }
        }
        out.push_str(rest);
        out.into_bytes()
    }
}

pub fn expand_s(tok: &str) -> String {
    String::from_utf8(expand(tok)).unwrap_or_else(|_| panic!("HARNESS: token {tok} is not text"))
}

/// Real content back to the token it came from, or a printable form.
pub fn tok(b: &[u8]) -> String {
    if let Some(t) = TOK.with(|t| t.borrow().get(b).cloned()) {
        return t;
    }
    match std::str::from_utf8(b) {
        Ok(t) if t.len() <= 160 && t.chars().all(|c| (' '..='~').contains(&c) && c != '"' && c != '\\') => t.to_string(),
        Ok(t) if t.len() <= 160 => t
            .chars()
            .map(|c| if (' '..='~').contains(&c) && c != '"' && c != '\\' { c.to_string() } else { format!("<{:x}>", c as u32) })
            .collect(),
        _ => hash(b),
    }
}

pub const TYPES: &[(&str, TagType)] = &[
    ("Ape", TagType::Ape),
    ("Id3v1", TagType::Id3v1),
    ("Id3v2", TagType::Id3v2),
    ("Mp4Ilst", TagType::Mp4Ilst),
    ("VorbisComments", TagType::VorbisComments),
    ("RiffInfo", TagType::RiffInfo),
    ("AiffText", TagType::AiffText),
];

pub fn ty(n: &str) -> TagType {
    TYPES.iter().find(|(k, _)| *k == n).unwrap_or_else(|| panic!("HARNESS: type {n}")).1
}
pub fn ty_name(t: TagType) -> &'static str {
    TYPES.iter().find(|(_, v)| *v == t).map_or("?", |x| x.0)
}

pub fn item(v: &Value) -> TagItem {
    let val = match s(v, "t") {
        "T" => ItemValue::Text(expand_s(s(v, "v"))),
        "L" => ItemValue::Locator(expand_s(s(v, "v"))),
        "B" => ItemValue::Binary(expand(s(v, "v"))),
        x => panic!("HARNESS: value kind {x}"),
    };
    let mut i = TagItem::new(crate::keys::key(s(v, "k")), val);
    if let Some(d) = v.get("d").and_then(Value::as_str) {
        i.set_description(expand_s(d));
    }
    if let Some(l) = v.get("l").and_then(Value::as_str) {
        let mut a = *b"XXX";
        a.copy_from_slice(&l.as_bytes()[..3]);
        i.set_lang(a);
    }
    i
}

pub fn item_j(i: &TagItem) -> Value {
    let (t, v) = value_j(i.value());
    json!({"k": crate::keys::name(i.key()), "t": t, "v": v, "l": String::from_utf8_lossy(i.lang()), "d": tok(i.description().as_bytes())})
}

pub fn value_j(v: &ItemValue) -> (&'static str, String) {
    match v {
        ItemValue::Text(x) => ("T", tok(x.as_bytes())),
        ItemValue::Locator(x) => ("L", tok(x.as_bytes())),
        ItemValue::Binary(x) => ("B", tok(x)),
    }
}

/// {"pt": u8, "m": mime or "", "d": description or absent, "data": token}
pub fn pic(v: &Value) -> Picture {
    let mut p = Picture::unchecked(expand(s(v, "data"))).pic_type(PictureType::from_u8(n(v, "pt") as u8));
    if let Some(m) = v.get("m").and_then(Value::as_str)
        && m != "-"
    {
        p = p.mime_type(MimeType::from_str(m));
    }
    if let Some(d) = v.get("d").and_then(Value::as_str)
        && d != "-"
    {
        p = p.description(expand_s(d));
    }
    p.build()
}

pub fn pic_j(p: &Picture) -> Value {
    json!({
        "pt": p.pic_type().as_u8(),
        "m": p.mime_type().map_or("-".to_string(), |m| m.as_str().to_string()),
        "d": p.description().map_or("-".to_string(), |d| tok(d.as_bytes())),
        "data": tok(p.data()),
    })
}

/// Build a generic tag without any checks from {"type", "items", "pics"}.
pub fn tag(v: &Value) -> Tag {
    let mut t = Tag::new(ty(s(v, "type")));
    for i in arr(v, "items") {
        t.push_unchecked(item(i));
    }
    for p in arr(v, "pics") {
        t.push_picture(pic(p));
    }
    t
}

pub fn tag_j(t: &Tag) -> Value {
    json!({
        "type": ty_name(t.tag_type()),
        "items": t.items().map(item_j).collect::<Vec<_>>(),
        "pics": t.pictures().iter().map(pic_j).collect::<Vec<_>>(),
    })
}

#[allow(dead_code)]
pub fn opt_s(o: Option<&str>) -> Value {
    // absent is ["-"], present is ["+", v]
    match o {
        None => json!(["-"]),
        Some(x) => json!(["+", tok(x.as_bytes())]),
    }
}
#[allow(dead_code)]
pub fn opt_j(o: Option<Value>) -> Value {
    match o {
        None => json!(["-"]),
        Some(x) => json!(["+", x]),
    }
}
#[allow(dead_code)]
pub fn k(n: &str) -> ItemKey {
    crate::keys::key(n)
}

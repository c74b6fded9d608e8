//! Suite `props`: audio properties reported for streams whose bytes the specification wrote.
use crate::synth;
use crate::util::{Out, arr, guard, n, s};
use lofty::config::{ParseOptions, ParsingMode};
use lofty::file::{AudioFile, FileType};
use lofty::mpeg::{Emphasis, Layer, MpegVersion};
use lofty::musepack::MpcProperties;
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use serde_json::{Value, json};
use std::io::Cursor;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("HARNESS: bytes").iter().map(|x| x.as_u64().expect("HARNESS: byte") as u8).collect()
}
/// little endian digits without leading zeros
fn dig(x: u128) -> Value {
    let mut b = x.to_le_bytes().to_vec();
    while b.last() == Some(&0) {
        b.pop();
    }
    json!(b)
}
fn od(x: Option<u128>) -> Value {
    x.map_or(json!([-1]), dig)
}
fn be(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x}.")).collect()
}
pub fn segs(v: &[Value]) -> Vec<u8> {
    let mut o = vec![];
    for g in v {
        let b = bytes(&g["b"]);
        if n(g, "g") == 1 {
            let gran = u64::from_le_bytes(b[1..9].try_into().expect("HARNESS: granule"));
            let mut lac = vec![];
            let mut body = vec![];
            for p in arr(g, "p") {
                let p = bytes(p);
                lac.extend(std::iter::repeat_n(255u8, p.len() / 255));
                lac.push((p.len() % 255) as u8);
                body.extend(p);
            }
            o.extend(synth::ogg_page(b[0], gran, 0x1234, u32::from(b[9]), &lac, &body));
        } else {
            o.extend(b);
            o.extend(std::iter::repeat_n(n(g, "v") as u8, n(g, "z") as usize));
        }
    }
    o
}
fn toks(v: &Value, k: &str) -> Vec<String> {
    arr(v, k).iter().map(|x| x.as_str().expect("HARNESS: part").to_string()).collect()
}
fn generic(fmt: &str, v: &Value, k: &str) -> Vec<u8> {
    let t = toks(v, k);
    synth::build(fmt, &t.iter().map(String::as_str).collect::<Vec<_>>())
}
type Seen = (FileProperties, Vec<String>);
fn st<T: ToString>(p: &str, x: T) -> String {
    format!("{p}{}", x.to_string())
}
fn bit(p: &str, b: bool) -> String {
    st(p, u8::from(b))
}
fn look(fmt: &str, b: &[u8], o: ParseOptions) -> Result<Seen, String> {
    let mut r = Cursor::new(b);
    macro_rules! rd {
        ($t:ty) => {
            <$t>::read_from(&mut r, o).map_err(|e| format!("{e:?}"))?
        };
    }
    macro_rules! out {
        ($p:expr, $x:expr) => {
            Ok((FileProperties::from($p.clone()), $x))
        };
    }
    match fmt {
        "mpeg" => {
            let f = rd!(lofty::mpeg::MpegFile);
            let p = f.properties();
            let x = vec![
                st("v", match p.version() { MpegVersion::V1 => "1", MpegVersion::V2 => "2", MpegVersion::V2_5 => "25", _ => "4" }),
                st("l", match p.layer() { Layer::Layer1 => 1, Layer::Layer2 => 2, Layer::Layer3 => 3 }),
                st("m", *p.channel_mode() as u8),
                p.mode_extension().map_or("e-".into(), |e| st("e", e)),
                bit("c", p.is_copyright()),
                bit("o", p.is_original()),
                st("p", match p.emphasis() { None => 0, Some(Emphasis::MS5015) => 1, Some(Emphasis::Reserved) => 2, Some(Emphasis::CCIT_J17) => 3 }),
            ];
            out!(p, x)
        },
        "aac" => {
            let f = rd!(lofty::aac::AacFile);
            let p = f.properties();
            let x = vec![st("v", match p.version() { MpegVersion::V2 => 2, MpegVersion::V4 => 4, _ => 0 }), st("t", p.audio_object_type() as u8), bit("o", p.original())];
            out!(p, x)
        },
        "flac" => {
            let f = rd!(lofty::flac::FlacFile);
            let p = f.properties();
            let want: u128 = u128::from_be_bytes(core::array::from_fn(|k| (16 * (k + 1) - 1) as u8));
            let x = if p.signature() == want || p.signature() == 0 { vec![] } else { vec!["signature".to_string()] };
            out!(p, x)
        },
        "wav" => {
            let f = rd!(lofty::iff::wav::WavFile);
            let p = f.properties();
            use lofty::iff::wav::WavFormat as W;
            let x = vec![st("f", match p.format() { W::PCM => 1, W::IEEE_FLOAT => 3, W::Other(t) => *t, _ => 0 })];
            out!(p, x)
        },
        "aiff" => {
            let f = rd!(lofty::iff::aiff::AiffFile);
            let p = f.properties();
            use lofty::iff::aiff::AiffCompressionType as C;
            let x = match p.compression_type() {
                None => vec!["c".into(), "n".into()],
                Some(C::Other { compression_type, compression_name }) => vec![st("c", String::from_utf8_lossy(compression_type)), st("n", compression_name)],
                Some(c) => vec![st("c", String::from_utf8_lossy(format!("{c:?}").replace("None", "NONE").as_bytes())), "n".into()],
            };
            let mut x = x;
            x.push(st("h", p.channels()));
            out!(p, x)
        },
        "ape" => {
            let f = rd!(lofty::ape::ApeFile);
            let p = f.properties();
            out!(p, vec![st("v", p.version())])
        },
        "wv" => {
            let f = rd!(lofty::wavpack::WavPackFile);
            let p = f.properties();
            out!(p, vec![st("v", p.version()), (if p.is_lossless() { "lossless" } else { "lossy" }).to_string(), st("h", p.channels())])
        },
        "vorbis" => {
            let f = rd!(lofty::ogg::VorbisFile);
            let p = f.properties();
            out!(p, vec![st("M", be(&p.bitrate_max().to_be_bytes())), st("N", be(&p.bitrate_nominal().to_be_bytes())), st("m", be(&p.bitrate_min().to_be_bytes()))])
        },
        "opus" => {
            let f = rd!(lofty::ogg::OpusFile);
            let p = f.properties();
            out!(p, vec![])
        },
        "speex" => {
            let f = rd!(lofty::ogg::SpeexFile);
            let p = f.properties();
            out!(p, vec![st("m", p.mode()), st("N", be(&p.nominal_bitrate().to_be_bytes())), bit("v", p.vbr())])
        },
        "mp4" => {
            let f = rd!(lofty::mp4::Mp4File);
            let p = f.properties();
            let x = vec![
                st("b", p.ftyp()),
                p.codec().map_or("k-".into(), |c| format!("k{c:?}")),
                p.audio_object_type().map_or("t-".into(), |c| st("t", c as u8)),
                bit("d", p.is_drm_protected()),
            ];
            out!(p, x)
        },
        _ => {
            let f = rd!(lofty::musepack::MpcFile);
            let p = f.properties();
            let x = match p {
                MpcProperties::Sv7(p) => vec![
                    st("F", be(&p.frame_count().to_be_bytes())),
                    bit("i", p.intensity_stereo()),
                    bit("m", p.mid_side_stereo()),
                    st("b", p.max_band()),
                    st("p", { let d = p.profile() as u8; if d >= 3 { d + 2 } else { d } }),
                    st("l", p.link() as u8),
                    st("L", p.max_level()),
                    bit("g", p.true_gapless()),
                    st("e", p.last_frame_length()),
                    bit("f", p.fast_seeking_safe()),
                ],
                MpcProperties::Sv8(p) => {
                    let (h, g) = (p.stream_header, p.replay_gain);
                    let e = p.encoder_info.unwrap_or_default();
                    vec![
                        st("b", h.max_used_bands),
                        bit("m", h.ms_used),
                        st("a", h.audio_block_frames),
                        st("tg", g.title_gain),
                        st("tp", g.title_peak),
                        st("ag", g.album_gain),
                        st("ap", g.album_peak),
                        st("p", (e.profile * 8.0) as u32),
                        bit("n", e.pns_tool),
                        format!("v{}.{}.{}", e.major, e.minor, e.build),
                    ]
                },
                MpcProperties::Sv4to6(p) => vec![st("v", p.stream_version()), st("b", p.max_band()), bit("m", p.mid_side_stereo())],
            };
            out!(p, x)
        },
    }
}
fn kind(fmt: &str) -> FileType {
    match fmt {
        "mpeg" => FileType::Mpeg,
        "aac" => FileType::Aac,
        "flac" => FileType::Flac,
        "wav" => FileType::Wav,
        "aiff" => FileType::Aiff,
        "ape" => FileType::Ape,
        "wv" => FileType::WavPack,
        "vorbis" => FileType::Vorbis,
        "opus" => FileType::Opus,
        "speex" => FileType::Speex,
        "mp4" => FileType::Mp4,
        _ => FileType::Mpc,
    }
}
pub fn run(v: &Value, out: &mut Out) {
    let f = &v["f"];
    let fmt = s(f, "fmt");
    let base = match fmt {
        "sv5" | "sv7" | "sv8" => "mpc",
        x => x,
    };
    let tagged = matches!(base, "mpeg" | "aac" | "ape" | "wv" | "mpc");
    let audio = segs(arr(v, "segs"));
    let alen = audio.len();
    let mut b = if tagged { generic(base, v, "pre") } else { vec![] };
    b.extend(audio);
    if tagged {
        b.extend(generic(base, v, "post"));
    }
    let len = b.len();
    let mode = match s(v, "mode") {
        "strict" => ParsingMode::Strict,
        "relaxed" => ParsingMode::Relaxed,
        _ => ParsingMode::BestAttempt,
    };
    let o = ParseOptions::new().parsing_mode(mode).read_tags(n(v, "tags") == 1);
    let seen = guard(|| look(fmt, &b, o));
    let gen_ = guard(|| {
        use lofty::file::TaggedFileExt;
        let t = Probe::new(Cursor::new(&b)).options(o).set_file_type(kind(fmt)).read().map_err(|e| format!("{e:?}"))?;
        let _ = t.file_type();
        Ok::<_, String>(t.properties().clone())
    });
    let mut ev = json!({"op": {"a": "props"}, "f": f, "mid": dig(((alen + len) / 2) as u128), "dev": dig(((len - alen) / 2 + 64) as u128)});
    let m = ev.as_object_mut().expect("HARNESS: event");
    match (seen, gen_) {
        (Ok(Ok((p, x))), Ok(Ok(g))) => {
            m.insert("res".into(), json!("ok"));
            m.insert("same".into(), json!(p == g));
            m.insert("x".into(), json!(x));
            let u = |x: Option<u32>| od(x.map(u128::from));
            m.insert(
                "p".into(),
                json!({"dur": dig(p.duration().as_millis()), "ob": u(p.overall_bitrate()), "ab": u(p.audio_bitrate()), "sr": u(p.sample_rate()),
                    "bd": od(p.bit_depth().map(u128::from)), "ch": od(p.channels().map(u128::from)), "cm": u(p.channel_mask().map(|c| c.bits()))}),
            );
        },
        (a, g) => {
            m.insert("res".into(), json!(if a.is_err() || g.is_err() { "panic" } else { "err" }));
            m.insert("why".into(), json!(format!("{a:?}").chars().take(200).collect::<String>()));
        },
    }
    out.ev(ev);
}

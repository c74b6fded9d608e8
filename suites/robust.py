"""C07: arbitrary bytes."""
import json, os, zlib
from . import content, files, props, views

CLS = ["zero", "one", "seven", "eight", "minus", "plus", "half", "double", "left", "leftp", "leftm", "mega", "signed", "signedp", "top", "topm"]


def syn(n):
    return bytes([(n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127])


def frame(ver, fid, c, fl=0):
    """a frame of the version; fl: g(rouping) z(lib) e(ncryption) d(ata length) u(nsynchronisation), by name"""
    if ver == 2:
        return fid.encode() + len(c).to_bytes(3, "big") + c
    f, pre, raw = 0, b"", len(c)
    fl = fl or ""
    if ver == 3:
        if "z" in fl:
            f |= 0x80; c = zlib.compress(c); pre += raw.to_bytes(4, "big")
        if "e" in fl:
            f |= 0x40; pre += b"\x85"
        if "g" in fl:
            f |= 0x20; pre += b"\x90"
        return fid.encode() + len(pre + c).to_bytes(4, "big") + f.to_bytes(2, "big") + pre + c
    if "g" in fl:
        f |= 0x40; pre += b"\x90"
    if "z" in fl:
        f |= 0x08; c = zlib.compress(c)
    if "e" in fl:
        f |= 0x04; pre += b"\x85"
    if "d" in fl or "z" in fl:
        f |= 0x01; pre += syn(raw)
    if "u" in fl:
        f |= 0x02; c = c.replace(b"\xff", b"\xff\0")
    return fid.encode() + syn(len(pre + c)) + f.to_bytes(2, "big") + pre + c


def tag(ver, body, flags=0, pre=b"", pad=0):
    body = pre + body + bytes(pad)
    return b"ID3" + bytes([ver, 0, flags]) + syn(len(body)) + body + (b"3DI" + bytes([ver, 0, flags]) + syn(len(body)) if flags & 0x10 else b"")


U16 = "t\u00e9".encode("utf-16")
CH = b"c1\0" + (0).to_bytes(4, "big") + (99).to_bytes(4, "big") + b"\xff" * 8
CONT = [("TIT2", b"\x03title\0more"), ("TPE1", b"\1" + U16), ("TXXX", b"\1" + U16 + b"\0\0" + U16), ("TXXX", b"\0d\0v"), ("WXXX", b"\3d\0http://x"), ("WOAR", b"http://y"), ("COMM", b"\1eng" + U16 + b"\0\0" + U16),
        ("COMM", b"\0eng\0c"), ("USLT", b"\3deud\0l"), ("TIPL", b"\3a\0b\0c\0d"), ("TMCL", b"\1" + U16 + b"\0\0" + U16), ("UFID", b"own\0id"), ("RVA2", b"id\0\1\1\0\x10\xff\xff\2\0\1\0"), ("OWNE", b"\0USD12.3\x0020200101seller"),
        ("ETCO", b"\2\3\0\0\0\1\4\0\0\0\2"), ("PRIV", b"own\0\xff\xe0\1"), ("TDRC", b"\3" + b"2020-05-03T01:02:03"), ("POPM", b"a@b\0\x80\0\0\0\7"), ("POPM", b"a@b\0\x80"), ("APIC", b"\0image/png\0\3d\0\x89PNG\r\n\x1a\nxyz"), ("APIC", b"\1-->\0\3" + U16 + b"\0\0http://z"),
        ("PCST", b"\0\0\0\1"), ("SYLT", b"\1eng\2\1" + U16 + b"\0\0" + U16 + b"\0\0\0\0\0\1"), ("GEOB", b"\1mime\0" + U16 + b"\0\0" + U16 + b"\0\0data"), ("ATXT", b"\0m\0\0eq\0data"), ("SYLT", b"\0eng\2\1d\0a\0\0\0\0\1b\0\0\0\0\2"),
        ("CHAP", CH), ("CTOC", b"toc\0\3\2c1\0c2\0"), ("TCON", b"\0(4)(CR)x"), ("MCDI", b"bin"), ("GRP1", b"\3g"), ("MVIN", b"\x001/2"), ("TRCK", b"\x001/2"), ("TSRC", b"\x00US1234567890")]
V22 = [("TT2", b"\0title"), ("TP1", b"\1" + U16), ("TXX", b"\0d\0v"), ("WXX", b"\0d\0u"), ("WAR", b"http://y"), ("COM", b"\0eng\0c"), ("ULT", b"\1eng" + U16 + b"\0\0" + U16), ("IPL", b"\0a\0b"), ("UFI", b"own\0id"), ("POP", b"a@b\0\x80\0\0\0\7"),
       ("PIC", b"\0PNG\3d\0\x89PNG\r\n\x1a\nxyz"), ("TYE", b"\x002020"), ("TDA", b"\x000305"), ("TIM", b"\x000102"), ("TCO", b"\0(4)"), ("CRM", b"own\0x\0y"), ("MCI", b"bin")]
V23 = [c for c in CONT if c[0] not in ("TDRC", "TIPL", "TMCL", "RVA2")] + [("TYER", b"\x002020"), ("TDAT", b"\x000305"), ("TIME", b"\x000102"), ("TORY", b"\x001999"), ("IPLS", b"\0a\0b"), ("RVAD", b"\0\x10\1\1")]


def id3v2s():
    """tags of each version, in small groups of frames"""
    out = []
    for ver, cs in ((2, V22), (3, V23), (4, CONT)):
        for i in range(0, len(cs), 4):
            out.append(tag(ver, b"".join(frame(ver, f, c) for f, c in cs[i:i + 4]), pad=12))
    nested = CH + frame(4, "TIT2", b"\3chapter") + frame(4, "APIC", b"\0image/png\0\3d\0x")
    toc = b"toc\0\3\2c1\0c2\0" + frame(4, "TIT2", b"\3toc") + frame(4, "CHAP", CH + frame(4, "TIT2", b"\3in"))
    out.append(tag(4, frame(4, "CHAP", nested) + frame(4, "CTOC", toc)))
    for fl in ("g", "z", "e", "d", "u", "gz", "gd", "zu", "gzu", "du", "gze"):
        out.append(tag(4, frame(4, "TIT2", b"\3" + b"a" * 200, fl) + frame(4, "PRIV", b"o\0" + b"\xff\xe0" * 20, fl)))
        if not set(fl) & set("du"):
            out.append(tag(3, frame(3, "TIT2", b"\0" + b"a" * 200, fl) + frame(3, "TPE1", b"\0b")))
    out.append(tag(4, frame(4, "TIT2", b"\3t"), 0x40, bytes([0, 0, 0, 15, 1, 0x70, 0, 5, 1, 2, 3, 4, 5, 1, 0x49]), 5))
    out.append(tag(3, frame(3, "TIT2", b"\0t"), 0x40, bytes([0, 0, 0, 6, 0, 0, 0, 0, 0, 5]), 5))
    out.append(tag(4, frame(4, "TIT2", b"\3t"), 0x10))
    out.append(tag(3, (frame(3, "PRIV", b"o\0\xff\xe0\xff\0")).replace(b"\xff", b"\xff\0"), 0x80))
    out.append(tag(4, frame(4, "PRIV", b"o\0\xff\xe0\xff\0", "du") + frame(4, "TIT2", b"\3x", "u"), 0x80))
    # a small frame which inflates to a lot
    big = b"\3" + b"a" * 3_000_000
    out.append(tag(4, frame(4, "TIT2", big, "z")))
    out.append(tag(3, frame(3, "TIT2", b"\0" + big[1:], "z")))
    return out


MP3 = (bytes([0xFF, 0xFB, 0x50, 0xC4]) + bytes(204)) * 2


def raws():
    out = []
    for i, t in enumerate(id3v2s()):
        out.append(("mpeg", t + MP3))
        if i % 5 == 0:
            body = t + b"\0" * (len(t) % 2)
            w = b"WAVEfmt \x10\0\0\0\1\0\1\0\x44\xac\0\0\x88\x58\1\0\2\0\x10\0data\4\0\0\0\0\0\0\0id3 " + len(t).to_bytes(4, "little") + body
            out.append(("wav", b"RIFF" + len(w).to_bytes(4, "little") + w))
    return [{"fmt": f, "raw": [{"b": list(b), "g": 0}]} for f, b in out]


def deep(n):
    """elements within elements, n levels"""
    def chap(inner, lead, fid=b"CHAP"):
        size, out = len(inner), [inner]
        for _ in range(n):
            out.append(fid + syn(len(lead) + size) + b"\0\0" + lead)
            size += 10 + len(lead)
        return tag(4, b"".join(reversed(out)))

    def atoms(names, inner=b""):
        size, out = len(inner), [inner]
        for i in range(n):
            nm = names[i % len(names)]
            body = bytes(4) if nm == b"meta" else b""
            size += 8 + len(body)
            out.append(size.to_bytes(4, "big") + nm + body)
        return b"\0\0\0\x14ftypM4A \0\0\0\0M4A " + b"".join(reversed(out))

    def lists():
        size, out = 0, []
        for _ in range(n):
            size += 12
            out.append(b"LIST" + (size - 8).to_bytes(4, "little") + b"INFO")
        b = b"WAVE" + b"".join(reversed(out))
        return b"RIFF" + len(b).to_bytes(4, "little") + b
    t = frame(4, "TIT2", b"\3x")
    out = [("mpeg", chap(t, b"c\0" + bytes(16)) + MP3), ("mpeg", chap(t, b"t\0\3\1c\0", b"CTOC") + MP3), ("wav", lists())]
    out += [("mp4", atoms(x)) for x in ([b"moov"], [b"udta", b"moov"], [b"ilst", b"meta", b"udta", b"moov"], [b"meta", b"udta", b"moov"], [b"stbl", b"minf", b"mdia", b"trak", b"moov"])]
    # tags in front of tags
    out += [("mpeg", t4 * (n // 4) + MP3) for t4 in (tag(4, t), b"ID3\4\0\0\0\0\0\0")]
    return [{"fmt": f, "raw": [{"b": list(b), "g": 0}]} for f, b in out]


MODES = ["strict", "best", "relaxed"]
ENDS = [(2, "be"), (2, "le"), (3, "be"), (4, "be"), (4, "le"), (4, "sync"), (8, "be"), (8, "le")]


def c07(ctx):
    q = ctx.quick
    r = ctx.rng("robust")
    plan = ctx.design("RobustMC", "RobustMC.cfg", {"Length": 6 if q else 8, "Top": 9 if q else 11, "Limit": 3, "Depth": 2, "Width": 2}, workers=4)
    # the relations two sizes can have to what is there, made real by each damage which establishes them
    rel = {"zero": ["zero", "one"], "fit": ["half", "minus", "seven", "eight", "leftm"], "exact": ["left"], "over": ["leftp", "plus", "double", "mega"],
           "max": ["signed", "signedp", "top", "topm"]}
    pairs = sorted({(a, b, s["mode"]) for s in plan for a in rel[s["r1"]] for b in rel[s["r2"]]})
    lays = views.layouts(ctx, False)
    bf = views.by_fmt(lays)
    fields = os.path.join(ctx.dir, "fields.json")
    with open(fields, "w") as f:
        json.dump([props.fitting(r) for _ in range(500 if q else 8000)], f)
    audio = ctx.design("PropsMC", "PropsMC.cfg", {"Fmt": '"file"'}, env={"FIELDS": fields})
    audio.sort(key=json.dumps)
    audio = [{"fmt": {"sv7": "mpc", "sv8": "mpc", "sv5": "mpc"}.get(s["f"]["fmt"], s["f"]["fmt"]), "raw": s["segs"]} for s in audio]
    n = 160 if q else 4000
    tags = raws()
    bases = r.sample(lays, min(len(lays), n)) + views.prepared(r, bf, n) + r.sample(audio, min(len(audio), n)) + tags * (2 if q else 20)
    plain = [{"k": "trunc"}, {"k": "byte", "v": [0, 1, 127, 128, 255]}, {"k": "bits"}]
    plain += [{"k": "field", "w": w, "e": e, "cls": CLS} for w, e in ENDS] + [{"k": "cut", "c1": c} for c in CLS]

    def scn(b, sw, mode=None):
        return dict(b, o={"mode": mode or r.choice(MODES), "tags": r.random() < .9, "props": r.random() < .9, "art": r.random() < .8}, limit=r.choice([1024, 65536, 1 << 24]),
                    sweep=sw, post=r.choice(["", "some", "full"]), cap=120 if q else 600, off=r.randrange(100000))
    out = []
    for b in bases:
        for _ in range(2):
            out.append(scn(b, r.choice(plain)))
        out.append(scn(b, {"k": "given", "l": [[views.mutation(r) for _ in range(r.choice([1, 2, 4, 8]))] for _ in range(150 if q else 1000)]}))
    for c1, c2, m in pairs * (1 if q else 20):
        out.append(scn(r.choice(bases), {"k": "pair", "c1": c1, "c2": c2}, m))
    for d in (20, 300, 4000, 40000):
        out += [dict(scn(b, {"k": "none"}, m), post="full") for b in deep(d) for m in MODES]
    r.shuffle(out)
    ctx.judge("RobustTrace", "robust", out, "damaged", chunk=1000)


PROPS = {"C07": c07}

"""Seeded random tag contents and file layouts (larger than the exhaustively explored ones)."""
import re

TXT = ["x", "Some Title", "~a7", "~a28.3", "~a127.5", "~a128.6", "~a255.1", "~a256.2", "~a1500.9", "~u3", "~u63", "~u64.1", "~u300.2", "1/2", "a;b", " lead", "q=w", "~a70000.4"]
ASC = [t for t in TXT if not t.startswith("~u")]
DESC = ["", "d", "descr", "~a40", "~u5"]
BIN = ["~b1", "~b2.1", "~b15.2", "~b255.3", "~b256.4", "~s31", "~s90", "~z8", "~b5000.5", "~b66000.6"]
LANG = ["eng", "deu", "XXX"]
MIME = ["image/png", "image/jpeg", "image/gif", "image/bmp", "image/tiff"]


def I(id, f, k="", fl=""):
    return {"id": id, "k": k, "f": f, "fl": fl}


def enc_text(r, txts=TXT):
    e = r.choice(["U8", "U8", "U16", "U16B", "L1"])
    return e, r.choice([t for t in txts if not t.startswith("~u")] if e == "L1" else txts)


def picf(r, desc=True):
    return [str(r.choice([0, 3, 3, 4, 6, 20])), r.choice(MIME), r.choice(["front", "back ~", "~a20", "~u4"]) if desc else "-",
            r.choice(["~p9", "~p300.1", "~j77.2", "~b40.9", "~b1.8", "~p9000.3", "~p140000.7"])]


def id3v2(r):
    out = []
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        k = r.choice(["text", "text", "text", "comm", "uslt", "txxx", "wxxx", "url", "popm", "ufid", "priv", "apic", "bin", "ts", "etco", "owne", "kv"])
        e, t = enc_text(r)
        d = r.choice([x for x in DESC if e != "L1" or not x.startswith("~u")])
        if k == "text":
            out.append(I(r.choice(["TIT2", "TALB", "TPE1", "TCON", "TSSE", "TLAN", "TENC", "TXYZ", "TPOS", "TRCK"]), [e, t], k))
        elif k in ("comm", "uslt"):
            out.append(I(k.upper(), [e, r.choice(LANG), d, t], k))
        elif k == "txxx":
            out.append(I("TXXX", [e, d or "k", t], k))
        elif k == "wxxx":
            out.append(I("WXXX", [e, d or "k", "http://" + r.choice("abc")], k))
        elif k == "url":
            out.append(I(r.choice(["WOAR", "WCOM", "WPUB"]), ["http://" + r.choice("abc")], k))
        elif k == "popm":
            out.append(I("POPM", [r.choice(["a@b", "c", ""]), str(r.choice([0, 1, 128, 255])), str(r.choice([0, 1, 255, 65536, 4294967295]))], k))
        elif k == "ufid":
            out.append(I("UFID", [r.choice(["own", "x"]), r.choice(["~b1", "~b16", "~b63"])], k))
        elif k == "priv":
            out.append(I("PRIV", [r.choice(["own", "x"]), r.choice(BIN)], k))
        elif k == "apic":
            p = picf(r)
            if e == "L1" and p[2].startswith("~u"):
                p[2] = "l"
            out.append(I("APIC", [e] + p, k))
        elif k == "bin":
            out.append(I(r.choice(["XYZW", "MCDI", "GEOB"]), [r.choice(BIN)], k))
        elif k == "ts":
            out.append(I(r.choice(["TDRC", "TDOR", "TDRL", "TDEN", "TDTG"]), ["U8", r.choice(["2020", "1999-12", "2020-05-03", "2020-05-03T11", "2020-05-03T11:12", "2020-05-03T11:12:13"])], k))
    return [], [i for i in out]


def id3v1(r):
    out = []
    for k in ("title", "artist", "album", "comment"):
        if r.random() < .5:
            n = 28 if k == "comment" else 30
            out.append(I(k, [r.choice(["x", "two words", f"~a{n}", f"~a{n - 1}.2", "~a5"])]))
    if r.random() < .5:
        out.append(I("year", [str(r.choice([1, 999, 1987, 2024, 9999]))]))
    if r.random() < .5:
        out.append(I("track", [str(r.choice([1, 9, 32, 127, 255]))]))
    if r.random() < .5:
        out.append(I("genre", [str(r.choice([0, 1, 127, 191]))]))
    return [], out or [I("title", ["z"])]


def ape(r):
    keys = r.sample(["Title", "Artist", "Album", "Comment", "Track", "Custom", "zz", "Cover Art (Front)", "Bin", "~a255.7", "~a2"], r.choice([1, 2, 5]))
    out = []
    for k in keys:
        t = "B" if k in ("Cover Art (Front)", "Bin") else r.choice("TTTL")
        out.append(I(k, [r.choice(BIN if t == "B" else TXT)], t, r.choice(["", "", "", "ro"])))
    return (["ro"] if r.random() < .25 else []), out


def vorbis(r):
    out = [I(r.choice(["TITLE", "ARTIST", "title", "X", "~a40", "COMMENT", "A B", "Z~"]), [r.choice(TXT)]) for _ in range(r.choice([1, 2, 5, 12]))]
    for _ in range(r.choice([0, 0, 1, 2])):
        out.append(I("pic", picf(r) + [str(r.choice([0, 1, 4000])), str(r.choice([0, 7])), str(r.choice([0, 24])), str(r.choice([0, 256]))], "pic"))
    return [r.choice(["", "v", "my vendor", "~u9"])], out


def ilst(r):
    out = []
    for _ in range(r.choice([1, 2, 4, 7])):
        k = r.choice(["t", "t", "t", "free", "bin", "int", "bool", "covr", "multi"])
        if k == "t":
            out.append(I(r.choice(["@nam", "@ART", "@alb", "@gen", "aART", "@wrt"]), ["u8", r.choice(TXT)]))
        elif k == "free":
            out.append(I("----:" + r.choice(["com.x", "com.apple.iTunes"]) + ":" + r.choice(["n", "name two"]), r.choice([["u8", r.choice(TXT)], ["0", r.choice(BIN)]])))
        elif k == "bin":
            out.append(I(r.choice(["abcd", "trkn", "disk"]), ["0", "~b8.3"]))
        elif k == "int":
            out.append(I(r.choice(["tmpo", "xint"]), ["si", str(r.choice([0, 1, 127, 128, 255, 256, 32767, 32768, 65535, -1]))]))
        elif k == "bool":
            free = [k for k in ("cpil", "pcst", "pgap") if all(i["id"] != k for i in out)]
            if free:
                out.append(I(r.choice(free), ["bool", r.choice(["true", "false"])]))
        elif k == "covr":
            out.append(I("covr", sum([["pic:" + m, "~p%d.%d" % (r.choice([9, 300, 70000]), j)] for j, m in enumerate(r.sample(MIME[:4], r.choice([1, 2])))], [])))
        else:
            out.append(I(r.choice(["@ART", "mult"]), sum([["u8", r.choice(TXT)] for _ in range(r.choice([2, 3]))], [])))
    return [], out


def riff(r):
    ks = r.sample(["INAM", "IART", "IPRD", "ICMT", "ICRD", "ISFT", "XXXX", "ITRK"], r.choice([1, 2, 5]))
    return [], [I(k, [r.choice(TXT)]) for k in ks]


def aiff(r):
    out = []
    for k in ("NAME", "AUTH", "(c) "):
        if r.random() < .5:
            out.append(I(k, [r.choice(TXT)]))
    for _ in range(r.choice([0, 1, 3])):
        out.append(I("ANNO", [r.choice(TXT)]))
    for _ in range(r.choice([0, 1, 3])):
        out.append(I("COMT", [str(r.choice([0, 5, 4294967295])), str(r.choice([0, 1, 65535])), r.choice([t for t in ASC if "70000" not in t])]))
    return [], out or [I("NAME", ["z"])]


GEN = {"Id3v2": id3v2, "Id3v1": id3v1, "Ape": ape, "VorbisComments": vorbis, "Mp4Ilst": ilst, "RiffInfo": riff, "AiffText": aiff}


def content(r, ty):
    return GEN[ty](r)


def perturb(r, fmt, tok):
    """the same kind of region with other sizes"""
    def audio(m):
        lo, hi = {"mpeg": (6, 60), "aac": (6, 60), "ape": (300, 3000), "wv": (1, 9), "mpc": (100, 3000), "flac": (40, 4000)}[fmt]
        if r.random() < .07:
            lo, hi = {"mpeg": (200, 400), "aac": (500, 900), "ape": (60000, 140000), "wv": (20, 50), "mpc": (60000, 140000), "flac": (65000, 200000)}[fmt]
        return m.group(1) + str(r.randint(lo, hi))
    if tok.startswith("audio") and fmt in ("mpeg", "aac", "ape", "wv", "mpc", "flac"):
        return re.sub(r"^(audio[^:]*:)\d+$", audio, tok)
    if fmt in ("vorbis", "opus", "speex"):
        if tok.startswith("audio:"):
            return f"audio:{r.randint(1, 5)}:{r.choice([0, 1, 100, 254, 255, 256, 510, 3000, 65025, 65026, 70000])}"
        if tok.startswith("setup:"):
            return f"setup:{r.choice([1, 100, 255, 3000, 65025, 66000])}"
        if tok.startswith("vc"):
            return re.sub(r"#\d+", f"#{r.choice([0, 1, 3, 40, 200])}", tok)
        return tok
    if tok.startswith("v2."):
        t = re.sub(r"#\d+", f"#{r.randint(1, 3)}", tok)
        t = re.sub(r"\+p\d+", f"+p{r.randint(0, 3000)}", t)
        return t
    for n, lo, hi in (("PAD:", 0, 5000), ("JUNK:", 0, 60), ("data:", 1, 2000), ("SSND:", 0, 2000), ("unk:", 0, 60), ("noise:", 1, 60), ("mdat:", 100, 3000)):
        if tok.startswith(n):
            if hi == 2000 and r.random() < .07:
                lo, hi = 60000, 140000
            return n + str(r.randint(lo, hi))
    if fmt == "mp4" and tok.startswith("moov"):
        t = re.sub(r"free:\d+", lambda m: f"free:{r.choice([0, 1, 8, 9, 40, 100, 1024, 5000])}", tok)
        return re.sub(r"ilst#\d+", lambda m: f"ilst#{r.randint(1, 3)}", t)
    if re.match(r"^(ape|id3|ID3|INFO|COMT)", tok):
        return re.sub(r"#\d+", f"#{r.randint(1, 3)}", tok)
    return tok

"""C18: format specific tags as collections; C19: common accessors."""
import json
from . import content

I = content.I
CT = ["VorbisComments", "Ape", "RiffInfo", "Mp4Ilst", "Id3v2"]


def rnd(ctx, count, length):
    r = ctx.rng("ctag")
    out = []
    for n in range(count):
        ty = CT[n % 5]
        ops = []
        vals = ["", "v", "w w", "12", "Val", "lon g"]
        if ty == "VorbisComments":
            ks = r.sample(["TITLE", "title", "TiTlE", "A", "a", "B C", "REPLAYGAIN_TRACK_GAIN", "replaygain_track_gain", "}{", " ", "[x]"], 5)
            bad = ["", "=", "a=b", "~u1", "x~", "\t"]
            np = 0
            for _ in range(length):
                a = r.choice(["push"] * 4 + ["insert"] * 3 + ["remove", "remove", "remove_unread", "insert_pic", "insert_pic", "set_pic", "remove_pic_type", "take_items", "remove_pics"])
                if a in ("push", "insert"):
                    ops.append({"a": a, "item": I(r.choice(ks if r.random() < .9 else bad), [r.choice(vals)])})
                elif a.startswith("remove") and "pic" not in a:
                    ops.append({"a": a, "key": r.choice(ks + ["zz"])})
                elif a == "insert_pic":
                    f = [r.choice(["0", "1", "2", "3"]), r.choice(content.MIME), "-", r.choice("pqrs")]
                    ops.append({"a": a, "item": I("pic", f + ["1", "2", "8", "0"], "pic")})
                elif a == "set_pic":
                    ops.append({"a": a, "idx": r.choice([0, 1, 2, 9]), "item": I("pic", [r.choice(["1", "2", "3"]), "image/png", "d", r.choice("tu"), "1", "2", "8", "0"], "pic")})
                elif a == "remove_pic_type":
                    ops.append({"a": a, "pt": r.choice([0, 1, 3])})
                elif r.random() < .25:
                    ops.append({"a": a})
            keys = ks + ["a=", "zz"]
        elif ty == "Ape":
            ks = r.sample(["Title", "TITLE", "title", "Artist", "ARTIST", "Track", "a b", "{~", "zz", "ZZ"], 5)
            bad = ["", "x", "TAG", "tag", "Id3", "OGGS", "mp+", "~u3"]
            for _ in range(length):
                a = r.choice(["push"] * 4 + ["insert"] * 3 + ["remove"] * 2)
                if a == "remove":
                    ops.append({"a": a, "key": r.choice(ks)})
                else:
                    ops.append({"a": a, "item": I(r.choice(ks if r.random() < .9 else bad), [r.choice(vals)], r.choice("TTLB"), r.choice(["", "", "ro"]))})
            keys = ks
        elif ty == "RiffInfo":
            ks = r.sample(["INAM", "inam", "Inam", "IART", "ICMT", "X   ", "XY  ", "xy  ", "IAR~"], 5)
            bad = ["", "ABC", "ABCDE", "A CD", " ABC", "~u2", "~u1.1x"]
            bad = [b for b in bad if b != "~u1.1x"]
            for _ in range(length):
                if r.random() < .7:
                    ops.append({"a": "insert", "item": I(r.choice(ks if r.random() < .9 else bad), [r.choice(vals)])})
                else:
                    ops.append({"a": "remove", "key": r.choice(ks)})
            keys = ks + ["zz"]
        elif ty == "Mp4Ilst":
            ks = ["@nam", "----:com.x:n", "----:com.x:N", "tmpo", "abcd"]
            fl = ["pcst", "pgap", "shwm", "hdvd", "cpil"]
            for _ in range(length):
                a = r.choice(["insert"] * 4 + ["replace"] * 3 + ["remove"] * 2 + ["retain_not", "set_flag", "set_flag", "set_rating", "insert_pic", "remove_pics", "rt"])
                if a in ("insert", "replace"):
                    ops.append({"a": a, "item": I(r.choice(ks), sum([r.choice([["u8", r.choice(vals)], ["si", "5"], ["0", "xy"]]) for _ in range(r.choice([1, 1, 2, 3]))], []))})
                elif a == "rt":
                    ops.append({"a": r.choice(["insert", "replace"]), "item": I("rtng", ["si", r.choice(["-1", "0", "1", "2", "3", "4", "255", "256"])])})
                elif a in ("remove", "retain_not"):
                    ops.append({"a": a, "key": r.choice(ks + fl + ["covr"])})
                elif a == "set_flag":
                    ops.append({"a": a, "key": r.choice(fl), "v": r.choice(["true", "true", "false"])})
                elif a == "set_rating":
                    ops.append({"a": a, "v": r.choice("012")})
                elif a == "insert_pic":
                    ops.append({"a": a, "item": I("pic", ["3", r.choice(content.MIME[:4] + ["-"]), "-", r.choice("pqrs")], "pic")})
                elif r.random() < .4:
                    ops.append({"a": a})
            keys = ks + fl + ["covr", "rtng"]
        else:
            for _ in range(length):
                a = r.choice(["insert"] * 8 + ["remove", "remove", "remove_unread", "retain_not", "insert_ut", "remove_ut", "insert_multi", "insert_pic", "insert_pic", "remove_pic_type"])
                ids = ["TIT2", "TPE1", "WOAR", "TXXX", "WXXX", "COMM", "USLT", "POPM", "UFID", "PRIV", "TDRC", "TIPL", "MCDI", "ETCO", "OWNE", "APIC", "RVA2", "CHAP", "CTOC", "XYZW"]
                if a == "insert":
                    k = r.choice(ids)
                    e = r.choice(["U8", "L1", "U16"])
                    d = r.choice(["", "d", "D"])
                    v = r.choice(["a", "b", "c"])
                    it = {"TIT2": lambda: I(k, [e, v], "text"), "TPE1": lambda: I(k, [e, v], "text"), "WOAR": lambda: I(k, [v], "url"),
                          "TXXX": lambda: I(k, [e, d, v], "txxx"), "WXXX": lambda: I(k, [e, d, v], "wxxx"),
                          "COMM": lambda: I(k, [e, r.choice(["eng", "deu"]), d, v], "comm"), "USLT": lambda: I(k, [e, r.choice(["eng", "deu"]), d, v], "uslt"),
                          "POPM": lambda: I(k, [d, "1", r.choice("12")], "popm"), "UFID": lambda: I(k, [d or "o", v], "ufid"), "PRIV": lambda: I(k, [d, v], "priv"),
                          "TDRC": lambda: I(k, ["U8", r.choice(["2020", "2021-02"])], "ts"), "TIPL": lambda: I(k, ["U8", "r", v], "kv"),
                          "MCDI": lambda: I(k, [v], "bin"), "ETCO": lambda: I(k, ["MS", "3:" + r.choice("12")], "etco"), "OWNE": lambda: I(k, ["U8", "USD1", "20200101", v], "owne"),
                          "APIC": lambda: I(k, [e, r.choice(["1", "3"]), "image/png", r.choice(["-", "x"]), v], "apic"), "RVA2": lambda: I(k, [d, "1:" + r.choice("12") + ":0"], "rva2"),
                          "CHAP": lambda: I(k, [d or "c", "0", "1", "0", r.choice("12")], "chap"), "CTOC": lambda: I(k, [d or "c", "t", v], "ctoc"),
                          "XYZW": lambda: I(k, [v], "bin")}[k]()
                    ops.append({"a": a, "item": it})
                elif a in ("remove", "remove_unread", "retain_not"):
                    ops.append({"a": a, "key": r.choice(ids)})
                elif a == "insert_ut":
                    ops.append({"a": a, "key": r.choice(["d", "D", "e"]), "v": "nv"})
                elif a == "remove_ut":
                    ops.append({"a": a, "key": r.choice(["d", "D", "e"])})
                elif a == "insert_multi":
                    ops.append({"a": a, "key": r.choice(["TIT2", "TPE1"]), "vs": r.sample(["p", "q", "", "rr"], r.choice([2, 3]))})
                elif a == "insert_pic":
                    ops.append({"a": a, "item": I("pic", [r.choice(["1", "2", "3"]), "image/png", "-", r.choice("pqr")], "pic")})
                else:
                    ops.append({"a": a, "pt": r.choice([1, 3])})
            keys = ids + ["TXXX:d", "TXXX:D", "TXXX:e"]
        if r.random() < .1:
            ops.insert(r.randrange(len(ops)), {"a": "clear"})
        out.append({"init": {"type": ty, "hd": [], "items": []}, "ops": ops, "keys": keys})
    # the two types without collection operations: counts and membership
    for _ in range(count // 4):
        for ty in ("AiffText", "Id3v1"):
            hd, items = content.content(r, ty)
            out.append({"init": {"type": ty, "hd": [], "items": items}, "ops": [{"a": "clear"}], "keys": ["title", "artist", "album", "year", "comment", "track", "genre", "none"]})
    return out


def c18(ctx):
    q = ctx.quick
    lim = {"VorbisComments": (3, 3), "Ape": (3, 4), "RiffInfo": (3, 4), "Mp4Ilst": (2, 3), "Id3v2": (2, 3)}
    jobs = [lambda ty=ty: ctx.design("CTagOpsMC", "CTagOpsMC.cfg", {"Type": f'"{ty}"', "MaxItems": lim[ty][0 if q else 1], "Rich": "FALSE" if q else "TRUE"}, workers=2) for ty in CT]
    ctx.judge("CTagOpsTrace", "ctag", sum(ctx.par(jobs), []), "design")
    ctx.judge("CTagOpsTrace", "ctag", rnd(ctx, 1500 if q else 30000, 16), "rnd")


PROPS = {"C18": c18}

# ---- C19 --------------------------------------------------------------------
def G(k, v, t="T", l="XXX", d=""):
    return {"k": k, "t": t, "v": v, "l": l, "d": d}


PIC = I("pic", ["3", "image/png", "-", "~p9", "1", "2", "3", "0"], "pic")
ACC_INIT = {
    "VorbisComments": [
        [], [I("TITLE", ["t"]), I("ARTIST", ["a"]), I("ALBUM", ["al"]), I("GENRE", ["Blues"]), I("COMMENT", ["c"]), I("TRACKNUMBER", ["2"]), I("TRACKTOTAL", ["9"]),
             I("DISCNUMBER", ["1"]), I("DISCTOTAL", ["2"]), I("DATE", ["2001"]), I("X", ["y"]), PIC],
        [I("z", ["1"]), I("tracknum", ["4"]), I("TotalTracks", ["8"]), I("TOTALDISCS", ["3"]), I("YEAR", ["1970"]), I("title", ["one"]), I("Artist", ["a1"]), I("ARTIST", ["a2"]),
         I("TITLE", ["two"]), I("TITLESORT", ["s"]), I("Comment", [""]), I("TRACKNUMBER", ["A1"]), I("DATE", ["bad"]), I("DESCRIPTION", ["d"]), PIC],
        [I("TRACKNUM", ["5"]), I("TRACKNUMBER", ["6"]), I("TRACKTOTAL", ["7"]), I("TOTALTRACKS", ["8"]), I("DISCTOTAL", ["2"]), I("TOTALDISCS", ["3"]), I("DATE", ["2000-01"]), I("YEAR", ["1999"])]],
    "Ape": [
        [], [I("Title", ["t"], "T"), I("Artist", ["a"], "T"), I("Album", ["al"], "T"), I("Genre", ["Blues"], "T"), I("Comment", ["c"], "T"), I("Track", ["2/9"], "T"), I("Disc", ["1/2"], "T"),
             I("Year", ["2001"], "T"), I("X1", ["y"], "T", "ro")],
        [I("zz", ["1"], "T"), I("TRACK", ["4"], "T"), I("disc", ["0/3"], "T"), I("YEAR", ["1970-02"], "T"), I("TITLE", ["~b3"], "B"), I("artist", ["a1"], "L"), I("Subtitle", ["s"], "T"), I("COMMENT", [""], "T")],
        [I("Track", ["x"], "T"), I("Disc", ["/7"], "T"), I("Year", ["nope"], "T"), I("Cover Art (Front)", ["~b30"], "B")]],
    "RiffInfo": [
        [], [I("INAM", ["t"]), I("IART", ["a"]), I("IPRD", ["al"]), I("IGNR", ["Blues"]), I("ICMT", ["c"]), I("IPRT", ["2"]), I("IFRM", ["9"]), I("ICRD", ["2001"]), I("ISFT", ["s"])],
        [I("XXXX", ["1"]), I("inam", ["t"]), I("Iart", ["a"]), I("iprt", ["x"]), I("ifrm", ["3"]), I("icrd", ["2001-02-03"]), I("ITRK", ["4"])]],
    "Mp4Ilst": [
        [], [I("@nam", ["u8", "t"]), I("@ART", ["u8", "a"]), I("@alb", ["u8", "al"]), I("@gen", ["u8", "Blues"]), I("@cmt", ["u8", "c"]), I("trkn", ["0", "<0><0><0>2<0>9<0><0>"]),
             I("disk", ["0", "<0><0><0>1<0>2"]), I("@day", ["u8", "2001"]), I("tmpo", ["si", "120"]), I("covr", ["pic:image/png", "~p9"]), I("----:m:n", ["u8", "x"])],
        [I("@nam", ["u8", "t", "u8", "t2"]), I("@ART", ["u16", "a"]), I("trkn", ["0", "<0><0><0>2"]), I("disk", ["0", "<0>"]), I("@day", ["si", "5"]), I("@wrt", ["u8", "w"]), I("cpil", ["bool", "true"])],
        [I("trkn", ["u8", "7"]), I("disk", ["0", "<0><0><0><0><0>5"]), I("@day", ["u8", "x"]), I("gnre", ["0", "<0>2"])]],
    "Id3v2": [
        [], [I("TIT2", ["U8", "t"], "text"), I("TPE1", ["U8", "a"], "text"), I("TALB", ["L1", "al"], "text"), I("TCON", ["U8", "Blues"], "text"), I("COMM", ["U8", "eng", "", "c"], "comm"),
             I("TRCK", ["U8", "2/9"], "text"), I("TPOS", ["U16", "1/2"], "text"), I("TDRC", ["U8", "2001"], "ts"), I("TXXX", ["U8", "d", "v"], "txxx"), I("APIC", ["U8", "3", "image/png", "-", "~p9"], "apic")],
        [I("TPE2", ["U8", "x"], "text"), I("COMM", ["U8", "eng", "d", "other"], "comm"), I("COMM", ["U8", "eng", "", "c1"], "comm"), I("COMM", ["U16", "deu", "", "c2"], "comm"), I("TRCK", ["U8", "4"], "text"),
         I("TPOS", ["U8", "0/3"], "text"), I("TDRC", ["U8", "junk"], "text"), I("TCON", ["U8", "a<0>b"], "text"), I("TDOR", ["U8", "1970"], "ts"), I("TPE1", ["L1", "p<0>q"], "text")],
        [I("TRCK", ["U8", "x"], "text"), I("TPOS", ["U8", "/7"], "text"), I("COMM", ["U8", "XXX", "", ""], "comm"), I("PRIV", ["o", "~b4"], "priv"), I("POPM", ["e", "1", "2"], "popm")]],
    "Id3v1": [
        [], [I("title", ["t"]), I("artist", ["a"]), I("album", ["al"]), I("year", ["2001"]), I("comment", ["c"]), I("track", ["2"]), I("genre", ["0"])],
        [I("genre", ["255"]), I("track", ["0"]), I("year", ["0"]), I("comment", [""])]],
    "AiffText": [
        [], [I("NAME", ["t"]), I("AUTH", ["a"]), I("(c) ", ["r"]), I("ANNO", ["c"]), I("ANNO", ["c2"])],
        [I("NAME", ["t"]), I("(c) ", ["r"]), I("COMT", ["1", "0", "text"]), I("COMT", ["2", "0", "text2"])],
        [I("AUTH", ["a"]), I("COMT", ["1", "0", "text"]), I("ANNO", ["n"])]],
}
GEN_INIT = [
    [], [G("TrackTitle", "t"), G("TrackArtist", "a"), G("AlbumTitle", "al"), G("Genre", "Blues"), G("Comment", "c"), G("TrackNumber", "2"), G("TrackTotal", "9"), G("DiscNumber", "1"),
         G("DiscTotal", "2"), G("RecordingDate", "2001"), G("Composer", "x")],
    [G("Composer", "x"), G("TrackTitle", "t1"), G("TrackTitle", "t2", d="desc"), G("TrackArtist", "b", "B"), G("Comment", "c1", l="eng"), G("Comment", "c2", d="d"), G("TrackNumber", "x"),
     G("TrackTotal", "12", "L"), G("RecordingDate", "2003-04-05"), G("DiscNumber", ""), G("Year", "1999"), G("Genre", "u", "L")],
]


def acc_init(ty, generic, c):
    if generic:
        return {"type": ty, "items": GEN_INIT[c % len(GEN_INIT)], "pics": [{"pt": 3, "m": "-", "d": "-", "data": "~p9"}] if c else []}
    l = ACC_INIT[ty]
    return {"type": ty, "hd": [], "items": l[c % len(l)]}


FIELDS = ["artist", "title", "album", "genre", "comment", "track", "track_total", "disk", "disk_total", "date"]


def acc_value(r, ty, generic, f):
    if f in ("track", "track_total", "disk", "disk_total"):
        m = 255 if ty == "Id3v1" and not generic else 65535 if ty == "Mp4Ilst" and not generic else 4294967295
        return str(r.choice([1, 2, 9, 10, 100, 255, 256, 65535, 65536, 99999, 2147483648, 4294967295]) % m or 1)
    if f == "date":
        l = ["2020", "1999", "0001", "9999"] if ty == "Id3v1" else ["2020", "1999-12", "2020-05-03", "2020-05-03T11", "2020-05-03T11:12", "2020-05-03T11:12:13", "0001-01-01"]
        return r.choice(l)
    if f == "genre":
        return r.choice(["Rock", "Jazz", "Folk-Rock", "Blues", "Hip-Hop"] + ([] if ty == "Id3v1" and not generic else ["My own genre", "~u5"]))
    return r.choice(["", "x", "two words", "~a28", "~u9", "a/b; c", "=", "0"] + ([] if ty == "Id3v1" and not generic else ["~a300"]))


def acc_rand(ctx, count, length):
    r = ctx.rng("acc")
    out = []
    for n in range(count):
        ty, g = content_types[n % 7], (n // 7) % 2 == 1
        ops = []
        for _ in range(length):
            f = r.choice(FIELDS)
            if r.random() < .65:
                ops.append({"a": "set", "f": f, "v": acc_value(r, ty, g, f)})
            else:
                ops.append({"a": "unset", "f": f})
        out.append({"type": ty, "generic": g, "init": acc_init(ty, g, r.randrange(4)), "ops": ops})
    return out


content_types = ["Ape", "Id3v1", "Id3v2", "Mp4Ilst", "VorbisComments", "RiffInfo", "AiffText"]


def c19(ctx):
    q = ctx.quick
    jobs = [lambda ty=ty, g=g: ctx.design("AccessorsMC", "AccessorsMC.cfg", {"Type": f'"{ty}"', "Generic": g, "Depth": 2 if q else 3}, workers=1)
            for ty in content_types for g in ("FALSE", "TRUE")]
    base = sorted(sum(ctx.par(jobs), []), key=lambda s: json.dumps(s, sort_keys=True))
    r = ctx.rng("accpick")
    scns = []
    for s in base:
        n = 3 if s["generic"] else len(ACC_INIT[s["type"]])
        cs = range(n) if len(s["ops"]) == 1 or not q else [r.randrange(n)]
        if len(s["ops"]) == 3:
            cs = [r.randrange(n)]
        scns += [dict(s, init=acc_init(s["type"], s["generic"], c)) for c in cs]
    ctx.judge("AccessorsTrace", "acc", scns, "design")
    ctx.judge("AccessorsTrace", "acc", acc_rand(ctx, 2500 if q else 40000, 14), "rnd")


PROPS["C19"] = c19

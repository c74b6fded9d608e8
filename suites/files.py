"""C01-C06: edits of files (layout models)."""
import json
from . import content

TYPES = ["Ape", "Id3v1", "Id3v2", "Mp4Ilst", "VorbisComments", "RiffInfo", "AiffText"]

FMTS = ["mpeg", "aac", "ape", "wv", "mpc", "wav", "aiff", "flac", "vorbis", "opus", "speex", "mp4"]
WRITABLE = {"mpeg": ["Id3v2", "Id3v1", "Ape"], "aac": ["Id3v2", "Id3v1"], "ape": ["Ape", "Id3v1"], "mpc": ["Ape"],
            "wv": ["Ape", "Id3v1"], "wav": ["Id3v2", "RiffInfo"], "aiff": ["Id3v2", "AiffText"], "flac": ["VorbisComments"],
            "vorbis": ["VorbisComments"], "opus": ["VorbisComments"], "speex": ["VorbisComments"], "mp4": ["Mp4Ilst"]}
READONLY = {"ape": ["Id3v2"], "mpc": ["Id3v2", "Id3v1"], "flac": ["Id3v2"]}


def I(id, f, k="", fl=""):
    return {"id": id, "k": k, "f": f, "fl": fl}


PIC = ["3", "image/png", "front", "~p300"]
PIC2 = ["4", "image/jpeg", "back ~", "~j77"]
CONTENT = {
    "Id3v2": {
        "A": ([], [I("TIT2", ["U8", "new title"], "text"), I("TALB", ["L1", "albums"], "text")]),
        "B": ([], [I("TIT2", ["U16", "~u20"], "text"), I("COMM", ["U8", "eng", "d", "~a3000"], "comm"), I("TXXX", ["U8", "desc", "v"], "txxx"),
                   I("APIC", ["U8"] + PIC, "apic"), I("PRIV", ["own", "~s64"], "priv")]),
        "C": ([], [I("TPE1", ["U16B", "a~b"], "text"), I("USLT", ["U8", "deu", "", "l1"], "uslt"), I("USLT", ["U8", "eng", "", "l2"], "uslt"),
                   I("WOAR", ["http://x.y"], "url"), I("WXXX", ["U16", "d", "http://z"], "wxxx"), I("POPM", ["a@b", "200", "7"], "popm"),
                   I("UFID", ["own", "~b16"], "ufid"), I("TDRC", ["U8", "2020-05-03"], "ts"), I("APIC", ["L1"] + PIC2, "apic"),
                   I("XYZW", ["~b40"], "bin"), I("TXXX", ["U8", "k", "1"], "txxx"), I("TXXX", ["U8", "K2", "2"], "txxx")])},
    "Id3v1": {
        "A": ([], [I("title", ["new t"]), I("artist", ["ar"])]),
        "B": ([], [I("title", ["~a30"]), I("artist", ["~a30.1"]), I("album", ["~a30.2"]), I("year", ["2001"]), I("comment", ["~a28"]), I("track", ["255"]), I("genre", ["191"])]),
        "C": ([], [I("album", ["x"]), I("year", ["1987"]), I("track", ["1"])])},
    "Ape": {
        "A": ([], [I("Title", ["new ape"], "T")]),
        "B": ([], [I("Title", ["~u33"], "T"), I("Comment", ["~a2500"], "T"), I("Cover Art (Front)", ["~b300"], "B"), I("Artist", ["a"], "T")]),
        "C": ([], [I("Custom", ["x"], "T", "ro"), I("Url", ["http://a.b"], "L"), I("Bin", ["~s30"], "B"), I("zz", [""], "T")])},
    "VorbisComments": {
        "A": (["my vendor"], [I("TITLE", ["new title"])]),
        "B": (["my vendor"], [I("TITLE", ["~u30"]), I("ARTIST", ["one"]), I("ARTIST", ["two"]), I("COMMENT", ["~a70000"]),
                              I("pic", PIC + ["10", "20", "24", "0"], "pic")]),
        "C": (["v"], [I("X", ["="]), I("x", ["b"]), I("ALBUM", ["~a200"]), I("pic", PIC2 + ["1", "1", "8", "256"], "pic"), I("pic", PIC + ["0", "0", "0", "0"], "pic")])},
    "Mp4Ilst": {
        "A": ([], [I("@nam", ["u8", "new title"])]),
        "B": ([], [I("@nam", ["u8", "~u30"]), I("@cmt", ["u8", "~a3000"]), I("trkn", ["0", "~b8"]), I("covr", ["pic:image/png", "~p400"]), I("tmpo", ["si", "120"])]),
        "C": ([], [I("@ART", ["u8", "a", "u8", "b"]), I("----:com.x:name", ["u8", "ff"]), I("----:com.x:name2", ["0", "~b9"]), I("cpil", ["bool", "true"]),
                   I("rtng", ["ui", "2"]), I("covr", ["pic:image/png", "~p40", "pic:image/jpeg", "~j50"])])},
    "RiffInfo": {
        "A": ([], [I("INAM", ["new riff"])]),
        "B": ([], [I("INAM", ["odd"]), I("IART", ["even"]), I("ICMT", ["~a3001"])]),
        "C": ([], [I("IPRD", ["p"]), I("XXXX", ["custom"]), I("ICRD", ["2001"])])},
    "AiffText": {
        "A": ([], [I("NAME", ["new name"])]),
        "B": ([], [I("NAME", ["odd"]), I("AUTH", ["even"]), I("(c) ", ["~a301"]), I("COMT", ["5", "0", "~a3000"]), I("ANNO", ["ann1"]), I("ANNO", ["ann"])]),
        "C": ([], [I("AUTH", ["x"]), I("COMT", ["5", "0", "abcd"]), I("COMT", ["6", "1", "ef"]), I("ANNO", ["~a20"])])},
}
EMPTY = ([], [])


def expand_op(op, opts=None):
    if op["a"] == "save":
        hd, items = CONTENT[op["type"]][op["c"]]
        op = dict(op, hd=hd, items=items)
    op = dict(op)
    op.pop("c", None)
    if op.get("o") == "none" or "o" not in op:
        op["o"] = opts or {}
    return op


def expand(s):
    return {"fmt": s["fmt"], "parts": [t for t in s["parts"] if t], "ops": [expand_op(o) for o in s["ops"]]}


def model(ctx, fmts, full, depth, ops):
    def one(f):
        return [expand(s) for s in ctx.design("FileMC", "FileMC.cfg", {"Fmt": f'"{f}"', "Full": str(full).upper(), "Depth": depth, "OpSet": f'"{ops}"'}, workers=2)]
    out = sum(ctx.par([lambda f=f: one(f) for f in fmts]), [])
    return sorted(out, key=lambda s: json.dumps(s, sort_keys=True))


OPTIONS = [{"pad": 0}, {"pad": 1}, {"pad": 5000}, {"v23": True}, {"upper": True}, {"lossy": True}, {"v23": True, "pad": 0, "upper": True}]


def with_options(scns, r, share=1.0):
    """the same histories under other write options"""
    out = []
    for s in scns:
        if share < 1 and r.random() > share:
            continue
        o = r.choice(OPTIONS)
        out.append(dict(s, ops=[dict(x, o=o) for x in s["ops"]]))
    return out


def layouts(scns):
    seen = {}
    for s in scns:
        seen.setdefault((s["fmt"], tuple(s["parts"])), 1)
    by = {}
    for f, p in seen:
        by.setdefault(f, []).append(p)
    return by


# what the format has no room for: a comment with a length of 16 bits, metadata blocks with one of 24 bits
TOOBIG = {"aiff": [("AiffText", I("COMT", ["1", "2", "~a65536.1"], "")), ("AiffText", I("COMT", ["1", "2", "~a65537.2"], "")), ("AiffText", I("COMT", ["1", "2", "~u40000"], ""))],
          "flac": [("VorbisComments", I("pic", ["3", "image/png", "d", "~p16777216", "0", "0", "0", "0"], "pic")), ("VorbisComments", I("TITLE", ["~a16777216"]))]}


def random_histories(ctx, name, lays, count, length, kinds, fmts=FMTS):
    """seeded random histories: perturbed region sizes, random tags, options and entry points"""
    r = ctx.rng(name)
    out = []
    for n in range(count):
        f = fmts[n % len(fmts)]
        parts = [content.perturb(r, f, t) for t in r.choice(lays[f])]
        o = r.choice(OPTIONS + [{}] * 7)
        ops = []
        for _ in range(r.randint(2, length)):
            a = r.choice(kinds)
            if a == "save":
                ty = r.choice(WRITABLE[f])
                hd, items = content.content(r, ty)
                if o.get("v23"):
                    items = [i for i in items if i["k"] != "ts"] or [I("TIT2", ["U8", "t"], "text")]
                ops.append({"a": "save", "type": ty, "via": r.choice(["conc", "conc", "conc", "path", "file", "own"]), "hd": hd, "items": items, "o": o})
            elif a == "repeat":
                if ops:
                    ops.append(dict(ops[-1]))
            elif a == "remove":
                ops.append({"a": "remove", "type": r.choice(WRITABLE[f] + READONLY.get(f, [])), "via": r.choice(["type", "path", "ext", "empty", "emptygen"]), "o": o})
            elif a == "resave":
                ops.append({"a": "resave", "type": r.choice(WRITABLE[f]), "via": "", "o": o})
            elif a == "refuse":
                if f in TOOBIG and r.random() < .4:
                    ty, i = r.choice(TOOBIG[f])
                    hd, items = content.content(r, ty)
                    ops.append({"a": "save", "type": ty, "via": r.choice(["conc", "conc", "path", "file", "own"]), "big": True, "hd": hd, "items": items[:2] + [i], "o": o})
                    continue
                no = [t for t in TYPES if t not in WRITABLE[f]]
                ty = r.choice(no)
                hd, items = CONTENT[ty][r.choice("ABC")]
                ops.append({"a": "save", "type": ty, "via": r.choice(["conc", "gen", "path"]), "hd": hd, "items": items, "o": o})
        if ops:
            out.append({"fmt": f, "parts": parts, "ops": ops})
    return out


CAP = 25000


def check(prop, sets, kinds, opt_share, rnd):
    def run(ctx):
        q = ctx.quick
        env = {"PROP": prop}
        base, lays = [], {}
        for full, depth, ops in sets[0] if q else sets[1]:
            s = model(ctx, FMTS, full, depth, ops)
            for f, l in layouts(s).items():
                lays.setdefault(f, set()).update(l)
            if q and len(s) > CAP:
                ctx.notes.append(f"quick: {CAP} of the {len(s)} behaviours of the model {ops}/{depth} replayed (seeded sample); thorough replays all")
                s = ctx.rng(ops).sample(s, CAP)
            base += s
        ctx.judge("FileTrace", "files", base, "model", env=env)
        lays = {f: sorted(l) for f, l in lays.items()}
        if opt_share:
            ctx.judge("FileTrace", "files", with_options(base, ctx.rng("opts"), opt_share if q else 1.0), "opts", env=env)
        ctx.judge("FileTrace", "files", random_histories(ctx, "rnd", lays, rnd if q else rnd * 20, 6, kinds), "rnd", env=env)
    return run


T, F = True, False
PROPS = {
    "C01": check("C01", ([(T, 1, "edit"), (F, 2, "edit")], [(T, 2, "edit"), (F, 3, "edit")]), ["save", "save", "remove", "resave"], .3, 1500),
    "C02": check("C02", ([(T, 1, "save"), (F, 2, "edit")], [(T, 2, "save"), (F, 3, "edit")]), ["save", "save", "save", "remove"], .3, 2500),
    "C03": check("C03", ([(T, 1, "edit"), (F, 2, "removes")], [(T, 2, "edit"), (F, 3, "removes")]), ["save", "remove"], .3, 1500),
    "C04": check("C04", ([(T, 2, "removes"), (T, 1, "remove")], [(T, 2, "remove"), (F, 3, "removes")]), ["save", "remove", "remove", "repeat"], .2, 1500),
    "C05": check("C05", ([(F, 2, "stable"), (T, 1, "stable")], [(T, 2, "stable"), (F, 3, "stable")]), ["save", "repeat", "repeat", "resave", "resave", "remove"], .3, 1500),
    "C06": check("C06", ([(T, 1, "refuse"), (F, 2, "edit")], [(T, 2, "edit"), (F, 2, "refuse")]), ["save", "refuse", "remove"], .2, 1500),
}

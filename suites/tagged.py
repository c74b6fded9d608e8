"""C12: tagged files."""
import json
from . import conv, files

NOOP = {"a": "", "type": "", "k": "", "v": "", "to": "", "tag": {"type": "", "items": [], "pics": []}}
KEYS = {"AiffText": ["TrackTitle", "TrackArtist"], "Id3v1": ["TrackTitle", "TrackArtist", "AlbumTitle"], "RiffInfo": ["TrackTitle", "TrackArtist", "AlbumTitle", "Comment"]}
FULL = ["TrackTitle", "TrackArtist", "AlbumTitle", "Comment", "Composer", "CopyrightMessage"]
PIC = {"pt": 3, "m": "image/png", "d": "front", "data": "~p300"}
PICS = {"Id3v2": [PIC, dict(PIC, pt=5, data="~p40.2")], "Ape": [PIC, dict(PIC, pt=4, data="~p40.2")], "VorbisComments": [PIC, dict(PIC, pt=5, data="~p40.2")], "Mp4Ilst": [dict(PIC, pt=0, d="-")]}
CHANGE = {"mpeg": ["wv", "aac", "ape"], "ape": ["wv", "mpc", "mpeg"], "wv": ["ape", "mpc"], "aac": ["mpeg", "wv"], "wav": ["mpeg", "aiff"], "aiff": ["mpeg", "wav"], "flac": ["opus", "mpeg"],
          "mpc": ["mpeg", "wv"], "opus": ["flac", "mp4"], "vorbis": ["flac", "mp4"], "speex": ["flac"], "mp4": ["mpeg"]}


def prep(d):
    return [{"a": "savegen", "via": "", "type": t["type"], "g": {"type": t["type"], "items": [{"k": k, "t": "T", "v": v, "l": "XXX", "d": ""} for k, v in t["items"]], "pics": t["pics"]}, "o": {}} for t in d]


def tag(r, ty, empty=.2):
    if r.random() < empty:
        return {"type": ty, "items": [], "pics": []}
    ks = KEYS.get(ty, FULL)
    vs = ["a", "b c", "~a28", "x;y"] if ty == "Id3v1" else ["a", "b c", "~u5", "x;y", "~a40", "~a300.1", "~a5000"]
    items = [[k, r.choice(vs)] for k in r.sample(ks, r.randint(0 if ty in PICS else 1, min(3, len(ks))))]
    pics = [] if ty not in PICS or r.random() < .7 else [p for p in PICS[ty] if r.random() < .7]
    return {"type": ty, "items": sorted(items), "pics": pics}


def ops(r, f, kind, n):
    rd = files.WRITABLE[f] + files.READONLY.get(f, [])
    out = []
    for _ in range(n):
        a = r.choice(["insert"] * 5 + ["edit"] * 2 + ["remove", "remove", "primary", "first", "wipe", "save", "save", "save", "saveother", "open", "clear"] + (["changetype"] if kind == "tagged" and r.random() < .3 else []))
        o = dict(NOOP, a=a)
        if a == "insert":
            o["tag"] = tag(r, r.choice(rd + rd + files.TYPES))
        elif a in ("remove", "wipe", "edit"):
            o["type"] = r.choice(rd * 4 + files.TYPES if a == "remove" else rd)
        elif a == "changetype":
            o["to"] = r.choice(CHANGE[f])
        if a in ("edit", "primary", "first"):
            o["k"], o["v"] = r.choice(["TrackTitle", "TrackArtist"]), r.choice(["ed", "~a25", "by x"])
        if a in ("save", "saveother"):
            o["o"] = r.choice([{}, {}, {"pad": 0}, {"pad": 5000}, {"upper": True}])
            o["path"] = r.random() < .5
        if a == "open":
            o["path"] = r.random() < .3
        out.append(o)
    if kind == "bound" and r.random() < .7:
        out.append(dict(NOOP, a="close"))
    return out


def c12(ctx):
    q = ctx.quick
    r = ctx.rng("tagged")
    jobs = [lambda f=f, k=k: ctx.design("TaggedMC", "TaggedMC.cfg", {"Fmt": f'"{f}"', "Kind": f'"{k}"', "Depth": "2" if q else "3"}, workers=2)
            for f in files.FMTS for k in ("tagged", "bound")]
    d = sorted(sum(ctx.par(jobs), []), key=lambda s: json.dumps(s, sort_keys=True))
    n = 6000 if q else 60000
    d = r.sample(d, min(n, len(d)))
    scns = []
    for s in d:
        last = [dict(NOOP, a="save"), dict(NOOP, a="open")] if r.random() < .5 else []
        scns.append({"fmt": s["fmt"], "kind": s["kind"], "parts": conv.PLAIN[s["fmt"]], "prep": prep(s["disk"]), "mut": [], "ops": s["ops"] + last})
    ctx.judge("TaggedTrace", "tagged", scns, "model", chunk=300)
    rnd = []
    for i in range(1500 if q else 30000):
        f, kind = files.FMTS[i % 12], r.choice(["tagged", "bound"])
        parts = list(conv.PLAIN[f])
        ro = {"ape": ["v2.4#2"], "mpc": ["v2.4#2"], "flac": ["v2.4#2"]}.get(f)
        if ro and r.random() < .4:
            parts = ro + parts
        rnd.append({"fmt": f, "kind": kind, "parts": parts, "prep": prep([tag(r, ty, 0) for ty in files.WRITABLE[f] if r.random() < .5]), "mut": [], "ops": ops(r, f, kind, r.randint(3, 10))})
    ctx.judge("TaggedTrace", "tagged", rnd, "rnd", chunk=200)


PROPS = {"C12": c12}

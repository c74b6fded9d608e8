"""C24: audio properties."""
import json
import os

FMTS = ["mpeg", "aac", "flac", "wav", "aiff", "ape", "wv", "vorbis", "opus", "speex", "mp4", "sv7", "sv8", "sv5"]
TAGGED = {"mpeg", "aac", "ape", "wv", "sv7", "sv8"}
PRE = {"mpeg": [[], ["v2.4#2"], ["v2.3#1"], ["v2.4#1:4000"], ["junk:37"], ["zero:100"], ["v2.4#1", "junk:3"]],
       "aac": [[], ["v2.4#2"], ["v2.3#1"]],
       "ape": [[], ["v2.4#2"]], "wv": [[]], "sv7": [[], ["v2.4#2"]], "sv8": [[], ["v2.4#2"]]}
POST = {"mpeg": [[], ["v1"], ["ape#2"], ["ape#2", "v1"], ["lyr", "v1"], ["noise:607"], ["noise:1"], ["noise:609"]],
        "aac": [[], ["v1"]], "ape": [[], ["v1"], ["ape#2"], ["ape#2", "v1"]], "wv": [[], ["v1"], ["ape#2"], ["ape#2", "v1"], ["lyr", "v1"]],
        "sv7": [[], ["v1"], ["ape#2"]], "sv8": [[], ["v1"], ["ape#2"]]}


def B(n, w=4):
    return list(n.to_bytes(w, "big"))


def some(r, w=4, lo=0, hi=None):
    """a number of w bytes, small and large ones alike"""
    hi = (1 << 8 * w) - 1 if hi is None else hi
    k = r.random()
    if k < .15:
        return r.choice([lo, hi, lo + 1, hi - 1])
    if k < .6:
        return max(lo, min(hi, int(2 ** (r.random() * (hi.bit_length())))))
    return r.randint(lo, hi)


def fields(r):
    fmt = r.choice(FMTS)
    b = lambda: r.randrange(2)
    gr = lambda: [B(x, 8) for x in sorted(some(r, 8, 1, (1 << 44)) for _ in range(r.choice([1, 2, 4])))]
    if fmt == "mpeg":
        vbr = r.choice(["-", "-", "Xing", "Info", "VBRI"])
        fr = some(r, 3, 0, 5000000)
        return {"fmt": fmt, "ver": r.choice([1, 2, 25]), "layer": r.choice([1, 2, 3]) if vbr == "-" else 3, "br": r.randint(1, 14), "sr": r.randrange(3), "pad": b(), "mode": r.randrange(4), "ext": r.randrange(4),
                "cr": b(), "og": b(), "em": r.randrange(4), "priv": b(), "crc": b() if vbr == "-" else 0, "vbr": vbr, "vf": r.choice([1, 3, 7, 11, 15]), "frames": B(fr), "size": B(fr * r.choice([1, 100, 400])), "n": r.randint(4, 9)}
    if fmt == "aac":
        k = r.randint(3, 12)
        base = r.choice([100, 300, 700, 2000])
        return {"fmt": fmt, "ver": b(), "crc": b(), "prof": r.randrange(4), "sr": r.randrange(13), "ch": r.randrange(8), "priv": b(), "og": b(), "home": b(),
                "lens": [base] * k if b() else [r.randint(30, 8191) for _ in range(k)]}
    if fmt == "flac":
        return {"fmt": fmt, "sr": some(r, 3, 1, 655350), "ch": r.randint(1, 8), "bps": r.randint(4, 32), "total": B(some(r, 5, 0, (1 << 36) - 1), 5), "md5": [16 * (k + 1) - 1 for k in range(16)],
                "pads": [r.randrange(300) for _ in range(r.randrange(3))], "audio": r.randrange(5000)}
    if fmt == "wav":
        ext, tag = b(), r.choice([1, 1, 3, 17, 85, 6, 0x161])
        pcm = tag in (1, 3)
        return {"fmt": fmt, "ext": ext, "tag": tag, "ch": r.choice([1, 2, 3, 6, 8, 255]), "sr": B(some(r, 4, 1)), "bps": B(some(r)), "align": r.choice([1, 4, 6, 1152]), "bits": r.choice([8, 16, 24, 32, 64] + ([] if pcm else [0])),
                "valid": r.choice([0, 12, 20, 24]) if ext else 0, "mask": B(some(r)), "more": [] if ext else r.choice([[], [0, 0], [2, 0, 1, 2]]), "fact": B(some(r, 4, 1)), "data": r.randint(2100, 6000),
                "order": r.choice([["fmt", "fact", "data"], ["junk", "fmt", "list", "fact", "data", "junk"], ["fmt", "junk", "data", "list"] if pcm else ["fmt", "data", "fact"], ["data", "fmt", "fact"]])}
    if fmt == "aiff":
        comp = r.choice(["", "NONE", "ACE2", "ACE8", "MAC3", "MAC6", "sowt", "fl32", "fl64", "alaw", "ulaw", "ULAW", "ALAW", "FL32", "ABCD"])
        return {"fmt": fmt, "ch": r.choice([r.randint(1, 255), r.randint(1, 65535)]), "frames": B(some(r)), "bits": r.randint(1, 32), "rate": some(r, 4, 1, (1 << 31) - 2), "half": b(), "comp": comp, "cname": r.choice(["", "x", "xyz", "Name here"]) if comp else "",
                "data": r.randint(1, 3000), "order": r.choice([["comm", "ssnd"], ["fver", "comm", "ssnd"], ["ssnd", "junk", "comm", "name"]])}
    if fmt == "ape":
        ver = r.choice([r.randint(3900, 3979), r.randint(3600, 3900), r.randint(3980, 4100), 3949, 3950, 3980])
        return {"fmt": fmt, "ver": ver, "xd": r.choice([0, 0, 4, 100]) if ver >= 3980 else 0, "comp": r.choice([1000, 2000, 3000, 4000, 5000]), "flags": r.randrange(64), "bpf": B(some(r, 3, 1, 1 << 20)), "final": B(some(r, 3, 1)),
                "frames": B(some(r, 3, 1, 1 << 20)), "bits": r.choice([8, 16, 24, 32]), "ch": r.randint(1, 32), "sr": B(some(r, 4, 1)), "audio": r.randint(1, 3000)}
    if fmt == "wv":
        dsd, blocks = int(r.random() < .2), r.choice([1, 1, 2, 4])
        chsz = 0 if blocks == 1 else r.choice([2, 3, 4, 5, 6, 7])
        width = 0 if chsz == 0 else chsz - 1 if chsz < 6 else chsz - 3
        return {"fmt": fmt, "dsd": dsd, "sr": r.randrange(16), "rate": some(r, 3, 1, (1 << 20) - 1), "shift": 0 if dsd else r.choice([0, 0, 4, 7]), "blocks": blocks, "hybrid": b(), "mono": b() if blocks == 1 else 0, "bytes": r.randint(1, 4),
                "chsz": chsz, "ch": 5 if blocks == 1 else r.randint(blocks, 255) if chsz < 6 else r.randint(blocks, 4000), "mask": B(some(r, width or 1), 4), "mult": r.randrange(5) if dsd else 0, "ver": r.randint(0x402, 0x410),
                "total": B(some(r, 4, 1, 0xFFFFFFF0)), "audio": r.choice([30, 60, 301, 700]), "rep": r.choice([1, 2]), "pre": r.choice([[], [0x21, 1, 9, 9]]), "empty": b()}
    if fmt == "vorbis":
        return {"fmt": fmt, "ch": r.randint(1, 255), "sr": B(some(r, 4, 1)), "max": B(some(r)), "nom": B(some(r)), "min": B(some(r)), "grans": gr(), "body": r.choice([1, 100, 255, 700])}
    if fmt == "opus":
        fam = r.choice([0, 1, 255])
        return {"fmt": fmt, "ch": r.randint(1, {0: 2, 1: 8, 255: 255}[fam]), "skip": some(r, 2), "sr": B(some(r)), "gain": some(r, 2), "fam": fam, "grans": gr(), "body": r.choice([1, 100, 255, 700])}
    if fmt == "speex":
        return {"fmt": fmt, "ch": r.randint(1, 2), "sr": B(some(r, 4, 1)), "mode": r.randrange(3), "nom": B(some(r)), "vbr": b(), "grans": gr(), "body": r.choice([1, 100, 255, 700])}
    if fmt == "mp4":
        mv = b()
        return {"fmt": fmt, "mv": mv, "scale": B(some(r, 4, 1)), "dur": B(some(r, 8, 0, 1 << 50) if mv else some(r), 8), "ev": r.choice([0, 0, 1, 2]), "ech": r.randint(1, 8), "esr": r.choice([8000, 22050, 44100, 48000, 65535]),
                "codec": r.choice(["mp4a", "mp4a", "mp4a", "alac", "fLaC", "lpcm", "drms"]), "esds": int(r.random() < .85), "long": b(), "oti": r.choice([64, 65, 102, 103, 104, 105, 107, 221]), "maxbr": B(some(r)), "avg": B(r.choice([0, some(r)])),
                "asc": int(r.random() < .85), "aot": r.choice([1, 2, 3, 4, 6, 7, 8, 9, 12, 17, 19, 20, 23, 32, 33, 34, 35, 37, 39, 42, 43, 44, 46]), "fi": r.choice(list(range(16))), "explicit": some(r, 3, 1), "conf": r.randrange(8),
                "bits": r.choice([8, 16, 20, 24, 32]), "ach": r.randint(1, 8), "asr": some(r, 3, 1, 655350), "chan": b(), "first": r.choice(["-", "-", "-", "drms", "abcd"]), "firstn": r.choice([0, 1, 4, 28, 90, 300]), "stts": b(), "swap": b(),
                "order": r.choice([["mdhd", "hdlr", "minf"], ["mdhd", "minf", "hdlr"], ["minf", "mdhd", "hdlr"], ["free", "hdlr", "mdhd", "free", "minf"]]), "video": r.randrange(3), "mdat": r.choice([0, 100, 5000, 60000]), "brand": r.choice(["M4A ", "M4B ", "isom", "qt  "]), "front": b()}
    if fmt == "sv7":
        g = b()
        return {"fmt": fmt, "minor": r.randrange(16), "frames": B(some(r, 4, 1, 1 << 24)), "is": b(), "ms": b(), "band": r.randrange(64), "profile": r.randrange(16), "link": r.randrange(4), "sr": r.randrange(4), "level": some(r, 2),
                "tp": some(r, 2), "tg": some(r, 2), "ap": some(r, 2), "ag": some(r, 2), "gapless": g, "last": r.randint(1, 1152), "fast": b(), "enc": r.randrange(256), "audio": r.randint(100, 9000)}
    if fmt == "sv8":
        sil = some(r, 3)
        return {"fmt": fmt, "count": B(sil + some(r, 6), 7), "silence": B(sil), "vw": r.randint(1, 9), "sr": r.randrange(4), "band": r.randint(1, 32), "ch": r.randint(1, 16), "ms": b(), "blk": r.randrange(8),
                "tg": some(r, 2), "tp": some(r, 2), "ag": some(r, 2), "ap": some(r, 2), "prof": r.randrange(128), "pns": b(), "minor": r.randrange(100), "audio": r.choice([1, 100, 124, 125, 126, 300, 9000]), "more": r.randrange(3),
                "order": r.choice([["SH", "RG", "EI", "AP", "SE"], ["SH", "RG", "EI", "SO", "AP", "AP", "AP", "SE"], ["RG", "EI", "SH", "AP", "SE"]])}
    return {"fmt": fmt, "ver": r.choice([4, 5, 6]), "ms": b(), "band": r.randrange(32), "frames": B(some(r, 3)), "audio": r.randint(1, 3000)}


def dress(r, s):
    k = s["f"]["fmt"]
    s["mode"], s["tags"] = r.choice(["strict", "best", "best", "relaxed"]), int(r.random() < .8)
    s["pre"], s["post"] = (r.choice(PRE[k]), r.choice(POST[k])) if k in TAGGED and r.random() < .5 else ([], [])
    return s


MBR = {1: [[32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448], [32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384], [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320]],
       2: [[32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256]] + [[8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160]] * 2}


def fits(f):
    """the Xing/VBRI header fits into the first frame"""
    if f["fmt"] != "mpeg":
        return True
    br = MBR[1 if f["ver"] == 1 else 2][f["layer"] - 1][f["br"] - 1]
    sr = [44100, 48000, 32000][f["sr"]] // {1: 1, 2: 2, 25: 4}[f["ver"]]
    n = 48000 * br // sr if f["layer"] == 1 else (72000 if f["layer"] == 3 and f["ver"] != 1 else 144000) * br // sr
    return n > (90 if f["vbr"] != "-" else 30)


def fitting(r):
    while True:
        f = fields(r)
        if fits(f):
            return f


def c24(ctx):
    q = ctx.quick
    r = ctx.rng("props")
    n = 300 if q else 6000
    # the design sets are large: every one is judged in the thorough run
    got = ctx.par([lambda k=k: ctx.design("PropsMC", "PropsMC.cfg", {"Fmt": json.dumps(k)}) for k in FMTS])
    out = []
    for g in got:
        g.sort(key=json.dumps)
        out += r.sample(g, min(len(g), 1100)) if q else g

    def make(i):
        rr = ctx.rng(f"fields{i}")
        p = os.path.join(ctx.dir, f"fields{i}.json")
        with open(p, "w") as fh:
            json.dump([fitting(rr) for _ in range(n)], fh)
        return ctx.design("PropsMC", "PropsMC.cfg", {"Fmt": '"file"'}, env={"FIELDS": p})
    for g in ctx.par([lambda i=i: make(i) for i in range(6)]):
        g.sort(key=json.dumps)
        out += g
    out = [dress(r, s) for s in out]
    ctx.judge("PropsTrace", "props", out, "properties", chunk=900)


PROPS = {"C24": c24}

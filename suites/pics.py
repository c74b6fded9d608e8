"""C23: pictures."""
import json
from . import content, conv, files, views

TYPES = ["Id3v2", "Ape", "VorbisComments", "Mp4Ilst"]
MIMES = ["-", "image/png", "image/jpeg", "image/gif", "image/bmp", "image/tiff", "image/webp", "x", "application/x-y"]
DESCS = ["-", "", "d", "front ~", "~a40", "~u5", "~u300", "~a5000.1"]
DATA = ["~p9", "~p300.1", "~j77.2", "~b40.9", "~b1.8", "~p9000.3", "~p140000.7", "~j4", "~p0", "BM~x123456", "GIF89axxxx", "GIF87a<0><0>", "II*<0>abcde", "MM<0>*abcde", "GIF88axxxx", "BMx", "~z8", "~s31", ""]


def pic(r, small=False, types=range(21)):
    return {"pt": r.choice(types), "m": r.choice(MIMES), "d": r.choice(DESCS[:6] if small else DESCS), "data": r.choice([d for d in DATA if not small or "000" not in d])}


def c23(ctx):
    q = ctx.quick
    r = ctx.rng("pics")
    img = sorted({json.dumps(s["bytes"]) for s in ctx.design("PicsMC", "PicsMC.cfg", {"Depth": "2"}, workers=4)})
    img = [json.loads(x) for x in (ctx.rng("pick").sample(img, 9000) if q else img)]
    scns = [{"k": "info", "bytes": b} for b in img]
    for b in r.sample(img, 4000 if q else 40000):
        b = list(b)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(5)
            if k == 0:
                b = b[:r.randrange(len(b) + 1)]
            elif k == 1 and b:
                b[r.randrange(min(len(b), 60))] = r.choice([0, 1, 2, 192, 254, 255, r.randrange(256)])
            elif k == 2 and b:
                del b[r.randrange(len(b))]
            elif k == 3:
                b.insert(r.randrange(len(b) + 1), r.choice([0, 255]))
            else:
                b = r.choice([[66, 77], [71, 73, 70, 56, 57, 97], [71, 73, 70, 56, 56, 97], [73, 73, 42, 0], [77, 77, 0, 42], [255, 216], [77, 77, 42, 0]]) + b[r.randrange(8):][:r.randrange(20)]
        scns.append({"k": "info", "bytes": b})
    ctx.judge("PicsTrace", "pics", scns, "images", chunk=2000)
    u = lambda: r.choice([[0, 0], [0, 1], [0, 300], [1, 2], [65535, 65535], [32768, 0]])
    ctx.judge("PicsTrace", "pics", [{"k": "flac", "p": pic(r, True, range(256)), "info": [u(), u(), u(), u()]} for _ in range(4000 if q else 40000)], "encodings", chunk=600)
    lays = views.by_fmt(views.layouts(ctx, True))
    out = []
    for _ in range(5000 if q else 60000):
        ty = r.choice(TYPES)
        f = r.choice([f for f in files.FMTS if ty in files.WRITABLE[f]])
        parts = r.choice(lays[f]) if r.random() < .6 else conv.PLAIN[f]
        if "mux" in parts:
            continue
        src = ty if r.random() < .6 else r.choice(TYPES)
        pics = [pic(r, types=range(21) if r.random() < .8 else range(256)) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        pics = [p for p in pics if p["data"]] or [dict(pic(r), data="~p9")]
        out.append({"k": "trip", "fmt": f, "ty": ty, "src": src, "parts": parts, "pics": pics, "items": [], "n": len(pics),
                    "o": r.choice([{}, {}, {"v23": True}, {"pad": 0}])})
    ctx.judge("PicsTrace", "pics", out, "files", chunk=600)


PROPS = {"C23": c23}

"""C10: file type detection."""
import json
from . import content, files, views

EXTS = ["aac", "ape", "aiff", "aif", "afc", "aifc", "mp3", "mp2", "mp1", "wav", "wave", "wv", "opus", "flac", "ogg", "mp4", "m4a", "m4b", "m4p", "m4r",
        "m4v", "3gp", "mpc", "mp+", "mpp", "spx", "xr0", "xr1", "xr2", "txt", "mp", "MP3", "Flac", "OGG", "M4A"]
SYNC, ID3 = [255, 251], [73, 68, 51]


def key(s):
    return json.dumps(s, sort_keys=True)


def scn(segs, steps, start=0, ext="", fmt="", parts=()):
    return {"segs": segs, "steps": steps, "start": start, "ext": ext, "fmt": fmt, "parts": list(parts)}


G = {"a": "guess"}


def id3(r, n, v=None, footer=False):
    v = v or r.choice([2, 3, 4])
    head = ID3 + [v, 0, 16 if footer and v == 4 else 0, (n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127]
    return [{"b": head, "n": 1}, {"b": [r.choice([0, 17])], "n": n + (10 if footer and v == 4 else 0)}]


def steps(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        out.append(r.choice([{"a": "junk", "n": r.choice([0, 1, 2, 3, 9, 10, 11, 40, 100, 1023, 1024, 1025, 1026, 4000])}, {"a": "set", "ty": r.choice(files.FMTS)},
                             {"a": "use", "b": r.random() < .5}, G,
                             {"a": "rs", "rs": r.choice([[], [{"name": "R0", "pat": SYNC}], [{"name": "R1", "pat": ID3}, {"name": "R0", "pat": [77]}], [{"name": "R2", "pat": []}],
                                                         [{"name": "R2", "pat": [82, 73, 70, 70]}, {"name": "R1", "pat": [79, 103]}]])}]))
    return out + [G, G]


def c10(ctx):
    q = ctx.quick
    r = ctx.rng("probe")
    con = {key(s["segs"]): s["segs"] for s in ctx.design("ProbeMC", "ProbeMC.cfg", {"Kind": '"content"', "Depth": "1"}, workers=4)}
    con = [con[k] for k in sorted(con)]
    scns = [scn(s, [G, G], 0, "") for s in con] + [scn(s, steps(r), r.choice([0, 0, 1, 7, 100]), r.choice(EXTS + [""])) for s in con]
    ctx.judge("ProbeTrace", "probe", scns, "content", chunk=1500)
    hist = {key(s): s for s in ctx.design("ProbeMC", "ProbeMC.cfg", {"Kind": '"history"', "Depth": "3" if q else "4"}, workers=4)}
    hist = [scn(hist[k]["segs"], hist[k]["steps"] + [G], r.choice([0, 3])) for k in sorted(hist)]
    ctx.judge("ProbeTrace", "probe", hist, "history", chunk=1500)
    # complete files, bare and behind tags and junk
    lays = views.by_fmt(views.layouts(ctx, True))
    out = []
    for _ in range(4000 if q else 60000):
        f = r.choice(files.FMTS)
        parts = [content.perturb(r, f, t) for t in r.choice(lays[f])]
        k = r.random()
        if k < .5:
            pre = []
        elif k < .75:
            pre = id3(r, r.choice([0, 1, 10, 127, 128, 300, 1024, 5000, 20000]), footer=r.random() < .2)
        else:
            pre = [{"b": [r.choice([0, 17, 65])], "n": r.choice([1, 2, 3, 9, 10, 50, 500, 1021, 1022, 1023, 1024, 1025, 1500])}]
        st = steps(r) if r.random() < .5 else [G, G]
        out.append(scn(pre, st, r.choice([0, 0, 0, 5]), r.choice(EXTS + [""]) if r.random() < .3 else "", f, parts))
    ctx.judge("ProbeTrace", "probe", out, "files", chunk=600)
    # random small contents around the signatures
    out = []
    sig = [[77, 65, 67], [102, 76, 97, 67], [77, 80, 67, 75], [77, 80, 43], [70, 79, 82, 77, 0, 0, 0, 0, 65, 73, 70, 70], [82, 73, 70, 70, 9, 9, 9, 9, 87, 65, 86, 69], [119, 118, 112, 107],
           [0, 0, 0, 24, 102, 116, 121, 112], [255, 251], [255, 241], [255, 243], [255], [73, 68, 51, 4, 0, 0, 0, 0, 0, 5], [0], [17], [65, 80, 69, 84, 65, 71, 69, 88],
           [79, 103, 103, 83] + [0] * 24 + [79, 112, 117, 115, 72, 101, 97, 100], [79, 103, 103, 83] + [0] * 25 + [118, 111, 114, 98, 105, 115], [86, 101, 114]]
    for _ in range(6000 if q else 100000):
        segs = []
        for _ in range(r.choice([1, 2, 3, 5])):
            b = list(r.choice(sig))
            if r.random() < .2 and b:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            segs.append({"b": b, "n": r.choice([1, 1, 1, 2, 5, 40])})
        out.append(scn(segs, steps(r), r.choice([0, 0, 2]), r.choice(EXTS) if r.random() < .2 else ""))
    ctx.judge("ProbeTrace", "probe", out, "random", chunk=1000)


PROPS = {"C10": c10}

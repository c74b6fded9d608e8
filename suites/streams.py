"""C08, C09: operations on devices that deliver in pieces, interrupt or fail."""
import json
from . import content, conv, files, views

OGG = ("vorbis", "opus", "speex")


def key(s):
    return json.dumps(s, sort_keys=True)


def devices(ctx, kind, depth):
    """the device descriptions of the model, each once"""
    d = {key(s): s for s in ctx.design("StreamsMC", "StreamsMC.cfg", {"Kind": f'"{kind}"', "Depth": str(depth)}, workers=4)}
    return [d[k] for k in sorted(d)]


def operation(r, f, gens, a=None):
    """a random operation for a file of format f"""
    a = a or r.choice(["probe", "read", "read", "readas", "readc", "save", "save", "save", "own", "gen", "remove", "tagged", "bound"] + ["pages", "packets"] * (f in OGG))
    op = {"a": a, "type": "", "o": r.choice(files.OPTIONS + [{}] * 5) if r.random() < .5 else {}, "po": r.choice(views.ALL) if r.random() < .3 else {}}
    if a in ("save", "own", "gen", "remove", "bound"):
        w = files.WRITABLE[f]
        op["type"] = r.choice(w * 4 + files.READONLY.get(f, []) + files.TYPES[:1]) if a in ("gen", "remove", "save") else r.choice(w)
    if a in ("save", "own", "gen", "bound"):
        if r.random() < .1:
            op["hd"], op["items"] = files.EMPTY
        else:
            op["hd"], op["items"] = content.content(r, op["type"]) if r.random() < .5 else files.CONTENT[op["type"]][r.choice("ABC")]
        if op["type"] == "Id3v2" and op["o"].get("v23"):
            op["items"] = [i for i in op["items"] if i["k"] != "ts"] or [content.I("TIT2", ["U8", "t"], "text")]
    if a == "packets":
        op["count"] = r.choice([1, 2, 3, 5])
    return op


def bases(ctx, r, n, damaged=.1):
    lays = views.by_fmt(views.layouts(ctx, True))
    out = []
    for s in views.prepared(r, lays, n):
        if r.random() < .4:
            s["prep"] = []
        if r.random() < damaged:
            s["mut"] = [views.mutation(r)]
        out.append(s)
    return out


def c09(ctx):
    q = ctx.quick
    r = ctx.rng("streams")
    devs = devices(ctx, "sched", 2 if q else 3)
    scns = []
    for s in bases(ctx, r, 4000 if q else 80000, .15):
        ds = r.sample(devs, 4) + [{"rs": [1], "ws": [1], "int": r.choice([0, 0, 2])}, {"rs": r.choice([[3], [9], [10], [11], [4096], [r.randrange(2, 200)], [r.randrange(1, 30), r.randrange(1, 9000)]]), "ws": r.choice([[5], [r.randrange(1, 200)]]), "int": r.choice([0, 3, 7])},
                                  {"dev": "buffered", "cap": r.choice([1, 2, 5, 64, 8192])}]
        if r.random() < .3:
            ds.append({"dev": "file"})
        scns.append(dict(s, op=operation(r, s["fmt"], None), scheds=[dict({"dev": "", "rs": [], "ws": [], "int": 0, "cap": 0}, **d) for d in ds]))
    ctx.judge("StreamsTrace", "streams", scns, "sched", chunk=400)


def fault_scenarios(ctx):
    q = ctx.quick
    r = ctx.rng("streams")
    faults = devices(ctx, "fault", 2 if q else 3)
    single = [f for f in faults if len(f["kinds"]) == 1]
    every = [f for f in faults if len(f["kinds"]) == 5]
    scns = []
    for s in bases(ctx, r, 1500 if q else 30000, .05):
        fs = r.sample(single, 3) + every + r.sample(faults, 1)
        scns.append(dict(s, op=operation(r, s["fmt"], None), faults=[{"kinds": "".join(sorted(f["kinds"])), "once": f["once"], "max": 150 if q else 1500, "seed": r.randrange(10000)} for f in fs]))
    return scns


def c08(ctx):
    ctx.judge("StreamsTrace", "streams", fault_scenarios(ctx), "fault", chunk=400)


PROPS = {"C08": c08, "C09": c09}

"""C21: every way of writing a tag."""
import json
from . import content, conv, files, views


def design(ctx, full):
    jobs = [lambda f=f: ctx.design("WaysMC", "WaysMC.cfg", {"Fmt": f'"{f}"', "Full": "TRUE" if full else "FALSE"}, workers=2) for f in files.FMTS]
    out = sum(ctx.par(jobs), [])
    return sorted(out, key=lambda s: json.dumps(s, sort_keys=True))


def expand(s, o):
    hd, items = files.CONTENT[s["type"]][s["c"]]
    return {"fmt": s["fmt"], "parts": [t for t in s["parts"] if t], "prep": [], "mut": [], "type": s["type"], "hd": hd, "items": items, "o": o}


def c21(ctx):
    q = ctx.quick
    r = ctx.rng("ways")
    d = design(ctx, True)
    if q:
        d = r.sample(d, min(len(d), 4000))
    ctx.judge("WaysTrace", "ways", [expand(s, r.choice(files.OPTIONS) if r.random() < .3 else {}) for s in d], "model", chunk=400)
    lays = views.by_fmt([{"fmt": s["fmt"], "parts": [t for t in s["parts"] if t]} for s in d])
    out = []
    for s in views.prepared(r, lays, 3000 if q else 40000):
        o = r.choice(files.OPTIONS + [{}] * 7)
        ty = r.choice(files.WRITABLE[s["fmt"]])
        if r.random() < .5:
            hd, items = content.content(r, ty)
            if o.get("v23"):
                items = [i for i in items if i["k"] != "ts"] or [content.I("TIT2", ["U8", "t"], "text")]
            out.append(dict(s, type=ty, hd=hd, items=items, o=o))
        else:
            out.append(dict(s, type=ty, g=None, o=o))
    gens = [x["tag"] for x in conv.rnd_to(ctx, 4 * sum("g" in x for x in out) + 700)]
    pool = {}
    for g in gens:
        pool.setdefault(g["type"], []).append(g)
    for x in out:
        if "g" in x:
            x["g"] = r.choice(pool[x["type"]])
    ctx.judge("WaysTrace", "ways", out, "rnd", chunk=400)


PROPS = {"C21": c21}

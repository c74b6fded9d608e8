"""C17: parse options."""
import itertools, json
from . import content, files

ALL = [{"tags": t, "props": p, "art": a, "impl": i, "mode": m} for t, p, a, i, m in
       itertools.product([True, False], [True, False], [True, False], [True, False], ["strict", "best", "relaxed"])]
SOME = [o for o in ALL if sum(not o[k] for k in ("tags", "props", "art", "impl")) <= 1]


OLDPIC = "iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg=="


def layouts(ctx, full):
    jobs = [lambda f=f: ctx.design("ViewsMC", "ViewsMC.cfg", {"Fmt": f'"{f}"', "Full": "TRUE" if full else "FALSE"}, workers=2) for f in files.FMTS]
    out = sum(ctx.par(jobs), [])
    out = [{"fmt": s["fmt"], "parts": [t for t in s["parts"] if t], "prep": [], "mut": []} for s in out]
    return sorted(out, key=lambda s: json.dumps(s, sort_keys=True))


def prepared(r, lays, n):
    """layouts whose tags were replaced by random contents"""
    out = []
    fm = sorted(lays)
    for i in range(n):
        f = fm[i % len(fm)]
        parts = [content.perturb(r, f, t) for t in r.choice(lays[f])]
        prep = []
        for ty in files.WRITABLE[f]:
            if r.random() < .7:
                hd, items = content.content(r, ty)
                if ty == "VorbisComments" and r.random() < .25:       # the old way to store a picture
                    items = items + [content.I(r.choice(["COVERART", "CoverArt"]), [OLDPIC])]
                prep.append({"a": "save", "type": ty, "via": "conc", "hd": hd, "items": items, "o": r.choice([{}, {}, {"pad": 0}, {"pad": 5000}])})
        out.append({"fmt": f, "parts": parts, "prep": prep, "mut": []})
    return out


def mutation(r):
    k = r.choice(["trunc", "set", "set", "xor", "be32", "le32", "del", "ins", "zero", "ones", "dup"])
    m = {"k": k}
    if r.random() < .6:
        m["at"] = int(r.choice([r.uniform(0, 64), r.uniform(0, 400), r.uniform(0, 3000)]))
    else:
        m["ppm"] = r.randrange(1000000)
    m["v"] = {"set": lambda: r.choice([0, 1, 3, 127, 128, 254, 255]), "xor": lambda: 1 << r.randrange(8),
              "be32": lambda: r.choice([0, 1, 7, 8, 255, 65536, 0x7fffffff, 0xffffffff, 0xfffffff0]), "le32": lambda: r.choice([0, 1, 7, 8, 255, 65536, 0x7fffffff, 0xffffffff]),
              "trunc": lambda: 0}.get(k, lambda: r.choice([1, 2, 4, 8, 31, 100]))()
    return m


def by_fmt(scns):
    d = {}
    for s in scns:
        d.setdefault(s["fmt"], []).append(s["parts"])
    return d


def c17(ctx):
    q = ctx.quick
    base = layouts(ctx, True)
    lays = by_fmt(base)
    r = ctx.rng("views")
    if q and len(base) > 3000:
        base = ctx.rng("pick").sample(base, 3000)
    ctx.judge("ViewsTrace", "views", [dict(s, opts=ALL if n % 8 == 0 or not q else SOME) for n, s in enumerate(base)], "layouts", chunk=250)
    ctx.judge("ViewsTrace", "views", [dict(s, opts=SOME) for s in prepared(r, lays, 2000 if q else 40000)], "contents", chunk=250)
    bad = [dict(s, opts=SOME, mut=[mutation(r) for _ in range(r.choice([1, 1, 2, 4]))]) for s in prepared(r, lays, 3000 if q else 60000)]
    ctx.judge("ViewsTrace", "views", bad, "damaged", chunk=400)


PROPS = {"C17": c17}

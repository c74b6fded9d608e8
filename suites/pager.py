"""C13: the Ogg pager."""

SEG, PAGE = 255, 32   # segment size of Ogg, segments per page the library writes
EDGES = [0, 1, 254, 255, 256, 509, 510, 511, 8159, 8160, 8161, 8414, 8415, 8416, 16319, 16320, 16321, 65024, 65025, 65026, 65279, 65280, 73440]


def real(n, seg, page, low):
    """a packet length of the model -> the real length at the same place of the page structure"""
    full, rest = divmod(n, seg)
    pages, segs = divmod(full, page)
    return pages * SEG * PAGE + (segs if low else (segs + PAGE - page if segs else 0)) * SEG + (0 if rest == 0 else 1 if low else 254)


def grans(r):
    return str(r.choice([0, 1, 4096, 2**31, 2**32 + 5, 2**63, 2**64 - 1]))


def c13(ctx):
    q, r = ctx.quick, ctx.rng("pager")
    d = ctx.design("PagerMC", "PagerMC.cfg", {"Seg": 2, "PageSegs": 2, "MaxLen": 9, "MaxPk": 3 if q else 4}, workers=6)
    d.sort(key=str)
    seen, scns = set(), []
    for s in d:
        for low in (True, False):
            k = (tuple(real(n, 2, 2, low) for n in s["lens"]), s["flags"])
            if k not in seen and (len(s["lens"]) < 3 or r.random() < (.25 if q else 1)):
                seen.add(k)
                scns.append({"pk": list(k[0]), "ops": [{"a": r.choice(["paginate", "write"]), "gran": "77", "serial": "5", "flags": s["flags"]}]})
    ctx.judge("PagerTrace", "pager", scns, "model", chunk=600)
    rnd = []
    for _ in range(400 if q else 6000):
        pk = [r.choice(EDGES + [r.randint(0, 3000), r.randint(0, 30000)]) for _ in range(r.choice([1, 2, 3, 3, 6]))]
        ops = []
        for _ in range(r.randint(1, 4)):
            a = r.choice(["set", "paginate", "write", "layout", "layout", "damage"])
            if a == "set":
                ops.append({"a": a, "i": r.randint(0, len(pk)), "n": r.choice(EDGES[:18])})
            elif a in ("paginate", "write"):
                ops.append({"a": a, "gran": grans(r), "serial": str(r.choice([0, 1, 2**31, 2**32 - 1])), "flags": r.choice([0, 2, 4, 6])})
            elif a == "layout":
                pages = [[r.choice([255, 255, 0, 1, r.randint(0, 254)]) for _ in range(r.choice([1, 1, 2, 3, 30, 255]))] for _ in range(r.randint(1, 5))]
                if r.random() < .8:
                    pages[-1][-1] = r.randint(0, 254)
                ops.append({"a": a, "pages": pages, "count": r.randint(0, 12)})
            else:
                ops.append({"a": a, "segs": [r.choice([0, 1, 5, 40, 255]) for _ in range(r.choice([1, 1, 2, 4]))]})
        rnd.append({"pk": pk, "ops": ops})
    ctx.judge("PagerTrace", "pager", rnd, "rnd", chunk=150)


PROPS = {"C13": c13}

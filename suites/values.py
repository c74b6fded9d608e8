"""C20: value formats."""
import json

#        kind      depth (quick, thorough)  deviations  judged in the quick tier
KINDS = [("ts", (0, 0), (1, 2), 15000), ("tsv", (0, 0), (1, 2), 4000), ("synch", (4, 4), (0, 0), 5000), ("stream", (4, 6), (1, 3), 6000),
         ("enc", (2, 3), (0, 0), 6000), ("dec", (2, 4), (0, 0), 6000), ("byte", (0, 0), (0, 0), 300), ("word", (0, 0), (0, 0), 3000), ("tflags", (0, 0), (0, 0), 10),
         ("mime", (3, 4), (0, 0), 3000), ("fid", (4, 5), (0, 0), 4000), ("genre", (4, 5), (0, 0), 6000), ("rating", (5, 6), (0, 0), 6000),
         ("ext", (2, 4), (0, 0), 4000), ("support", (0, 0), (0, 0), 20), ("scramble", (4, 6), (0, 0), 200)]


def seeded(r, n):
    """larger inputs than the model enumerates"""
    out = []
    for _ in range(n):
        k = r.choice(["ts", "synch", "stream", "dec", "enc", "scramble", "genre", "fid"])
        if k == "ts":
            b = list(b"2024-06-03T14:08:49")
            for _ in range(r.randrange(4)):
                i = r.randrange(len(b) + 1)
                c = r.choice(b"0123456789-.:T Zx/\t\x00")
                if r.random() < .5:
                    b[i:i + 1] = [c]
                elif r.random() < .6:
                    b.insert(i, c)
                else:
                    b = b[:i]
            x = {"b": b}
        elif k == "synch":
            x = {"b": [r.choice([r.randrange(256), r.randrange(128), 0, 255]) for _ in range(r.choice([2, 4]))]}
        elif k == "stream":
            x = {"b": [r.choice([255, 255, 0, 0, 224, 21]) for _ in range(r.randrange(60))], "fill": r.choice([0, 8180, 16383, 16384]),
                 "inner": [r.choice([1, 2, 3, 5, 8191, 9000]) for _ in range(r.randrange(1, 4))], "outer": [r.choice([1, 2, 3, 4, 100, 9000]) for _ in range(r.randrange(1, 4))], "int": r.randrange(12)}
            if x["fill"]:
                x["outer"] = [max(v, 97) for v in x["outer"]]
        elif k == "dec":
            e = r.randrange(4)
            t = "".join(r.choice("aé€𝄞\x00\uFFFD") for _ in range(r.randrange(6)))
            b = list(t.encode(["latin-1", "utf-16", "utf-16-be", "utf-8"][e], "replace"))
            if r.random() < .5 and b:
                b[r.randrange(len(b))] = r.randrange(256)
            x = {"b": b, "e": e, "ver": r.choice([2, 3, 4])}
        elif k == "enc":
            x = {"t": [r.choice([65, 233, 8364, 119070, 1114111, r.randrange(55296), 57344 + r.randrange(8190)]) for _ in range(r.randrange(9))], "e": r.randrange(4), "v23": r.random() < .5, "lossy": r.random() < .5}
        elif k == "scramble":
            x = {"b": [r.randrange(256) for _ in range(r.randrange(390))]}
        elif k == "genre":
            x = {"s": "".join(r.choice(["(", ")", "(", ")", "~", "17", "RX", "CR", "Rock", " ", str(r.randrange(260)), "I think..."]) for _ in range(r.randrange(9)))}
        else:
            x = {"s": "".join(r.choice("ABTZ019az_é") for _ in range(r.randrange(6)))}
        out.append({"a": k, "x": x})
    return out


def c20(ctx):
    q = ctx.quick
    r = ctx.rng("values")
    jobs = [lambda k=k, d=d, v=v: ctx.design("ValuesMC", "ValuesMC.cfg", {"Kind": f'"{k}"', "Depth": str(d[not q]), "Dev": str(v[not q])}, workers=2) for k, d, v, _ in KINDS]
    all_ = []
    for (k, _, _, cap), d in zip(KINDS, ctx.par(jobs)):
        d = sorted(d, key=lambda s: json.dumps(s, sort_keys=True))
        cap = cap if q else cap * 25
        all_ += d if len(d) <= cap else r.sample(d, cap)
    all_ += seeded(r, 6000 if q else 150000)
    out = []
    for s in all_:
        if s["a"] == "ts":
            modes = ["strict", "best", "relaxed"]
            for m in modes if not q else r.sample(modes, 1) if len(s["x"]["b"]) > 19 else modes[:2] + modes[2:] * (r.random() < .2):
                out.append({"a": "ts", "x": dict(s["x"], mode=m)})
        else:
            out.append(s)
    ctx.judge("ValuesTrace", "values", out, "values", chunk=1500)


PROPS = {"C20": c20}

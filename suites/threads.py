"""C16: options per thread, resolvers per process."""
import json

B = {"a": "", "t": 0, "n": 0, "k": 0, "custom": 1, "keep": 1, "small": 0}
APPLY = [(1, 1, 0), (0, 1, 1), (1, 0, 1), (0, 0, 0), (1, 1, 1)]


def op(a, t, **kw):
    return dict(B, a=a, t=t, **kw)


def looks(t):
    """everything a thread can see, ways that fail last"""
    return ([op("ext", t, n=n) for n in (0, 1, 2, 3, 9)] + [op("buf", t, n=n) for n in (0, 1, 2, 3, 8, 9)] + [op("big", t), op("keep", t), op("read", t, n=9)]
            + [op("read", t, n=n) for n in (0, 1, 2)] + [op("boom", t)])


def change(r, t):
    k = r.random()
    if k < .4:
        c, e, s = r.choice(APPLY)
        return op("apply", t, custom=c, keep=e, small=s)
    if k < .9:
        n, ty = r.choice([(0, 0), (1, 1), (2, 2), (0, 3)])
        return op("reg", t, n=n, k=ty)
    return op("boom", t)


def race(r, ths):
    return dict(B, a="race", ops=[change(r, t) if r.random() < .5 else r.choice(looks(t)) for t in ths])


def c16(ctx):
    q = ctx.quick
    r = ctx.rng("threads")
    hist = ctx.design("ThreadsMC", "ThreadsMC.cfg", {"Depth": 3 if q else 4}, workers=4)
    hist.sort(key=json.dumps)
    out = []
    for s in r.sample(hist, min(len(hist), 2500 if q else 60000)):
        steps = []
        for i, st in enumerate(s["steps"]):
            steps.append(st)
            if i == len(s["steps"]) - 1 or r.random() < .5:
                for t in r.sample(range(4), 4 if i == len(s["steps"]) - 1 else 2):
                    steps += looks(t)
        out.append({"steps": steps})
    for _ in range(1500 if q else 40000):
        steps = []
        for _ in range(r.randint(4, 40)):
            k = r.random()
            if k < .25:
                steps.append(race(r, r.sample(range(4), r.choice([2, 3, 4]))))
            elif k < .5:
                steps.append(change(r, r.randrange(4)))
            else:
                steps.append(r.choice(looks(r.randrange(4))))
        out.append({"steps": steps})
    ctx.judge("ThreadsTrace", "threads", out, "schedules", chunk=250)


PROPS = {"C16": c16}

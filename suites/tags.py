"""C25: the encodings of the smaller tag formats."""
import base64, json
from . import content

TYPES = ["Ape", "VorbisComments", "Mp4Ilst", "RiffInfo", "AiffText", "Id3v1"]
STR = ["a", "title", "x" * 60, "\u00e9\u00ff", "\u20ac", "a\U0001f600", "sp ace", "1/2", "y\u00ffx", "n=v", "tail ", " lead", "\ufeffb", "APETAGEX", "TAG"]
PNG = b"\x89PNG\r\n\x1a\n" + bytes(4)
JPG = b"\xff\xd8\xff\xe0\x00\x10JFIF"
le = lambda n: n.to_bytes(4, "little")
be = lambda n: n.to_bytes(4, "big")


def blob(r):
    return r.choice([b"", b"x", bytes(20), b"\xff" * 9, bytes(r.randrange(256) for _ in range(r.choice([3, 30, 130]))), b"APETAGEX" + bytes(30)])


def ape(r):
    ver = r.choice([1000, 2000, 2000, 2000])
    hdr, ro = ver == 2000 and r.random() < .6, ver == 2000 and r.random() < .2
    body, n, seen = b"", 0, set()
    for _ in range(r.choice([0, 1, 2, 5, 9])):
        k = r.choice(["Title", "Artist", "ab", "Track", "Disc", "x" * 255, "~ {}!", "Cover Art (Front)", "Cover Art (Media)", "cover art (other)", "Year", "Comment", "zz%d" % r.randrange(9), "Cover Art (X)", "Cover Art"])
        k = r.choice([k, k, k.upper(), k.lower()])
        if k.lower() in seen:
            continue
        seen.add(k.lower())
        kind, fl = 0, 0
        if ver == 2000:
            kind, fl = r.choice([0, 0, 0, 1, 2]), int(r.random() < .2)
        if k.lower().startswith("cover art ("):
            if ver == 1000 or k.lower() == "cover art (x)":
                continue
            kind = 1
        if kind == 1:
            v = blob(r)
            if k.lower().startswith("cover art"):
                v = b"desc.png\0" + r.choice([PNG, JPG])
        else:
            v = "\0".join(r.choice(STR) for _ in range(r.choice([1, 1, 1, 2, 3]))).encode() if r.random() < .9 else b""
            if ver == 1000:
                v = r.choice([b"plain", b"x y", b"3/12"])
        body += le(len(v)) + bytes([kind * 2 + fl, 0, 0, 0]) + k.encode() + b"\0" + v
        n += 1
    blk = lambda top: b"APETAGEX" + le(ver) + le(len(body) + 32) + le(n) + bytes([int(ro), 0, 0, top]) + bytes(8)
    return (blk(0xA0) if hdr else b"") + body + blk(0x80 if hdr else 0)


def picture(r):
    data = r.choice([PNG, JPG, PNG + blob(r)])
    mime = b"image/jpeg" if data == JPG else b"image/png"
    d = r.choice(["", "d", "\u20ac x"]).encode()
    return be(r.randrange(21)) + be(len(mime)) + mime + be(len(d)) + d + b"".join(be(r.choice([0, 1, 500, 0xFFFFFFFF])) for _ in range(4)) + be(len(data)) + data


def vc(r):
    v = r.choice(["", "vendor", "\u20ac", "x" * 300]).encode()
    items, seen = [], set()
    for _ in range(r.choice([0, 1, 2, 5, 9])):
        k = r.choice(["TITLE", "Title", "ARTIST", "A B}", "x", "TRACKNUMBER", "tracknumber", "DiscNumber", "TRACKTOTAL", "TOTALTRACKS", "METADATA_BLOCK_PICTURE", "metadata_block_picture", "COVERART", "CoverArt", "COVERARTMIME", " "])
        lk = k.lower()
        if lk in ("tracknumber", "tracktotal", "totaltracks", "discnumber"):
            if lk in seen:
                continue
            seen.update(["tracknumber", "tracktotal", "totaltracks"] if lk != "discnumber" else [lk])
        if lk == "metadata_block_picture":
            x = base64.b64encode(picture(r)).decode()
        elif lk == "coverart":
            x = base64.b64encode(r.choice([PNG, JPG]) + blob(r)).decode()
        elif lk in ("tracknumber", "discnumber"):
            x = r.choice(["7", "03", "3/12", "A1", "A1/9", "3/", "0", "0/0", "12/007", "/"])
        else:
            x = r.choice(STR + [""])
        items.append((k + "=" + x).encode())
    return le(len(v)) + v + le(len(items)) + b"".join(le(len(i)) + i for i in items)


def box(i, c, r=None):
    if r and r.random() < .1:
        return be(1) + i + bytes(4) + be(len(c) + 16) + c
    return be(len(c) + 8) + i + c


def ilst(r):
    out, seen = b"", set()
    for _ in range(r.choice([0, 1, 2, 5, 9])):
        if r.random() < .1:
            out += box(r.choice([b"free", b"skip"]), blob(r))
        i = r.choice([b"\xa9nam", b"\xa9ART", b"aART", b"tmpo", b"cpil", b"pgap", b"shwm", b"covr", b"trkn", b"disk", b"plID", b"rtng", b"stik", b"abcd", b"----", b"----", b"gnre", b"cnID", b"\xa9gen", b"AB~ ", b"\xa9lyr"])
        names = (r.choice(["com.apple.iTunes", "m", ""]), r.choice(["X", "\u20ac", "a:b", ""])) if i == b"----" else ("", "")
        if (i, names) in seen:
            continue
        seen.add((i, names))
        loc = r.choice([bytes(4), bytes(4), b"\1\2\x15\x55"])
        ds = b""
        for _ in range(1 if i in (b"cpil", b"pgap", b"shwm", b"gnre", b"plID") else r.choice([1, 1, 1, 2, 3])):
            if i == b"covr":
                c, v = r.choice([(13, JPG), (14, PNG), (12, b"GIF89a"), (27, b"BM12"), (0, PNG), (0, JPG)])
            elif i == b"gnre":
                c, v = 0, r.choice([b"\0\1", b"\0\x12"])
            elif i == b"plID":
                c, v = 21, bytes(r.randrange(256) for _ in range(8))
            elif i in (b"cpil", b"pgap", b"shwm"):
                c, v = r.choice([21, 21, 0]), r.choice([b"\0", b"\1", b"\2", b"\0\0", b"\0\1", bytes(4), b"\1\0\0\0"])
            elif i in (b"trkn", b"disk"):
                c, v = 0, bytes([0, 0, 0, r.randrange(256), 0, r.randrange(256), 0, 0])
            else:
                k = r.choice(["u8", "u8", "u8", "u16", "si", "ui", "x"])
                c = {"u8": 1, "u16": 2, "si": 21, "ui": 22}.get(k) or r.choice([0, 3, 6, 18, 23, 66, 255, 65536])
                v = {"u8": lambda: r.choice(STR).encode(), "u16": lambda: r.choice([x for x in STR if x[0] != "\ufeff"]).encode("utf-16-be"),
                     "x": lambda: blob(r) or b"y"}.get(k, lambda: bytes(r.choice([0, 1, 127, 128, 255]) for _ in range(r.randrange(1, 5))))()
            ds += box(b"data", be(c) + loc + v, r)
        pre = box(b"mean", bytes(4) + names[0].encode()) + box(b"name", bytes(4) + names[1].encode()) if i == b"----" else b""
        out += box(i, pre + ds, r)
    return box(b"ilst", out)


def info(r):
    out = b""
    for _ in range(r.choice([0, 1, 2, 5])):
        v = r.choice(STR).encode() + bytes(r.choice([0, 1, 1, 2, 5]))
        out += r.choice([b"INAM", b"IART", b"abc ", b"ISFT", b"IPRT", b"I~!x"]) + le(len(v)) + v + bytes(len(v) % 2)
    return b"LIST" + le(len(out) + 4) + b"INFO" + out


def aiff(r):
    out, ck = [], lambda i, v: i + be(len(v)) + v + bytes(len(v) % 2)
    for i in r.sample([b"NAME", b"AUTH", b"(c) "], r.randrange(4)):
        out.append(ck(i, r.choice(STR).encode()))
    for _ in range(r.randrange(4)):
        out.append(ck(b"ANNO", r.choice(STR).encode()))
    if r.random() < .5:
        c = b""
        n = r.randrange(4)
        for _ in range(n):
            v = r.choice(STR + [""]).encode()
            c += be(r.choice([0, 1, 0xFFFFFFFF, 3000000000])) + r.randrange(65536).to_bytes(2, "big") + len(v).to_bytes(2, "big") + v + bytes(len(v) % 2)
        out.append(ck(b"COMT", n.to_bytes(2, "big") + c))
    r.shuffle(out)
    return b"".join(out)


def v1(r):
    f = lambda n: r.choice([b"", b"a", b"y\xff\xe9x", bytes(r.randrange(1, 256) for _ in range(n)), b"z" * (n - 1)])[:n].ljust(n, b"\0")
    g = f
    if r.random() < .2:  # left over from a longer text, behind the terminator
        def f(n):
            s = g(n)
            i = s.find(b"\0")
            return s if i < 0 or r.random() < .5 else s[:i + 1] + bytes(r.choice([0, 32, 65, 255]) for _ in range(n - i - 1))
    y = r.choice([bytes(4), b"1999", b"0000", b"0007", b"9999"])
    c = f(28) + bytes([0, r.randrange(1, 256)]) if r.random() < .5 else f(30)
    return b"TAG" + f(30) + f(30) + f(30) + y + c + bytes([r.choice([255, r.randrange(192)])])


MAKE = {"Ape": ape, "VorbisComments": vc, "Mp4Ilst": ilst, "RiffInfo": info, "AiffText": aiff, "Id3v1": v1}


def opts(r):
    o = {"mode": r.choice(["strict", "best", "relaxed"])}
    if r.random() < .2:
        o["art"] = False
    if r.random() < .3:
        o["impl"] = False
    return o


BIG = ("70000", "66000", "140000", "9000", "5000", "65000", "30000", "20000", "100000")


def c25(ctx):
    q = ctx.quick
    r = ctx.rng("tags")
    plans = {}

    def plan(t):
        most = 3 if t == "Id3v1" or (not q and t in ("RiffInfo", "AiffText")) else 2
        plans[t] = ctx.design("TagsMC", "TagsMC.cfg", {"Type": '"%s"' % t, "Most": most}, workers=2)
    ctx.par([lambda t=t: plan(t) for t in ("Mp4Ilst", "VorbisComments", "Ape", "AiffText", "Id3v1", "RiffInfo")])
    read, wrote = [], []
    for t in TYPES:
        p = sorted(plans[t], key=json.dumps)
        if q:
            p = r.sample(p, min(len(p), 1500))
        read += [{"dir": "read", "type": t, "b": x["b"], "o": opts(r)} for x in p]
        read += [{"dir": "read", "type": t, "b": list(MAKE[t](r)), "o": opts(r)} for _ in range(1000 if q else 15000)]
        for _ in range(700 if q else 8000):
            hd, items = content.content(r, t)
            items = [i for i in items if not any(b in y for b in BIG for y in i["f"])]
            wrote.append({"dir": "write", "type": t, "hd": hd, "items": items, "pad": r.choice([0, 0, 100])})
    r.shuffle(read)
    ctx.par([lambda: ctx.judge("TagsTrace", "tags", read, "read", chunk=800), lambda: ctx.judge("TagsTrace", "tags", wrote, "write", chunk=600)])


PROPS = {"C25": c25}

"""C22: ID3v2 tags byte by byte."""
import json
from . import content, robust
from .robust import frame, syn

MODES = ["strict", "best", "relaxed"]
ENCN = ["L1", "U16", "U16B", "U8"]
STR = ["", "a", "title", "x" * 40, "\u00e9\u00ff", "\u20ac", "a\U0001f600", "a\ufeffb", "a\ufffe\u00ff", "\u0100\u0200", "sp ace", "1/2", "y\u00ffx"]
LAT = [s for s in STR if all(ord(c) < 256 for c in s)]


def enc(r, e, s, again=True):
    if e == 0:
        return s.encode("latin-1")
    if e == 3:
        return s.encode("utf-8")
    if e == 2:
        return s.encode("utf-16-be")
    if r.random() < .5:
        return b"\xff\xfe" + s.encode("utf-16-le")
    return b"\xfe\xff" + s.encode("utf-16-be")


def term(e):
    return b"\0\0" if e in (1, 2) else b"\0"


def strs(r, e, n, multi=False):
    """n encoded strings; in UTF-16 the ones after the first may do without a byte order mark, as long as there is one byte order only"""
    out, first = [], None
    pick = lambda: r.choice(LAT if e == 0 else STR)
    one = r.random() < .5
    for _ in range(n):
        s = pick()
        if e == 1 and first and one:
            cod = "utf-16-le" if first == b"\xff\xfe" else "utf-16-be"
            out.append((b"" if r.random() < .5 else first) + s.encode(cod))
            continue
        x = enc(r, e, s)
        if e == 1 and not first:
            first = x[:2]
        if multi and r.random() < .3:
            x += term(e) + enc(r, e, pick())
        out.append(x)
    return out


def blob(r):
    return r.choice([b"", b"\xff\xe0\xff\0\xff", b"x", bytes(r.randrange(256) for _ in range(r.choice([3, 30, 130]))), bytes(20), b"\xff" * 9])


def some(r, ver, used, depth=0):
    """a frame of the version: identifier and content"""
    E = r.choice([0, 1] if ver < 4 else [0, 1, 2, 3])
    T = term(E)
    b = bytes([E])
    k = r.choice(["text", "text", "txxx", "wxxx", "comm", "uslt", "url", "ufid", "apic", "popm", "etco", "geob", "sylt", "bin", "kv", "time"] + (["priv", "owne", "chap", "ctoc", "atxt"] if ver > 2 else []) + (["rva2"] if ver == 4 else []))
    lang = bytes(r.choice([b"eng", b"XXX", b"deu"]))
    n2 = {"TXXX": "TXX", "WXXX": "WXX", "COMM": "COM", "USLT": "ULT", "UFID": "UFI", "APIC": "PIC", "POPM": "POP", "ETCO": "ETC", "GEOB": "GEO", "SYLT": "SLT"}
    nm = lambda x: n2[x] if ver == 2 else x
    if k == "text":
        i = r.choice([c for c, _ in (("TT2", 0), ("TP1", 0), ("TAL", 0), ("TCO", 0), ("TRK", 0), ("TSS", 0), ("TXT", 0), ("TOA", 0), ("TOT", 0), ("TOL", 0))] if ver == 2 else ["TIT2", "TPE1", "TALB", "TCON", "TRCK", "TSSE", "TEXT", "TOPE", "TOAL", "TOLY", "T000"])
        return i, b + strs(r, E, 1, True)[0] + r.choice([b"", T])
    if k == "time":
        if ver == 4:
            return r.choice(["TDRC", "TDOR", "TDRL", "TDEN", "TDTG"]), b + enc(r, E, r.choice(["2020", "1999-12", "2020-02-29", "0001-01-01", "2020-05-03T11", "2020-05-03T11:12", "2020-05-03T11:12:13"]))
        return r.choice([("TYE" if ver == 2 else "TYER"), ("TOR" if ver == 2 else "TORY")]), b + enc(r, E, r.choice(["2020", "0999", "1999"]))
    if k == "txxx":
        s = strs(r, E, 2)
        return nm("TXXX"), b + s[0] + T + s[1] + r.choice([b"", b"", T])
    if k == "wxxx":
        return nm("WXXX"), b + strs(r, E, 1)[0] + T + r.choice(LAT).encode("latin-1")
    if k in ("comm", "uslt"):
        s = strs(r, E, 2)
        return nm("COMM" if k == "comm" else "USLT"), b + lang + s[0] + T + s[1] + r.choice([b"", b"", T])
    if k == "url":
        return r.choice(["WAR", "WCM", "WAF", "WPB"] if ver == 2 else ["WOAR", "WCOM", "WOAF", "WPAY"]), r.choice([b"http://x", b"u", b"caf\xe9", b"http://y\0"])
    if k == "ufid":
        return nm("UFID"), r.choice([b"own", b"\xe9"]) + b"\0" + blob(r)[:64]
    if k == "apic":
        m = r.choice([b"PNG", b"JPG", b"-->"]) if ver == 2 else r.choice([b"image/png", b"image/jpeg", b"-->", b"image/gif"]) + b"\0"
        return nm("APIC"), b + m + bytes([r.choice([0, 3, 4, 20])]) + strs(r, E, 1)[0] + T + (blob(r) or b"z")
    if k == "popm":
        return nm("POPM"), r.choice([b"a@b", b"", b"\xe9"]) + b"\0" + bytes([r.choice([0, 1, 255])]) + r.choice([b"", b"\0\0\0\7", b"\xff" * 4, b"\1\0\0\0\0", b"\xff" * 8])
    if k == "etco":
        t, c = 0, b""
        for _ in range(r.randrange(4)):
            t += r.choice([1, 255, 70000, 1 << 24])
            c += bytes([r.choice([0, 3, 22, 0xE0, 0xEF, 0xFD, 0xFE])]) + t.to_bytes(4, "big")
        return nm("ETCO"), bytes([r.choice([1, 2])]) + c
    if k == "geob":
        s = strs(r, E, 2)
        return nm("GEOB"), b + r.choice([b"", b"text/plain"]) + b"\0" + s[0] + T + s[1] + T + blob(r)
    if k == "sylt":
        s = strs(r, E, r.choice([2, 3, 5]))
        return nm("SYLT"), b + lang + bytes([r.choice([1, 2]), r.randrange(9)]) + s[0] + T + b"".join(x + T + (i * 1000).to_bytes(4, "big") for i, x in enumerate(s[1:]))
    if k == "bin":
        return r.choice(["MCI", "CNT", "CRA", "BUF", "XYZ"] if ver == 2 else ["MCDI", "PCNT", "AENC", "XYZW", "USER", "COMR", "GRID"]), blob(r) or b"\0"
    if k == "kv":
        s = strs(r, E, r.choice([2, 2, 4, 6]))
        return ("IPL" if ver == 2 else "IPLS" if ver == 3 else r.choice(["TIPL", "TMCL"])), b + b"".join(x + T for x in s)
    if k == "priv":
        return "PRIV", r.choice([b"own", b"\xe9", b""]) + b"\0" + blob(r)
    if k == "owne":
        return "OWNE", b + b"USD1.50\0" + b"20200101" + strs(r, E, 1)[0]
    if k == "atxt":
        return "ATXT", b + b"audio/x\0\0" + strs(r, E, 1)[0] + T + blob(r)
    if k == "rva2":
        return "RVA2", r.choice([b"id", b""]) + b"\0" + b"".join(bytes([c, r.randrange(256), r.randrange(256)]) + r.choice([b"\0", b"\x08\xff", b"\x0c\1\2", b"\x10\xff\xff"]) for c in sorted(r.sample(range(9), r.randrange(4))))
    sub = b""
    if depth < 3:
        seen = set()
        for _ in range(r.choice([0, 1, 2, 3])):
            i, c = some(r, ver, used, depth + 1)
            if i not in seen:
                seen.add(i)
                sub += frame(ver, i, c, r.choice(["", "", "g", "d", "zd", "u"]) if ver == 4 else r.choice(["", "", "g", "z"]))
    if k == "chap":
        return "CHAP", r.choice([b"c1", b"c2", b"\xe9"]) + b"\0" + bytes(r.randrange(256) for _ in range(16)) + sub
    e = [r.choice([b"c1", b"c2", b"x" * 20]) for _ in range(r.randrange(4))]
    return "CTOC", r.choice([b"toc", b"t2"]) + b"\0" + bytes([r.randrange(4), len(e)]) + b"".join(x + b"\0" for x in e) + sub


def random_tag(r):
    ver = r.choice([2, 3, 3, 4, 4, 4])
    u = r.random() < .3
    body, seen = b"", set()
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        i, c = some(r, ver, seen)
        key = (i, c[:1]) if i in ("CHAP", "CTOC") else i
        if key in seen or not c:
            continue
        seen.add(key)
        fl = ""
        if r.random() < .4 and ver > 2:
            fl = r.choice(["g", "z", "gz", "ed", "ged"]) if ver == 3 else r.choice(["g", "zd", "d", "u", "ud", "gud", "zud", "gzud", "ed", "ged", "eud"])
        if ver == 4 and u and "u" not in fl:
            fl += "u"
        body += unsynced(frame(ver, i, c, fl.replace("u", "")), ver) if "u" in fl else frame(ver, i, c, fl)
    if ver == 3 and r.random() < .4:
        for i, v in (("TYER", b"2020") if r.random() < .7 else ("TDRC", r.choice([b"2020", b"2020-05", b"1999-12-31T23:59"])), ("TDAT", r.choice([b"0305", b"2902", b"3112", b"05-03"])), ("TIME", r.choice([b"2359", b"0000", b"10:11", b"101"]))):
            if i not in seen and not {"TYER", "TDRC"} & seen and r.random() < .8:
                body += frame(3, i, b"\0" + v)
    if not body:
        body = frame(ver, "TT2" if ver == 2 else "TIT2", b"\0t", "u" if ver == 4 and u else "")
    flags, ext, pad = 0x80 if u else 0, b"", r.choice([0, 0, 1, 10, 200])
    if ver > 2 and r.random() < .3:
        flags |= 0x20
    foot = ver == 4 and r.random() < .25
    if foot:
        flags |= 0x10
        pad = 0
    import zlib
    if ver == 3 and r.random() < .4:
        crc = r.random() < .5
        flags |= 0x40
        ext = (10 if crc else 6).to_bytes(4, "big") + (b"\x80\0" if crc else b"\0\0") + pad.to_bytes(4, "big") + (zlib.crc32(body).to_bytes(4, "big") if crc else b"")
    elif ver == 4 and r.random() < .4:
        flags |= 0x40
        f, m = 0, b""
        if r.random() < .4:
            f |= 0x40; m += b"\0"
        if r.random() < .5:
            c = zlib.crc32(body + bytes(pad))
            f |= 0x20; m += b"\5" + bytes([(c >> s) & 127 for s in (28, 21, 14, 7, 0)])
        if r.random() < .5:
            f |= 0x10; m += b"\1" + bytes([r.randrange(256)])
        ext = syn(6 + len(m)) + b"\1" + bytes([f]) + m
    all_ = ext + body + bytes(pad)
    if u and ver < 4:
        all_ = unsync(all_)
    h = bytes([ver, 0, flags]) + syn(len(all_))
    return b"ID3" + h + all_ + (b"3DI" + h if foot else b"")


def unsync(b):
    out = bytearray()
    for i, x in enumerate(b):
        out.append(x)
        if x == 255 and (i + 1 == len(b) or b[i + 1] == 0 or b[i + 1] >= 0xE0):
            out.append(0)
    return bytes(out)


def unsynced(f, ver):
    """a frame with its content (not the header) unsynchronised"""
    head, c = f[:10], f[10:]
    fl = head[9]
    n = (1 if fl & 0x40 else 0) + (1 if fl & 4 else 0) + (4 if fl & 1 else 0)
    c = c[:n] + unsync(c[n:])
    return head[:4] + syn(len(c)) + head[8:9] + bytes([fl | 2]) + c


def opts(r):
    return {"mode": r.choice(MODES), "impl": r.random() < .8, "art": r.random() < .85}


# ---- writing
def s_(c):
    x = "".join(chr(i) for i in c)
    return x.replace("<", "<3c>").replace("\0", "<0>") if not x.startswith("~") else "<7e>" + x[1:]


def b_(l):
    return "~h" + "".join("%02x" % i for i in l)


def item(f):
    """a frame of the specification as an item of the harness"""
    e = ENCN[f["e"]] if f["e"] >= 0 else ""
    S = [s_(x) for x in f["s"]]
    lang = bytes(f["b"]).decode("latin-1")
    k = f["k"]
    fl = f["fl"]
    flags = ",".join([x for x in ("tap", "fap", "ro") if fl[x]] + (["g%d" % fl["g"]] if fl["g"] >= 0 else []) + (["c"] if fl["z"] else []) + (["u"] if fl["u"] else [])
                     + (["e%d" % fl["m"]] if fl["m"] >= 0 else []) + (["d%d" % fl["d"]] if fl["d"] >= 0 else []))
    u32 = lambda l: int.from_bytes(bytes(l), "big")
    F = {"text": lambda: [e] + S, "txxx": lambda: [e] + S, "wxxx": lambda: [e] + S, "comm": lambda: [e, lang] + S, "uslt": lambda: [e, lang] + S, "url": lambda: S, "kv": lambda: [e] + S,
         "ufid": lambda: S + [b_(f["b"])], "priv": lambda: S + [b_(f["b"])], "bin": lambda: [b_(f["b"])], "owne": lambda: [e] + S,
         "popm": lambda: S + [str(f["n"][0]), str(u32(f["b"]))], "apic": lambda: [e, str(f["n"][0]), S[0] or "-", S[1] or "-", b_(f["b"])],
         "etco": lambda: ["MPEG" if f["n"][0] == 1 else "MS"] + ["%d:%d" % (f["n"][i], u32(f["n"][i + 1:i + 5])) for i in range(1, len(f["n"]), 5)],
         "geob": lambda: [e] + [x or "-" for x in S] + [b_(f["b"])], "atxt": lambda: [e] + S + [b_(f["b"])],
         "sylt": lambda: [e, lang, "MPEG" if f["n"][0] == 1 else "MS", str(f["n"][1]), S[0] or "-"] + ["%d:%s" % (u32(f["n"][2 + 4 * i:6 + 4 * i]), x) for i, x in enumerate(S[1:])],
         "chap": lambda: S + [str(u32(f["b"][i:i + 4])) for i in (0, 4, 8, 12)], "ctoc": lambda: [S[0], ("t" if f["n"][0] & 2 else "") + ("o" if f["n"][0] & 1 else "")] + S[1:]}
    if k == "rva2":
        g, i, n = [], 0, f["n"]
        while i < len(n):
            v = n[i + 1] * 256 + n[i + 2]
            g.append("%d:%d:%d" % (n[i], v - 65536 if v > 32767 else v, n[i + 3]))
            i += 4 + (n[i + 3] + 7) // 8
        fs = S + g
    elif k == "time":
        n = [x for x in f["n"] if x >= 0]
        fs = [e, "".join(p + ("%04d" % x if i == 0 else "%02d" % x) for i, (p, x) in enumerate(zip(["", "-", "-", "T", ":", ":"], n)))]
        k = "ts"
    else:
        fs = F[k]()
    it = {"id": f["id"], "k": k, "f": fs, "fl": flags}
    if f["k"] in ("chap", "ctoc"):
        it["ch"] = [item(c) for c in f["c"]]
    return it


def head(r):
    return [h for h in ("footer", "crc", "exp", "unsync") if r.random() < .25] + (["restr%d" % r.randrange(256)] if r.random() < .25 else [])


def wr(r, items, hd=None):
    return {"dir": "write", "items": items, "hd": head(r) if hd is None else hd, "v3": r.random() < .45, "lossy": r.random() < .3, "pad": r.choice([0, 0, 1, 12, 300])}


def c22(ctx):
    q = ctx.quick
    r = ctx.rng("id3v2")
    plans = {}

    def plan(s):
        plans[s] = ctx.design("Id3v2MC", "Id3v2MC.cfg", {"Suite": '"%s"' % s, "Many": 1}, workers=4)
    ctx.par([lambda s=s: plan(s) for s in ("ids", "kinds", "flags")])
    read, wrote, frames = [], [], {}
    for s in sorted(plans):
        p = sorted(plans[s], key=json.dumps)
        for x in p:
            for f in x["fs"]:
                frames.setdefault(json.dumps(f, sort_keys=True), f)
        if q and s != "ids":
            p = r.sample(p, min(len(p), 2500))
        read += [{"dir": "read", "b": x["b"], "o": opts(r)} for x in p]
    read += [{"dir": "read", "b": list(random_tag(r)), "o": opts(r)} for _ in range(2500 if q else 60000)]
    fs = [frames[k] for k in sorted(frames)]
    fs = [f for f in fs if f["fl"]["m"] < 0 or f["k"] == "bin"]
    items = []
    for f in fs:
        items.append(item(f))
    for it in r.sample(items, min(len(items), 2000)) if q else items * 4:
        wrote.append(wr(r, [it]))
    for _ in range(1500 if q else 20000):
        l, seen = [], set()
        for it in r.sample(items, r.choice([2, 3, 6])) if r.random() < .6 else content.id3v2(r)[1]:
            if it["id"] == "GEOB" and it["k"] == "bin":
                continue
            if it["id"] not in seen or it["k"] not in ("geob", "sylt", "atxt"):
                seen.add(it["id"])
                l.append(it)
        wrote.append(wr(r, [x for x in l if not any("70000" in y or "66000" in y or "140000" in y or "9000" in y or "5000" in y for y in x["f"])]))
    # what ID3v2.3 writes in another way
    for _ in range(300 if q else 3000):
        e = lambda: r.choice(["L1", "U16", "U8"])
        l = [{"id": i, "k": "kv", "f": [e()] + [r.choice(["producer", "x", "", "vocals"]) for _ in range(2 * r.choice([1, 1, 2]))], "fl": ""} for i in r.choice([["TIPL", "TMCL"], ["TMCL", "TIPL"], ["TIPL"]])]
        refs = [r.choice(["17", "0", "191", "RX", "CR", "Remix", "9"]) for _ in range(r.choice([0, 1, 2]))] + r.choice([[], ["Rock"], ["My own"], ["Cover"]])
        if refs:
            l.insert(r.randrange(3) % (len(l) + 1), {"id": "TCON", "k": "text", "f": [e(), "\0".join(refs)], "fl": ""})
        wrote.append({**wr(r, l), "v3": r.random() < .9})
    wrote.append({"dir": "write", "items": [], "hd": [], "v3": False, "lossy": False, "pad": 10})
    # every restriction byte
    t = {"id": "TIT2", "k": "text", "f": ["L1", "t"], "fl": ""}
    wrote += [{"dir": "write", "items": [t], "hd": ["restr%d" % i], "v3": False, "lossy": False, "pad": 0} for i in range(256)]
    ctx.par([lambda: ctx.judge("Id3v2Trace", "id3", read, "read", chunk=600), lambda: ctx.judge("Id3v2Trace", "id3", wrote, "write", chunk=600)])


PROPS = {"C22": c22}

"""C11: generic tag."""
import json, os
import vlib

KEYMAP = json.load(open(os.path.join(vlib.SPEC, "keymap.json"))) if os.path.exists(os.path.join(vlib.SPEC, "keymap.json")) else {}
TYPES = ["Ape", "Id3v1", "Id3v2", "Mp4Ilst", "VorbisComments", "RiffInfo", "AiffText"]


def rand_item(r, keys):
    t = r.choice("TTTTLB")
    v = {"T": ["", "a", "bb", "12", "007", "+5", "4294967295", "4294967296", "1/2", "~u3", "~a300"],
         "L": ["", "u", "~a70"], "B": ["", "~b3", "~b40"]}[t]
    v = r.choice(v)
    return {"k": r.choice(keys), "t": t, "v": v, "l": r.choice(["XXX", "eng"]), "d": r.choice(["", "", "d", "~u2"])}


def rand_pic(r):
    return {"pt": r.choice([0, 3, 4, 20, 99]), "m": r.choice(["-", "image/png", "x/y"]), "d": r.choice(["-", "", "desc"]), "data": r.choice(["~b5", "", "~p20", "~j9"])}


def gen(ctx, count, length):
    r = ctx.rng("tagops")
    allk = sorted({k for m in KEYMAP.values() for k in m} | {"RecordingDate", "Year"})
    core = ["TrackTitle", "TrackArtist", "AlbumTitle", "Genre", "Comment", "TrackNumber", "TrackTotal", "DiscNumber", "DiscTotal"]
    out = []
    for _ in range(count):
        ty = r.choice(TYPES)
        keys = r.sample(core, 2) + r.sample(allk, 2)
        pts = [0, 3, 20]
        init = {"type": ty, "items": [rand_item(r, keys) for _ in range(r.choice([0, 0, 2, 5, 9]))], "pics": [rand_pic(r) for _ in range(r.choice([0, 1, 3]))]}
        np = len(init["pics"])
        ops = []
        for _ in range(length):
            a = r.choice(["insert", "push", "push", "push", "insert_unchecked", "push_unchecked", "insert_text", "take", "take_first", "take_filter", "take_filter",
                          "take_strings", "remove_key", "retain", "remove_empty", "re_map", "push_picture", "set_picture", "remove_picture", "remove_picture_type",
                          "set", "set", "unset", "clear", "new_checked"])
            if a == "clear" and r.random() < .7:
                continue
            if a == "re_map" and r.random() < .5:
                continue
            op = {"a": a}
            if a in ("insert", "push", "insert_unchecked", "push_unchecked"):
                op["item"] = rand_item(r, keys)
            elif a == "new_checked":
                op.update(type=r.choice(TYPES), item=rand_item(r, allk))
            elif a == "insert_text":
                op.update(k=r.choice(keys), v=r.choice(["", "x", "~u4"]))
            elif a in ("take", "take_first", "take_strings", "remove_key"):
                op["k"] = r.choice(keys)
            elif a == "take_filter":
                op.update(k=r.choice(keys), p=r.choice(["empty", "text", "nodesc", "val"]), x=r.choice(["a", "bb", ""]))
            elif a == "retain":
                op.update(p=r.choice(["empty", "text", "nodesc", "val", "key"]), x=r.choice(keys + ["a"]))
            elif a == "re_map":
                op["type"] = r.choice(TYPES)
            elif a == "push_picture":
                op["pic"] = rand_pic(r)
                np += 1
            elif a == "set_picture":
                i = r.choice([0, 1, 2, 50])
                op.update(idx=i, pic=rand_pic(r))
                if i >= np:
                    np += 1
            elif a == "remove_picture":
                if np == 0:
                    continue
                op["idx"] = r.randrange(np)
                np -= 1
            elif a == "remove_picture_type":
                op["pt"] = 77  # matches nothing (keeps the generator's count exact)
            elif a == "set":
                f = r.choice(["artist", "title", "album", "genre", "comment", "track", "track_total", "disk", "disk_total"])
                op.update(f=f, v=r.choice(["0", "1", "9", "4294967295"]) if f in ("track", "track_total", "disk", "disk_total") else r.choice(["", "v", "~u3"]))
            elif a == "unset":
                op["f"] = r.choice(["artist", "title", "album", "genre", "comment", "track", "track_total", "disk", "disk_total"])
            elif a == "clear":
                np = 0
            ops.append(op)
        if r.random() < .4:
            ops.append({"a": "remove_picture_type", "pt": r.choice([0, 3, 20])})
        out.append({"init": init, "ops": ops, "keys": keys, "pts": pts})
    return out


def c11(ctx):
    q = ctx.quick
    s1 = ctx.design("TagOpsMC", "TagOpsMC.cfg", {"MaxItems": 3 if q else 4, "MaxPics": 0, "Rich": "FALSE" if q else "TRUE"})
    s2 = ctx.design("TagOpsMC", "TagOpsMC.cfg", {"MaxItems": 0, "MaxPics": 3, "Rich": "FALSE"})
    for s in s1:
        s.update(keys=["TrackTitle", "Comment", "Genre"], pts=[])
    for s in s2:
        s.update(keys=["TrackTitle"], pts=[3, 4])
    ctx.judge("TagOpsTrace", "tagops", s1 + s2, "tagops")
    ctx.judge("TagOpsTrace", "tagops", gen(ctx, 1200 if q else 20000, 14), "tagrand")


PROPS = {"C11": c11}

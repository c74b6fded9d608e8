"""C14: split / merge / generic-and-back; C15: key mapping and conversions."""
import json, os
from . import content, tagops

I = content.I
KEYMAP = tagops.KEYMAP
TYPES = ["Id3v2", "Ape", "VorbisComments", "Mp4Ilst", "RiffInfo", "AiffText", "Id3v1"]
PLAIN = {"mpeg": ["audio:12"], "aac": ["audio:12"], "ape": ["audio:400"], "wv": ["audio:3"], "mpc": ["audio:300"], "wav": ["fmt", "data:400"],
         "aiff": ["COMM", "SSND:400"], "flac": ["SI", "audio:300"], "vorbis": ["vc#0", "setup:300", "audio:3:120"], "opus": ["vc#0", "audio:3:120"],
         "speex": ["vc#0", "audio:3:120"], "mp4": ["ftyp", "moov[mvhd,trak:3]", "mdat:400"]}
HOSTS = {"Id3v2": ["mpeg", "aac", "wav", "aiff"], "Id3v1": ["mpeg", "aac", "ape", "wv"], "Ape": ["ape", "wv", "mpeg", "mpc"], "VorbisComments": ["flac", "vorbis", "opus", "speex"],
         "Mp4Ilst": ["mp4"], "RiffInfo": ["wav"], "AiffText": ["aiff"]}


def design(ctx, pool, edits):
    jobs = [lambda ty=ty: ctx.design("ConvMC", "ConvMC.cfg", {"Type": f'"{ty}"', "Pool": pool, "Edits": edits}, workers=2) for ty in TYPES]
    out = sum(ctx.par(jobs), [])
    return sorted(out, key=lambda s: json.dumps(s, sort_keys=True))


def to_scn(s):
    return {"to": True, "split": False, "tag": s["tag"], "extra": [], "ops": [], "file": "", "parts": []}


def c15(ctx):
    q = ctx.quick
    r = ctx.rng("conv")
    base = design(ctx, "TRUE", "FALSE")
    scns = []
    for n, s in enumerate(base):
        t = to_scn(s)
        ty = s["tag"]["type"]
        if len(s["tag"]["items"]) == 1 or not q or n % 3 == 0:
            ks = [i["k"] for i in s["tag"]["items"]]
            f = r.choice(HOSTS[ty])
            if not any(k in NUMS and ks.count(k) > 1 for k in ks):      # (reading keeps one number)
                t["file"] = f
                t["parts"] = PLAIN[f]
        scns.append(t)
    probes = ["", "x", "TRACKNUM", "TotalTracks", "YEAR", "tit2", "TIT2 ", " TIT2", "TXXX", "----:com.apple.iTunes:X", "----", "nam", "Cover Art (Front)"]
    for m in KEYMAP.values():
        for v in m.values():
            probes += [v, v.swapcase(), v.capitalize(), v[:-1], v + "x"]
    maps = [{"type": ty, "probe": sorted(set(probes))} for ty in sorted(KEYMAP)]
    ctx.judge("ConvTrace", "keymap", maps, "keymap")
    ctx.judge("ConvTrace", "conv", scns, "design")
    ctx.judge("ConvTrace", "conv", rnd_to(ctx, int(os.environ.get("NR", "0")) or 3500 if q else 60000), "rnd")


# ---- random contents (within the domain of the documented conversions) ----
GKEYS = {ty: [k for k in sorted(KEYMAP[ty]) if k not in ("EncoderSoftware",)] for ty in KEYMAP}
W = ["a", "b c", "~u5", "x;y", "~a40", "12", "Some Title"]


def generic_edits(r, ty):
    ops = []
    pool = ["TrackTitle", "TrackArtist", "AlbumTitle", "Comment", "Genre", "Publisher", "CopyrightMessage", "Composer"]
    for k in r.sample(pool, r.choice([0, 1, 1, 2, 3])):
        if r.random() < .3:
            ops.append({"a": "remove", "k": k})
        else:
            v = r.choice(["Rock", "Jazz"]) if k == "Genre" else r.choice(["new", "~u4", "~a60"] if ty != "Id3v1" else ["new", "~a20"])
            ops.append({"a": "insert", "item": {"k": k, "t": "T", "v": v, "l": "XXX", "d": ""}})
    if r.random() < .15:
        ops.append({"a": "remove_pics"})
    if r.random() < .2 and ty in ("Id3v2", "VorbisComments", "Mp4Ilst"):
        ops.append({"a": "push_pic", "pic": {"pt": 5 if ty != "Mp4Ilst" else 0, "m": "image/png", "d": "-" if ty == "Mp4Ilst" else "added", "data": "~p33.9"}})
    return ops


RICH = {
    "Id3v2": [I("TIPL", ["U8", "producer", "p1", "poet", "x", "mix", "m"], "kv"), I("TMCL", ["U8", "violin", "v"], "kv"), I("TXXX", ["U16", "BARCODE", "12<0>13"], "txxx"),
              I("TXXX", ["L1", "CATALOGNUMBER", "c"], "txxx"), I("TXXX", ["U8", "WORK", "w1<0>w2"], "txxx"), I("TXXX", ["U8", "MusicBrainz Album Type", "a"], "txxx"),
              I("TCOM", ["U8", "a<0>b<0>c"], "text"), I("TEXT", ["U16", "l"], "text"), I("COMM", ["U8", "fra", "", "c1<0>c2"], "comm"), I("COMM", ["U8", "fra", "iTunNORM", "c1"], "comm"),
              I("MVIN", ["U8", "2/5"], "text"), I("MVNM", ["U8", "name"], "text"), I("GRP1", ["U8", "g"], "text"), I("TCMP", ["U8", "1"], "text"), I("TBPM", ["U8", "120"], "text"),
              I("UFID", ["http://musicbrainz.org", "0123-abc"], "ufid"), I("WCOP", ["http://c"], "url"), I("USLT", ["U8", "eng", "d", "l1<0>l2"], "uslt"), I("TSRC", ["U8", "isrc"], "text"),
              I("TDOR", ["U8", "!2020,,5,,,"], "ts"), I("TDRL", ["L1", "!1999,7,,3,,"], "ts"), I("TDEN", ["U8", "!2020,2,3,,5,"], "ts"), I("TDTG", ["U16", "!7,,,,,9"], "ts"), I("TDRC", ["U8", "!2020,2,3,4,,6"], "ts")],
    "Ape": [I("Compilation", ["1"], "T"), I("ISRC", ["a<0>b"], "T"), I("Producer", ["p<0>q<0>r"], "T"), I("MOVEMENT", ["3"], "T"), I("MOVEMENTTOTAL", ["9"], "T"), I("Disc", ["2/3"], "T"),
            I("Barcode", ["b"], "L"), I("MixArtist", ["r"], "T"), I("Composer", ["c"], "T")],
    "VorbisComments": [I("RATING:users@musicbrainz.org", ["15"]), I("RATING", ["60"]), I("COMPILATION", ["1"]), I("PRODUCER", ["p"]), I("producer", ["q"]), I("BARCODE", ["b"]), I("LYRICS", ["l"]),
                       I("DISCNUMBER", ["1"]), I("MOVEMENT", ["3"]), I("Isrc", ["i"])],
    "Mp4Ilst": [I("rtng", ["si", "2"]), I("cpil", ["bool", "true"]), I("aART", ["u8", "a", "u8", "b"]), I("----:com.apple.iTunes:BARCODE", ["u8", "b"]), I("----:com.apple.iTunes:ISRC", ["u8", "a", "u8", "b"]),
                I("soal", ["u8", "s"]), I("@mvn", ["u8", "m"]), I("----:com.apple.iTunes:LABEL", ["u16", "l"]), I("@lyr", ["u8", "l"])],
    "RiffInfo": [I("ICMS", ["c"]), I("IENG", ["e"]), I("IRTD", ["3"]), I("ILNG", ["l"]), I("IMUS", ["m"])],
}


def concrete(r, ty):
    hd, items = content.content(r, ty)
    out, seen = [], set()
    extra = {"VorbisComments": ["TOTALTRACKS", "totaldiscs", "KEY", "ORGANIZATION", "ORIGINALYEAR", "encoded-by", "ALBUM ARTIST", "ALBUMARTIST", "Writer", "MIXARTIST"],
             "RiffInfo": ["ITRK", "IPRT"], "Ape": ["ALBUMARTIST", "Album Artist", "Album artists"]}.get(ty, [])
    for k in r.sample(extra, min(len(extra), r.choice([0, 0, 1, 3]))):
        if all(i["id"].lower() != k.lower() for i in items):
            items = items + [I(k, [r.choice(["x", "7", "two words"])], "T" if ty == "Ape" else "")]
    rich = RICH.get(ty, [])
    for it in r.sample(rich, min(len(rich), r.choice([0, 1, 2, 4]))):
        if all(i["id"].lower() != it["id"].lower() or (ty == "Id3v2" and it["k"] in ("txxx", "comm", "uslt") and i["f"][1:3] != it["f"][1:3]) for i in items):
            items = items + [it]
    for i in items:
        if i["id"] in ("trkn", "disk"):
            if i["id"] in seen:
                continue
            seen.add(i["id"])
            i = dict(i, f=["pair", r.choice(["1/0", "3/12", "0/9", "65535/65535"])])
        if ty == "Id3v2" and i["id"] in ("TRCK", "TPOS"):
            i = dict(i, f=["U8", r.choice(["1", "12", "3/9", "0/4", "A1", "B 2", "03/012"])])
        if ty == "Ape" and i["id"] == "Track":
            i = dict(i, f=[r.choice(["1", "12", "3/9", "0/4", "A1", "03/012"])], k="T")
        out.append(i)
    return {"type": ty, "hd": hd, "items": out}


V1KEYS = ["TrackTitle", "TrackArtist", "AlbumTitle", "Comment", "TrackNumber", "Genre", "Year", "RecordingDate"]
NUMS = ["TrackNumber", "TrackTotal", "DiscNumber", "DiscTotal", "MovementNumber", "MovementTotal"]
DATES = ["RecordingDate", "OriginalReleaseDate", "ReleaseDate", "EncodingTime", "TaggingTime", "Year"]
FLAGS = ["FlagCompilation", "FlagPodcast"]
# keys documented to hold several values in every format that has them
MULTI = sorted({"TrackArtist", "AlbumArtist", "TrackTitle", "AlbumTitle", "SetSubtitle", "TrackSubtitle", "OriginalAlbumTitle", "OriginalArtist",
                "OriginalLyricist", "ContentGroup", "AppleId3v2ContentGroup", "Genre", "Mood", "Composer", "Conductor", "Writer", "Lyricist",
                "InternetRadioStationName", "InternetRadioStationOwner", "Remixer", "Movement", "FileOwner", "CopyrightMessage", "Language", "Publisher",
                "TrackArtists", "AlbumArtists", "Director", "AcoustId", "AcoustIdFingerprint", "CatalogNumber", "MusicBrainzArtistId",
                "MusicBrainzReleaseArtistId", "MusicBrainzWorkId", "MusicBrainzReleaseType", "ReleaseCountry", "Work", "Barcode", "Comment"})


def gvalue(r, ty, k, filed):
    if k in FLAGS:
        return r.choice(["0", "1"])
    if k == "ParentalAdvisory":
        return r.choice(["0", "1", "2"])
    if k == "Popularimeter":
        return r.choice(["a@b|3|7", "MusicBee|5|0", "users@musicbrainz.org|1|4", "Windows Media Player 9 Series|4|9", "|2|1"])
    if k in NUMS:
        return r.choice(["1", "3", "12", "200"])
    if k == "Year":
        return r.choice(["1999", "2024"])
    if k in DATES:
        return r.choice(["2020", "1999"] if ty in ("Id3v1",) else ["2020", "1999-02", "2020-05-03", "2020-05-03T11:12:13"])
    if k == "Genre":
        return r.choice(["Rock", "Jazz", "Blues"] if ty == "Id3v1" else ["Rock", "Jazz", "my own", "caf<e9>"])
    if ty == "Id3v1":
        return r.choice(["a", "b c", "~a28", "x;y"])
    if k in MULTI:
        return r.choice(["a", "b c", "x;y", "d e f", "q=w", "12"])
    if k == "MusicBrainzRecordingId" or k.endswith("Url") or KEYMAP[ty].get(k, "T").startswith("W"):
        return r.choice(["a", "b c", "~a40", "http://x"])
    return r.choice(["a", "b c", "x;y", "~u5", "~a40", "~a300.1", "q=w", "12", "http://x"])


def rnd_to(ctx, n):
    r = ctx.rng("to")
    out = []
    for i in range(n):
        ty = TYPES[i % 7]
        keys = V1KEYS if ty == "Id3v1" else sorted(set(KEYMAP[ty]) | ({"Producer", "MixDj", "Engineer", "MusicBrainzRecordingId"} if ty == "Id3v2" else set()))
        if ty == "RiffInfo":
            keys = [k for k in keys if k != "Popularimeter"]
        elif ty == "Mp4Ilst":
            keys = [k for k in keys if k != "EncoderSoftware"]
        other = r.sample(sorted(set(sum((list(m) for m in KEYMAP.values()), []))), 1)
        host = r.choice(HOSTS[ty])
        ids = {}
        items = []
        own = r.sample(keys, min(len(keys), r.choice([1, 2, 4, 8, 15])))
        # one key from anywhere: the format may have no place for it
        other = [k for k in other if k not in own and not (k in KEYMAP.get(ty, {}) and k not in keys)]
        for k in own + other:
            fk = KEYMAP.get(ty, {}).get(k, k)
            if ids.setdefault(fk, k) != k and k not in NUMS:
                continue        # two keys of one format key
            m = r.choice([1, 1, 2, 3]) if k in MULTI and ty not in ("Id3v1",) else 1
            for v in dict.fromkeys(gvalue(r, ty, k, True) for _ in range(m)):
                items.append({"k": k, "t": "T", "v": v, "l": "XXX", "d": ""})
        pics = []
        if r.random() < .3 and ty in ("Id3v2", "VorbisComments", "Mp4Ilst"):
            for pt in r.sample([3, 4, 6, 20], r.choice([1, 1, 2])):
                pics.append({"pt": 0 if ty == "Mp4Ilst" else pt, "m": r.choice(["image/png", "image/jpeg"]), "d": "-" if ty == "Mp4Ilst" else r.choice(["d", "~u3"]), "data": r.choice(["~p20", "~p300.2"])})
            for p in pics:
                p["data"] = p["data"].replace("~p", "~j") if p["m"] == "image/jpeg" else p["data"]
        if ty == "Id3v2" and r.random() < .3:
            for k in ("Comment", "UnsyncLyrics"):
                items = [x for x in items if x["k"] != k]
                for l, d in r.sample([("eng", "a"), ("deu", "a"), ("eng", "b"), ("fra", "")], r.choice([1, 2, 3])):
                    items.append({"k": k, "t": "T", "v": r.choice(["x", "~u7"]), "l": l, "d": d})
        r.shuffle(items)
        t = to_scn({"tag": {"type": ty, "items": items, "pics": pics}})
        if r.random() < .6:
            t["file"], t["parts"] = host, PLAIN[host]
        out.append(t)
    return out


def rnd(ctx, n):
    r = ctx.rng("split")
    out = []
    for i in range(n):
        ty = TYPES[i % 7]
        out.append({"to": False, "split": True, "tag": concrete(r, ty), "extra": [], "ops": generic_edits(r, ty), "file": "", "parts": []})
    return out


def c14(ctx):
    q = ctx.quick
    scns = design(ctx, "FALSE" if q else "TRUE", "TRUE")
    if q:
        r = ctx.rng("pick")
        scns += r.sample(design(ctx, "TRUE", "FALSE"), 1200)
    for s in scns:
        s.update(file="", parts=[])
    ctx.judge("ConvTrace", "conv", scns, "design")
    ctx.judge("ConvTrace", "conv", rnd(ctx, int(os.environ.get("NR","0")) or 2800 if q else 40000), "rnd")


PROPS = {"C14": c14, "C15": c15}

from . import tagops, files, pager, ctag, conv, views, ways, tagged, values, streams, probe, pics, props, robust, threads, id3v2, tags
PROPS = {}
for m in (tagops, files, pager, ctag, conv, views, ways, tagged, values, streams, probe, pics, props, robust, threads, id3v2, tags):
    PROPS.update(m.PROPS)

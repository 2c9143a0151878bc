"""Every scenario, by family.  An entry is (family, name, fmt, builder(turn), rows) where rows is
'full' (all partitions), 'some' (a third of them) or 'one' (a fixed document)."""
from . import scenarios as z

FMTS = ("json", "xml")


class Entry:
    __slots__ = ("family", "name", "fmt", "build", "rows")

    def __init__(self, family, name, fmt, build, rows):
        self.family, self.name, self.fmt, self.build, self.rows = family, name, fmt, build, rows


def other(fmt):
    return "xml" if fmt == "json" else "json"


def catalog(interp_of, lengths=()):
    out = []

    def add(family, name, fmt, build, rows="full"):
        out.append(Entry(family, name, fmt, build, rows))
    for f in FMTS:
        add("layers", "layers", f, lambda t, f=f: z.layers_scn(f, t))
        add("objects", "objects", f, lambda t, f=f: z.objects_scn(f, t))
        add("props", "properties", f, lambda t, f=f: z.props_scn(f, t))
        add("tileset", "tileset", f, lambda t, f=f: z.single_tileset_scn(f, t))
        add("tileset", "tileset-noimage", f, lambda t, f=f: z.single_tileset_scn(f, t, images="none"), "some")
        add("embedded", "embedded", f, lambda t, f=f: z.embedded_scn(f, t))
        add("external", "external", f, lambda t, f=f: z.external_scn(f, t))
        add("external", "external-twice", f, lambda t, f=f: z.external_twice_scn(f, t), "some")
        add("data", "data", f, lambda t, f=f: z.data_scn(f), "some")
        add("data", "data-zstd", f, lambda t, f=f: z.data_scn(f, True), "some")
        add("templates", "templates", f, lambda t, f=f: z.templates_scn(f, t))
        for tf in FMTS:
            for ex in ("none", "other", "same"):
                add("ttiles", "template-tiles-%s-%s" % (tf, ex), f,
                    lambda t, f=f, tf=tf, ex=ex: z.template_tiles_scn(f, t, tf, ex), "some")
        for n in range(4):
            add("sizes", "sizes-%d" % n, f, lambda t, f=f, n=n: z.sizes_scn(f, n), "some" if n < 3 else "few")
        add("sizes", "sizes-6", f, lambda t, f=f: z.sizes_scn(f, 6), "few")
        # documents that must be refused
        for depth in (0, 1):
            add("cross", "cross-%d" % depth, f, lambda t, f=f, d=depth: z.template_cross_scn(f, d), "one")
        for comp in ("lzma", "bz2", "zstd", "GZIP"):
            for ch in (False, True):
                add("badcomp", "compression-%s-%d" % (comp, ch), f,
                    lambda t, f=f, c=comp, ch=ch: z.bad_compression_scn(f, c, ch), "one")
        for ch in (False, True) if f == "xml" else ():
            add("badcomp", "tile-elements-%d" % ch, f, lambda t, ch=ch: z.tile_elements_scn(ch), "one")
        for c in ("garbage", "empty", "missing", "binary"):
            add("broken", "external-tileset-" + c, f, lambda t, f=f, c=c: z.broken_tileset_scn(f, c), "one")
            for w in ("template", "tileset"):
                add("broken", "template-%s-%s" % (w, c), f,
                    lambda t, f=f, c=c, w=w: z.broken_template_scn(f, c, w), "one")
        for i in range(4):
            add("cyclic", "cyclic-%d" % i, f, lambda t, f=f, i=i: z.cyclic_scns(f)[i], "one")
        add("unusual", "unusual", f, lambda t, f=f: z.unusual_scn(f), "one")
        for i, case in enumerate(z.ZEROGRIDS):
            add("cyclic", "grid-%d" % i, f, lambda t, f=f, c=case: z.zero_grid_scn(f, c), "one")
        for site in z.COLORSITES:
            for sh in z.BADCOLORS:
                add("badcolor", "badcolor-%s-%s" % (site, sh), f,
                    lambda t, f=f, a=site, b=sh: z.bad_color_scn(f, a, b), "one")
        for a in z.missing_key_sites(f):
            add("missing", "missing-%s-%s" % a[:2], f, lambda t, f=f, a=a: z.missing_key_scn(f, *a), "one")
    for a in z.bad_number_sites(interp_of):
        add("badnumber", "badnumber-%s-%s" % a[:2], "xml", lambda t, a=a: z.bad_number_scn(*a), "one")
    add("props", "properties-legacy", "json", lambda t: z.props_scn("json", t, legacy=True), "some")
    add("external", "external-legacy", "json", lambda t: z.external_legacy_scn(t), "some")
    add("tileset", "tileset-legacy", "json", lambda t: z.single_tileset_scn("json", t, legacy=True))
    for e in ("parse_map", "parse_tileset", "parse_world"):
        for c in ("garbage", "empty", "missing", "binary"):
            add("brokenmain" if e != "parse_world" else "brokenworld", "%s-%s" % (e, c), "json",
                lambda t, e=e, c=c: z.broken_main_scn(e, c), "one")
    for depth in (0, 1):
        for kind in ("", "tilelayers", "TileLayer", "image"):
            add("unknownlayer", "unknown-layer-%r-%d" % (kind, depth), "json",
                lambda t, d=depth, k=kind: z.unknown_layer_scn(d, k), "one")
        for like in range(5):
            add("unknownlayer", "unknown-layer-like-%d-%d" % (like, depth), "json",
                lambda t, d=depth, l=like: z.unknown_layer_scn(d, "other", l), "one")
    for kd in ("text", "text2", "none", "one"):
        add("brokenworld", "world-capture-" + kd, "json", lambda t, kd=kd: z.world_capture_scn(kd), "one")
    for v in range(6):
        add("world", "world-%d" % v, "json", lambda t, v=v: z.world_scn(v))
    for f in FMTS:
        add("later", "later-map", f, lambda t, f=f: z.earlier_scn(f, t))
        add("later", "later-tileset", f, lambda t, f=f: z.earlier_tileset_scn(f, t))
    for n in lengths:
        for what in z.LONG:
            if n <= z.LONG_MAX.get(what, n):
                for f in FMTS:
                    add("long-" + what, "%d-%s" % (n, what), f, lambda t, f=f, n=n, w=what: z.long_scn(f, w, n), "one")
        add("long-world", "world-of-%d" % n, "json", lambda t, n=n: z.world_scn(0, n), "one")
    return out


WELL = ("layers", "objects", "props", "tileset", "embedded", "external", "data", "templates", "ttiles", "sizes", "world",
        "later")
FAIL = ("cross", "badcomp", "broken", "badcolor", "missing", "badnumber", "brokenmain", "brokenworld", "unknownlayer")

# property -> families whose every partition is analysed; the other ones of KINDS only at a few
FULL = {
    "C01": ("external", "ttiles", "brokenmain", "cross"),
    "C02": ("layers", "props", "embedded", "sizes"),
    "C03": ("layers", "objects", "sizes", "tileset", "missing"),
    "C04": ("layers", "objects", "sizes", "unknownlayer", "missing"),
    "C05": ("data", "badcomp", "layers"),
    "C06": ("objects", "props", "layers", "sizes"),
    "C07": ("objects", "templates", "sizes", "tileset"),
    "C08": ("templates", "ttiles", "cross", "broken"),
    "C09": ("tileset", "embedded", "external", "sizes"),
    "C10": ("tileset", "embedded", "external", "sizes"),
    "C11": ("props", "layers", "objects", "tileset", "templates"),
    "C12": ("external", "ttiles", "tileset", "embedded", "world", "later"),
    "C13": ("embedded", "external", "ttiles", "tileset", "sizes"),
    "C14": ("layers", "objects", "props", "tileset", "embedded", "external", "templates", "world", "sizes",
            "later"),
    "C15": FAIL + ("unusual",),
    "C16": FAIL,
    "C17": ("world", "brokenworld", "missing"),
    "C18": ("layers", "objects", "props", "tileset", "embedded", "external", "data", "templates", "ttiles", "sizes"),
    "C19": ("layers", "objects", "props", "tileset", "embedded", "data", "world", "sizes"),
    "C20": ("badcolor", "layers", "objects", "props", "tileset", "embedded"),
    "C21": ("unusual",),
    "C22": ("cyclic", "unusual"),
    "C23": WELL,
}
ALSO = {"C01": WELL + ("broken",), "C05": WELL, "C17": (), "C14": WELL + FAIL, "C15": WELL, "C16": WELL, "C20": WELL,
        "C18": ("badcomp", "cross"), "C21": WELL + FAIL, "C22": WELL + FAIL, "C23": ()}
LONG = {
    "C03": ("layers", "depth"), "C04": ("layers", "objects", "depth", "tobjs"),
    "C05": ("wide", "high", "b64", "gzip", "chunks", "widechunk"), "C06": ("objects", "points"),
    "C07": ("objects", "tobjs"), "C08": ("ttiles",), "C09": ("tilesets", "tiles", "frames", "tobjs"),
    "C10": ("wangs", "colors", "wtiles"), "C11": ("props",), "C13": ("tilesets", "tiles", "wtiles", "ttiles"),
    "C14": z.LONG + ("world",), "C17": ("world",), "C18": z.LONG, "C23": z.LONG + ("world",), "C22": ("depth",)}
for _p, _f in LONG.items():
    FULL[_p] += tuple("long-" + x for x in _f)
FAMILIES = {p: (f, tuple(x for x in ALSO.get(p, WELL) if x not in f)) for p, f in FULL.items()}

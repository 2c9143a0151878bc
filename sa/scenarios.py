"""The document worlds every property is decided on.

A Scenario is an entry point, a set of files (skeletons with abstract leaves) and what the call
must return (`exp`) or raise (`raises`)."""
from .docs import K, Node, World
from .models import mk_join, mk_parent, mk_resolve, strip_abs
from .schema import MAPFILE, Doc, S, k, permuted
from .spec import Ctx, Leaf, NT, OneOf, Lit, Lst, Dct, Obj, View, tiled_map, tileset, size, point, Arith, Atoms, any_layer
from .values import const

DIR = mk_parent(MAPFILE)
EARLIER = ("param", "earlier")       # a file of the same name in another directory
UNKNOWN = "pytiled_parser.exception.UnknownFormat"


class Scenario:
    def __init__(self, name, fmt, entry="parse_map", zstd=False):
        self.name, self.fmt, self.entry, self.zstd = name, fmt, entry, zstd
        self.world = World()
        self.data, self.templates, self.tileids = {}, {}, {}
        self.root = None
        self.tilesets = []        # [(firstgid, nid, base)]
        self.raises = None        # exception names that must come out
        self.tags = ()            # properties a failure of the run itself belongs to
        self.vary = True          # partition over presence and zero facts
        self.facts = {}
        self.expect = None        # Ctx -> Exp
        self.order_tags = ()
        self.only = None          # when set, only these properties are decided by it
        self.before = []          # [(entry point, file)] of calls that came earlier

    # ---- expectation
    def ctx(self, interp, facts):
        C = Ctx(interp, self.world, facts)
        C.data, C.templates = self.data, self.templates
        C.tile_id = self.tile_id
        return C

    def tile_id(self, nid):
        c = self.world.key(nid, "id")
        if isinstance(c, K):
            return int(c.const)
        return self.tileids[nid]

    def expected(self, C):
        if self.expect is not None:
            return self.expect(C)
        ts = [(g, tileset(View(C, nid), g, base)) for g, nid, base in self.tilesets]
        return tiled_map(C, self.root, MAPFILE, ts)


def ext(leaf_nid, key="source", base=DIR):
    """(path atom, directory atom) of the file a reference names."""
    p = mk_join(base, ("leaf", leaf_nid, key))
    return p, mk_parent(p)


def constpath(base, name):
    return mk_join(base, const(name))


def mapscn(name, d, layers, tilesets, data=None, **kw):
    s = Scenario(name, d.fmt, **kw)
    s.root = "map"
    s.world.add(MAPFILE, d.fmt, d.map("map", layers, tilesets))
    s.data = data or {}
    return s


SMALL = {"xml": dict(form="csv", w=2, h=1), "json": dict(form="list", w=2, h=1)}


def layers_scn(fmt, turn):
    s = S(fmt, turn=turn, version=("str", "realfloat", "int", "str")[turn % 4])
    d = Doc(s)
    sm = SMALL[fmt]
    layers = [
        d.group("G", [d.imagelayer("G.0"), d.group("G.1", [
            d.objectlayer("G.1.0", [d.object("G.1.0.o", "ellipse", which=(3,))]), d.imagelayer("G.1.1"),
            d.tilelayer("G.1.2", sm)]), d.tilelayer("G.2", sm)]),
        d.tilelayer("L0", sm), d.objectlayer("L1", [d.object("o0", "rectangle", which=(1,)),
                                                    d.object("o1", "point", which=(1,))]),
        d.imagelayer("L2"), d.tilelayer("L3", sm)]
    data = {n: sm for n in ("L0", "L3", "G.2", "G.1.2")}
    return mapscn("layers", d, layers, [], data)


def objects_scn(fmt, turn):
    d = Doc(S(fmt, turn=turn))
    n = len(d.SHAPES)
    objs = [d.object("o%d" % i, s, which=(i % 9, (i + 4) % 9)) for i, s in enumerate(d.SHAPES)]
    objs2 = [d.object("p%d" % i, s, which=((i + 2) % 9,)) for i, s in enumerate(reversed(d.SHAPES))]
    layers = [d.objectlayer("L0", objs), d.group("G", [d.objectlayer("G.0", objs2)])]
    assert n == 7
    return mapscn("objects", d, layers, [])


def props_scn(fmt, turn, **kw):
    """Every property type on every level of one branch of the document."""
    d = Doc(S(fmt, turn=turn, **kw))
    alls = tuple(range(9))
    o = [d.object("o0", "rectangle", which=alls), d.object("o1", "text", which=(0, 8))]
    m = mapscn("properties", d, [d.objectlayer("L0", o), d.group("G", [d.imagelayer("G.0")])], [])
    return m


def single_tileset_scn(fmt, turn, images="both", **kw):
    s = S(fmt, turn=turn, version=("str", "realfloat", "int", "str")[turn % 4], **kw)
    d = Doc(s)
    sc = Scenario("tileset" + ("-legacy" if s.legacy else "") + ("-noimage" if images != "both" else ""), fmt,
                  entry="parse_tileset")
    node = d.tileset("ts", images=images, tileids=(7, 0) if turn % 2 else (0, 7))
    sc.world.add(MAPFILE, fmt, node)
    sc.root = "ts"
    if s.legacy:
        for t in node.keys["tiles"].keys.items():
            sc.tileids[t[1].id] = int(t[0])
    sc.expect = lambda C: tileset(View(C, "ts"), 1, None)
    return sc


def embedded_scn(fmt, turn):
    """A map with two embedded tilesets, later first gid first."""
    d = Doc(S(fmt, turn=turn))
    gids = (101, 1) if turn % 2 else (1, 55)
    ts = [d.tileset("tsA", firstgid=gids[0], ntiles=1), d.tileset("tsB", firstgid=gids[1], ntiles=2, images="none")]
    s = mapscn("embedded-tilesets", d, [d.imagelayer("L0")], ts)
    s.tilesets = [(gids[0], "tsA", None), (gids[1], "tsB", None)]
    return s


def external_scn(fmt, turn):
    """External tilesets of both formats next to an embedded one, in a map of either format."""
    d = Doc(S(fmt, turn=turn))
    ej, ex = Doc(S("json", turn=turn)), Doc(S("xml", turn=turn + 1))
    order = [("rj", ej), ("rx", ex)] if turn % 2 else [("rx", ex), ("rj", ej)]
    refs = [d.tileset_ref(order[0][0], 30), d.tileset("emb", firstgid=1, ntiles=1), d.tileset_ref(order[1][0], 9)]
    s = mapscn("external-tilesets", d, [d.imagelayer("L0")], refs)
    s.world.blank = turn % 4 == 3
    ents = {}
    for (rid, dd), g in zip(order, (30, 9)):
        p, base = ext(rid)
        nid = "ext." + rid
        s.world.add(strip_abs(p), dd.fmt, dd.tileset(nid, ntiles=1))
        ents[rid] = (g, nid, base)
    s.tilesets = [ents[order[0][0]], (1, "emb", None), ents[order[1][0]]]
    return s


def external_twice_scn(fmt, turn):
    """One tileset file referred to twice, and a file of the same name in another directory."""
    d = Doc(S(fmt, turn=turn))
    es = [Doc(S(("json", "xml")[(turn + i) % 2], turn=turn + i)) for i in range(2)]
    names = ("a/t.tiles", "b/t.tiles")
    gids = (1, 40, 80)
    refs = [d.tileset_ref("r%d" % i, g, const=names[i % 2]) for i, g in enumerate(gids)]
    s = mapscn("external-twice", d, [d.imagelayer("L0")], refs)
    for i, e in enumerate(es):
        s.world.add(constpath(DIR, names[i]), e.fmt, e.tileset("ext%d" % i, ntiles=1))
    s.tilesets = [(g, "ext%d" % (i % 2), mk_parent(constpath(DIR, names[i % 2]))) for i, g in enumerate(gids)]
    return s


def external_legacy_scn(turn):
    """An external JSON tileset in the legacy form (tiles and properties as objects)."""
    d = Doc(S("json", turn=turn))
    e = Doc(S("json", turn=turn, legacy=True))
    s = mapscn("external-legacy", d, [d.imagelayer("L0")], [d.tileset_ref("rj", 7)])
    p, base = ext("rj")
    node = e.tileset("ext.rj", tileids=(3, 11) if turn % 2 else (5, 0, 10, 2, 40, 9), ntiles=6)
    s.world.add(strip_abs(p), "json", node)
    for key, t in node.keys["tiles"].keys.items():
        s.tileids[t.id] = int(key)
    s.tilesets = [(7, "ext.rj", base)]
    return s


# ---------------------------------------------------------------- tile data
def data_scn(fmt, zstd=False):
    d = Doc(S(fmt))
    cases = []
    plain = "csv" if fmt == "xml" else "list"
    cases.append(dict(form=plain, w=3, h=2))
    cases.append(dict(form=plain, w=1, h=3))
    cases.append(dict(form=plain, w=4, h=1))
    if fmt == "json":
        cases.append(dict(form="list", w=2, h=2, explicit=True))
    for comp in (None, "gzip", "zlib") + (("zstd",) if zstd else ()):
        cases.append(dict(form="b64", comp=comp, w=3, h=2))
        cases.append(dict(form="b64", comp=comp, w=1, h=3))
    if fmt == "json":
        cases.append(dict(form="b64", comp="", w=2, h=3))
    chunks = [[(3, 2), (1, 2), (2, 1)], [(2, 2)], [(1, 1), (2, 3)]]
    for i, comp in enumerate(((plain,), ("b64", None), ("b64", "gzip"), ("b64", "zlib"))
                             + ((("b64", "zstd"),) if zstd else ())):
        c = dict(form=comp[0], w=5, h=4, chunks=chunks[i % 3])
        if comp[0] == "b64":
            c["comp"] = comp[1]
        cases.append(c)
    cases.append(dict(form=plain, w=3, h=2, chunks=[(1, 1)] * 6))
    # a layer without tiles of an infinite map
    cases.append(dict(form=plain, w=2, h=2, chunks=[]))
    cases.append(dict(form="b64", comp=None, w=2, h=2, chunks=[]))
    data = {"L%d" % i: c for i, c in enumerate(cases)}
    layers = [d.tilelayer(n, c) for n, c in data.items()]
    for n, c in data.items():
        if c.get("comp") == "":
            c["comp"] = None
    return mapscn("tile-data" + ("-zstd" if zstd else ""), d, layers, [], data, zstd=zstd)


def bad_compression_scn(fmt, comp, chunks):
    """comp 'zstd' here means zstd is not installed."""
    d = Doc(S(fmt))
    c = dict(form="b64", comp=comp, w=2, h=2)
    if chunks:
        c["chunks"] = [(2, 2)]
    s = mapscn("compression-%s%s" % (comp, "-chunks" if chunks else ""), d, [d.tilelayer("L0", c)], [], {"L0": c})
    s.raises, s.tags, s.vary = "any", ("C05", "C16"), False
    return s


def tile_elements_scn(chunks):
    """Tile data as <tile> elements, which is not supported: refused, not dropped."""
    d = Doc(S("xml"))
    c = dict(form="csv", w=2, h=1, chunks=[(2, 1)] if chunks else None)
    layer = d.tilelayer("L0", c)
    data = next(n for n, _ in layer.kids if n.tag == "data")
    holder = data.kids[0][0] if chunks else data
    data.keys.clear()
    holder.text = k(const="\n   ")
    holder.kids = [(Node("L0.tile%d" % i, "xml", "tile", {"gid": k("int")}), False) for i in range(2)]
    s = mapscn("tile-elements" + ("-chunks" if chunks else ""), d, [layer], [], {"L0": c})
    s.raises, s.tags, s.vary = "any", ("C05", "C16"), False
    return s


ZEROGRIDS = [(w, h, n, form, ch) for w, h, n in ((0, 0, 0), (0, 2, 4), (2, 0, 4), (0, 0, 4), (-1, 2, 4), (2, -1, 4))
             for form in ("plain", "b64") for ch in (False, True)]


def zero_grid_scn(fmt, case):
    """Degenerate sizes: nothing but termination is decided on it."""
    w, h, n, form, ch = case
    d = Doc(S(fmt))
    c = dict(form={"plain": "csv" if fmt == "xml" else "list"}.get(form, form), w=w, h=h, n=n)
    if ch:
        c.update(chunks=[(w, h)], w=4, h=4)
    s = mapscn("degenerate-grid", d, [d.tilelayer("L0", c)], [], {})
    s.only, s.vary = ("C22",), False
    return s


# ---------------------------------------------------------------- templates
def template_obj_shape(i):
    return Doc.SHAPES[i % 7]


def templates_scn(fmt, turn):
    """Instances of templates of every shape, at top level and in nested groups; in every other turn
    a template has several instances."""
    d = Doc(S(fmt, turn=turn))
    layers, objs, again = [], [], []
    s = Scenario("templates", fmt)
    for i, sh in enumerate(d.SHAPES):
        if sh == "tile":
            continue
        oid = "i%d" % i
        marker = sh if sh in ("polygon", "polyline", "text") else "rectangle"
        tid = "tmpl%d" % i
        c = 2 * i + turn               # the instance gives one property of the template, and one more
        if turn % 2:
            name = "templates/%d.t" % i
            objs.append(d.object(oid, marker, which=(c % 9, (c + 1) % 9), instance=k(const=name)))
            again.append(d.object("j%d" % i, ("rectangle", marker)[i % 2], which=(4,), instance=k(const=name)))
            s.templates["j%d" % i] = {"object": tid + ".object", "offset": None}
            p = constpath(DIR, name)
        else:
            objs.append(d.object(oid, marker, which=(c % 9, (c + 1) % 9), instance=k("path")))
            p, base = ext(oid, "template")
        s.world.add(strip_abs(p), fmt, d.template(tid, d.object(tid + ".object", sh, which=((c + 5) % 9, c % 9), templated=True)))
        s.templates[oid] = {"object": tid + ".object", "offset": None}
    layers = [d.objectlayer("L0", objs[:3] + again[:2] + again[4:]),
              d.group("G", [d.group("G.0", [d.objectlayer("G.0.0", objs[3:])])]), d.objectlayer("L1", again[2:4])]
    s.root = "map"
    s.world.add(MAPFILE, fmt, d.map("map", layers, []))
    return s


def template_tiles_scn(fmt, turn, tsfmt, existing):
    """Tile-object templates whose tileset is already in the map, or not yet.

    existing: 'none' (map without tilesets), 'other' (must be registered), 'same' (by name)."""
    d = Doc(S(fmt, turn=turn))
    e = Doc(S(tsfmt, turn=turn))
    s = Scenario("template-tile-%s-%s" % (tsfmt, existing), fmt)
    s.root = "map"
    maptiles = []
    if existing != "none":
        # (id, name, first gid, tiles) of the tilesets of the map
        conf = [[("m1", "second", 51, 13), ("m0", "first", 1, 50)], [("m0", "first", 1, 1)],
                [("o%d" % i, "t%d" % i, 300 + 7 * i, 7) for i in range(6)] +
                [("m0", "first", 1, 50), ("m1", "second", 101, 13)], [("m1", "second", 2, 5), ("m0", "first", 1, 1)]][
                    turn % 4]
        if existing == "same" and len(conf) == 1:
            conf = conf + [("m1", "second", 2, 1)]
        shared = existing == "same" and turn % 4 in (2, 3)
        if shared:
            # the map and the templates refer to the same files
            maptiles = [d.tileset_ref(i + ".ref", g, const="ts/" + i) for i, _, g, _ in conf]
            for i, nm, _, c in conf:
                s.world.add(constpath(DIR, "ts/" + i), tsfmt, e.tileset(i, name=nm, tilecount=c, ntiles=1))
            s.tilesets = [(g, i, mk_parent(constpath(DIR, "ts/" + i))) for i, _, g, _ in conf]
        else:
            maptiles = [d.tileset(i, firstgid=g, name=nm, tilecount=c, ntiles=1) for i, nm, g, c in conf]
            s.tilesets = [(g, i, None) for i, _, g, _ in conf]
    # names that differ in their case, by blanks or by a suffix are different names
    names = {"none": ("fresh", "Fresh"), "other": (("fresh", "fresh2"), ("First", "FIRST"), ("first ", "first.tsx"),
                                                   ("secon", "second2"))[turn % 4], "same": ("first", "second")}[existing]
    next_gid = {"none": lambda: 1, "other": lambda: max(g + c for _, _, g, c in conf), "same": lambda: None}[existing]()
    insts = []
    for j, name in enumerate(names):
        for rep in range(2):
            oid = "i%d%d" % (j, rep)
            tid = "tmpl%d%d" % (j, rep)
            if turn % 2 or existing == "same" and shared:
                # both instances of one template, or templates next to the map
                tname = "%d.t" % j if turn % 2 else "%d%d.t" % (j, rep)
                insts.append(d.object(oid, "rectangle", which=(1,), instance=k(const=tname)))
                p = constpath(DIR, tname)
                base = mk_parent(p)
            else:
                p, base = ext(oid, "template")
                insts.append(d.object(oid, "rectangle", which=(1,), instance=k("path")))
            if turn % 2 and rep:
                s.templates[oid] = dict(s.templates["i%d0" % j])
                continue
            cref = None
            if existing == "same" and shared:
                cref = "ts/" + next(i for i, nm, _, _ in conf if nm == name)
            ref = d.tileset_ref(tid + ".ref", 1, const=cref)
            obj = d.object(tid + ".object", "tile", which=(0, 1), templated=True)
            s.world.add(strip_abs(p), fmt, d.template(tid, obj, ref))
            if cref is None:
                tp, tbase = ext(tid + ".ref", "source", base)
                nid = "tts%d%d" % (j, rep)
                s.world.add(strip_abs(tp), tsfmt, e.tileset(nid, name=name, tilecount=20 + j, ntiles=1))
            if existing == "same":
                off = next(g for _, nm, g, _ in conf if nm == name) - 1
            else:
                if rep == 0:
                    g = next_gid
                    s.tilesets = s.tilesets + [(g, nid, tbase)]
                    next_gid = g + 20 + j
                off = g - 1
            s.templates[oid] = {"object": tid + ".object", "offset": off}
    # an instance with a gid of its own: it refers to the tilesets of the map, the template's is not used
    p, base = ext("own", "template")
    own = d.object("own", "rectangle", which=(1,), instance=k("path"), gid=k("int"))
    s.world.add(strip_abs(p), fmt, d.template("tmplown", d.object("tmplown.object", "tile", which=(0,), templated=True),
                                              d.tileset_ref("tmplown.ref", 1)))
    tp, tbase = ext("tmplown.ref", "source", base)
    s.world.add(strip_abs(tp), tsfmt, e.tileset("ttsown", name="unused", tilecount=9, ntiles=1))
    s.templates["own"] = {"object": "tmplown.object", "offset": None}
    if turn % 2:
        # several instances in one layer; the second new tileset comes before the repetition of the first
        layers = [d.objectlayer("L0", [insts[0], d.object("plain", "tile", which=(1,)), insts[2],
                                       d.object("plain2", "rectangle", which=(1,)), insts[1]]),
                  d.objectlayer("L1", [own]),
                  d.group("G", [d.group("G.1", [d.objectlayer("G.1.0", [insts[3]])])])]
    else:
        layers = [d.objectlayer("L0", [insts[0], own]),
                  d.group("G", [d.objectlayer("G.0", [insts[1]]),
                                d.group("G.1", [d.objectlayer("G.1.0", [insts[2]])])]),
                  d.objectlayer("L1", [insts[3], d.object("plain", "tile", which=(1,))])]
        layers = [d.objectlayer("E%d" % i, []) for i in range(5)] + layers
    s.world.add(MAPFILE, fmt, d.map("map", layers, maptiles))
    return s


def template_cross_scn(fmt, depth):
    """A template of the other format is refused."""
    other = "json" if fmt == "xml" else "xml"
    d, e = Doc(S(fmt)), Doc(S(other))
    s = Scenario("template-of-other-format", fmt)
    oid = "i0"
    ob = d.objectlayer("L0", [d.object(oid, "rectangle", which=(1,), instance=k("path"))])
    p, _ = ext(oid, "template")
    s.world.add(strip_abs(p), other, e.template("tmpl", e.object("tmpl.object", "ellipse", which=(0,), templated=True)))
    s.root = "map"
    s.world.add(MAPFILE, fmt, d.map("map", [d.group("G", [ob])] if depth else [ob], []))
    s.raises, s.tags, s.vary = ("builtins.NotImplementedError",), ("C08", "C01", "C16"), False
    return s


# ---------------------------------------------------------------- failing documents
def broken_main_scn(entry, content):
    s = Scenario("%s-%s" % (entry, content), "json" if content != "xml" else "xml", entry=entry)
    s.world.add(MAPFILE, content)
    s.vary = False
    if content in ("garbage", "empty", "binary"):
        s.raises = (UNKNOWN,) if entry != "parse_world" else ("builtins.ValueError",)
        s.tags = ("C01", "C16") if entry != "parse_world" else ("C16", "C17")
    elif content == "missing":
        s.raises, s.tags = ("builtins.OSError",), ("C16",)
    else:
        s.raises, s.tags = "any", ("C16",)
    return s


def broken_tileset_scn(fmt, content):
    d = Doc(S(fmt))
    s = mapscn("external-tileset-" + content, d, [d.imagelayer("L0")], [d.tileset_ref("r", 1)])
    p, _ = ext("r")
    s.world.add(strip_abs(p), content)
    s.vary = False
    s.tags = ("C16",)
    if content in ("garbage", "empty", "binary") and fmt == "json":
        s.raises, s.tags = (UNKNOWN,), ("C16", "C01")
    elif content == "missing":
        s.raises = ("builtins.OSError",)
    else:
        s.raises = "any"
    return s


def broken_template_scn(fmt, content, which):
    """which: 'template' or 'tileset' of the template."""
    d = Doc(S(fmt))
    s = Scenario("template-%s-%s" % (which, content), fmt)
    ob = d.object("i0", "rectangle", which=(1,), instance=k("path"))
    p, base = ext("i0", "template")
    if which == "template":
        s.world.add(strip_abs(p), content)
    else:
        s.world.add(strip_abs(p), fmt, d.template("tmpl", d.object("tmpl.object", "tile", which=(0,), templated=True),
                                                  d.tileset_ref("tmpl.ref", 1)))
        tp, _ = ext("tmpl.ref", "source", base)
        s.world.add(strip_abs(tp), content)
    s.root = "map"
    s.world.add(MAPFILE, fmt, d.map("map", [d.objectlayer("L0", [ob])], []))
    s.vary, s.tags, s.raises = False, ("C16",), ("builtins.OSError",) if content == "missing" else "any"
    if content == "missing" and fmt == "json":
        s.raises = ("builtins.OSError",)
    return s


# Attributes the format gives no default for, by document part.
REQUIRED = {
    "map": ("width", "height", "tilewidth", "tileheight", "nextobjectid", "orientation", "renderorder", "version",
            "layers", "tilesets"),
    "layer": ("width", "height", "type"),
    "chunk": ("x", "y", "width", "height", "data"),
    "objectgroup": ("objects", "type"),
    "imagelayer": ("image", "<image>", "type"),
    "image": ("source",),
    "group": ("layers", "type"),
    "object": ("id", "x", "y"),
    "polygon": ("points",), "polyline": ("points",), "point": ("x", "y"),
    "text": ("text",),
    "property": ("name", "value"),
    "tileset": ("name", "tilewidth", "tileheight", "tilecount", "firstgid", "source"),
    "tile": ("id",),
    "frame": ("tileid", "duration"),
    "grid": ("orientation", "width", "height"),
    "tileoffset": ("x", "y"),
    "wangset": ("name", "tile", "colors", "wangtiles"),
    "wangcolor": ("name", "color", "tile"),
    "wangtile": ("tileid", "wangid"),
    "worldmap": ("fileName", "x", "y", "width", "height"),
    "pattern": ("regexp", "multiplierX", "multiplierY"),
}
# parts whose absence is an error of the property they belong to, too
ALSO = {("imagelayer", "image"): "C03", ("imagelayer", "<image>"): "C03", ("group", "type"): "C04",
        ("layer", "type"): "C04", ("objectgroup", "type"): "C04", ("imagelayer", "type"): "C04"}


def role_of(n):
    if n.tag:
        return n.tag
    last = n.id.split(".")[-1]
    if last.startswith(("polygon[", "polyline[")):
        return "point"
    if n.id[:2] in ("wm", "wp") and n.id[2:].isdigit():
        return "worldmap" if n.id[1] == "m" else "pattern"
    return last


def bases(fmt):
    """The documents that parts are taken out of or spoilt in."""
    out = [lambda: layers_scn(fmt, 0), lambda: objects_scn(fmt, 0), lambda: props_scn(fmt, 0),
           lambda: single_tileset_scn(fmt, 0), lambda: external_scn(fmt, 0), lambda: data_scn(fmt)]
    if fmt == "json":
        out.append(lambda: world_scn(0))
    return out


def sites_of(s, fmt):
    """(role, key, nid) of everything a document must have."""
    for nid, n in s.world.nodes.items():
        if n.fmt != fmt:
            continue
        role = role_of(n)
        if role == "property" and n.text is not None:
            continue                # its value is its text
        for key in REQUIRED.get(role, ()):
            if key in n.keys and not n.kopt.get(key) and not getattr(n.keys[key], "opt", False):
                yield role, key, nid
            elif key[0] == "<" and any("<%s>" % c.tag == key and not o for c, o in n.kids):
                yield role, key, nid


def missing_key_sites(fmt):
    seen = {}
    for bi, b in enumerate(bases(fmt)):
        for role, key, nid in sites_of(b(), fmt):
            if fmt == "xml" and (role, key) == ("property", "value"):
                continue            # the value may be the element's text
            seen.setdefault((role, key), (bi, nid))
    return [(role, key, bi, nid) for (role, key), (bi, nid) in seen.items()]


def missing_key_scn(fmt, role, key, bi, nid):
    s = bases(fmt)[bi]()
    n = s.world.nodes[nid]
    if key[0] == "<":
        n.kids = [(c, o) for c, o in n.kids if "<%s>" % c.tag != key]
    else:
        del n.keys[key]
    s.name, s.raises, s.vary = "%s-without-%s" % (role, key.strip("<>")), "any", False
    s.tags = ("C16",) + ((ALSO[role, key],) if (role, key) in ALSO else ())
    if role in ("worldmap", "pattern"):
        s.tags += ("C17",)
    return s


def number_leaves(e, out, seen):
    """(nid, key) of every number the expected result takes from the documents."""
    if isinstance(e, Leaf):
        if e.conv in ("int", "num"):
            out.append((e.nid, e.key))
    elif isinstance(e, OneOf):
        for a in e.alts:
            number_leaves(a, out, seen)
    elif isinstance(e, NT):
        for _, x in e.fields:
            number_leaves(x, out, seen)
    elif isinstance(e, Obj):
        for x, _ in e.fields.values():
            number_leaves(x, out, seen)
    elif isinstance(e, Lst):
        for x in e.items:
            number_leaves(x, out, seen)
    elif isinstance(e, Dct):
        for _, x in e.entries:
            number_leaves(x, out, seen)


def bad_number_sites(interp_of):
    """Numbers of XML documents, one place per kind of part and attribute."""
    seen = {}
    for bi, b in enumerate(bases("xml")):
        s = b()
        C = s.ctx(interp_of(s), {})
        out = []
        number_leaves(s.expected(C), out, set())
        for nid, key in out:
            n = s.world.nodes[nid]
            if n.fmt == "xml" and isinstance(n.keys.get(key), K):
                role = role_of(n)
                if role == "property":
                    role += "-" + n.keys["type"].const
                seen.setdefault((role, key), (bi, nid))
        for nid, n in s.world.nodes.items():
            for key, c in list(n.keys.items()) + [("#text", n.text)]:
                if isinstance(c, K) and isinstance(c.stype, tuple) and c.stype[0] in ("csv", "points"):
                    seen.setdefault((role_of(n), key), (bi, nid))
    return [(role, key, bi, nid) for (role, key), (bi, nid) in seen.items()]


def bad_number_scn(role, key, bi, nid):
    s = bases("xml")[bi]()
    n = s.world.nodes[nid]
    old = n.text if key == "#text" else n.keys[key]
    if isinstance(old.stype, tuple):
        raw = {"csv": ",".join(["1x"] * old.stype[1]), "points": " ".join(["1x,2"] * old.stype[1])}[old.stype[0]]
    else:
        raw = "1x"
    if key == "#text":
        n.text = k(const=raw)
    else:
        n.keys[key] = k(const=raw)
    s.name, s.raises, s.tags, s.vary = "%s-with-%s-that-is-no-number" % (role, key.strip("#")), "any", ("C16",), False
    return s


BADCOLORS = ("#7", "7", "#9", "9", "#5", "5", "#3", "10", "#10", "4", "#4")
COLORSITES = ("map", "layer", "tileset", "wangcolor", "property")


def bad_color_scn(fmt, site, shape):
    d = Doc(S(fmt))
    bad = k("color", False, shape=shape)
    if site == "map":
        s = mapscn("", d, [], [])
        s.world.nodes["map"].keys["backgroundcolor"] = bad
    elif site == "layer":
        s = mapscn("", d, [d.group("G", [d.objectlayer("G.0", [])])], [])
        s.world.nodes["G.0"].keys["tintcolor"] = bad
    elif site in ("tileset", "wangcolor"):
        s = mapscn("", d, [], [d.tileset("ts", firstgid=1, ntiles=1)])
        if site == "tileset":
            s.world.nodes["ts"].keys["backgroundcolor"] = bad
        else:
            s.world.nodes["ts.wang0.color0"].keys["color"] = bad
    else:
        s = mapscn("", d, [d.objectlayer("L", [d.object("o", "point", which=(4,))])], [])
        next(n for i, n in s.world.nodes.items() if i.startswith("o.properties[")).keys["value"] = bad
    s.name = "color-of-%s-digits-%s" % (shape.strip("#"), site) + ("-hash" if "#" in shape else "")
    # reading a JSON map turns value errors into the unknown-format error
    s.raises, s.vary, s.tags = ("builtins.ValueError", UNKNOWN) if fmt == "json" else ("builtins.ValueError",), \
        False, ("C20", "C16")
    return s


def unknown_layer_scn(depth, kind, like=0):
    d = Doc(S("json"))
    la = [lambda: d.imagelayer("X"), lambda: d.group("X", [d.imagelayer("X.0")]),
          lambda: d.objectlayer("X", [d.object("X.0", "point", which=(1,))]),
          lambda: d.tilelayer("X", SMALL["json"]), lambda: d.tilelayer("X", dict(form="list", w=2, h=2, chunks=[(1, 1)]))
          ][like]()
    la.keys["type"] = k(const=kind)
    s = mapscn("layer-of-unknown-kind-%r" % kind, d, [d.group("G", [la])] if depth else [la], [])
    s.raises, s.tags, s.vary = "any", ("C04", "C16"), False
    return s


def cyclic_scns(fmt):
    """Documents that refer to themselves."""
    out = []
    d = Doc(S(fmt))
    s = Scenario("template-of-itself", fmt)
    me = "t.file"
    ob = d.object("i0", "rectangle", which=(1,), instance=k(const=me))
    to = d.object("t.object", "rectangle", which=(1,), instance=k(const=me))
    s.world.add(strip_abs(constpath(DIR, me)), fmt, d.template("t", to))
    s.world.add(MAPFILE, fmt, d.map("map", [d.objectlayer("L0", [ob])], []))
    out.append(s)
    s = Scenario("tileset-of-itself", fmt)
    r = d.tileset_ref("r", 1)
    r.keys["source"] = k(const=me)
    ts = d.tileset("ts")
    ts.keys["source"] = k(const=me)
    ts.keys["firstgid"] = d.const(1)
    s.world.add(MAPFILE, fmt, d.map("map", [], [r]))
    s.world.add(strip_abs(constpath(DIR, me)), fmt, ts)
    out.append(s)
    s = Scenario("template-tileset-of-itself", fmt)
    ob = d.object("i0", "rectangle", which=(1,), instance=k(const=me))
    rr = d.tileset_ref("t.ref", 1)
    rr.keys["source"] = k(const="z.file")
    ts = d.tileset("z", name="c")
    ts.keys["source"] = k(const="z.file")
    s.world.add(MAPFILE, fmt, d.map("map", [d.objectlayer("L0", [ob])], []))
    s.world.add(strip_abs(constpath(DIR, me)), fmt, d.template("t", d.object("t.object", "tile", which=(1,)), rr))
    s.world.add(strip_abs(constpath(DIR, "z.file")), fmt, ts)
    out.append(s)
    s = Scenario("empty-tileset-of-template", fmt)
    for ex in (True,):
        ob = d.object("i0", "rectangle", which=(1,), instance=k(const=me))
        ts = [d.tileset("m0", firstgid=1, name="a", tilecount=0), d.tileset("m1", firstgid=1, name="b", tilecount=0)]
        s.world.add(MAPFILE, fmt, d.map("map", [d.objectlayer("L0", [ob])], ts))
        rr = d.tileset_ref("t.ref", 1)
        rr.keys["source"] = k(const="z.file")
        s.world.add(strip_abs(constpath(DIR, me)), fmt, d.template("t", d.object("t.object", "tile", which=(1,)), rr))
        s.world.add(strip_abs(constpath(DIR, "z.file")), fmt, d.tileset("z", name="c", tilecount=0))
    out.append(s)
    for s in out:
        s.only, s.vary, s.root = ("C22",), False, "map"
    return out


def unusual_scn(fmt):
    """Parts that Tiled may write and the library does not document: decided are the effects only."""
    d = Doc(S(fmt, classprops=True))
    s = mapscn("unusual", d, [d.objectlayer("L0", [d.object("o0", "rectangle", which=(0,))]), d.imagelayer("L1")],
               [d.tileset("ts", firstgid=1)])
    s.only, s.vary = ("C15", "C21", "C22"), False
    return s


# ---------------------------------------------------------------- lists of any length
def sizes_scn(fmt, n):
    """n of everything that may repeat (n = 0: nothing at all)."""
    d = Doc(S(fmt, empty=n == 0, big=n))
    if n == 0:
        layers = [d.objectlayer("L0", []), d.group("G", [])]
        ts = [d.tileset("tsA", firstgid=1, empty=True), d.tileset("tsB", firstgid=9, images="none", empty=True)]
        ts.append(Doc(S(fmt, bare=True)).tileset("tsC", firstgid=5))
        s = mapscn("empty-lists", d, layers, ts)
        s.tilesets = [(1, "tsA", None), (9, "tsB", None), (5, "tsC", None)]
        return s
    sm = SMALL[fmt]
    layers, data = [], {}
    for i in range(n):
        layers.append(d.tilelayer("T%d" % i, sm))
        data["T%d" % i] = sm
        layers.append(d.objectlayer("O%d" % i, [d.object("O%d.%d" % (i, j), Doc.SHAPES[(i + j) % 7], which=(j % 9,))
                                                for j in range(n)]))
        layers.append(d.imagelayer("I%d" % i))
    layers.append(d.group("G", [d.group("G.%d" % i, [d.imagelayer("G.%d.%d" % (i, j)) for j in range(i)])
                                for i in range(n)]))
    deep = d.objectlayer("D.o", [d.object("D.o.0", "ellipse", which=(1,))])
    for i in range(n + 2):
        deep = d.group("D%d" % i, [deep])
    layers.append(deep)
    gids = [1 + 10 * ((i * 3) % n if n % 3 else i) for i in range(n)]
    ts = [d.tileset("ts%d" % i, firstgid=g, ntiles=n, tileids=tuple(permuted(n)))
          for i, g in enumerate(gids)]
    s = mapscn("lists-of-%d" % n, d, layers, ts, data)
    s.tilesets = [(g, "ts%d" % i, None) for i, g in enumerate(gids)]
    return s


LONG = ("layers", "objects", "points", "props", "tilesets", "tiles", "frames", "tobjs", "wangs", "colors", "wtiles",
        "wide", "high", "b64", "gzip", "chunks", "widechunk", "depth", "ttiles")
LONG_MAX = {"depth": 18, "ttiles": 40}       # more nested groups, and more templates, cost too much



def long_scn(fmt, what, n):
    """n of one thing only, where the source names a number a list might be cut at."""
    d = Doc(S(fmt, **({what: n} if what in ("points", "props", "frames", "tobjs", "wangs", "colors", "wtiles") else {})))
    name = "%d-%s" % (n, what)
    plain = "csv" if fmt == "xml" else "list"
    if what == "layers":
        return mapscn(name, d, [d.imagelayer("I%d" % i) for i in range(n)] +
                      [d.group("G", [d.group("G.%d" % i, []) for i in range(n)])], [])
    if what == "objects":
        return mapscn(name, d, [d.objectlayer("O", [d.object("O.%d" % i, ("point", "rectangle")[i % 2], which=(1,))
                                                    for i in range(n)])], [])
    if what == "points":
        return mapscn(name, d, [d.objectlayer("O", [d.object("O.%d" % i, sh, which=(1,))
                                                    for i, sh in enumerate(("polygon", "polyline"))])], [])
    if what == "props":
        return mapscn(name, d, [d.objectlayer("O", [d.object("O.0", "point")])], [])
    if what == "tilesets":
        gids = [1 + 10 * i for i in permuted(n)]
        s = mapscn(name, d, [], [d.tileset("ts%d" % i, firstgid=g, empty=True, images="none")
                                 for i, g in enumerate(gids)])
        s.tilesets = [(g, "ts%d" % i, None) for i, g in enumerate(gids)]
        return s
    if what in ("tiles", "frames", "tobjs", "wangs", "colors", "wtiles"):
        ids = permuted(n) if what == "tiles" else [4]
        s = mapscn(name, d, [], [d.tileset("ts", firstgid=1, ntiles=len(ids), tileids=tuple(ids))])
        s.tilesets = [(1, "ts", None)]
        return s
    if what == "ttiles":
        return long_templates_scn(fmt, n)
    if what == "depth":
        deep = d.objectlayer("D.o", [d.object("D.o.0", "ellipse", which=(1,))])
        for i in range(n):
            deep = d.group("D%d" % i, [deep])
        return mapscn(name, d, [deep], [])
    c = {"wide": dict(form=plain, w=n, h=2), "high": dict(form=plain, w=2, h=n), "b64": dict(form="b64", comp=None, w=n, h=2),
         "gzip": dict(form="b64", comp="gzip", w=2, h=n), "chunks": dict(form=plain, w=3, h=2, chunks=[(1, 1)] * n),
         "widechunk": dict(form=plain, w=3, h=2, chunks=[(n, 2), (2, n)])}[what]
    return mapscn(name, d, [d.tilelayer("L", c)], [], {"L": c})


def long_templates_scn(fmt, n):
    """n templates, each with a tileset of its own that the map does not have."""
    d = Doc(S(fmt))
    s = Scenario("%d-templates" % n, fmt)
    s.root = "map"
    insts, g = [], 1
    for i in range(n):
        oid = "i%d" % i
        p, base = ext(oid, "template")
        insts.append(d.object(oid, "rectangle", which=(1,), instance=k("path")))
        s.world.add(strip_abs(p), fmt, d.template("tm%d" % i, d.object("tm%d.object" % i, "tile", which=(0,), templated=True),
                                                  d.tileset_ref("tm%d.ref" % i, 1)))
        tp, tbase = ext("tm%d.ref" % i, "source", base)
        s.world.add(strip_abs(tp), fmt, d.tileset("tts%d" % i, name="n%d" % i, tilecount=3 + i % 4, empty=True))
        s.tilesets = s.tilesets + [(g, "tts%d" % i, tbase)]
        s.templates[oid] = {"object": "tm%d.object" % i, "offset": g - 1}
        g += 3 + i % 4
    s.world.add(MAPFILE, fmt, d.map("map", [d.objectlayer("L0", insts)], []))
    return s


# ---------------------------------------------------------------- other documents before this one
def earlier_scn(fmt, turn):
    """A map whose files are named like those of a map of another directory, which was parsed first: every file
    holds something else, and may be of the other format."""
    s = Scenario("later-map", fmt)
    s.root = "map"

    def put(f, file, pre, main):
        base = mk_parent(file)
        odd = (turn + main) % 2 if turn < 2 else turn % 2
        d, e = Doc(S(f, turn=turn + main)), Doc(S(("json", "xml")[odd], turn=turn))
        sm = dict(SMALL[f]) if main else dict(SMALL[f], w=1, h=3)
        names = ("ts/a.tiles", "b.tiles")[::1 if main else -1]
        count = (4, 9)[main]
        refs = [d.tileset_ref(pre + "r%d" % i, g, const=n) for i, (g, n) in enumerate(zip((1, 40), names))]
        for i, n in enumerate(names):
            p = constpath(base, n)
            s.world.add(p, e.fmt, e.tileset(pre + "ext%d" % i, name="n%d" % i, ntiles=1 + main, tilecount=count))
            if main:
                s.tilesets.append(((1, 40)[i], "ext%d" % i, mk_parent(p)))
        objs = []
        for i, sh in enumerate((("ellipse", "tile", "text"), ("polygon", "tile", "point"))[main]):
            n = "t/%d.t" % i
            objs.append(d.object(pre + "i%d" % i, "rectangle", which=(1, 3), instance=k(const=n)))
            ref, off = None, None
            p = constpath(base, n)
            if sh == "tile":
                ref = d.tileset_ref(pre + "tref", 1, const="new.tiles")
                tp = mk_join(mk_parent(p), const("new.tiles"))
                s.world.add(tp, e.fmt, e.tileset(pre + "new", name="new", tilecount=3 + main, ntiles=1 + main))
                off = 40 + count - 1
                if main:
                    s.tilesets.append((off + 1, "new", mk_parent(tp)))
            s.world.add(p, f, d.template(pre + "tm%d" % i, d.object(pre + "tm%d.object" % i, sh, which=(odd, 2),
                                                                    templated=True), ref))
            s.templates[pre + "i%d" % i] = {"object": pre + "tm%d.object" % i, "offset": off}
        layers = [d.tilelayer(pre + "L0", sm), d.objectlayer(pre + "L1", objs), d.imagelayer(pre + "L2"),
                  d.group(pre + "G", [d.imagelayer(pre + "G.0")] * main)]
        s.data[pre + "L0"] = sm
        s.world.add(file, f, d.map(pre + "map", layers, refs))

    put(fmt, MAPFILE, "", 1)
    put(fmt if turn in (0, 2, 3) else "json" if fmt == "xml" else "xml", EARLIER, "E.", 0)
    s.before = [("parse_map", EARLIER)]
    return s


def earlier_tileset_scn(fmt, turn):
    """A tileset file of the same name in another directory was parsed first."""
    s = single_tileset_scn(fmt, turn)
    s.name = "later-tileset"
    d = Doc(S(fmt if turn % 2 else "json" if fmt == "xml" else "xml", turn=turn + 1))
    s.world.add(EARLIER, d.fmt, d.tileset("E.ts", ntiles=3, tileids=(7, 3, 0)))
    s.before = [("parse_tileset", EARLIER)]
    return s


# ---------------------------------------------------------------- worlds
def world_scn(variant, long=0):
    """Explicit maps and patterns; directory entries that match, match elsewhere, or are no files."""
    d = Doc(S("json"))
    s = Scenario("world-%d" % variant, "json", entry="parse_world")
    nmaps, npat = [(2, 2), (0, 2), (2, 0), (1, 1), (3, 2), (0, 0)][variant % 6]
    if long:
        nmaps, npat = long, min(long, 4)
        s.name = "world-of-%d" % long
    maps = [Node("wm%d" % i, "json", None, {"fileName": k("path"), "x": k("num"), "y": k("num"),
                                             "width": k("num"), "height": k("num")}) for i in range(nmaps)]
    pats = [Node("wp%d" % i, "json", None, {"regexp": k("regex"), "multiplierX": k("num"), "multiplierY": k("num"),
                                             "offsetX": k("num", True), "offsetY": k("num", True)})
            for i in range(npat)]
    keys = {"maps": d.arr("w.maps", maps), "patterns": d.arr("w.patterns", pats),
            "onlyShowAdjacentMaps": k("bool", True), "type": k(const="world")}
    root = Node("w", "json", None, keys, kopt={"maps": True, "patterns": True})
    s.world.add(MAPFILE, "json", root)
    s.root = "w"
    n = 4
    s.world.listing, s.world.listdir = n, strip_abs(DIR)
    # per file: (pattern it matches from its start | None, is a file, patterns found elsewhere in it)
    files = [[(0, True, ()), (None, True, (0, 1)), (1, True, (0,)), (0, False, ())],
             [(1, True, ()), (0, True, ()), (0, True, (1,)), (None, True, ())],
             [(None, False, ()), (None, True, ()), (1, True, ()), (0, True, ())]][variant % 3]
    if long:
        n, files = long, [(i % 5 if i % 5 < 4 else None, True, ()) for i in range(long)]
        s.world.listing = n
    fn = [("fname", strip_abs(DIR), i) for i in range(n)]
    listed = []
    for i, (m, isf, found) in enumerate(files):
        s.facts[("isfile", strip_abs(mk_join(DIR, fn[i])))] = isf
        for j in range(npat):
            rx = ("term", "regex", ("leaf", "wp%d" % j, "regexp"))
            s.facts[("match", "match", rx, fn[i])] = m == j
            s.facts[("match", "search", rx, fn[i])] = m == j or j in found
            # the whole name need not match
            s.facts[("match", "fullmatch", rx, fn[i])] = m == j and (i + variant) % 2 == 0
        if isf and m is not None and m < npat:
            listed.append((m, i))

    def expect(C):
        v = View(C, "w")
        T = ("C17",)

        def wm(i):
            x = View(C, "wm%d" % i)
            return Obj("WorldMap", {
                "map_file": (x.get("fileName", "path", None, "join"), T),
                "size": (size(x.get("width", "num", None), x.get("height", "num", None)), T),
                "coordinates": (point(x.get("x", "num", None), x.get("y", "num", None)), T)}, clstags=T)

        def pm(j, i):
            p = View(C, "wp%d" % j)
            rx = ("term", "regex", ("leaf", "wp%d" % j, "regexp"))

            def pos(g, axis):
                f = ("term", "float", ("term", "group", rx, fn[i], const(g)))
                mk, ok = "multiplier" + axis, "offset" + axis
                # number times multiplier plus offset
                return Arith(f, ("leaf", "wp%d" % j, mk), C.zero("wp%d" % j, mk),
                             ("leaf", "wp%d" % j, ok) if C.pres("wp%d" % j, ok) and not C.zero("wp%d" % j, ok) else None)
            return Obj("WorldMap", {
                "map_file": (Atoms(mk_join(DIR, fn[i]), what="file %d of the directory" % i), T),
                "size": (size(p.get("multiplierX", "num", None), p.get("multiplierY", "num", None)), T),
                "coordinates": (point(pos(1, "X"), pos(2, "Y")), T)}, clstags=T)
        items = [wm(i) for i in range(nmaps)] if C.pres("w", "maps") else []
        pre = len(items)
        if C.pres("w", "patterns"):
            items += [pm(j, i) for j, i in sorted(listed)]
        return Obj("World", {"maps": (Lst(items, T, prefix=pre), T),
                             "only_show_adjacent": (v.get("onlyShowAdjacentMaps", "bool", False), T)}, clstags=T)
    s.expect = expect
    return s


def world_capture_scn(kind):
    """A pattern that matches a file without yielding two numbers."""
    s = world_scn(1)
    s.name = "world-capture-" + kind
    rx = ("term", "regex", ("leaf", "wp1", "regexp"))
    f = ("fname", strip_abs(DIR), 0)
    if kind == "text":
        s.facts[("notnum", ("term", "group", rx, f, const(1)))] = True
    elif kind == "text2":
        s.facts[("notnum", ("term", "group", rx, f, const(2)))] = True
    elif kind == "none":
        s.facts[("nogroup", ("term", "group", rx, f, const(2)))] = True
    else:
        s.facts[("groups", rx)] = True
    s.raises, s.tags, s.vary = "any", ("C16", "C17"), False
    return s


def raises_ok(interp, exc, allowed):
    if allowed == "any":
        return True
    return any(interp.exc_matches(exc, a) for a in allowed)

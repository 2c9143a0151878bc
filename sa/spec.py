"""What the documents of a scenario must parse to, as terms over document leaves."""
from .docs import K, Node
from .models import mk_join, mk_parent, mk_resolve, mk_lin, strip_abs
from .values import const, is_const, single


DIR = mk_parent(("param", "file"))


class Exp:
    tags = ()

    def __init__(self, *tags):
        self.tags = tuple(tags)


class Lit(Exp):
    def __init__(self, value, kind=None):
        self.value, self.kind = value, kind

    def show(self, C):
        return repr(self.value)


class Leaf(Exp):
    """conv: int num bool str color path text tfbool prop-int ..."""

    def __init__(self, nid, key, conv, base=None):
        self.nid, self.key, self.conv, self.base = nid, key, conv, base

    def show(self, C):
        return "%s of %s" % (self.key, self.nid)


class Atoms(Exp):
    """Any of these exact atoms."""

    def __init__(self, *atoms, what=""):
        self.atoms, self.what = atoms, what

    def show(self, C):
        return self.what or repr(self.atoms[0])


class Arith(Exp):
    """number * multiplier + offset; zero: the multiplier is zero."""

    def __init__(self, f, mult, zero, off):
        self.f, self.mult, self.zero, self.off = f, mult, zero, off

    def show(self, C):
        return "captured number times %s plus %s" % (self.mult[2], self.off[2] if self.off else "0")


class OneOf(Exp):
    def __init__(self, alts):
        self.alts = alts

    def show(self, C):
        return " or ".join(a.show(C) for a in self.alts)


class NT(Exp):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def show(self, C):
        return "%s(%s)" % (self.cls, ", ".join("%s=%s" % (n, e.show(C)) for n, e in self.fields))


class Obj(Exp):
    """fields: name -> (Exp, tags)"""

    def __init__(self, cls, fields, tags=(), clstags=("C04",)):
        self.cls, self.fields, self.tags, self.clstags = cls, fields, tuple(tags), clstags

    def show(self, C):
        return self.cls


class Lst(Exp):
    """prefix: only the first `prefix` items have a defined order."""

    def __init__(self, items, tags=(), prefix=None):
        self.items, self.tags, self.prefix = items, tuple(tags), prefix

    def show(self, C):
        return "[%d items]" % len(self.items)


class Dct(Exp):
    def __init__(self, entries, tags=(), keytags=()):
        self.entries, self.tags, self.keytags = entries, tuple(tags), tuple(keytags)

    def show(self, C):
        return "{%d entries}" % len(self.entries)


class View:
    """Read access to the expected content of one or more nodes (first one that has the key)."""

    def __init__(self, C, *nids):
        self.C, self.nids = C, nids
        self.nid = nids[0]
        self.fmt = C.world.nodes[nids[0]].fmt
        self.x = self.fmt == "xml"

    def pres(self, nid, key):
        return self.C.pres(nid, key)

    def has(self, key):
        r = False
        for n in self.nids:
            p = self.pres(n, key)
            if p is True:
                return True
            if p is None:
                r = None
        return r

    def get(self, key, conv, default, base=None):
        """Exp for attribute `key`; default: Exp or plain value."""
        alts = []
        for n in self.nids:
            p = self.pres(n, key)
            if p is not False:
                alts.append(Leaf(n, key, conv, base))
            if p is True:
                break
        else:
            alts.append(default if isinstance(default, Exp) else Lit(default))
        return alts[0] if len(alts) == 1 else OneOf(alts)

    def raw(self, nid, key):
        return self.C.world.key(nid, key)

    def child(self, name):
        """[(View | None)] alternatives of the sub-part `name` (JSON key or XML tag)."""
        out = []
        for n in self.nids:
            node = self.C.world.nodes[n]
            if node.fmt == "json":
                c = node.keys.get(name)
                if not isinstance(c, Node):
                    continue
                p = self.pres(n, name)
            else:
                c = next((c for c, _ in node.kids if c.tag == name), None)
                if c is None:
                    continue
                p = self.pres(n, "<" + c.id + ">")
            if p is not False:
                out.append(View(self.C, c.id))
            if p is True:
                return out
        return out + [None]

    def part(self, name, f, default=None):
        alts = []
        for v in self.child(name):
            alts.append(f(v) if v is not None else (default if isinstance(default, Exp) else Lit(default)))
        return alts[0] if len(alts) == 1 else OneOf(alts)

    def elems(self, name, tag):
        """Views of list members: JSON array `name`, XML children with `tag`."""
        node = self.C.world.nodes[self.nid]
        if node.fmt == "json":
            arr = node.keys.get(name)
            if arr is None:
                return []
            if not arr.isarray:
                return [View(self.C, c.id) for c in arr.keys.values()]
            return [View(self.C, c.id) for c, _ in arr.items]
        return [View(self.C, c.id) for c, _ in node.kids if c.tag == tag]


class Ctx:
    """facts of the run, documents, and the tags a scenario adds."""

    def __init__(self, interp, world, facts):
        self.interp, self.world, self.facts = interp, world, facts

    def pres(self, nid, key):
        f = self.facts.get(("pres", nid, key))
        return self.interp.presence_def(nid, key) if f is None else f

    def zero(self, nid, key):
        return self.facts.get(("zero", nid, key))

    # ------------------------------------------------------------ leaves
    def accepts(self, e):
        """Leaf -> (good atoms, atoms of the right value but the wrong type)."""
        nid, key, conv = e.nid, e.key, e.conv
        node = self.world.nodes[nid]
        k = self.world.key(nid, key)
        x = node.fmt == "xml"
        leaf = ("leaf", nid, key)
        if isinstance(k, K) and k.const is not None:
            c = k.const
            if conv in ("int",):
                return {const(int(c))}, {const(float(c))}
            if conv == "num":
                return {const(float(c)), const(int(float(c)))}, set()
            if conv == "str":
                return {const(str(c))}, set()
            if conv == "path":
                return {self.path(const(c), e.base)}, set()
            return {const(c)}, set()
        z = self.zero(nid, key)
        good, bad = set(), set()
        ci, cf = ("term", "int", leaf), ("term", "float", leaf)
        cond = ("cond", ("zero", nid, key), False)
        if conv == "int":
            good = {ci} if x else {leaf}
            if k.stype in ("int", "bool"):
                bad = {cf}
            if z is True:
                good.add(const(0))
                bad |= {const(0.0), const(False)}
        elif conv == "num":
            good = {cf} if x else {leaf, cf}
            if k.stype == "int":
                good.add(ci)
            if z is True:
                good |= {const(0), const(0.0)}
                bad.add(const(False))
        elif conv in ("bool", "tfbool"):
            good = {cond} if x else {leaf, cond}
            if z is not None:
                good.add(const(not z))
                bad |= {const(int(not z))}
            bad |= {ci} if x and conv == "bool" else set()
        elif conv == "str":
            good = {leaf}
            if not x and k.stype in ("realfloat", "int"):
                good = {("term", "str", leaf)}
                bad = {leaf}
            if z is True:
                good.add(const(""))
        elif conv == "raw":
            good = {leaf}
            if z is not None and k.stype == "bool":
                good.add(const(not z))
            if z is True:
                good |= {const(0), const(0.0), const("")}
        elif conv == "path":
            good = {self.path(leaf, e.base)}
            if z is True and key == "value":
                good |= {self.path(const(""), e.base), self.path(const("."), e.base)}
        return good, bad

    @staticmethod
    def path(leaf, base):
        if base is None:
            return ("term", "Path", leaf)
        if base == "join":
            return mk_join(DIR, leaf)
        return mk_resolve(mk_join(base, leaf))

    def color_exp(self, e):
        k = self.world.key(e.nid, e.key)
        off = 0

        def ch(i):
            return Atoms(mk_lin(0, {("dig", e.nid, e.key, off + i): 16, ("dig", e.nid, e.key, off + i + 1): 1}),
                         what="digits %d,%d of %s of %s" % (i, i + 1, e.key, e.nid))
        if k.shape.endswith("8"):
            al, r, g, b = ch(0), ch(2), ch(4), ch(6)
        else:
            r, g, b, al = ch(0), ch(2), ch(4), Lit(255)
        return NT("Color", [("red", r), ("green", g), ("blue", b), ("alpha", al)])


# ---------------------------------------------------------------- expected structures
PROP_CONV = {"string": "str", "int": "num", "float": "num", "bool": "tfbool", "color": "color",
             "file": "path", "object": "num", None: "str"}


def properties(v):
    """Dct for a properties part."""
    C = v.C
    node = C.world.nodes[v.nid]
    ents = []
    if not v.x and not node.isarray:
        for n in node.keys:
            ents.append((Lit(n), Leaf(v.nid, n, "raw")))
        return Dct(ents, ("C11",), ("C11",))
    ms = [c for c, _ in (node.items if not v.x else node.kids)]
    for m in ms:
        name = m.keys["name"].const
        t = m.keys["type"].const if "type" in m.keys else None
        conv = PROP_CONV[t]
        ents.append((Lit(name), Leaf(m.id, "#text" if m.text is not None else "value", conv)))
    return Dct(ents, ("C11",), ("C11",))


def merged_properties(iv, tv):
    """Template properties overridden by the instance's."""
    a = {e[0].value: e for e in tv.entries} if isinstance(tv, Dct) else {}
    b = {e[0].value: e for e in iv.entries} if isinstance(iv, Dct) else {}
    return Dct(list({**a, **b}.values()), ("C11", "C08"), ("C11", "C08"))


def props_field(v, default):
    return v.part("properties", properties, default), ("C11",)


def pair(cls, names, exps):
    return NT(cls, list(zip(names, exps)))


def size(a, b):
    return pair("Size", ("width", "height"), (a, b))


def point(a, b):
    return pair("OrderedPair", ("x", "y"), (a, b))


def layer_fields(v):
    T = ("C03",)
    f = {
        "name": (v.get("name", "str", ""), T),
        "opacity": (v.get("opacity", "num", 1), T),
        "visible": (v.get("visible", "bool", True), T),
        "id": (v.get("id", "int", None), T),
        "class_": (v.get("class", "str", None), T),
        "offset": (point(v.get("offsetx", "num", 0), v.get("offsety", "num", 0)), T),
        "parallax_factor": (point(v.get("parallaxx", "num", 1), v.get("parallaxy", "num", 1)), T),
        "tint_color": (v.get("tintcolor", "color", None), T + ("C20",)),
        "repeat_x": (v.get("repeatx", "bool", False), T),
        "repeat_y": (v.get("repeaty", "bool", False), T),
        "coordinates": (point(v.get("startx", "int", 0), v.get("starty", "int", 0)), T),
        "properties": (v.part("properties", properties, None), ("C03", "C11")),
    }
    if v.has("width") is True:
        f["size"] = (size(v.get("width", "int", None), v.get("height", "int", None)), T)
    else:
        f["size"] = (Lit(None), T)
    return f


def grid_of(v, payload_nid, key, w, h, form, comp):
    """Expected rows for a payload of w*h ids."""
    C = v.C
    n = w * h

    def cell(i):
        if form == "b64":
            leaf = ("leaf", payload_nid, key)
            b = [("byte", comp_term(leaf, comp), 4 * i + j) for j in range(4)]
            return Atoms(mk_lin(0, {x: 256 ** j for j, x in enumerate(b)}), what="id %d of the data" % i)
        if v.x:
            return Atoms(("term", "int", ("part", ("leaf", payload_nid, key), i)), what="number %d of the data" % i)
        return Leaf(payload_nid, i, "int")
    return Lst([Lst([cell(r * w + c) for c in range(w)], ("C05",)) for r in range(h)], ("C05",))


def comp_term(leaf, comp):
    t = ("term", "b64", leaf)
    return ("term", comp, t) if comp else t


def tile_layer(v, data):
    f = layer_fields(v)
    nid = v.nid
    D = ("C05",)
    f["data"] = (Lit(None), D)
    f["chunks"] = (Lit(None), D)
    form, comp = data.get("form"), data.get("comp")
    if form and data.get("chunks") is not None:
        cs = []
        for i, (w, h) in enumerate(data["chunks"]):
            c = View(v.C, "%s.chunk%d" % (nid, i))
            if v.x:
                src = (c.nid, "#text")
            else:
                src = (c.nid, "data") if form == "b64" else (c.nid + ".data", None)
            cs.append(Obj("Chunk", {
                "coordinates": (point(c.get("x", "int", None), c.get("y", "int", None)), D),
                "size": (size(c.get("width", "int", None), c.get("height", "int", None)), D),
                "data": (grid_of(v, src[0], src[1], w, h, form, comp), D)}, D))
        f["chunks"] = (Lst(cs, D), D)
    elif form:
        if v.x:
            src = (nid + ".data", "#text")
        else:
            src = (nid, "data") if form == "b64" else (nid + ".data", None)
        f["data"] = (grid_of(v, src[0], src[1], data["w"], data["h"], form, comp), D)
    return Obj("TileLayer", f)


def object_layer(v, C):
    f = layer_fields(v)
    f["draw_order"] = (v.get("draworder", "str", "topdown"), ("C03",))
    f["tiled_objects"] = (Lst([map_object(o) for o in v.elems("objects", "object")], ("C04", "C07")), ("C04",))
    return Obj("ObjectLayer", f)


def image_layer(v):
    f = layer_fields(v)
    im = v.child("image")[0] if v.x else v
    f["image"] = (im.get("source" if v.x else "image", "path", None), ("C03", "C12"))
    f["transparent_color"] = (im.get("trans" if v.x else "transparentcolor", "color", None), ("C03", "C20"))
    return Obj("ImageLayer", f)


def any_layer(v, C):
    node = C.world.nodes[v.nid]
    kind = node.tag
    if kind == "layer":
        return tile_layer(v, C.data.get(v.nid, {}))
    if kind == "objectgroup":
        return object_layer(v, C)
    if kind == "imagelayer":
        return image_layer(v)
    f = layer_fields(v)
    f["layers"] = (Lst([any_layer(x, C) for x in sub_layers(v)], ("C04",)), ("C04",))
    return Obj("LayerGroup", f)


LAYERTAGS = ("layer", "objectgroup", "imagelayer", "group")


def sub_layers(v):
    node = v.C.world.nodes[v.nid]
    if node.fmt == "json":
        return [View(v.C, c.id) for c, _ in node.keys["layers"].items]
    return [View(v.C, c.id) for c, _ in node.kids if c.tag in LAYERTAGS]


SHAPE_CLASS = {"ellipse": "Ellipse", "point": "Point", "polygon": "Polygon", "polyline": "Polyline",
               "text": "Text", "gid": "Tile"}


def shape_of(C, nid):
    node = C.world.nodes[nid]
    if "gid" in node.keys:
        return "gid"
    for s in ("ellipse", "point", "polygon", "polyline", "text"):
        if s in node.keys or any(c.tag == s for c, _ in node.kids):
            return s
    return None


def map_object(v):
    """v may be a single-node View or one registered as a template instance."""
    C = v.C
    inst = C.templates.get(v.nid)
    if inst is not None:
        v = View(C, v.nid, inst["object"])
        shape = shape_of(C, inst["object"])
    else:
        shape = shape_of(C, v.nid)
    T = ("C06",) if inst is None else ("C08",)
    V1 = View(C, v.nid)
    cls_ = V1.get("class", "str", None)
    f = {
        "id": (V1.get("id", "int", None), T),
        "coordinates": (point(v.get("x", "num", 0), v.get("y", "num", 0)), T),
        "size": (size(v.get("width", "num", 0), v.get("height", "num", 0)), T),
        "rotation": (v.get("rotation", "num", 0), T),
        "visible": (v.get("visible", "bool", True), T),
        "name": (v.get("name", "str", ""), T),
        "class_": (object_class(C, v), T),
    }
    if inst is not None:
        alts = []
        pi, pt = View(C, v.nids[0]).child("properties"), View(C, v.nids[1]).child("properties")
        for a in pi:
            for b in pt:
                ea = properties(a) if a else None
                eb = properties(b) if b else None
                alts.append(merged_properties(ea, eb))
        f["properties"] = (alts[0] if len(alts) == 1 else OneOf(alts), ("C08", "C11"))
    else:
        f["properties"] = (v.part("properties", properties, Dct([], ("C11",), ("C11",))), ("C06", "C11"))
    if shape in ("polygon", "polyline"):
        pts = v.child(shape)[0]
        if v.x:
            leaf = ("leaf", pts.nid, "points")
            n = C.world.key(pts.nid, "points").stype[1]

            def co(i, w):
                return Atoms(("term", "float", ("part", leaf, (i, w))), what="%s of point %d" % ("xy"[w], i))
            items = [point(co(i, 0), co(i, 1)) for i in range(n)]
        else:
            items = []
            for c, _ in C.world.nodes[pts.nid].items:
                p = View(C, c.id)
                items.append(point(p.get("x", "num", None), p.get("y", "num", None)))
        f["points"] = (Lst(items, T + ("C06",)), T + ("C06",))
    elif shape == "text":
        t = v.child("text")[0]
        Tx = T + ("C06",)
        if v.x:
            p = C.pres(t.nid, "#text")
            alts = ([Leaf(t.nid, "#text", "str")] if p is not False else []) + ([Lit("")] if p is not True else [])
            f["text"] = (alts[0] if len(alts) == 1 else OneOf(alts), Tx)
        else:
            f["text"] = (t.get("text", "str", ""), Tx)
        f["color"] = (t.get("color", "color", NT("Color", [("red", Lit(255)), ("green", Lit(255)),
                                                           ("blue", Lit(255)), ("alpha", Lit(255))])), Tx + ("C20",))
        for n, a, c, d in (("font_family", "fontfamily", "str", "sans-serif"), ("font_size", "pixelsize", "num", 16),
                           ("bold", "bold", "bool", False), ("italic", "italic", "bool", False),
                           ("kerning", "kerning", "bool", True), ("strike_out", "strikeout", "bool", False),
                           ("underline", "underline", "bool", False), ("horizontal_align", "halign", "str", "left"),
                           ("vertical_align", "valign", "str", "top"), ("wrap", "wrap", "bool", False)):
            f[n] = (t.get(a, c, d), Tx)
    elif shape == "gid":
        g = v.get("gid", "int", None)
        if inst is not None and inst.get("offset") is not None:
            leafs, _ = C.accepts(g)
            a = C.interp.num_atom(next(iter(leafs)))
            g = Atoms(C.interp.unlin(inst["offset"], {a: 1}), what="template gid plus %d" % inst["offset"])
        f["gid"] = (g, T + ("C06",))
    return Obj(SHAPE_CLASS.get(shape, "Rectangle"), f, clstags=("C07", "C08") if inst else ("C07",))


def object_class(C, v):
    """class attribute, else type, else ''.  The instance's own wins over the template's."""
    alts, done = [], False
    for n in v.nids:
        for key in ("class", "type"):
            p = C.pres(n, key)
            if p is not False and not done:
                alts.append(Leaf(n, key, "str"))
            if p is True:
                done = True
    if not done:
        alts.append(Lit(""))
    return alts[0] if len(alts) == 1 else OneOf(alts)


def class_or_type(v):
    return object_class(v.C, v)


# ---------------------------------------------------------------- tilesets
def tileset(v, firstgid, base):
    """base: directory atom for an external tileset, None for an embedded one."""
    C = v.C
    x = v.x
    T = ("C09",)
    f = {
        "name": (v.get("name", "str", None), T),
        "firstgid": (firstgid if isinstance(firstgid, Exp) else Lit(firstgid, "int"), ("C13",)),
    }
    for n, a in (("tile_width", "tilewidth"), ("tile_height", "tileheight"), ("tile_count", "tilecount"),
                 ("columns", "columns")):
        f[n] = (v.get(a, "int", None), T)
    f["spacing"] = (v.get("spacing", "int", 0), T)
    f["margin"] = (v.get("margin", "int", 0), T)
    f["version"] = (v.get("version", "str", None), T)
    f["tiled_version"] = (v.get("tiledversion", "str", None), T)
    f["class_"] = (v.get("class", "str", None), T)
    f["alignment"] = (v.get("objectalignment", "str", None), T)
    f["fill_mode"] = (v.get("fillmode", "str", "stretch"), T)
    f["tile_render_size"] = (v.get("tilerendersize", "str", "tile"), T)
    f["background_color"] = (v.get("backgroundcolor", "color", None), T + ("C20",))
    f["tile_offset"] = (v.part("tileoffset", lambda c: point(c.get("x", "int", 0), c.get("y", "int", 0))), T)
    f["grid"] = (v.part("grid", lambda c: NT("Grid", [("orientation", c.get("orientation", "str", None)),
                                                      ("width", c.get("width", "int", None)),
                                                      ("height", c.get("height", "int", None))])), T)
    f["transformations"] = (v.part("transformations", lambda c: Obj("Transformations", {
        n: (c.get(a, "bool", False), T) for n, a in (("hflip", "hflip"), ("vflip", "vflip"), ("rotate", "rotate"),
                                                    ("prefer_untransformed", "preferuntransformed"))}, clstags=T)), T)
    if x:
        def im(key, conv, b=None):
            return v.part("image", lambda c: c.get(key, conv, None, b))
        f["image"] = (im("source", "path", base), T + ("C12",))
        f["image_width"] = (im("width", "int"), T)
        f["image_height"] = (im("height", "int"), T)
        f["transparent_color"] = (im("trans", "color"), T + ("C20",))
    else:
        f["image"] = (v.get("image", "path", None, base), T + ("C12",))
        f["image_width"] = (v.get("imagewidth", "int", None), T)
        f["image_height"] = (v.get("imageheight", "int", None), T)
        f["transparent_color"] = (v.get("transparentcolor", "color", None), T + ("C20",))
    f["properties"] = (v.part("properties", properties, None), T + ("C11",))
    tiles, keyed = [], False
    if x:
        nodes = v.elems("tiles", "tile")
    else:
        nodes = v.elems("tiles", "tile")
    for t in nodes:
        tid = C.tile_id(t.nid)
        tiles.append((Lit(tid, "int"), tile(t, base)))
    full = Dct(tiles, T + ("C13",), T + ("C13",))
    alts = []
    if x:
        alts = [full] if tiles else [Lit(None), full]
    else:
        p = v.has("tiles")
        if p is not False:
            alts.append(full)
        if p is not True:
            alts.append(Lit(None))
        if p is not True or not tiles:
            alts.append(Dct([], T, T))
            alts.append(Lit(None))
    f["tiles"] = (alts[0] if len(alts) == 1 else OneOf(alts), T + ("C13",))

    def wang(c):
        if x:
            ws = c.elems(None, "wangset")
        else:
            ws = [View(C, n.id) for n, _ in C.world.nodes[c.nid].items]
        return Lst([wangset(w) for w in ws], ("C10",))
    f["wang_sets"] = (v.part("wangsets", wang, None), ("C10",))
    return Obj("Tileset", f, clstags=T)


def tile(v, base):
    C = v.C
    T = ("C09",)
    x = v.x
    f = {"id": (Lit(C.tile_id(v.nid), "int"), T + ("C13",)), "class_": (none_class(v), T)}
    f["x"] = (v.get("x", "int", 0), T)
    f["y"] = (v.get("y", "int", 0), T)
    f["opacity"] = (Lit(1), T)
    f["animation"] = (v.part("animation", lambda c: Lst([
        NT("Frame", [("tile_id", fr.get("tileid", "int", None)), ("duration", fr.get("duration", "int", None))])
        for fr in frames(c)], T)), T)
    f["objects"] = (v.part("objectgroup", lambda c: any_layer(c, C)), T)
    f["properties"] = (v.part("properties", properties, None), T + ("C11",))
    for n, a in (("width", "width"), ("height", "height")):
        if x:
            iw = v.part("image", lambda c: c.get(a, "int", Lit(None)))
            dw = v.part("image", lambda c: c.get(a, "int", Lit(0)), 0)
        else:
            iw = v.get("image" + a, "int", None)
            dw = v.get("image" + a, "int", 0)
        f["image_" + n] = (iw, T)
        f[n] = (v.get(a, "int", dw), T)
    if x:
        f["image"] = (v.part("image", lambda c: c.get("source", "path", None, base)), T + ("C12",))
    else:
        f["image"] = (v.get("image", "path", None, base), T + ("C12",))
    return Obj("Tile", f, clstags=T)


def none_class(v):
    e = class_or_type(v)
    alts = e.alts if isinstance(e, OneOf) else [e]
    alts = [Lit(None) if isinstance(a, Lit) else a for a in alts]
    return alts[0] if len(alts) == 1 else OneOf(alts)


def frames(v):
    node = v.C.world.nodes[v.nid]
    return [View(v.C, c.id) for c, _ in (node.items if not v.x else node.kids)]


def wangset(v):
    C = v.C
    T = ("C10",)
    f = {"name": (v.get("name", "str", None), T), "tile": (v.get("tile", "int", None), T),
         "wang_type": (v.get("type", "str", None), T), "class_": (v.get("class", "str", None), T),
         "properties": (v.part("properties", properties, None), T + ("C11",))}
    cols = []
    for c in v.elems("colors", "wangcolor"):
        cols.append(Obj("WangColor", {
            "name": (c.get("name", "str", None), T), "color": (c.get("color", "color", None), T + ("C20",)),
            "tile": (c.get("tile", "int", None), T), "probability": (c.get("probability", "num", None), T),
            "class_": (c.get("class", "str", None), T),
            "properties": (c.part("properties", properties, None), T + ("C11",))}, clstags=T))
    f["wang_colors"] = (Lst(cols, T), T)
    tiles = []
    for t in v.elems("wangtiles", "wangtile"):
        tid = int(C.world.key(t.nid, "tileid").const)
        if v.x:
            leaf = ("leaf", t.nid, "wangid")
            ids = Lst([Atoms(("term", "int", ("part", leaf, i)), what="wang id %d" % i) for i in range(8)], T)
        else:
            ids = Lst([Leaf(t.nid + ".wangid", i, "int") for i in range(8)], T)
        tiles.append((Lit(tid, "int"), Obj("WangTile", {"tile_id": (Lit(tid, "int"), T + ("C13",)),
                                                        "wang_id": (ids, T)}, clstags=T)))
    f["wang_tiles"] = (Dct(tiles, T + ("C13",), T + ("C13",)), T + ("C13",))
    return Obj("WangSet", f, clstags=T)


# ---------------------------------------------------------------- maps
def tiled_map(C, root, mapfile, tilesets):
    """tilesets: [(firstgid, Exp)]"""
    v = View(C, root)
    T = ("C02",)
    f = {
        "map_file": (Atoms(mapfile, what="the map's path"), T),
        "infinite": (v.get("infinite", "bool", False), T),
        "map_size": (size(v.get("width", "int", None), v.get("height", "int", None)), T),
        "tile_size": (size(v.get("tilewidth", "int", None), v.get("tileheight", "int", None)), T),
        "next_layer_id": (v.get("nextlayerid", "int", None), T),
        "next_object_id": (v.get("nextobjectid", "int", None), T),
        "orientation": (v.get("orientation", "str", None), T),
        "render_order": (v.get("renderorder", "str", None), T),
        "tiled_version": (v.get("tiledversion", "str", ""), T),
        "version": (v.get("version", "str", None), T),
        "parallax_origin": (point(v.get("parallaxoriginx", "num", 0), v.get("parallaxoriginy", "num", 0)), T),
        "class_": (v.get("class", "str", None), T),
        "background_color": (v.get("backgroundcolor", "color", None), T + ("C20",)),
        "properties": (v.part("properties", properties, None), T + ("C11",)),
        "hex_side_length": (v.get("hexsidelength", "int", None), T),
        "stagger_axis": (v.get("staggeraxis", "str", None), T),
        "stagger_index": (v.get("staggerindex", "str", None), T),
        "layers": (Lst([any_layer(la, C) for la in sub_layers(v)], ("C04",)), ("C04",)),
        "tilesets": (Dct([(Lit(g, "int"), e) for g, e in tilesets], ("C13",), ("C13",)), ("C13",)),
    }
    return Obj("TiledMap", f, clstags=T)

"""Skeleton builders: Tiled documents of both formats with abstract leaves.

`S` holds the choices of one scenario (formats, colour shapes, list sizes, data encodings).
Every builder returns a docs.Node; ids are readable paths, unique in the world.
"""
from .docs import K, Node, World
from .models import mk_join, mk_parent

MAPFILE = ("param", "file")


class S:
    def __init__(self, fmt, **kw):
        self.fmt = fmt
        self.turn = 0              # which colour form the first colour has
        self.version = "str"       # JSON version: str | realfloat | int
        self.empty = False         # all lists empty
        self.text = "leaf"
        self.legacy = False        # legacy JSON forms
        self.big = 0               # if not 0: this many of everything below a tileset
        self.frames = self.colors = self.wtiles = self.wangs = self.points = self.tobjs = 0   # same, one kind each
        self.props = 0
        self.bare = False          # tiles and Wang sets are there, their own lists are empty
        self.classprops = False    # properties of types the library does not document
        self.__dict__.update(kw)

    def but(self, **kw):
        s = S(self.fmt)
        s.__dict__.update(self.__dict__)
        s.__dict__.update(kw)
        return s


def k(stype="str", opt=False, const=None, with_=(), shape="#8", needs=None):
    return K(stype, opt, const, with_, shape, needs)


def permuted(n):
    """0 .. about n in an order that is not sorted."""
    p = next((p for p in (2, 3, 5, 11, 13, 17, 29, 37, 41, 53, 67, 101, 131, 257, 263, 307) if p >= n), n + 1)
    return [(5 * j + 4) % p for j in range(n)] if p % 5 else [(3 * j + 2) % p for j in range(n)]


class Doc:
    """Builds nodes of one format."""

    def __init__(self, s, fmt=None):
        self.s = s
        self.fmt = fmt or s.fmt
        self.x = self.fmt == "xml"
        self.turn = s.turn

    # ---- generic
    def node(self, nid, tag, keys=None, kids=(), text=None, kopt=None):
        ks = {}
        for n, v in (keys or {}).items():
            if v is not None:
                ks[n] = v
        if self.x:
            return Node(nid, "xml", tag, ks, list(kids), None, text)
        return Node(nid, "json", tag, ks, kopt=kopt)

    def arr(self, nid, items):
        return Node(nid, "json", None, items=[(i, False) for i in items])

    SHAPES_C = ("#8", "#6", "8", "6")

    def shape(self):
        """The textual form of the next colour: the forms take turns."""
        self.turn += 1
        return self.SHAPES_C[self.turn % 4]

    def color(self, opt=True, needs=None):
        return k("color", opt, shape=self.shape(), needs=needs)

    def const(self, v):
        """A fixed raw value in this format."""
        return k(const=str(v) if self.x else v)

    def num(self, opt=False, const=None):
        return k("num" if self.x else "num", opt, const)

    # ---- properties
    PROPS = [("Str A", "string", "str"), ("i", "int", "int"), ("F_f", "float", "num"), ("flag ", "bool", "bool"),
             ("tint", "color", "color"), ("File.1", "file", "path"), ("ref", "object", "int"),
             ("bare", None, "str"), ("lines", None, "text")]

    def properties(self, owner, which=None):
        """The properties part of `owner`."""
        props = self.PROPS if which is None else [self.PROPS[i] for i in which]
        if self.s.props:
            props = [("p%d" % i, "int", "int") for i in permuted(self.s.props)]
        nid = owner + ".properties"
        nodes = []
        for n, t, st in ([] if self.s.empty else props):
            pid = "%s[%s]" % (nid, n)
            if self.x:
                ks = {"name": k(const=n)}
                if t:
                    ks["type"] = k(const=t)
                if st == "text":
                    nodes.append(Node(pid, "xml", "property", ks, text=k("str")))
                    continue
                ks["value"] = k({"bool": "tfbool"}.get(st, st), shape=self.shape())
                nodes.append(Node(pid, "xml", "property", ks))
            else:
                ks = {"name": k(const=n), "type": k(const=t or "string"),
                      "value": k("str" if st == "text" else st, shape=self.shape())}
                nodes.append(Node(pid, "json", "property", ks))
        for n, t in (("a class", "class"), ("a list", "list")) if self.s.classprops else ():
            pid = "%s[%s]" % (nid, n)
            ks = {"name": k(const=n), "type": k(const=t), "propertytype": k("str")}
            if self.x:
                m = Node(pid + ".m", "xml", "property", {"name": k("str"), "value": k("str")})
                ks = Node(pid, "xml", "property", ks, [(Node(pid + ".p", "xml", "properties", {}, [(m, False)]), False)])
            else:
                ks["value"] = Node(pid + ".v", "json", None, {"m": k("int")})
                ks = Node(pid, "json", "property", ks)
            nodes.append(ks)
        if self.x:
            return Node(nid, "xml", "properties", {}, [(n, False) for n in nodes])
        if self.s.legacy:
            return Node(nid, "json", "properties",
                        {n: k({"text": "str", "color": "str", "path": "str"}.get(st, st)) for n, t, st in props})
        return self.arr(nid, nodes)

    def with_props(self, nid, keys, kids, kopt, which=None, opt=True):
        p = self.properties(nid, which)
        if self.x:
            kids.insert(0, (p, opt))
        else:
            keys["properties"] = p
            if opt:
                kopt["properties"] = True

    # ---- layers
    def layer_common(self, nid, keys, kids, kopt):
        x = self.x
        keys["id"] = k("int", True)
        keys["name"] = k("str", x)
        keys["class"] = k("str", True)
        keys["opacity"] = k("num", x)
        keys["visible"] = k("bool", x)
        for n in ("offsetx", "offsety", "parallaxx", "parallaxy"):
            keys[n] = k("num", True)
        keys["tintcolor"] = self.color()
        keys["repeatx"] = k("bool", True)
        keys["repeaty"] = k("bool", True)
        keys["locked"] = k("bool", True)
        if not x:
            keys["x"] = k("int", False)
            keys["y"] = k("int", False)
        self.with_props(nid, keys, kids, kopt, which=(0, 3))

    JT = {"layer": "tilelayer", "objectgroup": "objectgroup", "imagelayer": "imagelayer", "group": "group"}

    def layer(self, nid, kind, keys, kids, kopt):
        k0, ki0, ko0 = {}, [], {}
        self.layer_common(nid, k0, ki0, ko0)
        if not self.x:
            k0["type"] = k(const=self.JT[kind])
        k0.update(keys)
        return self.node(nid, kind, k0, ki0 + list(kids), kopt={**ko0, **kopt})

    def tilelayer(self, nid, data):
        """data: dict(form='list'|'csv'|'b64', comp, w, h, chunks=[(w,h)...] or None, const sizes)"""
        x = self.x
        keys, kids, kopt = {}, [], {}
        w, h = data.get("w"), data.get("h")
        keys["width"] = self.const(w) if w is not None else k("int")
        keys["height"] = self.const(h) if h is not None else k("int")
        if not x:
            keys["startx"] = k("int", True, with_=("starty",))
            keys["starty"] = k("int", True, with_=("startx",))
        form, comp = data.get("form"), data.get("comp")
        if form is None:
            return self.layer(nid, "layer", keys, kids, kopt)
        enc = {}
        if form == "b64":
            enc["encoding"] = k(const="base64")
            if comp is not None:
                enc["compression"] = k(const=comp)
        elif form == "csv" or data.get("explicit"):
            enc["encoding"] = k(const="csv")

        def payload(n, pid):
            n = data.get("n", n)
            if form == "b64":
                return k(("b64", 4 * n, comp or ""))
            if x:
                return k(("csv", n))
            return self.arr(pid, [k("int") for _ in range(n)])

        if data.get("chunks") is not None:
            cs = []
            for i, (cw, ch) in enumerate(data["chunks"]):
                cid = "%s.chunk%d" % (nid, i)
                ck = {"x": k("int"), "y": k("int"), "width": self.const(cw), "height": self.const(ch)}
                if x:
                    cs.append(Node(cid, "xml", "chunk", ck, text=payload(cw * ch, None)))
                else:
                    ck["data"] = payload(cw * ch, cid + ".data")
                    cs.append(Node(cid, "json", "chunk", ck))
            if x:
                kids.append((Node(nid + ".data", "xml", "data", enc, [(c, False) for c in cs],
                                  text=k(const="\n   ") if cs or form == "b64" else None), False))
            else:
                keys["chunks"] = self.arr(nid + ".chunks", cs)
                keys.update(enc)
        elif x:
            kids.append((Node(nid + ".data", "xml", "data", enc, text=payload(w * h, None)), False))
        else:
            keys["data"] = payload(w * h, nid + ".data")
            keys.update(enc)
        return self.layer(nid, "layer", keys, kids, kopt)

    def objectlayer(self, nid, objects):
        keys = {"draworder": k("str", self.x), "color": self.color() if self.x else None}
        keys = {a: b for a, b in keys.items() if b is not None}
        kids = []
        if self.x:
            kids = [(o, False) for o in objects]
        else:
            keys["objects"] = self.arr(nid + ".objects", objects)
        return self.layer(nid, "objectgroup", keys, kids, {})

    def imagelayer(self, nid):
        if self.x:
            im = Node(nid + ".image", "xml", "image",
                      {"source": k("path"), "trans": self.color(), "width": k("int", True), "height": k("int", True)})
            return self.layer(nid, "imagelayer", {}, [(im, False)], {})
        return self.layer(nid, "imagelayer", {"image": k("path"), "transparentcolor": self.color()}, [], {})

    def group(self, nid, layers):
        if self.x:
            return self.layer(nid, "group", {}, [(c, False) for c in layers], {})
        return self.layer(nid, "group", {"layers": self.arr(nid + ".layers", layers)}, [], {})

    # ---- objects
    def object(self, nid, shape, which=(0, 1), instance=None, templated=False, gid=None):
        """instance: template reference K -> the object states only some attributes itself;
        templated: the object of a template file."""
        x = self.x
        inst = instance is not None
        # a position is given by the instance or else by the template
        odd = self.s.turn % 2 == 1
        keys, kids, kopt = {"id": k("int", templated)}, [], {}
        if inst:
            keys["template"] = instance
        if gid is not None:
            keys["gid"] = gid
        free = odd if inst else templated and not odd
        keys["x"] = k("num", free)
        keys["y"] = k("num", free)
        o = x or inst
        keys["width"] = k("num", o)
        keys["height"] = k("num", o)
        keys["rotation"] = k("num", o)
        keys["visible"] = k("bool", o)
        keys["name"] = k("str", o)
        keys["type"] = k("str", True)
        keys["class"] = k("str", True)
        self.with_props(nid, keys, kids, kopt, which)
        if shape in ("ellipse", "point"):
            if x:
                kids.append((Node(nid + "." + shape, "xml", shape), False))
            else:
                keys[shape] = k(const=True)
        elif shape in ("polygon", "polyline"):
            n = self.s.points or ((3, 2, 5, 4) if shape == "polygon" else (2, 3, 2, 6))[self.s.turn % 4] + inst
            if x:
                kids.append((Node(nid + "." + shape, "xml", shape, {"points": k(("points", n))}), inst))
            else:
                kopt[shape] = inst
                keys[shape] = self.arr(nid + "." + shape, [
                    Node("%s.%s[%d]" % (nid, shape, i), "json", None, {"x": k("num"), "y": k("num")})
                    for i in range(n)])
        elif shape == "text":
            tk = {}
            if not x:
                tk["text"] = k("str")
            tk["color"] = self.color()
            tk["fontfamily"] = k("str", True)
            tk["pixelsize"] = k("num", True)
            for n in ("bold", "italic", "kerning", "strikeout", "underline", "wrap"):
                tk[n] = k("bool", True)
            tk["halign"] = k("str", True)
            tk["valign"] = k("str", True)
            if x:
                kids.append((Node(nid + ".text", "xml", "text", tk, text=k("str", True)), inst))
            else:
                kopt["text"] = inst
                keys["text"] = Node(nid + ".text", "json", "text", tk)
        elif shape == "tile":
            keys["gid"] = k("int")
        return self.node(nid, "object", keys, kids, kopt=kopt)

    SHAPES = ("rectangle", "ellipse", "point", "polygon", "polyline", "text", "tile")

    # ---- tilesets
    def tileset(self, nid, images="both", ntiles=2, firstgid=None, name=None, tilecount=None, empty=None,
                source=None, root=False, tileids=(7, 0)):
        """An embedded tileset (firstgid set) or a tileset file's root."""
        x = self.x
        empty = self.s.empty if empty is None else empty
        keys, kids, kopt = {}, [], {}
        if firstgid is not None:
            keys["firstgid"] = self.const(firstgid)
        keys["name"] = k(const=name) if name is not None else k("str")
        for n in ("tilewidth", "tileheight"):
            keys[n] = k("int")
        keys["columns"] = k("int")
        keys["tilecount"] = self.const(tilecount) if tilecount is not None else k("int")
        keys["spacing"] = k("int", x)
        keys["margin"] = k("int", x)
        keys["version"] = k("str", True) if x else k(self.s.version, True)
        keys["tiledversion"] = k("str", True)
        for n in ("objectalignment", "class", "fillmode", "tilerendersize"):
            keys[n] = k("str", True)
        keys["backgroundcolor"] = self.color()

        def sub(name, node):
            if x:
                kids.append((node, True))
            else:
                keys[name] = node
                kopt[name] = True

        J = "xml" if x else "json"
        sub("tileoffset", Node(nid + ".tileoffset", J, "tileoffset", {"x": k("int"), "y": k("int")}))
        sub("grid", Node(nid + ".grid", J, "grid", {"orientation": k("str"), "width": k("int"), "height": k("int")}))
        sub("transformations", Node(nid + ".transformations", J, "transformations", {
            n: k("bool") for n in ("hflip", "vflip", "rotate", "preferuntransformed")}))
        if images in ("both", "set"):
            if x:
                kids.append((Node(nid + ".image", "xml", "image", {
                    "source": k("path"), "trans": self.color(), "width": k("int", True), "height": k("int", True)}),
                    True))
            else:
                keys["image"] = k("path", True)
                keys["transparentcolor"] = self.color(needs="image")
                keys["imagewidth"] = k("int", True, needs="image")
                keys["imageheight"] = k("int", True, needs="image")
        self.with_props(nid, keys, kids, kopt, (0, 4))
        tiles = [] if empty else [self.tile("%s.tile%d" % (nid, i), i, j) for j, i in enumerate(tileids[:ntiles])]
        wang = [] if empty else [self.wangset("%s.wang%d" % (nid, i), i) for i in range(self.s.wangs or self.s.big or 2)]
        if x:
            kids += [(t, False) for t in tiles]
            kids.append((Node(nid + ".wangsets", "xml", "wangsets", {}, [(w, False) for w in wang]), True))
        else:
            if self.s.legacy:
                for t in tiles:
                    t.keys.pop("id")
                keys["tiles"] = Node(nid + ".tiles", "json", None,
                                     {str(i): t for i, t in zip(tileids, tiles)})
            else:
                keys["tiles"] = self.arr(nid + ".tiles", tiles)
            kopt["tiles"] = True
            keys["wangsets"] = self.arr(nid + ".wangsets", wang)
            kopt["wangsets"] = True
        return self.node(nid, "tileset", keys, kids, kopt=kopt)

    def tile(self, nid, tid, j):
        x = self.x
        keys, kids, kopt = {"id": self.const(tid), "type": k("str", True), "class": k("str", True)}, [], {}
        for n in ("x", "y", "width", "height"):
            keys[n] = k("int", True)
        frames = [Node("%s.frame%d" % (nid, i), self.fmt, "frame", {"duration": k("int"), "tileid": k("int")})
                  for i in range(0 if self.s.bare else self.s.frames or self.s.big or (2, 1, 3, 6)[(self.s.turn + j) % 4])]
        og = self.objectlayer(nid + ".objectgroup", [
            self.object("%s.objectgroup.obj%d" % (nid, i), sh, which=(1,))
            for i, sh in enumerate(() if self.s.bare or j == 1 and self.s.turn % 4 == 1 and not self.s.big and not self.s.tobjs else
                                   ("polygon", "rectangle", "ellipse") if j == 0 and not self.s.big and not self.s.tobjs else
                                   ("point", "polyline") + ("rectangle",) * ((self.s.tobjs or self.s.big) - 2))])
        self.with_props(nid, keys, kids, kopt, (1, 5))
        if x:
            kids.append((Node(nid + ".animation", "xml", "animation", {}, [(f, False) for f in frames]), True))
            kids.append((og, True))
            kids.append((Node(nid + ".image", "xml", "image", {
                "source": k("path"), "width": k("int", True), "height": k("int", True)}), True))
        else:
            keys["animation"] = self.arr(nid + ".animation", frames)
            kopt["animation"] = True
            keys["objectgroup"] = og
            kopt["objectgroup"] = True
            keys["image"] = k("path", True)
            # the image size belongs to the image
            keys["imagewidth"] = k("int", True, needs="image")
            keys["imageheight"] = k("int", True, needs="image")
        return self.node(nid, "tile", keys, kids, kopt=kopt)

    def wangset(self, nid, i):
        x = self.x
        keys, kids, kopt = {"name": k("str"), "tile": k("int"), "type": k("str"), "class": k("str", True)}, [], {}
        self.with_props(nid, keys, kids, kopt, (0,))
        colors = []
        for c in range(0 if self.s.bare else self.s.colors or self.s.big or (2, 3, 1, 4)[(self.s.turn + i) % 4]):
            cid = "%s.color%d" % (nid, c)
            ck, ckid, cko = {"name": k("str"), "color": self.color(False), "tile": k("int"),
                             "probability": k("num"), "class": k("str", True)}, [], {}
            self.with_props(cid, ck, ckid, cko, (3,))
            colors.append(self.node(cid, "wangcolor", ck, ckid, kopt=cko))
        tiles = []
        for t in () if self.s.bare else permuted(self.s.wtiles or self.s.big) or ((9, 0) if i == 0 else (0, 4)):
            tid = "%s.wtile%d" % (nid, t)
            ids = k(("csv", 8)) if x else self.arr(tid + ".wangid", [k("int") for _ in range(8)])
            tiles.append(self.node(tid, "wangtile", {"tileid": self.const(t), "wangid": ids}))
        if x:
            kids += [(c, False) for c in colors] + [(t, False) for t in tiles]
        else:
            keys["colors"] = self.arr(nid + ".colors", colors)
            keys["wangtiles"] = self.arr(nid + ".wangtiles", tiles)
        return self.node(nid, "wangset", keys, kids, kopt=kopt)

    def tileset_ref(self, nid, firstgid, const=None):
        return self.node(nid, "tileset", {"firstgid": self.const(firstgid),
                                          "source": k("path") if const is None else k(const=const)})

    # ---- maps
    def map(self, nid, layers, tilesets):
        x = self.x
        keys, kids, kopt = {}, [], {}
        for n in ("width", "height", "tilewidth", "tileheight", "nextobjectid"):
            keys[n] = k("int")
        keys["nextlayerid"] = k("int", not x)
        keys["infinite"] = k("bool", not x)
        keys["orientation"] = k("str")
        keys["renderorder"] = k("str")
        keys["tiledversion"] = k("str", not x)
        keys["version"] = k("str") if x else k(self.s.version)
        keys["class"] = k("str", True)
        keys["backgroundcolor"] = self.color()
        keys["hexsidelength"] = k("int", True)
        keys["staggeraxis"] = k("str", True)
        keys["staggerindex"] = k("str", True)
        keys["parallaxoriginx"] = k("num", True)
        keys["parallaxoriginy"] = k("num", True)
        keys["compressionlevel"] = k("int", True)
        if not x:
            keys["type"] = k(const="map")
        self.with_props(nid, keys, kids, kopt)
        if x:
            kids.append((Node(nid + ".editorsettings", "xml", "editorsettings", {}, [
                (Node(nid + ".editorsettings.export", "xml", "export", {"target": k("str"), "format": k("str")}), False)
            ]), True))
            kids += [(t, False) for t in tilesets] + [(la, False) for la in layers]
        else:
            keys["editorsettings"] = Node(nid + ".editorsettings", "json", None, {
                "export": Node(nid + ".editorsettings.export", "json", None, {"target": k("str"), "format": k("str")})})
            kopt["editorsettings"] = True
            keys["tilesets"] = self.arr(nid + ".tilesets", tilesets)
            keys["layers"] = self.arr(nid + ".layers", layers)
        return self.node(nid, "map", keys, kids, kopt=kopt)

    def template(self, nid, obj, tileset=None):
        if self.x:
            return Node(nid, "xml", "template", {}, ([(tileset, False)] if tileset else []) + [(obj, False)])
        ks = {"type": k(const="template"), "object": obj}
        if tileset:
            ks["tileset"] = tileset
        return Node(nid, "json", "template", ks)


def map_dir():
    return mk_parent(MAPFILE)


def ref_path(base, leaf):
    return mk_join(base, leaf)

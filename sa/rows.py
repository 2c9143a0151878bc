"""Partitions of the documents of one scenario: which optional parts are present, which leaves
are zero / false / empty.  The factors of one document part and of its sub-parts are assigned
distinct columns of an orthogonal array over GF(3), so every combination of levels of any t of
them occurs (t = 2 with 81 rows; t = 3 with 729)."""
import itertools
import zlib
from .docs import K, Node

LEVELS = ("absent", "zero", "value")


def columns(t):
    """Vectors over GF(3), any t of them linearly independent."""
    m = 4 if t == 2 else 6
    out, bad = [], set()
    for v in itertools.product(range(3), repeat=m):
        nz = [x for x in v if x]
        if not nz or nz[0] != 1:
            continue
        if t == 2:
            out.append(v)
            continue
        if v in bad:
            continue
        for u in out:
            for c in (1, 2):
                w = tuple((a + c * b) % 3 for a, b in zip(u, v))
                bad.add(w)
                bad.add(tuple(2 * x % 3 for x in w))
        out.append(v)
    return m, out


class Rows:
    def __init__(self, t):
        self.t = t
        self.m, self.cols = columns(t)
        self.points = list(itertools.product(range(3), repeat=self.m))

    def level(self, owner, i, r):
        """Level (0..2) of factor i of the part family `owner` in row r."""
        h = zlib.crc32(owner.encode())
        col = self.cols[(i + h) % len(self.cols)]
        return (sum(a * b for a, b in zip(col, self.points[r])) + h // 997 + i) % 3


ZEROABLE = ("int", "num", "str", "bool", "tfbool", "float")


def factors(world):
    """[(family, index, kind, nid, key, optional, zeroable, needs, with_)]"""
    out, count = [], {}

    def fam(nid):
        # a part shares columns with the single sub-parts hanging on it
        return owner.get(nid, nid)
    owner = {}

    def visit(n, family):
        owner[n.id] = family

        def add(nid, key, opt, zeroable, needs=None, with_=()):
            i = count.get(family, 0)
            count[family] = i + 1
            out.append((family, i, nid, key, opt, zeroable, needs, with_))
        for key, c in n.keys.items():
            if isinstance(c, K):
                if c.const is not None:
                    if c.opt:
                        add(n.id, key, True, False, c.needs, c.with_)
                    continue
                z = (c.stype in ZEROABLE or key == "value" and c.stype == "path") and key not in ("gid", "template", "source")
                if c.opt or z:
                    add(n.id, key, c.opt, z, c.needs, c.with_)
            else:
                if n.kopt.get(key):
                    add(n.id, key, True, False)
                visit(c, family if not c.isarray else c.id)
        for c, opt in n.kids:
            if opt:
                add(n.id, "<" + c.id + ">", True, False)
            visit(c, family if opt or c.tag in ("image", "text") else c.id)
        for c, _ in n.items or []:
            if isinstance(c, Node):
                visit(c, c.id)
        if n.isarray:
            for i, (c, _) in enumerate(n.items):
                if isinstance(c, K) and c.const is None:
                    add(n.id, i, False, True)
        if n.text is not None and n.text.opt:
            add(n.id, "#text", True, False)
    for fmt, root in world.files.values():
        if root is not None and root.id not in owner:
            visit(root, root.id)
    return out


def facts(world, fs, level):
    """Facts of one row; level(family, i) -> 0..2 or one of LEVELS."""
    f = {}
    for n in world.nodes.values():
        for key, c in n.keys.items():
            if isinstance(c, K) and c.const is None:
                f[("zero", n.id, key)] = False
        if n.text is not None and n.text.const is None:
            f[("zero", n.id, "#text")] = False
        for i, (c, _) in enumerate(n.items or []):
            if isinstance(c, K) and c.const is None:
                f[("zero", n.id, i)] = False
    later = []
    for family, i, nid, key, opt, zeroable, needs, with_ in fs:
        lv = level(family, i)
        if opt and zeroable:
            lv = LEVELS[lv] if isinstance(lv, int) else lv
        elif opt:
            lv = ("absent", "value", "value")[lv] if isinstance(lv, int) else ("value" if lv == "zero" else lv)
        else:
            lv = ("value", "zero", "value")[lv] if isinstance(lv, int) else ("value" if lv == "absent" else lv)
        if opt:
            f[("pres", nid, key)] = lv != "absent"
        if zeroable:
            f[("zero", nid, key)] = lv == "zero"
        if needs or with_:
            later.append((nid, key, needs, with_))
    for nid, key, needs, with_ in later:
        if needs and f.get(("pres", nid, needs)) is False:
            f[("pres", nid, key)] = False
        for w in with_:
            f[("pres", nid, w)] = f[("pres", nid, key)]
    return f


DISTINCT = ("id", "gid", "firstgid", "tileid")


def equal(world):
    """{leaf: the leaf whose value it repeats}: all leaves of one kind hold the same value, except
    those that name files of the world or must differ for the document to be well-formed."""
    names = set()

    def walk(a):
        if isinstance(a, tuple):
            if len(a) == 3 and a[0] == "leaf":
                names.add(a[1:])
            for x in a:
                walk(x)
    for p in world.files:
        walk(p)
    rep, out = {}, {}
    for n in world.nodes.values():
        if n.id.startswith("wp"):
            continue
        leaves = [(key, c) for key, c in n.keys.items() if isinstance(c, K)]
        leaves += [("#text", n.text)] if n.text is not None else []
        leaves += [(i, c) for i, (c, _) in enumerate(n.items or []) if isinstance(c, K)]
        for key, c in leaves:
            if c.const is not None or (n.id, key) in names or key in DISTINCT or \
                    (key in ("x", "y") and c.stype == "int"):
                continue
            cls = (n.fmt, c.stype, c.shape, key if c.stype == "str" else isinstance(key, int))
            out[(n.id, key)] = rep.setdefault(cls, (n.id, key))
    return out

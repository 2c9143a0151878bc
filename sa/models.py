"""Transfer functions: documents, paths, containers, strings, arithmetic, conditions, library calls."""
import ast
import builtins as _b

from pathlib import PurePosixPath

from .docs import K, Node
from .values import (ABSENT, FALSE, NONE, TRUE, VNONE, AbsDead, Dict, Inst, List, V, const, has_top,
                     is_const, join_values, norm, single, top, vconst, vtop)

NUMERIC = ("int", "float", "num")
PATHOPS = ("Path", "join", "parent", "resolve", "absolute", "withx")
ELEMENT = "xml.etree.ElementTree.Element"



def _host():
    import collections
    import pathlib
    import xml.etree.ElementTree as et
    h = {t.__name__: frozenset(dir(t)) for t in (str, int, float, bool, bytes, tuple)}
    h["list"] = frozenset(dir(list))
    h["NoneType"] = frozenset(dir(None))
    h["dict"] = frozenset(dir(collections.OrderedDict)) | frozenset(dir(collections.defaultdict)) | \
        frozenset(dir(collections.Counter)) | frozenset(dir(collections.ChainMap))
    h[ELEMENT] = frozenset(dir(et.Element("x")))
    h["pathlib.Path"] = frozenset(dir(pathlib.Path))
    return h


HOST = _host()        # type name -> attribute names of the library's type


def _samples():
    import pathlib
    import xml.etree.ElementTree as et
    e = et.Element("x")
    e.append(et.Element("y"))
    return {"str": "a", "int": 0, "float": 0.5, "bool": True, "NoneType": None, "list": [0], "dict": {"a": 0},
            "tuple": (0,), "bytes": b"a", "set": {0}, ELEMENT: e, "pathlib.Path": pathlib.PurePosixPath("a")}


SAMPLES = _samples()      # one value per library type, to ask Python itself which operand types an operator rejects


def is_path(a):
    return a[0] == "param" or (a[0] == "term" and a[1] in PATHOPS)


def mk_path(a):
    """pathlib.Path(a)"""
    if is_path(a):
        return a
    if a[0] == "term" and a[1] == "str" and is_path(a[2]):
        return a[2]
    return ("term", "Path", a)


def unpath(a):
    a = a[2] if a[0] == "term" and a[1] == "str" and is_path(a[2]) else a
    return a[2] if a[0] == "term" and a[1] == "Path" else a


def mk_join(a, b):
    if a[0] == "top" or b[0] == "top":
        return top("path")
    a = mk_path(a)
    b = unpath(b)
    if a == ("term", "Path", const("")) or a == ("term", "Path", const(".")):
        return mk_path(b)
    if b == const("") or b == const("."):
        return a
    return ("term", "join", a, b)


def mk_parent(p):
    p = mk_path(p)
    if p[0] == "term" and p[1] == "join":
        b = p[3]
        if b[0] == "fname" or (b[0] == "const" and isinstance(b[2], str) and "/" not in b[2]
                               and b[2] not in ("", ".", "..")):
            return p[2]
    return ("term", "parent", p)


def same_name(p):
    """The file parsed earlier has the name of the one parsed now."""
    return ("param", "file") if strip_abs(mk_path(p)) == ("param", "earlier") else p


def last_part(p):
    """Name of the file a path ends in, where the scenario fixes it."""
    p = strip_abs(mk_path(p))
    if p[0] == "term" and p[1] == "join" and p[3][0] == "const" and isinstance(p[3][2], str) and \
            p[3][2].rpartition("/")[2] not in ("", ".", ".."):
        return p[3][2].rpartition("/")[2]
    return None


def plain_path(p):
    """Composed of joins, parents, document text and the caller's path only."""
    if p[0] in ("param", "leaf", "const", "fname"):
        return True
    return p[0] == "term" and p[1] in ("join", "parent", "resolve", "absolute", "Path") and \
        all(plain_path(x) for x in p[2:])


def mk_resolve(p):
    p = strip_abs(mk_path(p))
    return ("term", "resolve", p)


def mk_absolute(p):
    p = mk_path(p)
    if p[0] == "term" and p[1] in ("resolve", "absolute"):
        return p
    return ("term", "absolute", p)


def strip_abs(p):
    """Same file, ignoring where along the path it was made absolute."""
    if p[0] == "term":
        if p[1] in ("resolve", "absolute"):
            return strip_abs(p[2])
        if p[1] in ("join", "parent"):
            return (p[0], p[1], strip_abs(p[2])) + p[3:]
    return p


# ------------------------------------------------------------------ linear forms
def bits_of(a):
    return 8 if a[0] == "byte" else 4 if a[0] == "dig" else None


def lin_of(a):
    if a[0] == "const":
        if isinstance(a[2], (int, float)):
            return a[2], {}
        return None
    if a[0] == "lin":
        return a[1], dict(a[2])
    if a[0] in ("byte", "dig"):
        return 0, {a: 1}
    if a[0] == "term" and a[1] in ("int", "float", "mul", "max", "min", "group", "len", "abs", "round"):
        return 0, {a: 1}
    if a[0] == "num":
        return 0, {a: 1}
    return None


def mk_lin(c, terms):
    terms = {k: v for k, v in terms.items() if v != 0}
    if not terms:
        return const(c)
    if c == 0 and len(terms) == 1:
        (k, v), = terms.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(terms.items(), key=repr)))


def lin_bits(c, t):
    """[(pos, width, atom)] when the form is a concatenation of disjoint digit fields and constant bits."""
    if not isinstance(c, int) or c < 0:
        return None
    out = []
    for a, k in t.items():
        w = bits_of(a)
        if w is None or not isinstance(k, int) or k <= 0 or k & (k - 1):
            return None
        out.append((k.bit_length() - 1, w, a))
    out.sort()
    for (p, w, _), (q, _, _) in zip(out, out[1:]):
        if p + w > q:
            return None
    if any(c >> p & ((1 << w) - 1) for p, w, _ in out):
        return None
    return out


M32 = 0xFFFFFFFF


def masked(a):
    """(number, mask) when the atom is a number of the document cut by a constant mask."""
    if a[0] == "num" and a[1] == "BitAnd" and len(a) == 4:
        for x, m in ((a[2], a[3]), (a[3], a[2])):
            if m[0] == "const" and isinstance(m[2], int) and (x[0] == "leaf" or x[:2] == ("term", "int")):
                return x, m[2] & M32
    return None


class Models:
    # ------------------------------------------------------------ documents
    def presence_def(self, nid, key):
        n = self.world.nodes[nid]
        if isinstance(key, str) and key.startswith("<"):
            for c, opt in n.kids:
                if "<" + c.id + ">" == key:
                    return None if opt else True
            return False
        if key == "#text":
            return False if n.text is None else (None if n.text.opt else True)
        c = n.keys.get(key)
        if c is None:
            return False
        if isinstance(c, Node):
            return None if n.kopt.get(key) else True
        return None if c.opt else True

    def presence(self, st, nid, key):
        f = st.facts.get(("pres", nid, key))
        return self.presence_def(nid, key) if f is None else f

    def key_value(self, nid, gen, key):
        c = self.world.key(nid, key)
        if isinstance(c, Node):
            return V(("node", c.id, gen))
        if isinstance(c, K) and c.const is not None:
            return V(const(c.const))
        return V(("leaf",) + self.same(nid, key))

    def read_base(self, st, nid, gen, key):
        p = self.presence(st, nid, key)
        if p is False:
            return V(ABSENT)
        v = self.key_value(nid, gen, key)
        return v if p else v | V(ABSENT)

    def read_raw(self, st, nid, gen, key):
        o = st.over.get((nid, gen, key))
        return self.read_base(st, nid, gen, key) if o is None else o

    def kids_base(self, nid, gen):
        n = self.world.nodes[nid]
        return tuple((("k", c.id, gen), ("node", c.id, gen),
                      (("pres", nid, "<" + c.id + ">"), True) if opt else None) for c, opt in n.kids)

    def kids(self, st, nid, gen):
        o = st.over.get(("kids", nid, gen))
        return self.kids_base(nid, gen) if o is None else o

    def node(self, a):
        return self.world.nodes[a[1]]

    def meta(self, a):
        """K of a leaf atom."""
        return self.world.key(a[1], a[2])

    def fmt(self, a):
        return self.world.nodes[a[1]].fmt

    def node_keys(self, a, st):
        """[(key, cond)] of a JSON object or an attribute map."""
        nid, gen = a[1], a[2]
        n = self.world.nodes[nid]
        out = []
        for k in n.keys:
            o = st.over.get((nid, gen, k))
            if o is not None:
                if o == V(ABSENT):
                    continue
                out.append((k, True if ABSENT in o else None))
            else:
                p = self.presence(st, nid, k)
                if p is False:
                    continue
                out.append((k, None if p else (("pres", nid, k), True)))
        for kk, o in st.over.items():
            if len(kk) == 3 and kk[0] == nid and kk[1] == gen and kk[2] not in n.keys and kk[2] != "#text":
                if o != V(ABSENT):
                    out.append((kk[2], True if ABSENT in o else None))
        return out

    def get_forks(self, a, key, default, st):
        """.get(key, default) on a JSON object / attribute map."""
        nid, gen = a[1], a[2]
        if st.over.get((nid, gen, key)) is not None:
            v = st.over[(nid, gen, key)]
            if ABSENT in v:
                return [((v - V(ABSENT)) | default, st)]
            return [(v, st)]
        p = self.presence(st, nid, key)
        if p is False:
            return [(default, st)]
        v = self.key_value(nid, gen, key)
        if p:
            return [(v, st)]
        z = st.copy()
        out = []
        x = self.assume(st, ("pres", nid, key), True)
        if x is not None:
            out.append((v, x))
        y = self.assume(z, ("pres", nid, key), False)
        if y is not None:
            out.append((default, y))
        return out

    def node_item(self, a, key, st):
        nid, gen = a[1], a[2]
        v = self.read_raw(st, nid, gen, key)
        if ABSENT in v:
            z = st.copy()
            if (nid, gen, key) not in st.over:
                z = self.assume(z, ("pres", nid, key), False)
                if z is not None:
                    self.raise_exc(("exc", "builtins.KeyError", vconst("%s of %s" % (key, nid))), z)
                if v == V(ABSENT) or self.assume(st, ("pres", nid, key), True) is None:
                    raise AbsDead()
            else:
                self.raise_exc(("exc", "builtins.KeyError", vconst("%s of %s" % (key, nid))), z)
                if v == V(ABSENT):
                    raise AbsDead()
            v = v - V(ABSENT)
        return v

    def set_node_item(self, a, key, v, st):
        st.over = dict(st.over)
        st.over[(a[1], a[2], key)] = v

    # ------------------------------------------------------------ iteration
    def is_listlike(self, a, st):
        return (a[0] == "obj" and st.heap[a[1]].kind == "list") or \
            (a[0] == "node" and self.node(a).isarray)

    def obj_ltype(self, a, st):
        return st.heap[a[1]].ltype if a[0] == "obj" else "list"

    def array_obj(self, a, st, make=False):
        """Heap list standing for a JSON array that the code changes."""
        o = st.over.get(("aslist", a[1], a[2]))
        if o is not None and ABSENT not in o:
            return single(o)
        if not make:
            return None
        items = self.array_items(a, st)
        r = self.alloc(st, List([(self.fresh(), v, c) for v, c in items], site="document"))
        st.over = dict(st.over)
        st.over[("aslist", a[1], a[2])] = r
        return single(r)

    def array_items(self, a, st):
        o = self.array_obj(a, st)
        if o is not None:
            return [(v, c) for _, v, c in st.heap[o[1]].items]
        out = []
        for i, (c, opt) in enumerate(self.node(a).items):
            if isinstance(c, Node):
                v = V(("node", c.id, a[2]))
            elif c.const is not None:
                v = V(const(c.const))
            else:
                v = V(("leaf",) + self.same(a[1], i))
            out.append((v, None))
        return out

    def atom_items(self, a, st):
        """Items of one iterable atom: [(Value, cond)], None = unknown, 'no' = not iterable."""
        t = a[0]
        if t == "obj":
            o = st.heap[a[1]]
            if o.kind == "list":
                return [(v, c) for _, v, c in o.items]
            if o.kind == "dict":
                if o.extra:
                    return None
                return [(V(k), c) for k, c in self.dict_keys(o)]
            return None
        if t == "node":
            n = self.node(a)
            if n.isarray:
                return self.array_items(a, st)
            if n.fmt == "json":
                return [(vconst(k), c) for k, c in self.node_keys(a, st)]
            return [(V(x), c) for _, x, c in self.kids(st, a[1], a[2])]
        if t == "attrib":
            return [(vconst(k), c) for k, c in self.node_keys(a, st)]
        if t == "tup":
            return [(v, None) for v in a[1]]
        if t == "nt":
            return [(v, None) for v in a[2]]
        if t == "const":
            if isinstance(a[2], (str, bytes, tuple, range)):
                return [(vconst(x), None) for x in a[2]]
            return "no"
        if t == "leaf":
            k = self.meta(a)
            if k.stype == "color":
                return self.atom_items(self.to_cs(a), st)
            if self.fmt(a) == "json" and k.stype in NUMERIC + ("bool",):
                return "no"
            return None
        if t == "cs":
            return [(V(self.cs_mk(a, (x,))), None) for x in a[3]]
        if t == "file":
            if self.file_state(a[3], st) == vconst("closed"):
                self.raise_exc(("exc", "builtins.ValueError", vconst("I/O operation on closed file")), st)
                raise AbsDead()
            self.undecodable(a[1], a[2], st, a[3])
            fresh = self.file_state(a[3], st) == vconst("start")
            self.move_file(a[3], st, "end")
            return [(x if isinstance(x, frozenset) else V(x), c) for x, c in self.file_lines(a, st, fresh)]
        if t in ("bslice", "term"):
            n = self.bytes_len(a)
            if n is not None:
                return [(V(self.byte_at(a, i)), None) for i in range(n)]
            return None
        if t in ("lin", "byte", "dig", "cond"):
            return "no"
        return None

    def not_iterable(self, a, st):
        self.raise_exc(("exc", "builtins.TypeError", vconst("%s is not iterable" % (a[0],))), st)

    def iter_items(self, v, st):
        """Items of a value with a single shape; None when unknown."""
        res = None
        for a in sorted(v, key=repr):
            it = self.atom_items(a, st)
            if it == "no":
                self.not_iterable(a, st)
                continue
            if it is None:
                return None
            if res is None:
                res = list(it)
            else:
                res = [(x, True) for x, _ in res] + [(x, True) for x, _ in it]
        if res is None:
            raise AbsDead()
        return res

    def iter_alternatives(self, v, st):
        atoms = sorted(v, key=repr)
        if len(atoms) == 1:
            it = self.atom_items(atoms[0], st)
            if it == "no":
                self.not_iterable(atoms[0], st)
                raise AbsDead()
            if it is None and atoms[0][0] != "top":
                self.unk("iteration over %s" % (atoms[0][:2],))
            return [(it, st)]
        out = []
        for a in atoms:
            z = st.copy()
            it = self.atom_items(a, z)
            if it == "no":
                self.not_iterable(a, z)
                continue
            out.append((it, z))
        if not out:
            raise AbsDead()
        return out

    def definite_seq(self, a, st):
        it = self.atom_items(a, st)
        if it is None or it == "no" or any(c is not None for _, c in it):
            return None
        return [v for v, _ in it]

    # ------------------------------------------------------------ heap containers
    def dict_keys(self, o):
        seen, out = {}, []
        for _, k, _, c in o.entries:
            if k in seen:
                if c is None or out[seen[k]][1] is None:
                    out[seen[k]] = (k, None)
                continue
            seen[k] = len(out)
            out.append((k, c))
        return out

    def dict_lookup(self, o, key):
        """-> (Value, maybe absent?) for one key atom."""
        v, absent = frozenset(), True
        for _, k, x, c in reversed(o.entries):
            if k == key or (k[0] == "const" and key[0] == "const" and k[2] == key[2]):
                v = v | x
                if c is None:
                    absent = False
                    break
        if absent and o.extra:
            v = v | o.extra
        return v, absent

    def dict_set(self, oid, kv, v, st, cond=None):
        for k in sorted(kv, key=repr):
            o = st.heap[oid]
            if k[0] == "top":
                self.put(st, oid, Dict(o.entries, (o.extra or frozenset()) | v | V(k), o.site))
                continue
            weak = len(kv) > 1
            ents = list(o.entries)
            done = False
            if cond is None and not weak:
                for i in range(len(ents) - 1, -1, -1):
                    if ents[i][1] == k:
                        if ents[i][3] is None:
                            ents[i] = (ents[i][0], k, v, None)
                            done = True
                        break
            if not done:
                ents.append((self.fresh(), k, v, True if weak else cond))
            self.put(st, oid, Dict(ents, o.extra, o.site))

    def mapping_entries(self, v, st):
        """[(keyatom, Value, cond)] of a mapping value, None when unknown."""
        atoms = sorted(v, key=repr)
        out = []
        for a in atoms:
            m = True if len(atoms) > 1 else None
            if a[0] == "obj" and st.heap[a[1]].kind == "dict":
                o = st.heap[a[1]]
                if o.extra:
                    return None
                for k, c in self.dict_keys(o):
                    x, _ = self.dict_lookup(o, k)
                    out.append((k, x, m or c))
            elif a[0] in ("node", "attrib"):
                if a[0] == "node" and (self.node(a).fmt != "json" or self.node(a).isarray):
                    return None
                for k, c in self.node_keys(a, st):
                    x = self.read_raw(st, a[1], a[2], k) - V(ABSENT)
                    out.append((const(k), x, m or c))
            elif a[0] == "top":
                return None
            else:
                # iterable of pairs
                it = self.atom_items(a, st)
                if it in (None, "no"):
                    return None
                for x, c in it:
                    p = single(x)
                    seq = self.definite_seq(p, st) if p else None
                    if seq is None or len(seq) != 2:
                        return None
                    for k in seq[0]:
                        out.append((k, seq[1], m or c or (True if len(seq[0]) > 1 else None)))
        return out

    def dict_update(self, target, v, st):
        ents = self.mapping_entries(v, st)
        for a in target:
            if a[0] == "obj" and st.heap[a[1]].kind == "dict":
                if ents is None:
                    o = st.heap[a[1]]
                    self.put(st, a[1], Dict(o.entries, (o.extra or frozenset()) | self.unk("dict update"), o.site))
                else:
                    for k, x, c in ents:
                        self.dict_set(a[1], V(k), x, st, c)
            elif a[0] in ("node", "attrib"):
                if ents is None:
                    self.unk("raw update")
                    continue
                for k, x, c in ents:
                    if k[0] == "const":
                        if c is None:
                            self.set_node_item(a, k[2], x, st)
                        else:
                            p, q = self.item_fork(st.copy(), c)
                            self.set_node_item(a, k[2], x | self.read_raw(st, a[1], a[2], k[2]), st)
            elif a[0] != "top":
                self.unk("update of %s" % (a[0],))

    def list_extend(self, target, v, st):
        items = self.iter_items(v, st)
        weak = len(target) > 1
        for a in target:
            if a[0] == "node" and self.node(a).isarray:
                a = self.array_obj(a, st, True)
            if a[0] == "node":     # xml element
                for x, c in items or [(self.unk("extend"), True)]:
                    self.xml_append(a, x, st, True if weak else c)
                continue
            if a[0] == "obj" and st.heap[a[1]].kind == "list":
                o = st.heap[a[1]]
                if items is None:
                    new = [(self.fresh(), self.unk("extend"), True)]
                else:
                    new = [(self.fresh(), x, (c or True) if weak else c) for x, c in items]
                self.put(st, a[1], List(o.items + tuple(new), o.ltype, o.unordered, o.site))
            elif a[0] != "top":
                self.unk("extend of %s" % (a[0],))

    def xml_append(self, a, v, st, cond=None, index=None):
        kids = list(self.kids(st, a[1], a[2]))
        new = [((self.fresh()), x, True if len(v) > 1 else cond) for x in sorted(v, key=repr)]
        if index is None:
            kids += new
        else:
            kids[index:index] = new
        st.over = dict(st.over)
        st.over[("kids", a[1], a[2])] = tuple(kids)

    # ------------------------------------------------------------ attributes
    def get_attr(self, o, name, st):
        out = frozenset()
        for a in sorted(o, key=repr):
            try:
                out = out | self.get_attr1(a, name, st)
            except AbsDead:
                if len(o) == 1:
                    raise
        if not out:
            raise AbsDead()
        return norm(out)

    def attr_error(self, a, name, st):
        self.raise_exc(("exc", "builtins.AttributeError", vconst("%s has no attribute %s" % (a[:2], name))), st)
        raise AbsDead()

    def bound(self, a, name, st):
        """Method of a library object; a name its type does not have is an AttributeError."""
        p = self.pytype(a, st) if a[0] in ("const", "leaf", "node", "attrib", "tup", "obj") else None
        ps = p if isinstance(p, tuple) and p[0] not in ("cls", "exc") else (p,)
        if all(isinstance(x, str) and x in HOST for x in ps) and not any(name in HOST[x] for x in ps):
            self.attr_error(a, name, st)
        return V(("bound", a, name))

    def get_attr1(self, a, name, st):
        t = a[0]
        if t == "top":
            return V(a)
        if t == "dispatch" and name == "register":
            return V(("dispatch-register", a[1]))
        if t == "mod":
            v = st.frames["M:" + a[1]].get(name)
            if v is not None:
                return v
            sub = a[1] + "." + name
            if sub in self.program.modules:
                return V(("mod", sub))
            self.attr_error(a, name, st)
        if t == "ext":
            if a[1] == "typing" and name == "TYPE_CHECKING":
                return V(FALSE)
            if name == "__name__":
                return vconst(a[1].split(".")[-1])
            return V(("ext", a[1] + "." + name))
        if t == "node":
            n = self.node(a)
            if n.fmt == "xml":
                if name == "attrib":
                    return V(("attrib", a[1], a[2]))
                if name == "tag":
                    return vconst(n.tag)
                if name == "text":
                    v = self.read_raw(st, a[1], a[2], "#text")
                    if ABSENT in v:
                        v = (v - V(ABSENT)) | VNONE
                    return v
                if name == "tail":
                    return V(("term", "tail", a))
            return self.bound(a, name, st)
        if t == "etree":
            return self.bound(a, name, st)
        if t == "obj":
            ob = st.heap[a[1]]
            if ob.kind == "inst":
                if name in ob.fields:
                    return ob.fields[name]
                c = self.classes[ob.cls]
                if name == "__dict__":
                    return self.new_dict(st, [(const(k), v) for k, v in ob.fields.items()])
                if name == "__class__":
                    return V(("cls", ob.cls))
                m = self.class_lookup(c, name)
                if m is not None:
                    return self.bind_method(m, a, ("cls", ob.cls), st)
                self.attr_error(a, name, st)
            return self.bound(a, name, st)
        if t == "nt":
            c = self.classes[a[1]]
            for f, v in zip(self.all_fields(c), a[2]):
                if f[0] == name:
                    return v
            m = self.class_lookup(c, name)
            if m is not None and not any(f[0] == name for f in self.all_fields(c)):
                return self.bind_method(m, a, ("cls", a[1]), st)
            if name == "_fields":
                return V(("tup", tuple(vconst(f[0]) for f in self.all_fields(c))))
            return self.bound(a, name, st)
        if t == "cls":
            c = self.classes[a[1]]
            m = self.class_lookup(c, name)
            if m is not None:
                return self.bind_method(m, None, a, st)
            if name in ("__name__", "__qualname__"):
                return vconst(a[1].split(".")[-1])
            if name == "_fields":
                return V(("tup", tuple(vconst(f[0]) for f in self.all_fields(c))))
            return self.bound(a, name, st)
        if t == "super":
            c = self.classes[a[1]]
            s = single(a[2])
            if s and s[0] == "obj":
                oc = self.classes[st.heap[s[1]].cls]
                m = self.class_lookup(oc, name, after=c)
                if m is not None:
                    return self.bind_method(m, s, ("cls", oc.qual), st)
                if name in ("__init__", "__attrs_post_init__", "__post_init__"):
                    return V(("ext", "sa.noop"))
            return self.unk("super attribute")
        if is_path(a):
            if name == "parent":
                return V(mk_parent(a))
            if name == "name":
                if a[0] == "term" and a[1] == "join" and a[3][0] == "fname":
                    return V(a[3])
                a = same_name(a)
                n = last_part(a)
                return V(("term", "pathname", a)) if n is None else vconst(n)
            if name in ("suffix", "stem", "suffixes"):
                a = same_name(a)
            if name in ("suffix", "stem") and last_part(a) is not None:
                return vconst(getattr(PurePosixPath(last_part(a)), name))
            if name in ("suffix", "stem", "suffixes", "parts", "anchor", "root", "drive", "parents"):
                return V(("term", "path" + name, a))
            return self.bound(a, name, st)
        if t == "file" and name == "name":
            return V(("term", "str", a[1]))
        if t == "direntry":
            if name == "name":
                return V(a[2])
            if name == "path":
                return V(("term", "str", mk_join(a[1], a[2])))
            return self.bound(a, name, st)
        if t == "const" and a[2] is None:
            self.attr_error(a, name, st)
        if t == "exc":
            if name == "args":
                return V(("tup", (a[2],)))
            return V(("term", "excattr", name))
        if t == "fn":
            if name in ("__name__", "__qualname__"):
                return vconst(self.fns[a[1]].qual)
            if name == "__doc__":
                return vconst("")
            if name in ("cache_clear", "cache_info", "register"):
                return V(("ext", "sa.noop"))
            d = self.fn_attrs.get(a[1])
            if d is None or d[1] not in st.heap:
                return self.unk("function attribute")
            if name == "__dict__":
                return V(d)
            h = self.fn_has(a, name, st)
            if h is False:
                self.attr_error(a, name, st)
            return self.unk("function attribute") if h is None else self.get_item1(d, const(name), st)
        if t == "partial" or t in ("getter", "method"):
            return self.unk("attribute of callable")
        return self.bound(a, name, st)

    def fn_has(self, a, name, st):
        """Whether a function has this attribute (None: not known)."""
        d = self.fn_attrs.get(a[1])
        if hasattr(len, name):
            return True
        if d is None or d[1] not in st.heap or st.heap[d[1]].extra:
            return None
        cs = [c for _, k, _, c in st.heap[d[1]].entries if k == const(name)]
        return False if not cs else True if cs == [None] else None

    def bind_method(self, m, inst, clsatom, st):
        out = frozenset()
        for x in m:
            if x[0] == "property":
                if inst is None:
                    out = out | V(x)
                else:
                    out = out | self.call1(x[1], [V(inst)], {}, st)
            elif x[0] == "static":
                out = out | x[1]
            elif x[0] == "classm":
                out = out | V(("method", V(clsatom), x[1]))
            elif x[0] == "fn" and inst is not None:
                out = out | V(("method", V(inst), V(x)))
            else:
                out = out | V(x)
        return out

    def set_attr(self, o, name, v, st):
        weak = len(o) > 1
        for a in sorted(o, key=repr):
            if a[0] == "obj" and st.heap[a[1]].kind == "inst":
                ob = st.heap[a[1]]
                f = dict(ob.fields)
                f[name] = join_values(f[name], v) if weak and name in f else v
                s = dict(ob.sites)
                s[name] = self.site()
                self.put(st, a[1], Inst(ob.cls, f, s))
            elif a[0] == "node" and name == "text":
                self.set_node_item(a, "#text", v, st)
            elif a[0] == "node" and name == "attrib":
                ents = self.mapping_entries(v, st)
                if ents is None:
                    self.unk("attrib assignment")
                else:
                    for k, _ in self.node_keys(a, st):
                        self.set_node_item(a, k, V(ABSENT), st)
                    for k, x, c in ents:
                        self.set_node_item(a, k[2], x if c is None else x | V(ABSENT), st)
            elif a[0] == "fn" and a[1] in self.fn_attrs and self.fn_attrs[a[1]][1] in st.heap:
                self.set_item(V(self.fn_attrs[a[1]]), vconst(name), v, st)
            elif a[0] in ("cls", "mod", "fn"):
                self.event("global-write", st, what="%s.%s" % (a[1], name))
                if a[0] == "cls":
                    self.classes[a[1]].env[name] = v
            elif a[0] == "nt" or (a[0] == "const" and a[2] is None):
                self.raise_exc(("exc", "builtins.AttributeError", vconst(name)), st)
                if not weak:
                    raise AbsDead()
            elif a[0] == "ext":
                self.event("extwrite", st, what=a[1] + "." + name)
            elif a[0] != "top":
                self.unk("attribute assignment on %s" % (a[0],))

    # ------------------------------------------------------------ items
    def get_item(self, o, k, st):
        out = frozenset()
        n = 0
        for a in sorted(o, key=repr):
            for key in sorted(k, key=repr):
                n += 1
                try:
                    out = out | self.get_item1(a, key, st)
                except AbsDead:
                    if len(o) == 1 and len(k) == 1:
                        raise
        if not out:
            raise AbsDead()
        return norm(out)

    def index_error(self, st):
        self.raise_exc(("exc", "builtins.IndexError", vconst("index out of range")), st)
        raise AbsDead()

    @staticmethod
    def never_int(key):
        return key[0] == "const" and (key[2] is None or isinstance(key[2], (str, bytes, float)))

    def type_error(self, text, st):
        self.raise_exc(("exc", "builtins.TypeError", vconst(text)), st)
        raise AbsDead()

    def get_item1(self, a, key, st):
        t = a[0]
        if t == "top" or key[0] == "top":
            return vtop("item of unmodelled value")
        kp = self.pytype(key, st)
        if kp in ("dict", "list", "set") and self.pytype(a, st) == "dict":
            self.type_error("unhashable key", st)
        if self.pytype(a, st) != "dict" and self.rejects(a, key, st, lambda c, k: c[k]):
            self.type_error("bad index or not subscriptable", st)
        if t in ("node", "attrib") and kp not in (None, "str") and isinstance(kp, str) and \
                self.pytype(a, st) == "dict":
            self.raise_exc(("exc", "builtins.KeyError", V(key)), st)
            raise AbsDead()
        if t == "node":
            n = self.node(a)
            if n.isarray or n.fmt == "xml":
                if key[0] == "const" and isinstance(key[2], int):
                    return self.seq_index(self.atom_items(a, st), key[2], st)
                if self.never_int(key):
                    return self.type_error("indices must be integers", st)
                return self.unk("array index")
            if key[0] == "const":
                return self.node_item(a, key[2], st)
            return self.unk("document key")
        if t == "attrib":
            if key[0] == "const":
                return self.node_item(a, key[2], st)
            return self.unk("attribute name")
        if t == "obj":
            o = st.heap[a[1]]
            if o.kind == "list":
                if key[0] == "const" and isinstance(key[2], int):
                    return self.seq_index([(v, c) for _, v, c in o.items], key[2], st)
                if self.never_int(key):
                    return self.type_error("list indices must be integers", st)
                return self.unk("list index")
            if o.kind == "dict":
                v, absent = self.dict_lookup(o, key)
                if absent:
                    d = getattr(self, "ddefault", {}).get(a[1])
                    if d is not None:
                        new = self.call1(d, [], {}, st)
                        self.dict_set(a[1], V(key), new, st, None if not v else True)
                        return v | new
                    self.raise_exc(("exc", "builtins.KeyError", V(key)), st)
                    if not v:
                        raise AbsDead()
                return v
            if o.kind == "inst":
                return self.call_method(a, "__getitem__", [V(key)], {}, st)
        if t in ("tup", "nt"):
            seq = a[1] if t == "tup" else a[2]
            if key[0] == "const" and isinstance(key[2], int):
                if -len(seq) <= key[2] < len(seq):
                    return seq[key[2]]
                self.index_error(st)
            if self.never_int(key):
                return self.type_error("tuple indices must be integers", st)
            return self.unk("tuple index")
        if t == "const" and isinstance(a[2], (str, bytes, tuple, range)):
            if key[0] == "const" and isinstance(key[2], int):
                try:
                    return vconst(a[2][key[2]])
                except IndexError:
                    self.index_error(st)
        if t == "leaf" and self.meta(a).stype == "color":
            a, t = self.to_cs(a), "cs"
        if t == "cs" and key[0] == "const" and isinstance(key[2], int):
            try:
                return V(self.cs_mk(a, (a[3][key[2]],)))
            except IndexError:
                self.index_error(st)
        if t == "leaf" and key[0] == "const":
            if self.fmt(a) == "json" and self.meta(a).stype in NUMERIC + ("bool",):
                self.raise_exc(("exc", "builtins.TypeError", vconst("not subscriptable")), st)
                raise AbsDead()
            zk = self.zero_key(a) if self.meta(a).stype == "str" else None
            if zk is not None and isinstance(key[2], int):
                # empty text has no characters
                f = st.facts.get(zk)
                if f is True:
                    self.index_error(st)
                if f is None:
                    z = self.assume(st.copy(), zk, True)
                    if z is not None:
                        self.raise_exc(("exc", "builtins.IndexError", vconst("index out of range")), z)
                    self.assume(st, zk, False)
            return V(("term", "item", a, key))
        if t == "term":
            if a[1] in ("firstline", "content") and key == const(0):
                return self.first_char(a, st)
            if self.bytes_len(a) is not None and key[0] == "const" and isinstance(key[2], int):
                n = self.bytes_len(a)
                if -n <= key[2] < n:
                    return V(self.byte_at(a, key[2] % n))
                self.index_error(st)
            if a[1] == "pathparents" and key == const(0):
                return V(mk_parent(a[2]))
            return V(("term", "item", a, key))
        if t == "bslice":
            n = a[3] - a[2]
            if key[0] == "const" and -n <= key[2] < n:
                return V(self.byte_at(a, key[2] % n))
            self.index_error(st)
        if t == "match" and key[0] == "const":
            return V(self.group(a[2], a[3], key, st))
        if t == "ext" or t == "cls":    # typing subscripts
            return V(a)
        if t == "const" and a[2] is None:
            self.raise_exc(("exc", "builtins.TypeError", vconst("None is not subscriptable")), st)
            raise AbsDead()
        return self.unk("item of %s" % (t,))

    def seq_index(self, items, i, st):
        if items is None or items == "no":
            return self.unk("index into unmodelled sequence")
        items = [(v, self.cond_state(c, st)) for v, c in items]
        items = [(v, c) for v, c in items if c is not False]
        if all(c is None for _, c in items):
            if -len(items) <= i < len(items):
                return items[i][0]
            self.index_error(st)
        seq = items if i >= 0 else list(reversed(items))
        k = i if i >= 0 else -i - 1
        # value at position k of a list with optional items
        out, lo = frozenset(), 0
        for j, (v, c) in enumerate(seq):
            if lo > k:
                break
            hi = j
            if hi >= k:
                out = out | v
            if c is None:
                lo += 1
        definite = sum(1 for _, c in seq if c is None)
        if definite <= k:
            self.raise_exc(("exc", "builtins.IndexError", vconst("index out of range")), st)
        if not out:
            # earlier positions may also hold it
            for v, c in seq[k:]:
                out = out | v
        if not out:
            raise AbsDead()
        return out

    def cond_state(self, c, st):
        """Item condition in a state: None definite, False absent, else maybe."""
        if c is None or c is True:
            return c
        key, pol = c
        f = st.facts.get(key)
        if f is None and key[0] == "pres":
            f = self.presence_def(key[1], key[2])
        if f is None:
            return c
        return None if f == pol else False

    def get_slice(self, o, lo, hi, step, st):
        out = frozenset()
        bounds = [single(x) for x in (lo, hi, step)]
        ok = all(b is not None and b[0] == "const" for b in bounds)
        for a in sorted(o, key=repr):
            if a[0] == "top":
                out = out | V(a)
                continue
            if not ok:
                out = out | self.unk("slice bounds")
                continue
            sl = slice(*[b[2] for b in bounds])
            if a[0] == "const" and isinstance(a[2], (str, bytes, tuple, range)):
                out = out | vconst(a[2][sl])
            elif a[0] == "leaf" and self.meta(a).stype == "color":
                out = out | V(self.cs_mk(a, self.to_cs(a)[3][sl]))
            elif a[0] == "cs":
                out = out | V(self.cs_mk(a, a[3][sl]))
            elif a[0] == "tup":
                out = out | V(("tup", a[1][sl]))
            elif a[0] == "nt":
                out = out | V(("tup", a[2][sl]))
            elif self.is_listlike(a, st):
                items = self.atom_items(a, st)
                items = [(v, self.cond_state(c, st)) for v, c in items]
                items = [(v, c) for v, c in items if c is not False]
                if all(c is None for _, c in items) or sl == slice(None) or sl == slice(None, None, -1):
                    ob = st.heap[a[1]] if a[0] == "obj" else None
                    out = out | self.alloc(st, List([(self.fresh(), v, c) for v, c in items[sl]],
                                                    ob.ltype if ob else "list", bool(ob and ob.unordered)))
                else:
                    out = out | self.unk("slice of optional items")
            elif a[0] in ("term", "bslice") and self.bytes_len(a) is not None and (sl.step in (None, 1)):
                n = self.bytes_len(a)
                i, j, _ = sl.indices(n)
                base, off = (a[1], a[2]) if a[0] == "bslice" else (a, 0)
                out = out | V(("bslice", base, off + i, off + max(i, j)))
            elif a[0] == "term" and a[1] in ("firstline", "content") and sl in (slice(0, 1), slice(None, 1)):
                f = self.world.files.get(strip_abs(a[2]), ("?",))[0]
                out = out | (vconst("" if f == "empty" else single(self.first_char(a, st))[2])
                             if f != "?" else vtop("first character of unknown file"))
            elif a[0] in ("leaf", "term", "fname"):
                out = out | V(("term", "slice", a, repr(sl)))
            else:
                out = out | self.unk("slice of %s" % (a[0],))
        return out

    def set_slice(self, o, sl, v, st, ctx):
        if sl.lower is None and sl.upper is None and sl.step is None:
            items = self.iter_items(v, st)
            for a in o:
                if a[0] == "obj" and st.heap[a[1]].kind == "list" and items is not None and len(o) == 1:
                    ob = st.heap[a[1]]
                    self.put(st, a[1], List([(self.fresh(), x, c) for x, c in items], ob.ltype, False, ob.site))
                    return
        bounds = [single(self.eval(x, st, ctx)) if x is not None else const(None) for x in (sl.lower, sl.upper)]
        a = single(o)
        if a and a[0] == "obj" and st.heap[a[1]].kind == "list" and sl.step is None and \
                all(b and b[0] == "const" and (b[2] is None or isinstance(b[2], int)) for b in bounds):
            ob = st.heap[a[1]]
            items = self.iter_items(v, st)
            if items is not None and all(c is None for _, _, c in ob.items):
                it = list(ob.items)
                it[bounds[0][2]:bounds[1][2]] = [(self.fresh(), x, c) for x, c in items]
                self.put(st, a[1], List(it, ob.ltype, ob.unordered, ob.site))
                return
        for a in o:
            if a[0] == "obj" and st.heap[a[1]].kind == "list":
                ob = st.heap[a[1]]
                st.taint = True
                t = self.unk("slice assignment")
                self.put(st, a[1], List([(i, x | t, c) for i, x, c in ob.items], ob.ltype, ob.unordered, ob.site))

    def set_item(self, o, k, v, st):
        weak = len(o) > 1
        for a in sorted(o, key=repr):
            if a[0] == "node" and self.node(a).isarray:
                a = self.array_obj(a, st, True)
            if a[0] == "obj":
                ob = st.heap[a[1]]
                if ob.kind == "dict":
                    self.dict_set(a[1], k, v, st, True if weak else None)
                elif ob.kind == "list":
                    key = single(k)
                    if key and key[0] == "const" and isinstance(key[2], int) and \
                            all(c is None for _, _, c in ob.items):
                        if not -len(ob.items) <= key[2] < len(ob.items):
                            self.index_error(st)
                        it = list(ob.items)
                        i = it[key[2]]
                        it[key[2]] = (i[0], join_values(i[1], v) if weak else v, i[2])
                        self.put(st, a[1], List(it, ob.ltype, ob.unordered, ob.site))
                    else:
                        t = self.unk("list item assignment")
                        self.put(st, a[1], List([(i, x | v | t, c) for i, x, c in ob.items], ob.ltype,
                                                ob.unordered, ob.site))
                else:
                    self.call_method(a, "__setitem__", [k, v], {}, st)
            elif a[0] in ("node", "attrib"):
                for key in k:
                    if key[0] != "const":
                        self.unk("document key assignment")
                        continue
                    if weak or len(k) > 1:
                        v2 = v | self.read_raw(st, a[1], a[2], key[2])
                    else:
                        v2 = v
                    self.set_node_item(a, key[2], v2, st)
            elif a[0] == "ext":
                self.event("extwrite", st, what=a[1] + "[]")
            elif a[0] != "top":
                self.unk("item assignment on %s" % (a[0],))

    def del_item(self, o, k, st):
        key = single(k)
        for a in o:
            if a[0] == "obj" and st.heap[a[1]].kind == "dict" and key is not None:
                ob = st.heap[a[1]]
                v, absent = self.dict_lookup(ob, key)
                if absent:
                    self.raise_exc(("exc", "builtins.KeyError", V(key)), st)
                    if not v:
                        raise AbsDead()
                self.put(st, a[1], Dict([e for e in ob.entries if e[1] != key], ob.extra, ob.site))
            elif a[0] in ("node", "attrib") and key is not None and key[0] == "const":
                v = self.node_item(a, key[2], st)
                self.set_node_item(a, key[2], V(ABSENT), st)
            elif self.is_listlike(a, st) and key is not None and key[0] == "const":
                self.list_pop(a, key[2], st)
            elif a[0] != "top":
                self.unk("del")

    def list_pop(self, a, i, st):
        if a[0] == "node":
            a = self.array_obj(a, st, True)
        ob = st.heap[a[1]]
        items = [(n, v, self.cond_state(c, st)) for n, v, c in ob.items]
        items = [x for x in items if x[2] is not False]
        if all(c is None for _, _, c in items):
            if not -len(items) <= i < len(items):
                self.index_error(st)
            v = items.pop(i)[1]
            self.put(st, a[1], List(items, ob.ltype, ob.unordered, ob.site))
            return v
        v = self.unk("pop from list with optional items")
        for _, x, _ in items:
            v = v | x
        self.put(st, a[1], List([(n, x | v, True) for n, x, _ in items], ob.ltype, ob.unordered, ob.site))
        return v

    # ------------------------------------------------------------ strings, colours, bytes
    def to_cs(self, a):
        k = self.meta(a)
        sh = k.shape
        chars = []
        if sh.startswith("#"):
            chars.append("#")
            sh = sh[1:]
        chars += list(range(int(sh)))
        return ("cs", a[1], a[2], tuple(chars))

    def cs_mk(self, a, chars):
        chars = tuple(chars)
        if all(isinstance(c, str) for c in chars):
            return const("".join(chars))
        full = self.to_cs(("leaf", a[1], a[2]))
        if chars == full[3]:
            return ("leaf", a[1], a[2])
        return ("cs", a[1], a[2], chars)

    def bytes_len(self, a):
        if a[0] == "bslice":
            return a[3] - a[2]
        if a[0] == "term" and a[1] in ("b64", "zlib", "gzip", "zstd", "rawdeflate"):
            x = a
            while x[0] == "term" and x[1] in ("zlib", "gzip", "zstd", "rawdeflate", "b64", "strip", "encode"):
                x = x[2]
            if x[0] == "leaf":
                k = self.meta(x)
                if isinstance(k.stype, tuple) and k.stype[0] == "b64":
                    return k.stype[1]
        return None

    MAGIC = {"gzip": b"\x1f\x8b\x08", "zlib": b"\x78", "zstd": b"\x28\xb5\x2f\xfd", "rawdeflate": b""}

    def magic(self, a):
        """Known first bytes of what base64 text encodes: those of its compression; None: not compressed."""
        while a[0] == "term" and a[1] in ("b64", "strip", "encode"):
            a = a[2]
        if a[0] == "leaf":
            k = self.meta(a)
            if isinstance(k.stype, tuple) and k.stype[0] == "b64":
                return self.MAGIC.get(k.stype[2])
        return None

    def cmp_bytes(self, a, c, st):
        """Whether bytes of tile data are these: the start of compressed data is known, that of GIDs is not."""
        base, i, j = (a[1], a[2], a[3]) if a[0] == "bslice" else (a, 0, self.bytes_len(a))
        if not isinstance(c, bytes) or len(c) != j - i:
            return False
        m = self.magic(base)
        if m is not None:
            known = m[i:j]
            if c[:len(known)] != known:
                return False
            return True if len(known) == len(c) else "top"
        return (("eq", a, const(c)), True)

    def byte_at(self, a, i):
        base, k = (a[1], a[2] + i) if a[0] == "bslice" else (a, i)
        m = self.magic(base)
        if m and k < len(m):
            return const(m[k])
        if a[0] == "bslice":
            return self.norm(("byte", a[1], a[2] + i))
        return self.norm(("byte", a, i))

    def lead(self, a, f):
        """First character of the (possibly stripped) start of a file of kind f."""
        if f == "json" and self.world.blank and "s" not in a[4:]:
            return " "
        return {"xml": "<", "json": "{", "garbage": "g", "binary": "\x89", "empty": ""}.get(f)

    def first_char(self, a, st):
        f = self.world.files.get(strip_abs(a[2]), ("?",))[0]
        bts = a[1] == "content" and a[3] == "b" or a[1] == "firstline" and len(a) > 3 and a[3] == "b"
        ch = self.lead(a, f)
        if f == "empty":
            self.index_error(st)
        if ch is None:
            return vtop("first character of an unknown file")
        return vconst(ord(ch)) if bts else vconst(ch)

    def is_strish(self, a):
        if a[0] == "const":
            return isinstance(a[2], str)
        if a[0] == "leaf":
            k = self.meta(a)
            return self.fmt(a) == "xml" or k.stype in ("str", "color", "path", "regex") or isinstance(k.stype, tuple)
        if a[0] in ("cs", "fname", "part", "pair"):
            return True
        return a[0] == "term" and a[1] in ("concat", "strip", "format", "str", "firstline", "content", "group",
                                           "lower", "upper", "item", "slice", "pathname", "pathsuffix", "pathstem",
                                           "replace", "strm", "tail")

    WS = (" ", "\n", "\t", "\r", "\r\n", " \n", "\n ")

    def numericish(self, a):
        """Text whose only use is numeric conversion: surrounding blanks are irrelevant."""
        if a[0] in ("part", "pair"):
            return True
        if a[0] == "leaf":
            k = self.meta(a)
            return k.stype in ("int", "float", "num", "bool", "tfbool", "color") or isinstance(k.stype, tuple)
        return a[0] == "cs" or (a[0] == "term" and a[1] in ("firstline", "content", "group"))

    def freetext(self, a):
        """Text without a structure of its own: whatever is cut from it, is not it for some text."""
        while a[0] == "term" and a[1] in ("strip", "strm", "item") and len(a) > 2:
            a = a[3] if a[1] == "strm" else a[2]
        if a[0] == "term" and a[1] == "strseq":
            return True
        return a[0] == "leaf" and self.meta(a).stype == "str"

    def text_lines(self, a, name, args, allc, st):
        """Lines of the whole text of a file: the first is known by name, the later ones are not modelled."""
        f = self.world.files.get(strip_abs(a[2]), ("?",))[0]
        nl = b"\n" if a[3:4] == ("b",) else "\n"
        first, more = V(a[:1] + ("firstline",) + a[2:]), vtop("a later line of a file")
        if not allc or f == "?":
            return None
        if name == "splitlines":
            if f == "empty":
                return self.new_list(st, [])
        elif name == "partition" and args[:1] == [nl]:
            return V(("tup", (first, more, more)))
        elif not (name == "split" and args[:1] == [nl]):
            return None
        if f == "empty":
            return self.new_list(st, [V(a)])
        return self.alloc(st, List([(self.fresh(), first, None), (self.fresh(), more, True)], "list"))

    def pieces(self, ps, a, cargs, st):
        """The list a split gives, with the rest in one piece from the limit on, if it has one."""
        ps = [self.norm(p) for p in ps]
        top = cargs[1][2] if len(cargs) > 1 else -1
        if not isinstance(top, int):
            return vtop("split")
        if 0 <= top < len(ps) - 1:
            ps = ps[:top] + [V(("term", "rest", a, const(top)))]
        return self.new_list(st, ps)

    def str_method(self, a, name, args, kwargs, st):
        cargs = [single(x) for x in args]
        allc = all(x is not None and x[0] == "const" for x in cargs) and not kwargs
        if a[0] == "const" and allc:
            return self.fold(lambda: getattr(a[2], name)(*[x[2] for x in cargs]), st)
        if name in ("strip", "lstrip", "rstrip"):
            if not args or (allc and cargs[0][2] is not None and not str(cargs[0][2]).strip()):
                if a[0] == "term" and a[1] in ("firstline", "content") and name != "rstrip" and self.world.blank \
                        and len(a) == 4:
                    return V(a + ("s",))
                if self.numericish(a):
                    return V(a)
                if a[0] == "term" and a[1] == "strip":
                    return V(a)
                return V(("term", "strip", a))
            if allc and a[0] in ("leaf", "cs") and self._color(a):
                cs = self.to_cs(a) if a[0] == "leaf" else a
                ch = list(cs[3])
                chars = cargs[0][2]
                if name in ("strip", "lstrip"):
                    while ch and isinstance(ch[0], str) and ch[0] in chars:
                        ch.pop(0)
                if name in ("strip", "rstrip"):
                    while ch and isinstance(ch[-1], str) and ch[-1] in chars:
                        ch.pop()
                if any(c in "0123456789abcdefABCDEF" for c in chars):
                    return V(("term", "strm", name, a, cargs[0]))
                return V(self.cs_mk(cs, ch))
            if allc and self.is_csv(a) and set(cargs[0][2]) <= set(", \n\r\t"):
                return V(a)
            if allc and isinstance(cargs[0][2], str):
                if self.numericish(a) and not set(cargs[0][2]) & set("0123456789abcdefxABCDEFX+-.#<{=/,"):
                    return V(a)
                return V(("term", "strm", name, a, cargs[0]))
        if self._color(a):
            cs = self.to_cs(a) if a[0] == "leaf" else a
            if name in ("startswith",) and allc and isinstance(cargs[0][2], str):
                p = cargs[0][2]
                if p == "#":
                    return vconst(bool(cs[3]) and cs[3][0] == "#")
                if p == "":
                    return vconst(True)
            if name == "removeprefix" and allc and cargs[0][2] == "#":
                return V(self.cs_mk(cs, cs[3][1:] if cs[3] and cs[3][0] == "#" else cs[3]))
            if name == "replace" and allc and cargs[0][2] == "#" and cargs[1][2] == "":
                return V(self.cs_mk(cs, [c for c in cs[3] if c != "#"]))
            if name in ("lower", "upper", "casefold"):
                return V(a)
            if name in ("zfill", "rjust") and allc and isinstance(cargs[0][2], int) and cargs[0][2] <= len(cs[3]):
                return V(a)
            if name in ("rjust",) and len(cargs) == 2:
                w, f = cargs[0][2], cargs[1][2]
                if all(not isinstance(c, str) for c in cs[3]) and isinstance(w, int) and isinstance(f, str):
                    return V(self.cs_mk(cs, [f] * (w - len(cs[3])) + list(cs[3])))
        if a[0] == "leaf" and isinstance(self.meta(a).stype, tuple):
            kind, n = self.meta(a).stype[:2]
            if kind == "csv":
                if name == "split" and allc and args and cargs[0][2] == ",":
                    return self.pieces([V(("part", a, i)) for i in range(n)], a, cargs, st)
                if name == "replace" and allc and str(cargs[0][2]).strip() == "" and cargs[0][2] and cargs[1][2] == "":
                    return V(a)
            if kind == "points":
                if name == "split" and (not args or (allc and cargs[0][2] in (" ", None))):
                    return self.pieces([V(("pair", a, i)) for i in range(n)], a, cargs, st)
                if name == "replace" and allc and cargs[0][2] == " " and cargs[1][2] == ",":
                    return V(("csvp", a))
            if kind == "b64" and name in ("encode", "strip", "lstrip", "rstrip"):
                return V(a)
            if kind == "b64" and name == "replace" and allc and not str(cargs[0][2]).strip() and cargs[1][2] == "":
                return V(a)
        if name in ("split", "rsplit", "splitlines") and allc and self.freetext(a):
            return V(("term", "strseq", name, a, tuple(cargs)))
        if name in ("partition", "rpartition") and allc and self.freetext(a):
            s = ("term", "strseq", name, a, tuple(cargs))
            return V(("tup", tuple(V(("term", "item", s, const(i))) for i in range(3))))
        if a[0] == "csvp" and name == "split" and allc and args and cargs[0][2] == ",":
            n = self.meta(a[1]).stype[1]
            return self.pieces([V(("part", a[1], (i, j))) for i in range(n) for j in (0, 1)], a, cargs, st)
        if a[0] == "pair":
            if name in ("split", "rsplit") and allc and args and cargs[0][2] == ",":
                return self.new_list(st, [V(("part", a[1], (a[2], 0))), V(("part", a[1], (a[2], 1)))])
            if name in ("partition", "rpartition") and allc and cargs[0][2] == ",":
                return V(("tup", (V(("part", a[1], (a[2], 0))), vconst(","), V(("part", a[1], (a[2], 1))))))
        if a[0] == "term" and a[1] in ("firstline", "content"):
            if name in ("decode", "encode"):
                enc = cargs[0][2] if cargs and cargs[0] and cargs[0][0] == "const" else \
                    self.enc_of(kwargs["encoding"][0]) if "encoding" in kwargs else "utf-8"
                self.event("codec", st, enc=enc)
                if name == "decode":
                    er = cargs[1][2] if len(cargs) > 1 and cargs[1] and cargs[1][0] == "const" else \
                        self.enc_of(kwargs["errors"][0]) if "errors" in kwargs else "strict"
                    if er in ("ignore", "replace", "backslashreplace", "surrogateescape"):
                        return V(a[:3] + ("l",))
                    self.undecodable(a[2], "r", st)
                    return V(a[:3] + ("t",))
                return V(a)
            if name == "startswith" and allc:
                f = self.world.files.get(strip_abs(a[2]), ("?",))[0]
                ch = self.lead(a, f)
                if ch is None:
                    return vtop("unknown file")
                p = cargs[0][2]
                ps = p if isinstance(p, tuple) else (p,)
                ps = [x.decode("latin-1") if isinstance(x, bytes) else x for x in ps]
                if any(x == ch and x for x in ps) or "" in ps:
                    return vconst(True)
                if all(not x.startswith(ch) or ch == "" for x in ps):
                    return vconst(False)
                return V(("cond", ("strtest", name, a, repr(p)), True))
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                r = self.text_lines(a, name, [x[2] if x is not None and x[0] == "const" else x for x in cargs], allc, st)
                if r is not None:
                    return r
        if name == "startswith" and allc and self.bytes_len(a) is not None and cargs:
            ps = cargs[0][2] if isinstance(cargs[0][2], tuple) else (cargs[0][2],)
            rs = [self.cmp_bytes(("bslice",) + ((a[1], a[2], min(a[3], a[2] + len(p))) if a[0] == "bslice" else
                                                (a, 0, min(self.bytes_len(a), len(p)))), p, st) for p in ps]
            if True in rs:
                return vconst(True)
            if not any(rs):
                return vconst(False)
        if name in ("startswith", "endswith", "isdigit", "isnumeric", "isalpha", "isalnum", "isdecimal", "isspace",
                    "islower", "isupper", "isidentifier", "isprintable", "istitle", "isascii"):
            if name in ("isdigit", "isnumeric", "isdecimal") and a[0] == "leaf" and self.fmt(a) == "xml" and \
                    self.meta(a).stype == "bool":
                return vconst(True)
            return V(("cond", ("strtest", name, a, tuple(cargs)), True))
        if name in ("lower", "upper", "casefold", "title", "capitalize", "swapcase", "replace", "removeprefix",
                    "removesuffix", "zfill", "expandtabs", "center", "ljust", "rjust", "translate"):
            if name in ("lower", "upper", "casefold") and self.numericish(a):
                return V(a)
            return V(("term", "strm", name, a) + tuple(cargs))
        if name in ("encode", "decode"):
            enc = cargs[0][2] if cargs and cargs[0] and cargs[0][0] == "const" else "utf-8"
            if str(enc).lower().replace("-", "").replace("_", "") in ("utf8", "ascii"):
                return V(a)
            return V(("term", "strm", name, a) + tuple(cargs))
        if name == "join":
            seq = single(args[0]) if args else None
            if seq is not None and seq[0] == "term" and seq[1] == "strseq":
                return V(("term", "strm", "join", seq, a))
            items = self.iter_items(args[0], st) if args else None
            if items is None or any(c is not None for _, c in items):
                return self.unk("join of unmodelled items")
            out = vconst("")
            for i, (v, _) in enumerate(items):
                if i:
                    out = self.binop("Add", out, V(a), st)
                out = self.binop("Add", out, v, st)
            return out
        if name in ("format", "format_map"):
            return V(("term", "strm", "format", a))
        if name in ("find", "index", "count", "rfind", "rindex"):
            return V(("num", "strfind", a, tuple(cargs)))
        return self.unk("string method %s on %s" % (name, a[:2]))

    def is_csv(self, a):
        return a[0] == "leaf" and isinstance(self.meta(a).stype, tuple) and self.meta(a).stype[0] == "csv"

    def _color(self, a):
        return a[0] == "cs" or (a[0] == "leaf" and self.meta(a).stype == "color")

    def fold(self, f, st):
        """Constant folding of a pure builtin operation."""
        try:
            r = f()
        except Exception as e:  # the analysed expression itself raises
            self.raise_exc(("exc", "builtins." + type(e).__name__, vconst(str(e))), st)
            raise AbsDead()
        return self.lift(r, st)

    def lift(self, r, st):
        if isinstance(r, list):
            return self.new_list(st, [self.lift(x, st) for x in r])
        if isinstance(r, tuple):
            return V(("tup", tuple(self.lift(x, st) for x in r)))
        if r is None or isinstance(r, (bool, int, float, str, bytes, range)):
            return vconst(r)
        return self.unk("folded value")

    # ------------------------------------------------------------ arithmetic
    def num_atom(self, a):
        """Atom usable in arithmetic, or None."""
        if a[0] == "leaf":
            if self.fmt(a) == "json" and self.meta(a).stype in NUMERIC + ("bool",):
                return ("num", "leaf") + a[1:]
            return None
        return a

    def lin(self, a):
        n = self.num_atom(a)
        return lin_of(n) if n is not None else None

    def unlin(self, c, t):
        if sum(1 for a in t if masked(a)) > 1:
            t = self.unmask(t)
        r = mk_lin(c, t)
        if r[0] == "num" and r[1] == "leaf":
            return ("leaf",) + r[2:]
        return r

    def unmask(self, t):
        """Parts of one 32-bit number cut out by disjoint masks, put together again."""
        t = dict(t)
        for a in list(t):
            for b in list(t):
                if a == b or a not in t or b not in t or t[a] != t[b] or not masked(a) or not masked(b):
                    continue
                (x, m), (y, n) = masked(a), masked(b)
                if x == y and not m & n:
                    k = t.pop(a)
                    del t[b]
                    if m | n == M32:
                        for q, f in (self.lin(x)[1]).items():
                            t[q] = t.get(q, 0) + k * f
                    else:
                        t[("num", "BitAnd", x, const(m | n))] = k
                    return self.unmask(t)
        return t

    def binop(self, op, a, b, st):
        out = frozenset()
        for x in sorted(a, key=repr):
            for y in sorted(b, key=repr):
                try:
                    out = out | self.binop1(op, x, y, st)
                except AbsDead:
                    if len(a) == 1 and len(b) == 1:
                        raise
        if not out:
            raise AbsDead()
        return norm(out)

    def sample_types(self, a, st):
        """Library types an atom can have, when all are among SAMPLES."""
        p = self.pytype(a, st)
        ps = p if isinstance(p, tuple) and p[0] not in ("cls", "exc") else (p,)
        return ps if all(isinstance(x, str) and x in SAMPLES for x in ps) else None

    def rejects(self, x, y, st, f):
        """Whether Python refuses the operands by type, whatever their values are."""
        xs, ys = self.sample_types(x, st), self.sample_types(y, st)
        if xs is None or ys is None:
            return False
        for p in xs:
            for q in ys:
                try:
                    f(SAMPLES[p], SAMPLES[q])
                    return False
                except TypeError:
                    pass
                except Exception:
                    return False
        return True

    def binop1(self, op, x, y, st):
        if x[0] == "top" or y[0] == "top":
            return vtop("arithmetic on unmodelled value")
        if op in _OPS and not (op == "Mod" and self.pytype(x, st) in ("str", "bytes")) and \
                self.rejects(x, y, st, _OPS[op]):
            self.type_error("operands of %s" % op, st)
        if x[0] == "const" and y[0] == "const":
            return self.fold(lambda: _OPS[op](x[2], y[2]), st)
        if op == "Div" and (is_path(x) or is_path(y)):
            return V(mk_join(x, y))
        if op == "Add":
            if self.is_listlike(x, st) and self.is_listlike(y, st):
                it = self.atom_items(x, st) + self.atom_items(y, st)
                return self.alloc(st, List([(self.fresh(), v, c) for v, c in it]))
            if x[0] in ("tup", "nt") and y[0] in ("tup", "nt"):
                return V(("tup", x[-1] + y[-1]))
            if x == const("") and self.is_strish(y):
                return V(y)
            if y == const("") and self.is_strish(x):
                return V(x)
            if self._color(y) and x[0] == "const" and x[2] == "#":
                cs = self.to_cs(y) if y[0] == "leaf" else y
                return V(self.cs_mk(cs, ("#",) + cs[3]))
            if self._color(y) and self._color(x):
                cs, ds = [self.to_cs(q) if q[0] == "leaf" else q for q in (x, y)]
                if cs[1:3] == ds[1:3]:
                    return V(self.cs_mk(cs, cs[3] + ds[3]))
            if self._color(x) and y[0] == "const" and isinstance(y[2], str) or \
                    self._color(y) and x[0] == "const" and isinstance(x[2], str):
                if self._color(x):
                    cs = self.to_cs(x) if x[0] == "leaf" else x
                    return V(self.cs_mk(cs, cs[3] + tuple(y[2])))
                cs = self.to_cs(y) if y[0] == "leaf" else y
                return V(self.cs_mk(cs, tuple(x[2]) + cs[3]))
            if self.is_strish(x) and self.is_strish(y):
                p = x[2] if x[0] == "term" and x[1] == "concat" else (x,)
                q = y[2] if y[0] == "term" and y[1] == "concat" else (y,)
                return V(("term", "concat", p + q))
        if op == "Mult" and (self.is_listlike(x, st) or self.is_listlike(y, st)):
            lst, n = (x, y) if self.is_listlike(x, st) else (y, x)
            if n[0] == "const" and isinstance(n[2], int):
                it = self.atom_items(lst, st) * max(0, n[2])
                return self.alloc(st, List([(self.fresh(), v, c) for v, c in it]))
            return self.unk("list repetition")
        if op == "BitOr" and (x[0] in ("obj", "node", "attrib")) and (y[0] in ("obj", "node", "attrib")):
            if x[0] == "obj" and st.heap[x[1]].kind == "list":
                it = self.atom_items(x, st) + self.atom_items(y, st)
                return self.alloc(st, List([(self.fresh(), v, c) for v, c in it], "set"))
            d = self.alloc(st, Dict(()))
            self.dict_update(d, V(x), st)
            self.dict_update(d, V(y), st)
            return d
        if x[0] == "ext" or y[0] == "ext" or x[0] == "cls":     # typing unions
            return V(x)
        lx, ly = self.lin(x), self.lin(y)
        if x[0] == "cond" or y[0] == "cond":
            return self.unk("arithmetic on a truth value")
        if lx is None or ly is None:
            if (x[0] == "const" and x[2] is None) or (y[0] == "const" and y[2] is None) or \
                    (self.is_strish(x) and (ly is not None)) or (self.is_strish(y) and lx is not None and op == "Add"):
                if not (op == "Mod" and self.is_strish(x)):
                    self.raise_exc(("exc", "builtins.TypeError", vconst("operand types")), st)
                    raise AbsDead()
            if op == "Mod" and self.is_strish(x):
                return V(("term", "strm", "format", x))
            return self.unk("operator %s on %s, %s" % (op, x[:2], y[:2]))
        (cx, tx), (cy, ty) = lx, ly
        if op in ("Add", "Sub"):
            s = 1 if op == "Add" else -1
            t = dict(tx)
            for k, v in ty.items():
                t[k] = t.get(k, 0) + s * v
            return V(self.unlin(cx + s * cy, t))
        if op == "Mult":
            if not tx or not ty:
                c, (k, t) = (cx, (cy, ty)) if not tx else (cy, (cx, tx))
                return V(self.unlin(c * k, {a: c * v for a, v in t.items()}))
            return V(self.mul(x, y))
        if op == "LShift" and not ty and isinstance(cy, int) and 0 <= cy < 4096:
            f = 1 << cy
            return V(self.unlin(cx * f, {a: f * v for a, v in tx.items()}))
        if op in ("BitOr", "BitXor", "BitAnd", "RShift", "Mod", "FloorDiv"):
            bx, by = lin_bits(cx, tx), lin_bits(cy, ty)
            if op in ("BitOr", "BitXor"):
                if ty == {} and cy == 0:
                    return V(self.unlin(cx, tx))
                if tx == {} and cx == 0:
                    return V(self.unlin(cy, ty))
                if bx is not None and by is not None:
                    t = dict(tx)
                    clash = any(k in t for k in ty)
                    t.update(ty)
                    if not clash and not cx & cy and lin_bits(cx | cy, t) is not None:
                        return V(self.unlin(cx | cy, t))
            if op in ("BitOr", "BitXor"):
                for (c, t), (d, u) in (((cx, tx), (cy, ty)), ((cy, ty), (cx, tx))):
                    if c == 0 and len(t) == 1 and masked(next(iter(t))) and set(t.values()) == {1}:
                        q, m = masked(next(iter(t)))
                        if any(masked(o) and masked(o)[0] == q and not masked(o)[1] & m for o in u):
                            return self.binop1("Add", x, y, st)
            if op == "BitAnd" and ((bx is not None and not ty) or (by is not None and not tx)):
                bb, m, c = (bx, cy, cx) if bx is not None and not ty else (by, cx, cy)
                if isinstance(m, int):
                    m &= (1 << 128) - 1
                    keep = {}
                    for p, w, a in bb:
                        f = (m >> p) & ((1 << w) - 1)
                        if f == (1 << w) - 1:
                            keep[a] = 1 << p
                        elif f != 0:
                            return V(("num", "and", x, y))
                    return V(self.unlin(c & m, keep))
            if op in ("RShift", "FloorDiv") and bx is not None and not ty and isinstance(cy, int):
                k = cy if op == "RShift" else (cy.bit_length() - 1 if cy > 0 and not cy & (cy - 1) else None)
                if k is not None:
                    t = {}
                    for p, w, a in bx:
                        if p >= k:
                            t[a] = 1 << (p - k)
                        elif p + w > k:
                            return V(("num", "shift", x, y))
                    return V(self.unlin(cx >> k, t))
            if op == "Mod" and bx is not None and not ty and isinstance(cy, int) and cy > 0 and not cy & (cy - 1):
                return self.binop1("BitAnd", x, const(cy - 1), st)
            return V(("num", op, x, y))
        if op in ("Div", "Pow", "RShift", "LShift"):
            if op == "Div" and not ty and cy:
                return V(("num", "Div", x, y))
            return V(("num", op, x, y))
        return self.unk("operator " + op)

    def mul(self, x, y):
        fs = []
        for q in (x, y):
            fs += list(q[2]) if q[0] == "term" and q[1] == "mul" else [q]
        return ("term", "mul", tuple(sorted(fs, key=repr)))

    def unop(self, op, v, st):
        out = frozenset()
        for a in v:
            if a[0] == "const":
                out = out | self.fold(lambda: {"USub": lambda z: -z, "UAdd": lambda z: +z,
                                               "Invert": lambda z: ~z}[op](a[2]), st)
            elif op == "UAdd":
                out = out | V(a)
            elif op == "USub":
                out = out | self.binop1("Mult", const(-1), a, st)
            elif a[0] == "top":
                out = out | V(a)
            else:
                out = out | V(("num", op, a))
        return out

    # ------------------------------------------------------------ conditions
    def zero_key(self, a):
        """Fact key telling whether this atom is zero/empty, with what truth means."""
        if a[0] == "leaf":
            k = self.meta(a)
            if k.stype == "path" and a[2] == "value":
                return ("zero", a[1], a[2])       # a file property may be empty
            if self.fmt(a) == "xml" and k.stype != "str":
                return None
            if self.fmt(a) == "json" and (k.stype in ("color", "path", "regex") or isinstance(k.stype, tuple)):
                return None
            return ("zero", a[1], a[2])
        if a[0] == "term" and a[1] in ("int", "float") and a[2][0] == "leaf":
            return ("zero", a[2][1], a[2][2])
        return None

    def truth(self, a, st):
        """True / False / None (really unknown) / 'top' / (factkey, truth when fact holds)."""
        t = a[0]
        if t == "top":
            return "top"
        if t == "const":
            return bool(a[2])
        if t == "cond":
            f = st.facts.get(a[1])
            if f is None and a[1][0] == "pres":
                f = self.presence_def(a[1][1], a[1][2])
            if f is not None:
                return f == a[2]
            return (a[1], a[2])
        if t == "leaf" or (t == "term" and a[1] in ("int", "float")):
            zk = self.zero_key(a)
            if zk is None:
                if t == "leaf":
                    return True
                f = st.facts.get(("truth", a))
                return f if f is not None else (("truth", a), True)
            f = st.facts.get(zk)
            if f is not None:
                return not f
            return (zk, False)
        if t == "obj":
            o = st.heap[a[1]]
            if o.kind == "inst":
                c = self.classes[o.cls]
                if self.class_lookup(c, "__bool__") is not None or self.class_lookup(c, "__len__") is not None:
                    return "top"
                return True
            items = [(c) for _, _, c in o.items] if o.kind == "list" else [e[3] for e in o.entries]
            if o.kind == "list" and o.ltype == "iter":
                return True
            conds = [self.cond_state(c, st) for c in items]
            if any(c is None for c in conds):
                return True
            live = [c for c in conds if c is not False]
            if not live and not (o.kind == "dict" and o.extra):
                return False
            if len(live) == 1 and isinstance(live[0], tuple):
                return live[0]
            return "top" if o.kind == "dict" and o.extra else None
        if t in ("node", "attrib"):
            n = self.node(a)
            if n.isarray or (t == "node" and n.fmt == "xml"):
                conds = [self.cond_state(c, st) for _, c in self.atom_items(a, st)]
            else:
                conds = [self.cond_state(c, st) for _, c in self.node_keys(a, st)]
            if any(c is None for c in conds):
                return True
            live = [c for c in conds if c is not False]
            if not live:
                return False
            if len(live) == 1 and isinstance(live[0], tuple):
                return live[0]
            return None
        if t == "tup":
            return len(a[1]) > 0
        if t == "nt":
            return len(a[2]) > 0
        if t == "cs":
            return len(a[3]) > 0
        if is_path(a) or t in ("fn", "cls", "ext", "bound", "method", "partial", "mod", "file", "etree", "match",
                               "fname", "exc", "part", "pair", "getter", "static"):
            return True
        if t == "bslice":
            return a[3] > a[2]
        if t == "term" and a[1] in ("firstline", "content"):
            f = self.world.files.get(strip_abs(a[2]), ("?",))[0]
            return "top" if f == "?" else f != "empty"
        if t == "term" and a[1] in ("regex", "b64", "zlib", "gzip", "zstd"):
            return True
        f = st.facts.get(("truth", a))
        return f if f is not None else (("truth", a), True)

    def split_truth(self, v, st, expr, ctx):
        """-> ((true value, state|None), (false value, state|None), tainted)."""
        T, F, taint = set(), set(), False
        facts = {}
        for a in v:
            r = self.truth(a, st)
            if r is True:
                T.add(a)
            elif r is False:
                F.add(a)
            else:
                T.add(a)
                F.add(a)
                if r == "top":
                    taint = True
                elif r is not None:
                    facts[a] = r
        res = []
        both = bool(T) and bool(F)
        for want, S in ((True, T), (False, F)):
            if not S:
                res.append((frozenset(), None))
                continue
            z = st.copy() if both and want else st
            if len(S) == 1:
                a = next(iter(S))
                if a in facts:
                    key, pol = facts[a]
                    z = self.assume_ext(z, key, pol if want else not pol)
                if z is not None and want and a[0] == "leaf" and len(v) > 1:
                    z = self.assume(z, ("pres", a[1], a[2]), True)
            if z is not None and len(S) < len(v):
                self.narrow(expr, frozenset(S), z, ctx)
            val = frozenset(S)
            if not want and len(S) == 1:
                a = next(iter(S))
                if a[0] == "cond":
                    val = V(FALSE)
            elif want and len(S) == 1 and next(iter(S))[0] == "cond":
                val = V(TRUE)
            res.append((val, z))
        return res[0], res[1], taint

    def assume_ext(self, st, key, val):
        if st is None:
            return None
        if key[0] == "match":
            # match at start implies search; fullmatch implies match
            order = ["search", "match", "fullmatch"]
            i = order.index(key[1])
            todo = order[:i + 1] if val else order[i:]
            for kind in todo:
                k = ("match", kind) + key[2:]
                if st.facts.get(k, val) != val:
                    return None
                st.facts[k] = val
            return st
        return self.assume(st, key, val)

    def narrow(self, expr, atoms, st, ctx):
        if isinstance(expr, ast.NamedExpr):
            expr = expr.target
        if isinstance(expr, ast.Name):
            fr = st.frames.get(ctx.fid)
            if fr is not None and expr.id in fr and expr.id not in ctx.globals:
                st.frames[ctx.fid] = dict(fr, **{expr.id: atoms})
        elif isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
            o = self.lookup_local(expr.value.id, st, ctx)
            a = single(o) if o is not None else None
            if a is not None and a[0] == "obj" and st.heap[a[1]].kind == "inst":
                ob = st.heap[a[1]]
                if expr.attr in ob.fields:
                    st.heap[a[1]] = Inst(ob.cls, dict(ob.fields, **{expr.attr: atoms}), ob.sites)

    def cond(self, e, st, ctx):
        """-> (true state | None, false state | None, tainted?)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f, x = self.cond(e.operand, st, ctx)
            return f, t, x
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, outs, taint = st, None, False
            for x in e.values:
                if cur is None:
                    break
                try:
                    t, f, ta = self.cond(x, cur, ctx)
                except AbsDead:
                    cur = None
                    break
                taint = taint or ta
                stop, cur = (f, t) if isand else (t, f)
                outs = self.join(outs, stop)
            if cur is None and outs is None:
                raise AbsDead()
            return (cur, outs, taint) if isand else (outs, cur, taint)
        if isinstance(e, ast.Compare):
            return self.cond_compare(e, st, ctx)
        r = self.cond_typetest(e, st, ctx)
        if r is not None:
            return r
        T = F = None
        taint = False
        base = st.taint
        forks = self.eval_forks(e, st, ctx)
        if any(z.taint and not base for _, z in forks):
            taint = len(forks) > 1
        for v, z in forks:
            z.taint = base
            (tv, t), (fv, f), ta = self.split_truth(v, z, e, ctx)
            taint = taint or ta
            T = self.join(T, t)
            F = self.join(F, f)
        return T, F, taint

    def cond_typetest(self, e, st, ctx):
        """isinstance(x, T) / hasattr(x, n) on a variable: splits its possible values."""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr")
                and len(e.args) == 2 and not e.keywords and isinstance(e.args[0], (ast.Name, ast.Attribute))):
            return None
        f = self.eval(e.func, st, ctx)
        if f != frozenset([("ext", "builtins." + e.func.id)]):
            return None
        v = self.eval(e.args[0], st, ctx)
        if len(v) < 2:
            return None
        w = self.eval(e.args[1], st, ctx)
        T, F = set(), set()
        for a in v:
            if e.func.id == "isinstance":
                r = self.isinst(a, self.type_names(w, st), st)
            else:
                n = single(w)
                if not n or n[0] != "const":
                    return None
                r = self.has_attr1(a, n[2], st)
            if r is True:
                T.add(a)
            elif r is False:
                F.add(a)
            else:
                return None
        if not T or not F:
            return None
        t = st.copy()
        self.narrow(e.args[0], frozenset(T), t, ctx)
        self.narrow(e.args[0], frozenset(F), st, ctx)
        return t, st, False

    def cond_compare(self, e, st, ctx):
        if len(e.ops) > 1:
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [r]), e))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st, ctx)
        op = type(e.ops[0]).__name__
        base = st.taint
        T = F = None
        taint = False
        rx = e.comparators[0]
        dead = True
        for lv, z in self.eval_forks(e.left, st, ctx):
            try:
                rforks = self.eval_forks(rx, z, ctx)
            except AbsDead:
                continue
            for rv, y in rforks:
                dead = False
                if y.taint and not base:
                    taint = True
                    y.taint = base
                t, f, ta = self.compare_split(op, lv, rv, y, e.left, rx, ctx)
                taint = taint or ta
                T = self.join(T, t)
                F = self.join(F, f)
        if dead:
            raise AbsDead()
        return T, F, taint

    def compare_split(self, op, lv, rv, st, lx, rx, ctx):
        neg = op in ("IsNot", "NotEq", "NotIn")
        base = {"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}.get(op, op)
        LT, LF, RT, RF = set(), set(), set(), set()
        taint, facts, n, unknown = False, {}, 0, False
        for a in lv:
            for b in rv:
                n += 1
                r = self.cmp(base, a, b, st)
                if r is True:
                    LT.add(a), RT.add(b)
                elif r is False:
                    LF.add(a), RF.add(b)
                else:
                    LT.add(a), LF.add(a), RT.add(b), RF.add(b)
                    if r == "top":
                        taint = True
                    elif r is not None:
                        facts[(a, b)] = r
        out = []
        both = bool(LT) and bool(LF)
        for want, L, R in ((True, LT, RT), (False, LF, RF)):
            if not L:
                out.append(None)
                continue
            z = st.copy() if both and want else st
            if len(L) == 1 and len(R) == 1:
                p = (next(iter(L)), next(iter(R)))
                if p in facts:
                    key, pol = facts[p]
                    z = self.assume_ext(z, key, pol if want else not pol)
                elif want and len(lv) > 1 and p[0][0] == "leaf" and z is not None:
                    z = self.assume(z, ("pres", p[0][1], p[0][2]), True)
            elif all(a[0] == "leaf" for a in L) and len(L) == 1 and z is not None and len(lv) > 1:
                a = next(iter(L))
                z = self.assume(z, ("pres", a[1], a[2]), True)
            if z is not None:
                if len(L) < len(lv):
                    self.narrow(lx, frozenset(L), z, ctx)
                if len(R) < len(rv):
                    self.narrow(rx, frozenset(R), z, ctx)
                # `x.get(k) is not None` on a narrowed leaf
                if not want and base == "Is" or want and base != "Is":
                    pass
            out.append(z)
        # narrowing "is None" away leaves only leaves -> present
        t, f = out
        if neg:
            t, f = f, t
        if base == "Is" and NONE in rv and len(rv) == 1 and len(LF) == 1 and len(lv) > 1:
            a = next(iter(LF))
            z = t if neg else f
            if a[0] == "leaf" and z is not None:
                z2 = self.assume(z, ("pres", a[1], a[2]), True)
                if neg:
                    t = z2
                else:
                    f = z2
        return t, f, taint

    def pytype(self, a, st):
        """Name of the Python type of an atom, a set of candidates, or None."""
        t = a[0]
        if t == "const":
            return type(a[2]).__name__
        if t == "leaf":
            if self.fmt(a) == "xml":
                return "str"
            s = self.meta(a).stype
            return {"int": "int", "float": ("int", "float"), "num": ("int", "float"), "bool": "bool",
                    "realfloat": "float"}.get(s, "str") if not isinstance(s, tuple) else "str"
        if t == "node":
            n = self.node(a)
            return ELEMENT if n.fmt == "xml" else ("list" if n.isarray else "dict")
        if t == "attrib":
            return "dict"
        if is_path(a):
            return "pathlib.Path"
        if t == "obj":
            o = st.heap[a[1]]
            if o.kind == "inst":
                return ("cls", o.cls)
            return o.ltype if o.kind == "list" else "dict"
        if t == "nt":
            return ("cls", a[1])
        if t == "tup":
            return "tuple"
        if t in ("cs", "fname", "part", "pair"):
            return "str"
        if t in ("byte", "dig"):
            return "int"
        if t == "bslice":
            return "bytes"
        if t == "lin":
            return "int" if all(isinstance(k, int) for _, k in a[2]) and isinstance(a[1], int) and \
                all(self.pytype(("leaf",) + x[2:] if x[0] == "num" and x[1] == "leaf" else x, st) == "int"
                    for x, _ in a[2]) else None
        if t == "term":
            if a[1] in ("int", "float", "str"):
                return a[1]
            if a[1] == "strseq":
                return "list"
            if a[1] in ("b64", "zlib", "gzip", "zstd"):
                return "bytes"
            if self.is_strish(a):
                return "str"
        if t == "cond":
            return "bool"
        if t in ("fn", "bound", "method"):
            return "function"
        if t == "exc":
            return ("exc", a[1])
        return None

    def isinst(self, a, tnames, st):
        if a[0] == "top":
            return "top"
        p = self.pytype(a, st)
        if p is None:
            return "top"
        if isinstance(p, tuple) and p[0] not in ("cls", "exc"):
            rs = {self._isinst1(x, tnames) for x in p}
            if len(rs) == 1:
                return rs.pop()
            return (("isinst", a, tuple(tnames)), True)
        return self._isinst1(p, tnames)

    def _isinst1(self, p, tnames):
        for n in tnames:
            if n == "builtins.object":
                return True
            if isinstance(p, tuple):
                if p[0] == "cls":
                    c = self.classes[p[1]]
                    if n in [k.qual for k in c.mro]:
                        return True
                    if c.kind == "namedtuple" and n in ("builtins.tuple", "collections.abc.Sequence"):
                        return True
                elif p[0] == "exc" and self.exc_matches(p[1], n):
                    return True
                continue
            if n in ("builtins." + p, p):
                return True
            if p == "bool" and n in ("builtins.int", "numbers.Number", "numbers.Integral", "numbers.Real"):
                return True
            if p in ("int", "float") and n in ("numbers.Number", "numbers.Real"):
                return True
            if p == "int" and n == "numbers.Integral":
                return True
            if p == "pathlib.Path" and n in ("pathlib.PurePath", "os.PathLike", "pathlib.PosixPath"):
                return True
            if p == "dict" and n.split(".")[-1] in ("Mapping", "MutableMapping", "Dict", "OrderedDict") and \
                    n != "collections.OrderedDict":
                return True
            if p in ("list", "tuple", "str", "bytes") and n.split(".")[-1] in ("Sequence", "Collection"):
                return True
            if p == "list" and n.split(".")[-1] in ("MutableSequence", "List"):
                return True
            if p in ("list", "tuple", "str", "bytes", "dict", "set", ELEMENT) and n.split(".")[-1] == "Iterable":
                return True
            if n.split(".")[-1] == "Hashable" and p in ("str", "int", "float", "bytes"):
                return True
        return False

    def type_names(self, v, st):
        out = []
        for a in v:
            out += self.exc_names(a, st)
        return out

    def cmp(self, op, a, b, st):
        """True/False/None/'top'/(factkey, polarity)"""
        if a[0] == "top" or b[0] == "top":
            return "top"
        if op == "Is":
            if a[0] == "const" and b[0] == "const":
                return a == b
            if a == b and a[0] in ("obj", "node", "cls", "fn", "ext"):
                return True
            for x, y in ((a, b), (b, a)):
                if x[0] == "const":
                    if isinstance(x[2], bool) and y[0] == "cond":
                        f = self.truth(y, st)
                        if isinstance(f, bool):
                            return f == x[2]
                        return (f[0], f[1] if x[2] else not f[1])
                    if isinstance(x[2], bool) and y[0] == "leaf" and self.fmt(y) == "json" and \
                            self.meta(y).stype == "bool":
                        r = self.truth(y, st)
                        if isinstance(r, bool):
                            return r == x[2]
                        return (r[0], r[1] if x[2] else not r[1])
                    return False
            if a[0] == "cls" or b[0] == "cls" or a[0] == "ext" or b[0] == "ext":
                return self.cmp("Eq", a, b, st)
            if a == b:
                return None
            return False
        if op == "Eq":
            return self.cmp_eq(a, b, st)
        if op == "In":
            return self.cmp_in(a, b, st)
        # ordering
        if a[0] == "const" and b[0] == "const":
            try:
                return bool({"Lt": lambda: a[2] < b[2], "LtE": lambda: a[2] <= b[2],
                             "Gt": lambda: a[2] > b[2], "GtE": lambda: a[2] >= b[2]}[op]())
            except TypeError:
                self.raise_exc(("exc", "builtins.TypeError", vconst("ordering")), st)
                return None
        la, lb = self.lin(a), self.lin(b)
        if la is not None and lb is not None:
            t = dict(la[1])
            for k, v in lb[1].items():
                t[k] = t.get(k, 0) - v
            t = {k: v for k, v in t.items() if v}
            if not t:
                d = la[0] - lb[0]
                return {"Lt": d < 0, "LtE": d <= 0, "Gt": d > 0, "GtE": d >= 0}[op]
            if all(k[0] in ("byte", "dig") for k in t):
                c = la[0] - lb[0]
                lo = c + sum(min(0, v * (255 if k[0] == "byte" else 15)) for k, v in t.items())
                hi = c + sum(max(0, v * (255 if k[0] == "byte" else 15)) for k, v in t.items())
                r = {"Lt": (hi < 0, lo >= 0), "LtE": (hi <= 0, lo > 0), "Gt": (lo > 0, hi <= 0),
                     "GtE": (lo >= 0, hi < 0)}[op]
                if r[0]:
                    return True
                if r[1]:
                    return False
            if op in ("Gt", "GtE", "Lt", "LtE"):
                z = self.zero_cmp(op, a, b, st)
                if z is not None:
                    return z
            neg = {"LtE": "Gt", "GtE": "Lt"}
            if op in neg:
                return (("cmp", neg[op], a, b), False)
            return (("cmp", op, a, b), True)
        if la is None and lb is None and self.is_strish(a) and self.is_strish(b):
            return (("cmp", op, a, b), True)
        if self.num_atom(a) is None or self.num_atom(b) is None or NONE in (a, b):
            self.raise_exc(("exc", "builtins.TypeError", vconst("ordering of %s and %s" % (a[:2], b[:2]))), st)
            return None
        return "top"

    def zero_cmp(self, op, a, b, st):
        """leaf > 0 when the leaf is known to be zero."""
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[op])):
            if y[0] == "const":
                zk = self.zero_key(x)
                if zk is not None and st.facts.get(zk) is True:
                    c = y[2]
                    return {"Lt": 0 < c, "LtE": 0 <= c, "Gt": 0 > c, "GtE": 0 >= c}[o]
        return None

    def cmp_eq(self, a, b, st):
        if a == b:
            return True
        if a[0] == "const" and b[0] == "const":
            return bool(a[2] == b[2])
        if a[0] in ("cls", "ext", "fn") and b[0] in ("cls", "ext", "fn"):
            return a == b
        if a[0] == "const" and b[0] != "const":
            a, b = b, a
        if b[0] == "const":
            c = b[2]
            if c is None:
                return False
            if a[0] == "leaf" and self.fmt(a) == "xml" and isinstance(c, str) and \
                    self.meta(a).stype in ("bool", "tfbool", "int"):
                words = {"bool": ("0", "1"), "tfbool": ("false", "true"), "int": ("0", None)}[self.meta(a).stype]
                zk = ("zero", a[1], a[2])
                f = st.facts.get(zk)
                if c == words[0]:
                    return f if f is not None else (zk, True)
                if c == words[1]:
                    return not f if f is not None else (zk, False)
                if words[1] is not None:
                    return False
                return False if f is True else (("eq", a, b), True)
            if a[0] == "leaf" or a[0] == "term" and a[1] in ("int", "float"):
                pt = self.pytype(a, st)
                pts = pt if isinstance(pt, tuple) else (pt,)
                isnum = any(p in ("int", "float", "bool") for p in pts)
                if isnum and not isinstance(c, (int, float)):
                    return False
                if not isnum and not isinstance(c, str):
                    return False
                zk = self.zero_key(a)
                if zk is not None:
                    f = st.facts.get(zk)
                    if not c:
                        return f if f is not None else (zk, True)
                    if f is True:
                        return False
                    if isinstance(c, bool) and "bool" in pts:      # c is True
                        return True if f is False else (zk, False)
                elif c == "" and a[0] == "leaf":
                    return False
                if self._color(a) and isinstance(c, str):
                    cs = self.to_cs(a)
                    if len(c) != len(cs[3]):
                        return False
                return (("eq", a, b), True)
            if a[0] == "cs":
                if not isinstance(c, str) or len(c) != len(a[3]):
                    return False
                for x, y in zip(a[3], c):
                    if isinstance(x, str) and x != y:
                        return False
                    if not isinstance(x, str) and y not in "0123456789abcdefABCDEF":
                        return False
                return (("eq", a, b), True)
            if a[0] == "cond" and isinstance(c, (bool, int)):
                r = self.truth(a, st)
                if isinstance(r, bool):
                    return r == c
                return (r[0], r[1] if c else not r[1])
            if a[0] in ("node", "obj", "attrib", "tup", "nt", "fn", "cls", "ext", "file", "match") or is_path(a):
                if a[0] == "ext":
                    return False
                return False
            if a[0] == "term" and a[1] in ("firstline", "content"):
                t = self.truth(a, st)
                if c == "" and isinstance(t, bool):
                    return not t
                return (("eq", a, b), True)
            if self.lin(a) is not None and isinstance(c, (int, float)):
                return (("eq", a, b), True)
            if self.bytes_len(a) is not None:
                return self.cmp_bytes(a, c, st)
            if self.is_strish(a):
                if not isinstance(c, str):
                    return False
                if a[0] in ("part", "pair") and c == "":
                    return False
                return (("eq", a, b), True)
            return "top"
        if a[0] == "nt" and b[0] == "nt" and len(a[2]) == len(b[2]):
            rs = []
            for x, y in zip(a[2], b[2]):
                p, q = single(x), single(y)
                rs.append(self.cmp_eq(p, q, st) if p and q else "top")
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            us = [r for r in rs if r is not True]
            if len(us) == 1:
                return us[0]
            if any(r == "top" for r in us):
                return "top"
            key = ("eq",) + tuple(sorted((a, b), key=repr))
            f = st.facts.get(key)
            return f if f is not None else (key, True)
        la, lb = self.lin(a), self.lin(b)
        if la is not None and lb is not None:
            t = dict(la[1])
            for k, v in lb[1].items():
                t[k] = t.get(k, 0) - v
            if not any(t.values()):
                return la[0] == lb[0]
            return (("eq",) + tuple(sorted((a, b), key=repr)), True)
        simple = ("leaf", "term", "cs", "fname", "param", "lin", "byte")
        if a[0] in simple and b[0] in simple:
            return (("eq",) + tuple(sorted((a, b), key=repr)), True)
        if (a[0] in simple) != (b[0] in simple):
            return False
        return "top"

    def cmp_in(self, a, b, st):
        p = self.pytype(b, st)
        if p == "dict" and self.pytype(a, st) in ("dict", "list", "set"):
            self.type_error("unhashable key", st)
        if p in ("int", "float", "bool", "NoneType", "function"):
            self.type_error("not a container", st)
        if b[0] in ("attrib",) or (b[0] == "node" and self.node(b).fmt == "json" and not self.node(b).isarray):
            if a[0] != "const":
                return False if self.pytype(a, st) not in (None, "str") and a[0] != "top" else "top"
            o = st.over.get((b[1], b[2], a[2]))
            if o is not None:
                if o == V(ABSENT):
                    return False
                return None if ABSENT in o else True
            p = self.presence(st, b[1], a[2])
            return p if p is not None else (("pres", b[1], a[2]), True)
        if b[0] == "obj" and st.heap[b[1]].kind == "dict":
            o = st.heap[b[1]]
            if o.extra:
                return "top"
            conds, unk = [], None
            for k, c in self.dict_keys(o):
                r = self.cmp_eq(k, a, st)
                if r is True:
                    c = self.cond_state(c, st)
                    if c is None:
                        return True
                    if c is False:
                        continue
                    return c if isinstance(c, tuple) else None
                if r is not False:
                    unk = r
            return False if unk is None else (unk if unk == "top" or isinstance(unk, tuple) else None)
        if b[0] == "const" and isinstance(b[2], str):
            if a[0] == "const":
                return a[2] in b[2]
            return (("in", a, b), True)
        if b[0] in ("leaf", "cs") and self._color(b) and a == const("#"):
            cs = self.to_cs(b) if b[0] == "leaf" else b
            return "#" in cs[3]
        if b[0] in ("leaf", "term", "fname") and self.is_strish(b):
            return (("in", a, b), True)
        if is_path(b) or (b[0] == "const" and b[2] is None):
            self.raise_exc(("exc", "builtins.TypeError", vconst("argument is not iterable")), st)
            return None
        items = self.atom_items(b, st)
        if items is None or items == "no":
            return "top"
        unk, n = None, 0
        for v, c in items:
            for x in v:
                r = self.cmp_eq(a, x, st)
                if r is True and c is None and len(v) == 1:
                    return True
                if r is not False:
                    n += 1
                    unk = r if r in ("top",) or isinstance(r, tuple) else None
                    if c is not None or len(v) > 1:
                        unk = None
                        n += 1
        if n == 0:
            return False
        if n == 1 and unk is not None:
            return unk
        return (("in", a, b), True) if unk != "top" else "top"


_OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
        "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
        "Pow": lambda a, b: a ** b if abs(b) < 64 else 0, "LShift": lambda a, b: a << b if b < 4096 else 0,
        "RShift": lambda a, b: a >> b, "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b,
        "BitXor": lambda a, b: a ^ b, "MatMult": lambda a, b: a @ b}

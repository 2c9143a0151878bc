"""Models of methods and library functions used by (or plausible in) the analysed package."""
import builtins as _b
import struct as _struct

from .docs import K, Node
from .models import (ELEMENT, NUMERIC, is_path, lin_bits, mk_absolute, mk_join, mk_lin, mk_parent, mk_path,
                     mk_resolve, plain_path, strip_abs, unpath)
from .values import (ABSENT, FALSE, NONE, TRUE, VNONE, AbsDead, Dict, Inst, List, V, const, has_top,
                     is_const, join_values, norm, single, top, vconst, vtop)

EFFECTS = ("os.system", "os.popen", "os.exec", "os.spawn", "os.fork", "os.kill", "os.remove", "os.unlink",
           "os.rename", "os.replace", "os.rmdir", "os.mkdir", "os.makedirs", "os.chdir", "os.chmod", "os.chown",
           "os.putenv", "os.unsetenv", "os.umask", "os.symlink", "os.link", "os.truncate", "os.write",
           "subprocess.", "socket.", "urllib.", "http.", "requests.", "shutil.", "tempfile.", "ctypes.",
           "builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "builtins.input",
           "pickle.", "marshal.", "shelve.", "runpy.", "sys.setrecursionlimit", "sys.exit", "sys.path",
           "sys.setswitchinterval", "sys.settrace", "locale.setlocale", "random.seed", "signal.",
           "atexit.", "multiprocessing.", "threading.Thread", "importlib.reload", "gc.", "logging.basicConfig",
           "warnings.simplefilter", "warnings.filterwarnings", "os.environ.", "csv.writer", "json.dump",
           "sqlite3.", "webbrowser.", "code.", "xml.etree.ElementTree.register_namespace",
           "decimal.setcontext", "time.sleep")
OUTPUT = ("sys.stdout.", "sys.stderr.", "sys.__stdout__", "sys.__stderr__", "warnings.warn", "traceback.print",
          "pprint.pprint", "logging.warning", "logging.error", "logging.critical", "logging.exception",
          "logging.log")
LOCALIZED = ("atof", "atoi", "strcoll", "strxfrm", "str", "delocalize", "localize", "format_string", "currency",
             "localeconv")
DECOMP = {"zlib.decompress": "zlib", "gzip.decompress": "gzip", "zstd.decompress": "zstd",
          "zstd.ZSTD_uncompress": "zstd", "zstd.loads": "zstd", "zstd.uncompress": "zstd"}


def _k(kwargs, name, default=None):
    return kwargs[name][0] if name in kwargs else default


class Lib:
    # ------------------------------------------------------------ conversions
    def raise_now(self, name, msg, st):
        self.raise_exc(("exc", "builtins." + name, vconst(msg)), st)
        raise AbsDead()

    def each(self, v, f, st):
        """Union of f over atoms; dead only when every atom is."""
        out, atoms = frozenset(), sorted(v, key=repr)
        for a in atoms:
            try:
                out = out | f(a)
            except AbsDead:
                if len(atoms) == 1:
                    raise
        if not out:
            raise AbsDead()
        return norm(out)

    def to_int(self, a, st):
        if a[0] == "top":
            return V(a)
        if a[0] == "const":
            return self.fold(lambda: int(a[2]), st)
        if a[0] in ("lin", "byte", "dig"):
            return V(a)
        if a[0] == "leaf":
            k = self.meta(a)
            if self.fmt(a) == "json":
                if k.stype in ("int", "bool"):
                    return V(a) if k.stype == "int" else V(("term", "int", a))
                if k.stype in NUMERIC + ("realfloat",):
                    return V(("term", "int", a))
            else:
                if k.stype in ("int", "bool"):
                    return V(("term", "int", a))
            self.may_raise("builtins.ValueError", "int() of %s" % (a[2],), st)
            if k.stype in ("color", "path", "regex", "tfbool") or isinstance(k.stype, tuple):
                raise AbsDead()
            return V(("term", "int", a))
        if a[0] == "part":
            k = self.meta(a[1])
            if isinstance(k.stype, tuple) and k.stype[0] == "csv":
                return V(("term", "int", a))
            self.may_raise("builtins.ValueError", "int() of a decimal number", st)
            return V(("term", "int", a))
        if a[0] == "term" and a[1] == "int":
            return V(a)
        if a[0] == "term" and a[1] == "float":
            b = a[2]
            if b[0] == "leaf" and self.meta(b).stype in ("int", "bool") or \
                    b[0] == "part" and self.meta(b[1]).stype[0] == "csv":
                return self.to_int(b, st)
            return V(("term", "int", a))
        if a[0] == "cond":
            return V(("term", "int", a))
        if a[0] in ("num",):
            return V(("num", "int", a))
        if a[0] == "term" and a[1] in ("group", "strip", "content", "item", "slice", "strm"):
            self.check_number(a, st)
            return V(("term", "int", a))
        if a[0] in ("node", "obj", "attrib", "tup", "nt") or is_path(a):
            self.raise_now("TypeError", "int() argument", st)
        return self.unk("int() of %s" % (a[:2],))

    def group(self, rx, s, key, st):
        """One group of a match of a pattern of a world."""
        if st.facts.get(("groups", rx)) and key[0] == "const" and key[2] == 2:
            self.raise_now("IndexError", "no such group", st)
        a = ("term", "group", rx, s, key)
        return NONE if st.facts.get(("nogroup", a)) else a

    def check_number(self, a, st):
        """Captured text that is no number."""
        while a[0] == "term" and a[1] in ("strip", "strm"):
            a = a[2]
        if st.facts.get(("notnum", a)) is True:
            self.raise_now("ValueError", "conversion of text that is no number", st)

    def to_float(self, a, st):
        if a[0] == "top":
            return V(a)
        if a[0] == "const":
            return self.fold(lambda: float(a[2]), st)
        if a[0] == "leaf":
            k = self.meta(a)
            if self.fmt(a) == "json":
                if k.stype in ("float", "num", "realfloat"):
                    return V(a)
                if k.stype in ("int", "bool"):
                    return V(("term", "float", a))
            elif k.stype in NUMERIC + ("bool",):
                return V(("term", "float", a))
            self.may_raise("builtins.ValueError", "float() of %s" % (a[2],), st)
            if k.stype in ("color", "path", "regex", "tfbool") or isinstance(k.stype, tuple):
                raise AbsDead()
            return V(("term", "float", a))
        if a[0] == "part" or a[0] in ("lin", "byte", "dig", "cond"):
            return V(("term", "float", a))
        if a[0] == "term" and a[1] == "float":
            return V(a)
        if a[0] == "term" and a[1] == "int":
            b = a[2]
            if b[0] in ("leaf", "part"):
                return V(("term", "float", b)) if self.num_is_int(b) else V(("term", "float", a))
            return V(("term", "float", a))
        if a[0] == "num" or (a[0] == "term" and a[1] == "mul"):
            return V(a)
        if a[0] == "term":
            self.check_number(a, st)
            return V(("term", "float", a))
        if a[0] in ("node", "obj", "attrib", "tup", "nt"):
            self.raise_now("TypeError", "float() argument", st)
        return self.unk("float() of %s" % (a[:2],))

    def num_is_int(self, a):
        if a[0] == "leaf":
            return self.meta(a).stype in ("int", "bool")
        if a[0] == "part":
            return self.meta(a[1]).stype[0] == "csv"
        return False

    def to_bool(self, v, st):
        out = frozenset()
        for a in v:
            r = self.truth(a, st)
            if r is True or r is False:
                out = out | vconst(r)
            elif r is None:
                out = out | V(TRUE, FALSE)
            elif r == "top":
                out = out | vtop("truth value of an unmodelled value")
            else:
                out = out | V(self.mk_cond(r[0], r[1]))
        return out

    def mk_cond(self, key, pol):
        """Canonical truth atom: a JSON flag that is true exactly when its leaf is."""
        if key[0] == "zero" and pol is False:
            n = self.world.nodes.get(key[1])
            if n is not None and n.fmt == "json":
                k = self.world.key(key[1], key[2])
                if isinstance(k, K) and k.stype == "bool" and k.const is None:
                    return ("leaf", key[1], key[2])
        return ("cond", key, pol)

    def to_str(self, a, st):
        if a[0] == "top":
            return V(a)
        if a[0] == "const":
            return self.fold(lambda: str(a[2]), st)
        if a[0] == "term" and a[1] == "str" and not is_path(a[2]):
            return V(a)
        if self.is_strish(a):
            return V(a)
        return V(("term", "str", a))

    def hexint(self, a, st):
        if a[0] == "const":
            return self.fold(lambda: int(a[2], 16), st)
        if a[0] == "leaf" and self._color(a):
            a = self.to_cs(a)
        if a[0] == "cs":
            ch = a[3]
            if "#" in ch or not ch:
                self.raise_now("ValueError", "invalid literal for int() with base 16", st)
            n = len(ch)
            terms, c = {}, 0
            for p, x in enumerate(ch):
                w = 16 ** (n - 1 - p)
                if isinstance(x, str):
                    if x not in "0123456789abcdefABCDEF":
                        self.raise_now("ValueError", "invalid hexadecimal digit", st)
                    c += int(x, 16) * w
                else:
                    d = ("dig", a[1], a[2], x)
                    terms[d] = terms.get(d, 0) + w
            return V(mk_lin(c, terms))
        if a[0] == "top":
            return V(a)
        return self.unk("int(.., 16) of %s" % (a[:2],))

    # ------------------------------------------------------------ files
    def do_open(self, pa, mode, enc, st, how="open", errors=None):
        """pa: path atom.  -> ('file', path, mode, fid)"""
        fid = self.fresh()
        if errors in ("ignore", "replace", "backslashreplace", "namereplace", "surrogateescape", "xmlcharrefreplace"):
            self.lenient.add(fid)
        if pa[0] == "top":
            self.event("open", st, path=pa, mode=mode, enc=enc, fid=fid, known=None)
            return ("file", pa, mode, fid)
        p = mk_path(pa)
        key = strip_abs(p)
        f = self.world.files.get(key)
        self.event("open", st, path=p, mode=mode, enc=enc, fid=fid, known=f is not None, via=how)
        if f[0] == "missing" if f is not None else plain_path(key):
            self.raise_now("FileNotFoundError", "no such file", st)
        st.over = dict(st.over)
        st.over[("fopen", fid, self.site())] = vconst("open")
        return ("file", p, mode, fid)

    def closed(self, fid, st):
        """The handle is closed, or will be on every path out of here."""
        for k in st.over:
            if k[0] == "fopen" and k[1] == fid:
                st.over = dict(st.over)
                st.over[k] = vconst("closed")
                return

    def leaked(self, st):
        return sorted(k[2] for k, v in st.over.items() if k[0] == "fopen" and v == vconst("open"))

    def undecodable(self, p, mode, st, fid=None):
        f = self.world_file(p)
        if f is not None and f[0] == "binary" and "b" not in mode and fid not in self.lenient:
            self.raise_now("UnicodeDecodeError", "cannot decode", st)

    def repaired(self, p, st):
        """A document is read from text whose undecodable bytes were dropped or replaced."""
        f = self.world_file(p)
        if f is not None and f[0] == "binary":
            self.event("lenient", st, what="bytes that are not text are dropped or replaced")

    def file_state(self, fid, st):
        return st.over.get(("fpos", fid, 0), vconst("start"))

    def move_file(self, fid, st, pos):
        st.over = dict(st.over)
        st.over[("fpos", fid, 0)] = vconst(pos)

    def world_file(self, p):
        return self.world.files.get(strip_abs(mk_path(p))) if p[0] != "top" else None

    def load_doc(self, src, want, st):
        """Document object loaded by json.load(s) / etree.parse / fromstring."""
        if src[0] == "top":
            return V(src)
        if src[0] == "file":
            if self.file_state(src[3], st) != vconst("start"):
                if self.file_state(src[3], st) == vconst("closed"):
                    self.raise_now("ValueError", "read of closed file", st)
                self.raise_exc(self.parse_error(want), st)
                raise AbsDead()
            self.move_file(src[3], st, "end")
            p = src[1]
            self.undecodable(p, src[2], st, src[3])
            if src[3] in self.lenient:
                self.repaired(p, st)
        elif src[0] == "term" and src[1] == "content":
            p = src[2]
            if src[3] == "l":
                self.repaired(p, st)
        elif is_path(src) or self.is_strish(src):
            if want == "xml":
                p = src
                a = self.do_open(p, "rb", None, st, "etree.parse")
                self.closed(a[3], st)
            else:
                return self.unk("parsing of a string")
        else:
            return self.unk("parsing of %s" % (src[:2],))
        f = self.world_file(p)
        if f is None:
            return vtop("content of a file outside the document set")
        fmt, root = f
        if fmt != want:
            self.raise_exc(self.parse_error(want), st)
            raise AbsDead()
        g = self.fresh()
        return V(("node", root.id, g))

    @staticmethod
    def parse_error(want):
        if want == "json":
            return ("exc", "json.JSONDecodeError", vconst("not JSON"))
        return ("exc", "xml.etree.ElementTree.ParseError", vconst("not XML"))

    # ------------------------------------------------------------ XML search
    def xml_step(self, items, tag, st):
        out = []
        for a, c in items:
            if a[0] != "node":
                out.append((top("child of unmodelled element"), True))
                continue
            for _, x, c2 in self.kids(st, a[1], a[2]):
                if x[0] == "node":
                    if tag != "*" and self.node(x).tag != tag:
                        continue
                cc = c if c2 is None else (c2 if c is None else True)
                out.append((x, cc))
        return out

    def xml_descend(self, items, st, selfincl=False):
        out = []
        for a, c in items:
            if selfincl:
                out.append((a, c))
            for x, c2 in self.xml_step([(a, c)], "*", st):
                if x[0] == "node":
                    out += self.xml_descend([(x, c2)], st, True)
                else:
                    out.append((x, c2))
        return out

    def xml_path(self, a, path, st):
        """[(atom, cond)] or None when the path is not modelled."""
        items = [(a, None)]
        p = path
        while p.startswith("./") and not p.startswith(".//"):
            p = p[2:]
        if p in (".", ""):
            return items
        if p.startswith(".//"):
            items = self.xml_descend(items, st, True)
            p = p[3:]
        for step in p.split("/"):
            if step == ".":
                continue
            if step == "" or "[" in step or ".." in step or "{" in step or "|" in step:
                return None
            items = self.xml_step(items, step, st)
        return items

    def xml_find(self, a, pathv, st, conv=None):
        p = single(pathv)
        if p is None or p[0] != "const" or not isinstance(p[2], str):
            return [(self.unk("find with unmodelled path"), st)]
        items = self.xml_path(a, p[2], st)
        if items is None:
            return [(self.unk("path expression %r" % p[2]), st)]
        out, cur = [], st
        for x, c in items:
            if cur is None:
                break
            if c is None:
                out.append((V(x), cur))
                cur = None
                break
            t, f = self.item_fork(cur, c)
            if t is not None:
                out.append((V(x), t))
            cur = f
        if cur is not None:
            out.append((VNONE, cur))
        return out

    # ------------------------------------------------------------ bound methods
    def compare1(self, op, lv, rv, st):
        """Outcome of one comparison as a truth value (see truth)."""
        base = {"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}.get(op, op)
        rs = {self.cmp(base, a, b, st) for a in lv for b in rv}
        r = next(iter(rs)) if len(rs) == 1 else "top" if "top" in rs else None
        if op != base and r is not None and r != "top":
            r = (not r) if isinstance(r, bool) else (r[0], not r[1])
        return r

    DUNDER = {"__eq__": "Eq", "__ne__": "NotEq", "__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE"}
    DUNARY = {"__len__": "builtins.len", "__str__": "builtins.str", "__bool__": "builtins.bool",
              "__int__": "builtins.int", "__float__": "builtins.float", "__iter__": "builtins.iter",
              "__repr__": "builtins.repr", "__abs__": "builtins.abs"}
    DBINARY = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__or__": "BitOr", "__and__": "BitAnd",
               "__truediv__": "Div", "__floordiv__": "FloorDiv", "__mod__": "Mod"}

    def call_bound(self, a, name, args, kwargs, st):
        t = a[0]
        if name[:2] == "__" and t not in ("cls", "file", "exitstack"):
            if len(args) == 1 and name in self.DUNDER:
                return self.cond_value(self.compare1(self.DUNDER[name], V(a), args[0], st))
            if len(args) == 1 and name == "__contains__":
                return self.cond_value(self.compare1("In", args[0], V(a), st))
            if len(args) == 1 and name == "__getitem__":
                return self.get_item(V(a), args[0], st)
            if len(args) == 1 and name in self.DBINARY:
                return self.binop(self.DBINARY[name], V(a), args[0], st)
            if not args and name in self.DUNARY:
                return self.call_ext(self.DUNARY[name], [V(a)], {}, st)
        if t == "exitstack":
            return self.exitstack_method(a, name, args, kwargs, st)
        if t == "node":
            n = self.node(a)
            if n.fmt == "xml":
                return self.xml_method(a, name, args, kwargs, st)
            if n.isarray:
                return self.list_method(a, name, args, kwargs, st)
            return self.map_method(a, name, args, kwargs, st)
        if t == "attrib":
            return self.map_method(a, name, args, kwargs, st)
        if t == "etree":
            root = ("node", a[1], a[2])
            if name == "getroot":
                return V(root)
            if name == "write":
                self.event("effect", st, what="ElementTree.write")
                return VNONE
            if name in ("find", "findall", "iter", "iterfind", "findtext"):
                return self.xml_method(root, name, args, kwargs, st)
            return self.unk("ElementTree.%s" % name)
        if t == "obj":
            o = st.heap[a[1]]
            if o.kind == "list":
                return self.list_method(a, name, args, kwargs, st)
            if o.kind == "dict":
                return self.dict_method(a, name, args, kwargs, st)
        if t == "nt":
            return self.nt_method(a, name, args, kwargs, st)
        if t == "cls":
            c = self.classes[a[1]]
            if name == "_make" and c.kind == "namedtuple":
                seq = self.iter_items(args[0], st)
                if seq is None or any(x[1] is not None for x in seq):
                    return self.unk("_make")
                return self.construct(a[1], [v for v, _ in seq], {}, st)
            if name == "__new__":
                return self.alloc(st, Inst(a[1], {}, {}))
            return self.unk("class attribute %s" % name)
        if t == "file":
            return self.file_method(a, name, args, kwargs, st)
        if t == "match":
            return self.match_method(a, name, args, kwargs, st)
        if t == "term" and a[1] == "regex":
            if name in ("match", "search", "fullmatch"):
                sv = args[0]
                part = list(args[1:]) + [kwargs[x] for x in ("pos", "endpos") if x in kwargs]
                if part and part != [vconst(0)]:
                    # only a part of the text is looked at
                    sv = V(*[("term", "strm", "part", x) + tuple(single(p) or ("top", "position") for p in part)
                             for x in sv])
                return self.regex_test(name, a, sv, st)
            if name == "findall" or name == "finditer":
                return self.unk("regex." + name)
            return self.unk("regex." + name)
        if t == "direntry":
            if name == "is_file":
                return V(("cond", ("isfile", mk_join(a[1], a[2])), True))
            if name == "is_dir":
                return V(("cond", ("isfile", mk_join(a[1], a[2])), False))
            return self.unk("DirEntry.%s" % name)
        if is_path(a):
            return self.path_method(a, name, args, kwargs, st)
        if t == "super":
            return VNONE
        if t == "const" and a[2] is None:
            self.raise_now("AttributeError", "None has no %s" % name, st)
        if t == "const" and isinstance(a[2], (int, float)) and not isinstance(a[2], bool) or \
                t in ("lin", "byte", "dig", "num") or (t == "term" and a[1] in ("int", "float", "mul")):
            if name in ("is_integer", "bit_length", "conjugate", "to_bytes") and t == "const":
                return self.fold(lambda: getattr(a[2], name)(*[single(x)[2] for x in args]), st)
            if name == "is_integer":
                return V(("cond", ("isint", a), True))
            if name == "to_bytes":
                return self.to_bytes(a, args, kwargs, st)
            return self.unk("number method %s" % name)
        if t in ("bslice",) or (t == "term" and a[1] in ("b64", "zlib", "gzip", "zstd", "rawdeflate")):
            if name == "tobytes":
                return V(a)
            if name == "cast":
                f = single(args[0]) if args else None
                if f and f[0] == "const":
                    return self.unpack_bytes("<" + str(f[2]), a, st, True)
            if name == "tolist":
                return self.new_list(st, [V(self.byte_at(a, i)) for i in range(self.bytes_len(a) or 0)])
            return self.unk("bytes method %s" % name)
        if t == "leaf" and self.fmt(a) == "json" and self.meta(a).stype in NUMERIC + ("bool", "realfloat"):
            if name == "is_integer":
                return V(("cond", ("isint", a), True))
            self.raise_now("AttributeError", "number has no %s" % name, st)
        if self.is_strish(a) or (t == "const" and isinstance(a[2], (str, bytes))) or t in ("csvp",):
            return self.str_method(a, name, args, kwargs, st)
        if t == "tup":
            if name in ("index", "count"):
                return self.unk("tuple method")
        if t == "exc":
            return VNONE if name in ("add_note", "with_traceback") else self.unk("exception method")
        if t in ("logger",):
            return VNONE
        return self.unk("method %s of %s" % (name, a[:2]))

    def exitstack_method(self, a, name, args, kwargs, st):
        v = single(args[0]) if args else None
        if name == "enter_context" and v:
            if v[0] == "file":
                self.closed(v[3], st)
                return V(v)
            if v[0] == "nullctx":
                return v[1]
            if v[0] == "closing":
                for x in v[1]:
                    if x[0] == "file":
                        self.closed(x[3], st)
                return v[1]
            if v[0] == "exitstack" or v[0] == "obj" and st.heap[v[1]].kind == "list":
                return V(v)
        if name in ("callback", "push") and v:
            for x in (v[1] if v[0] == "closing" else [v[1]] if v[0] == "bound" and v[2] == "close" else [v]):
                if x[0] == "file":
                    self.closed(x[3], st)
                    return args[0]
        if name in ("close", "pop_all", "__enter__", "__exit__"):
            return V(a) if name in ("pop_all", "__enter__") else VNONE
        return self.unk("ExitStack.%s" % name)

    # JSON objects and attribute maps
    def map_method(self, a, name, args, kwargs, st):
        key = single(args[0]) if args else None
        if name == "get":
            d = args[1] if len(args) > 1 else _k(kwargs, "default", VNONE)
            if key is None or key[0] != "const":
                out = []
                if args and all(k[0] == "const" for k in args[0]):
                    for k in sorted(args[0], key=repr):
                        out += self.get_forks(a, k[2], d, st.copy())
                    return out
                return self.unk("document key")
            return self.get_forks(a, key[2], d, st)
        if name in ("__contains__", "has_key"):
            r = self.cmp_in(key, a, st)
            return self.cond_value(r)
        if name == "__getitem__":
            return self.get_item(V(a), args[0], st)
        if name == "keys":
            return self.alloc(st, List([(self.fresh(), vconst(k), c) for k, c in self.node_keys(a, st)]))
        if name in ("items", "values"):
            out = []
            for k, c in self.node_keys(a, st):
                v = self.read_raw(st, a[1], a[2], k) - V(ABSENT)
                out.append((self.fresh(), V(("tup", (vconst(k), v))) if name == "items" else v, c))
            return self.alloc(st, List(out))
        if name == "pop":
            if key is None or key[0] != "const":
                return self.unk("pop of unmodelled key")
            if len(args) > 1:
                out = []
                for v, z in self.get_forks(a, key[2], args[1], st):
                    self.set_node_item(a, key[2], V(ABSENT), z)
                    out.append((v, z))
                return out
            v = self.node_item(a, key[2], st)
            self.set_node_item(a, key[2], V(ABSENT), st)
            return v
        if name == "setdefault":
            if key is None or key[0] != "const":
                return self.unk("setdefault of unmodelled key")
            d = args[1] if len(args) > 1 else VNONE
            out = []
            for v, z in self.get_forks(a, key[2], V(("absentmark",)), st):
                if ("absentmark",) in v:
                    v = (v - V(("absentmark",))) | d
                    self.set_node_item(a, key[2], v, z)
                out.append((v, z))
            return out
        if name == "update":
            for x in args:
                self.dict_update(V(a), x, st)
            for k, (v, c) in kwargs.items():
                self.set_node_item(a, k, v if c is None else v | self.read_raw(st, a[1], a[2], k), st)
            return VNONE
        if name == "copy":
            return self.copy_map(a, st)
        if name == "clear":
            for k, _ in self.node_keys(a, st):
                self.set_node_item(a, k, V(ABSENT), st)
            return VNONE
        return self.unk("mapping method " + name)

    def copy_map(self, a, st):
        ents = [(self.fresh(), const(k), self.read_raw(st, a[1], a[2], k) - V(ABSENT), c)
                for k, c in self.node_keys(a, st)]
        return self.alloc(st, Dict(ents))

    def cond_value(self, r):
        if r is True or r is False:
            return vconst(r)
        if r is None:
            return V(TRUE, FALSE)
        if r == "top":
            return vtop("undecided membership")
        return V(self.mk_cond(r[0], r[1]))

    # XML elements
    def xml_method(self, a, name, args, kwargs, st):
        if name in ("get",):
            return self.map_method(("attrib", a[1], a[2]), "get", args, kwargs, st)
        if name in ("keys", "items"):
            return self.map_method(("attrib", a[1], a[2]), name, args, kwargs, st)
        if name == "set":
            self.set_item(V(("attrib", a[1], a[2])), args[0], args[1], st)
            return VNONE
        path = args[0] if args else _k(kwargs, "path")
        if name == "find":
            return self.xml_find(a, path, st)
        if name == "findtext":
            d = args[1] if len(args) > 1 else _k(kwargs, "default", VNONE)
            out = []
            for v, z in self.xml_find(a, path, st):
                if v == VNONE:
                    out.append((d, z))
                else:
                    w = self.get_attr(v, "text", z)
                    out.append((frozenset(const("") if x == NONE else x for x in w), z))
            return out
        if name in ("findall", "iterfind"):
            p = single(path)
            items = self.xml_path(a, p[2], st) if p and p[0] == "const" and isinstance(p[2], str) else None
            if items is None:
                return self.unk("path expression")
            return self.alloc(st, List([(self.fresh(), V(x), c) for x, c in items],
                                       "list" if name == "findall" else "iter"))
        if name in ("iter", "getiterator"):
            tagv = args[0] if args else _k(kwargs, "tag")
            items = self.xml_descend([(a, None)], st, True)
            if tagv is not None and tagv != VNONE:
                p = single(tagv)
                if p is None or p[0] != "const":
                    return self.unk("iter tag")
                if p[2] != "*":
                    items = [(x, c) for x, c in items if x[0] != "node" or self.node(x).tag == p[2]]
            return self.alloc(st, List([(self.fresh(), V(x), c) for x, c in items], "iter"))
        if name == "getchildren":
            return self.alloc(st, List([(self.fresh(), V(x), c) for _, x, c in self.kids(st, a[1], a[2])]))
        if name == "append":
            self.xml_append(a, args[0], st)
            return VNONE
        if name == "extend":
            self.list_extend(V(a), args[0], st)
            return VNONE
        if name == "insert":
            i = single(args[0])
            if i and i[0] == "const" and i[2] == 0:
                self.xml_append(a, args[1], st, index=0)
            elif i and i[0] == "const" and all(c is None for _, _, c in self.kids(st, a[1], a[2])):
                self.xml_append(a, args[1], st, index=i[2])
            else:
                self.xml_append(a, args[1] | self.unk("insert position"), st)
            return VNONE
        if name == "remove":
            x = single(args[0])
            kids = self.kids(st, a[1], a[2])
            if x is None or not any(k[1] == x for k in kids):
                if x is not None and x[0] == "node" and not any(k[1][0] != "node" for k in kids):
                    self.raise_now("ValueError", "element not in list", st)
                self.unk("remove of unmodelled child")
                return VNONE
            out, done = [], False
            for k in kids:
                if k[1] == x and not done:
                    done = True
                    continue
                out.append(k)
            st.over = dict(st.over)
            st.over[("kids", a[1], a[2])] = tuple(out)
            return VNONE
        if name == "itertext":
            return self.unk("itertext")
        if name == "clear":
            st.over = dict(st.over)
            st.over[("kids", a[1], a[2])] = ()
            for k, _ in self.node_keys(("attrib", a[1], a[2]), st):
                self.set_node_item(a, k, V(ABSENT), st)
            return VNONE
        if name == "__len__":
            return self.length(a, st)
        return self.unk("Element.%s" % name)

    # lists
    def list_method(self, a, name, args, kwargs, st):
        if a[0] == "node" and name in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear"):
            a = self.array_obj(a, st, True)
        if name == "append" or name == "add" or name == "appendleft":
            o = st.heap[a[1]]
            if name == "add" and any(args[0] == v and c is None for _, v, c in o.items):
                return VNONE
            new = ((self.fresh(), args[0], None),)
            items = new + o.items if name == "appendleft" else o.items + new
            self.put(st, a[1], List(items, o.ltype, o.unordered, o.site))
            return VNONE
        if name == "extend" or (name == "update" and st.heap[a[1]].ltype == "set"):
            self.list_extend(V(a), args[0], st)
            return VNONE
        if name == "insert":
            i = single(args[0])
            o = st.heap[a[1]]
            items = list(o.items)
            if i and i[0] == "const" and (i[2] == 0 or all(c is None for _, _, c in items)):
                items.insert(i[2], (self.fresh(), args[1], None))
                self.put(st, a[1], List(items, o.ltype, o.unordered, o.site))
            else:
                self.put(st, a[1], List(o.items + ((self.fresh(), args[1] | self.unk("insert position"), None),),
                                        o.ltype, True, o.site))
            return VNONE
        if name in ("pop", "popleft"):
            i = 0 if name == "popleft" else -1
            if args:
                k = single(args[0])
                if not k or k[0] != "const":
                    return self.unk("pop index")
                i = k[2]
            return self.list_pop(a, i, st)
        if name == "reverse":
            o = st.heap[a[1]]
            self.put(st, a[1], List(tuple(reversed(o.items)), o.ltype, o.unordered, o.site))
            return VNONE
        if name == "sort":
            o = st.heap[a[1]]
            r = self.sort_items(list(o.items), kwargs, st)
            self.put(st, a[1], List(r[0], o.ltype, r[1], o.site))
            return VNONE
        if name == "clear":
            o = st.heap[a[1]]
            self.put(st, a[1], List((), o.ltype, False, o.site))
            return VNONE
        if name == "copy":
            items = self.atom_items(a, st)
            ob = st.heap[a[1]] if a[0] == "obj" else None
            return self.alloc(st, List([(self.fresh(), v, c) for v, c in items], ob.ltype if ob else "list",
                                       bool(ob and ob.unordered)))
        if name in ("remove", "discard"):
            o = st.heap[a[1]]
            x = single(args[0])
            for i, (_, v, c) in enumerate(o.items):
                if single(v) == x and x is not None and c is None:
                    self.put(st, a[1], List(o.items[:i] + o.items[i + 1:], o.ltype, o.unordered, o.site))
                    return VNONE
            self.unk("remove")
            return VNONE
        if name == "count" or name == "index":
            return self.unk("list." + name)
        if name == "__len__":
            return self.length(a, st)
        lt = st.heap[a[1]].ltype if a[0] == "obj" else "list"
        if name == "frombytes" and lt.startswith("array:"):
            self.list_extend(V(a), self.unpack_bytes("<" + lt[6:], single(args[0]) or top("bytes"), st, True), st)
            return VNONE
        if name == "tolist" and lt.startswith("array:"):
            r = self.list_method(a, "copy", [], {}, st)
            for x in r:
                if x[0] == "obj":
                    o = st.heap[x[1]]
                    st.heap[x[1]] = List(o.items, "list", o.unordered, o.site)
            return r
        if name == "byteswap":
            return self.unk("byteswap")
        if name == "__next__":
            return self.list_pop(a, 0, st)
        if name == "__contains__":
            x = single(args[0])
            return self.cond_value(self.cmp_in(x, a, st)) if x else self.unk("contains")
        return self.unk("list method %s" % name)

    def sort_items(self, items, kwargs, st):
        """-> (items, unordered?)"""
        key = _k(kwargs, "key")
        rev = _k(kwargs, "reverse", vconst(False))
        keys = []
        for _, v, c in items:
            kv = self.call1(key, [v], {}, st) if key is not None and key != VNONE else v
            k = single(kv)
            if k and k[0] == "tup" and all(single(x) and single(x)[0] == "const" for x in k[1]):
                k = const(tuple(single(x)[2] for x in k[1]))
            keys.append(k)
        if len(items) <= 1:
            return tuple(items), False
        if all(k is not None and k[0] == "const" for k in keys) and rev in (vconst(False), vconst(True)):
            try:
                order = sorted(range(len(items)), key=lambda i: keys[i][2], reverse=rev == vconst(True))
                return tuple(items[i] for i in order), False
            except TypeError:
                pass
        if all(k is not None and k[0] not in ("top", "const", "tup") for k in keys) and \
                all(c is None for _, _, c in items):
            # any order is possible: one that is not the order of the document, unless all are equal
            if len(set(keys)) == 1:
                return tuple(items), False
            return tuple(reversed(items)), False
        return tuple(items), True

    # dicts
    def dict_method(self, a, name, args, kwargs, st):
        o = st.heap[a[1]]
        if name == "get":
            d = args[1] if len(args) > 1 else _k(kwargs, "default", VNONE)
            return self.dict_get(a, args[0], d, st)
        if name in ("keys", "items", "values"):
            if o.extra:
                return self.unk("items of a dict with unmodelled keys")
            out = []
            for k, c in self.dict_keys(o):
                v, _ = self.dict_lookup(o, k)
                x = {"keys": V(k), "values": v, "items": V(("tup", (V(k), v)))}[name]
                out.append((self.fresh(), x, c))
            return self.alloc(st, List(out))
        if name == "pop":
            key = single(args[0])
            if key is None:
                return self.unk("pop of unmodelled key")
            v, absent = self.dict_lookup(o, key)
            if absent:
                if len(args) > 1:
                    v = v | args[1]
                else:
                    self.raise_exc(("exc", "builtins.KeyError", V(key)), st)
                    if not v:
                        raise AbsDead()
            self.put(st, a[1], Dict([e for e in o.entries if e[1] != key], o.extra, o.site))
            return v
        if name == "setdefault":
            d = args[1] if len(args) > 1 else VNONE
            key = single(args[0])
            if key is None:
                self.dict_set(a[1], args[0], d, st, True)
                return d | self.unk("setdefault key")
            v, absent = self.dict_lookup(o, key)
            if not absent:
                return v
            if not v:
                self.dict_set(a[1], V(key), d, st)
                return d
            self.dict_set(a[1], V(key), v | d, st)
            return v | d
        if name == "update":
            for x in args:
                self.dict_update(V(a), x, st)
            for k, (v, c) in kwargs.items():
                self.dict_set(a[1], vconst(k), v, st, c)
            return VNONE
        if name == "copy":
            return self.alloc(st, Dict([(self.fresh(), k, v, c) for _, k, v, c in o.entries], o.extra))
        if name == "clear":
            self.put(st, a[1], Dict((), None, o.site))
            return VNONE
        if name == "popitem":
            return self.unk("popitem")
        if name == "__contains__":
            x = single(args[0])
            return self.cond_value(self.cmp_in(x, a, st)) if x else self.unk("contains")
        if name == "__getitem__":
            return self.get_item(V(a), args[0], st)
        if name == "move_to_end":
            return VNONE
        return self.unk("dict method %s" % name)

    def dict_get(self, a, kv, d, st):
        o = st.heap[a[1]]
        out = []
        for key in sorted(kv, key=repr):
            z = st if len(kv) == 1 else st.copy()
            if key[0] == "top":
                out.append((vtop("unmodelled key"), z))
                continue
            # a document-valued key may equal a constant key of a table
            if key[0] != "const" and not o.extra and o.entries and all(e[1][0] == "const" for e in o.entries):
                cur = z
                for _, k, v, c in o.entries:
                    if cur is None:
                        break
                    r = self.cmp_eq(key, k, cur)
                    if r is False:
                        continue
                    if r is True:
                        out.append((v, cur))
                        cur = None
                        break
                    w = cur.copy()
                    if isinstance(r, tuple):
                        t, f = self.assume_ext(w, r[0], r[1]), self.assume_ext(cur, r[0], not r[1])
                    else:
                        t, f = w, cur
                    if t is not None:
                        out.append((v, t))
                    cur = f
                if cur is not None:
                    out.append((d, cur))
                continue
            v, absent = self.dict_lookup(o, key)
            if not absent:
                out.append((v, z))
                continue
            if not v:
                out.append((d, z))
                continue
            ents = [e for e in o.entries if e[1] == key]
            if len(ents) == 1 and not o.extra and isinstance(ents[0][3], tuple):
                t, f = self.item_fork(z, ents[0][3])
                if t is not None:
                    out.append((ents[0][2], t))
                if f is not None:
                    out.append((d, f))
                continue
            out.append((v | d, z))
        if not out:
            raise AbsDead()
        return out

    def nt_method(self, a, name, args, kwargs, st):
        c = self.classes[a[1]]
        fs = [f[0] for f in self.all_fields(c)]
        if name == "_replace":
            vals = list(a[2])
            for k, (v, _) in kwargs.items():
                if k not in fs:
                    self.raise_now("ValueError", "unexpected field", st)
                vals[fs.index(k)] = v
            return V(("nt", a[1], tuple(vals)))
        if name == "_asdict":
            return self.new_dict(st, [(const(f), v) for f, v in zip(fs, a[2])])
        return self.unk("tuple method " + name)

    def to_bytes(self, a, args, kwargs, st):
        n = single(args[0] if args else _k(kwargs, "length") or vconst(1))
        o = single(args[1] if len(args) > 1 else _k(kwargs, "byteorder") or vconst("big"))
        ln = self.lin(a)
        f = None if ln is None else lin_bits(*ln)
        if f is None or not n or n[0] != "const" or not o or o[0] != "const":
            return self.unk("to_bytes of %s" % (a[:2],))
        if max([p + w for p, w, _ in f] + [ln[0].bit_length()]) > 8 * n[2]:
            return self.unk("number too large for to_bytes")
        items = []
        for i in range(n[2]):
            items.append(self.binop("BitAnd", self.binop("RShift", V(a), vconst(8 * i), st), vconst(255), st))
        return V(("tup", tuple(items if o[2] == "little" else items[::-1])))

    # files, regexes, paths
    def file_method(self, a, name, args, kwargs, st):
        mode = "b" if "b" in a[2] else "l" if a[3] in self.lenient else "t"
        if name in ("read", "readline", "readlines", "__next__") and self.file_state(a[3], st) == vconst("closed"):
            self.raise_now("ValueError", "I/O operation on closed file", st)
        if name in ("read", "readline", "readlines", "__next__"):
            self.undecodable(a[1], a[2], st, a[3])
        if name == "read":
            fresh = self.file_state(a[3], st) == vconst("start")
            n = single(args[0]) if args else None
            self.move_file(a[3], st, "moved")
            if not fresh:
                return self.unk("read of a partly read file")
            if n is not None and n[0] == "const" and isinstance(n[2], int) and n[2] >= 0:
                return V(("term", "firstline", a[1], mode)) if n[2] != 1 else \
                    self.get_slice(V(("term", "content", a[1], mode)), VNONE, vconst(1), VNONE, st)
            return V(("term", "content", a[1], mode))
        if name in ("readline", "__next__"):
            fresh = self.file_state(a[3], st) == vconst("start")
            f = self.world_file(a[1])
            if name == "__next__" and f is not None and f[0] == "empty":
                self.raise_now("StopIteration", "no more lines", st)
            self.move_file(a[3], st, "moved")
            return V(("term", "firstline", a[1], mode)) if fresh else self.unk("second line of a file")
        if name in ("readlines", "__iter__"):
            fresh = self.file_state(a[3], st) == vconst("start")
            self.move_file(a[3], st, "end")
            return self.alloc(st, List([(self.fresh(), v, c) for v, c in self.file_lines(a, st, fresh)],
                                       "list" if name == "readlines" else "iter"))
        if name == "seek":
            p = single(args[0])
            self.move_file(a[3], st, "start" if p == const(0) else "moved")
            return args[0]
        if name == "close":
            self.closed(a[3], st)
            self.move_file(a[3], st, "closed")
            return VNONE
        if name in ("write", "writelines", "truncate"):
            self.event("effect", st, what="file write")
            return VNONE
        if name in ("flush", "tell", "fileno"):
            return vtop("file." + name) if name != "flush" else VNONE
        if name in ("readable", "seekable"):
            return vconst(True)
        if name == "__enter__":
            return V(a)
        if name == "__exit__":
            self.closed(a[3], st)
            return VNONE
        return self.unk("file method %s" % name)

    def file_lines(self, a, st, fresh):
        """Lines of an open file: the first one is known by name, the others are not modelled."""
        f = self.world_file(a[1])
        if f is not None and f[0] == "empty":
            return []
        mode = "b" if "b" in a[2] else "l" if a[3] in self.lenient else "t"
        more = (vtop("a later line of a file"), None if f is None else True)
        if not fresh:
            return [more]
        return [(V(("term", "firstline", a[1], mode)), None), more]

    def regex_test(self, kind, rx, sv, st):
        out = []
        for s in sorted(sv, key=repr):
            z = st if len(sv) == 1 else st.copy()
            if s[0] == "top" or rx[0] == "top":
                out.append((vtop("regular expression on unmodelled text"), z))
                continue
            if rx[2][0] == "const" and s[0] == "const":
                import re
                try:
                    m = getattr(re, kind)(rx[2][2], s[2])
                except Exception:
                    m = None
                if m is None:
                    out.append((VNONE, z))
                else:
                    out.append((V(("match", kind, rx, s)), z))
                continue
            if self._color(s) and rx[2][0] == "const":
                r = self.regex_color(kind, rx, s)
                if r is not None:
                    out.append((V(("match", kind, rx, s)) if r else VNONE, z))
                    continue
            key = ("match", kind, rx, s)
            f = z.facts.get(key)
            if f is None:
                w = z.copy()
                t = self.assume_ext(z, key, True)
                if t is not None:
                    out.append((V(("match", kind, rx, s)), t))
                n = self.assume_ext(w, key, False)
                if n is not None:
                    out.append((VNONE, n))
            else:
                out.append((V(("match", kind, rx, s)) if f else VNONE, z))
        return out

    def regex_color(self, kind, rx, s):
        """Constant pattern against a colour text of known length: decided when every digit choice
        (0, 9, a, F) gives the same answer."""
        import re
        cs = self.to_cs(s) if s[0] == "leaf" else s
        rs = set()
        try:
            for d in "09aFfE":
                txt = "".join(c if isinstance(c, str) else d for c in cs[3])
                rs.add(getattr(re, kind)(rx[2][2], txt, *( [rx[3]] if len(rx) > 3 and rx[3] else [])) is not None)
        except Exception:
            return None
        return rs.pop() if len(rs) == 1 else None

    def match_method(self, a, name, args, kwargs, st):
        rx, s = a[2], a[3]
        if rx[2][0] == "const" and (s[0] == "const" or self._color(s)):
            r = self.match_spans(a)
            if r is not None:
                names, groups = r

                def grp(k):
                    k = single(k)
                    if k is None or k[0] != "const":
                        return self.unk("match group")
                    i = names.get(k[2], k[2]) if isinstance(k[2], str) else k[2]
                    if not isinstance(i, int) or i >= len(groups):
                        self.raise_now("IndexError", "no such group", st)
                    return groups[i]
                if name in ("group", "__getitem__"):
                    if not args:
                        return groups[0]
                    if len(args) == 1:
                        return grp(args[0])
                    return V(("tup", tuple(grp(x) for x in args)))
                if name == "groups":
                    return V(("tup", tuple(groups[1:])))
                return self.unk("match." + name)
        if name in ("group", "__getitem__"):
            ks = [single(x) for x in args] or [const(0)]
            if any(k is None for k in ks):
                return self.unk("match group")
            vs = [V(self.group(rx, s, k, st)) for k in ks]
            return vs[0] if len(vs) == 1 else V(("tup", tuple(vs)))
        if name == "groups":
            # world patterns have exactly two groups in the modelled documents
            ng = 1 if st.facts.get(("groups", rx)) else 2
            return V(("tup", tuple(V(self.group(rx, s, const(i), st)) for i in range(1, ng + 1))))
        if name in ("start", "end", "span", "groupdict", "expand"):
            return self.unk("match." + name)
        return self.unk("match." + name)

    def match_spans(self, a):
        import re
        rx, s = a[2], a[3]
        try:
            p = re.compile(rx[2][2], rx[3] if len(rx) > 3 and rx[3] else 0)
        except Exception:
            return None
        if s[0] == "const":
            m = getattr(p, a[1])(s[2])
            return p.groupindex, [vconst(g) for g in (m.group(0),) + m.groups()]
        cs = self.to_cs(s) if s[0] == "leaf" else s
        spans = set()
        for d in "09aFfE":
            m = getattr(p, a[1])("".join(c if isinstance(c, str) else d for c in cs[3]))
            if m is None:
                return None
            spans.add(tuple(m.span(i) for i in range(p.groups + 1)))
        if len(spans) != 1:
            return None
        out = []
        for i, j in spans.pop():
            out.append(VNONE if i < 0 else V(self.cs_mk(cs, cs[3][i:j])))
        return p.groupindex, out

    def list_dir(self, d, st, how):
        self.event("listdir", st, path=strip_abs(mk_path(d)) if d[0] != "top" else d)
        n = self.world.listing
        p = strip_abs(mk_path(d)) if d[0] != "top" else None
        if d[0] == "top" or p != self.world.listdir:
            return None
        out = []
        for i in range(n):
            f = ("fname", p, i)
            if how == "name":
                x = f
            elif how == "path":
                x = mk_join(mk_path(d), f)
            else:
                x = ("direntry", mk_path(d), f)
            out.append(V(x))
        return out

    def path_method(self, a, name, args, kwargs, st):
        if name in ("joinpath", "__truediv__"):
            p = V(a)
            for x in args:
                p = self.binop("Div", p, x, st)
            return p
        if name == "resolve":
            self.strict(a, args[0] if args else _k(kwargs, "strict"), st)
            return V(mk_resolve(a))
        if name in ("absolute",):
            return V(mk_absolute(a))
        if name == "expanduser":
            return V(a)
        if name in ("as_posix", "__str__", "__fspath__"):
            return V(("term", "str", mk_path(a)))
        if name == "open":
            return self.call_ext("builtins.open", [V(a)] + args, kwargs, st)
        if name in ("read_text", "read_bytes"):
            enc = self.enc_of(args[0] if args else _k(kwargs, "encoding"))
            er = self.enc_of(args[1] if len(args) > 1 else _k(kwargs, "errors"))
            f = self.do_open(a, "rb" if name == "read_bytes" else "r", enc, st, name, er)
            self.closed(f[3], st)
            self.undecodable(f[1], f[2], st, f[3])
            return V(("term", "content", f[1],
                      "b" if name == "read_bytes" else "l" if f[3] in self.lenient else "t"))
        if name in ("exists", "is_file"):
            return self.file_test(a, st)
        if name == "is_dir":
            if strip_abs(mk_path(a)) in self.world.files:
                return vconst(False)
            return V(("cond", ("isfile", strip_abs(mk_path(a))), False))
        if name == "is_absolute":
            return V(("cond", ("isabs", strip_abs(a)), True))
        if name in ("iterdir", "glob"):
            if name == "glob" and single(args[0]) != const("*"):
                return self.unk("glob pattern")
            r = self.list_dir(a, st, "path")
            return self.unk("directory listing") if r is None else self.new_list(st, r, "iter")
        if name in ("write_text", "write_bytes", "unlink", "rename", "replace", "mkdir", "rmdir", "touch", "chmod",
                    "symlink_to", "hardlink_to", "link_to"):
            self.event("effect", st, what="Path." + name)
            return VNONE
        if name in ("with_suffix", "with_name", "with_stem", "relative_to"):
            return V(("term", "withx", a, name, tuple(single(x) or top("arg") for x in args)))
        if name in ("startswith", "endswith", "match", "is_relative_to", "samefile"):
            return V(("cond", ("pathtest", name, a, tuple(single(x) for x in args)), True))
        if name in ("stat", "lstat"):
            return self.unk("stat")
        return self.unk("path method %s" % name)

    def strict(self, a, flag, st):
        """A strictly resolved path must exist; whether an image does is no part of the document."""
        if flag is None or flag == vconst(False):
            return
        c = single(self.file_test(a, st))
        if c == vconst(True) or c is not None and c[0] == "const" and c[2]:
            return
        if c is None or c[0] == "const":
            self.raise_now("FileNotFoundError", "no such file", st)
        z = self.assume(st.copy(), c[1], not c[2])
        if z is not None:
            self.raise_exc(("exc", "builtins.FileNotFoundError", vconst("no such file")), z)
        if self.assume(st, c[1], c[2]) is None:
            raise AbsDead()

    def file_test(self, a, st):
        p = strip_abs(mk_path(a))
        f = self.world.files.get(p)
        if f is not None:
            return vconst(f[0] != "missing")
        return V(("cond", ("isfile", p), True))

    @staticmethod
    def enc_of(v):
        if v is None:
            return None
        a = single(v)
        if a is None or a[0] != "const":
            return "?"
        return a[2]

    # ------------------------------------------------------------ sizes
    def length(self, a, st):
        n = self.bytes_len(a)
        if n is not None:
            return vconst(n)
        if a[0] == "const":
            return self.fold(lambda: len(a[2]), st)
        if a[0] == "leaf" and self._color(a):
            return vconst(len(self.to_cs(a)[3]))
        if a[0] == "cs":
            return vconst(len(a[3]))
        if self.is_strish(a):
            return V(("num", "len", a))
        it = None
        if a[0] == "node" and self.node(a).fmt == "xml":
            it = self.atom_items(a, st)
        elif a[0] in ("obj", "node", "attrib", "tup", "nt"):
            it = self.atom_items(a, st)
        if it is None:
            return self.unk("len of %s" % (a[:2],))
        if it == "no" or a[0] in ("leaf", "lin", "file", "match") or is_path(a):
            self.raise_now("TypeError", "object has no len()", st)
        cs = [self.cond_state(c, st) for _, c in it]
        lo = sum(1 for c in cs if c is None)
        hi = lo + sum(1 for c in cs if c is not None and c is not False)
        maybe = [c for c in cs if c is not None and c is not False]
        if len(maybe) == 1 and isinstance(maybe[0], tuple):
            return ("fork", maybe[0], lo)
        return frozenset(const(i) for i in range(lo, hi + 1))

    # ------------------------------------------------------------ bytes
    def unpack_bytes(self, fmt, data, st, flat):
        """struct-like decoding; flat: repeat the single code over the data, result is a list."""
        end = "<"
        if fmt and fmt[0] in "<>=@!":
            end, fmt = fmt[0], fmt[1:]
        big = end in ">!"
        sizes = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4 if end in "<>=!" else 8,
                 "l": 4 if end in "<>=!" else 8, "Q": 8, "q": 8, "x": 1, "c": 1, "?": 1}
        codes, num = [], ""
        for ch in fmt.replace(" ", ""):
            if ch.isdigit():
                num += ch
                continue
            if ch not in sizes:
                return self.unk("struct code %s" % ch)
            codes += [ch] * (int(num) if num else 1)
            num = ""
        if data[0] == "tup":
            vals = list(data[1])
            if all(c == "B" for c in codes) and len(codes) == len(vals):
                return V(("tup", tuple(vals)))
            return self.unk("unpack of bytes tuple")
        n = self.bytes_len(data)
        if n is None:
            return self.unk("unpack of %s" % (data[:2],))

        def value(code, off):
            if code == "x":
                return None
            w = sizes[code]
            bs = [self.byte_at(data, off + i) for i in range(w)]
            if big:
                bs.reverse()
            t = {b: 256 ** i for i, b in enumerate(bs)}
            x = mk_lin(0, t)
            if code in "bhilq":
                return ("num", "signed", x)
            return x
        out = []
        if flat:
            w = sum(sizes[c] for c in codes)
            if w == 0 or n % w:
                self.raise_exc(("exc", "struct.error", vconst("buffer size")), st)
                raise AbsDead()
            for off in range(0, n, w):
                row, o = [], off
                for c in codes:
                    x = value(c, o)
                    o += sizes[c]
                    if x is not None:
                        row.append(V(x))
                out.append(row)
            if flat == "tuples":
                return self.new_list(st, [V(("tup", tuple(r))) for r in out], "iter")
            return self.new_list(st, [x for r in out for x in r])
        if sum(sizes[c] for c in codes) != n:
            self.raise_exc(("exc", "struct.error", vconst("buffer size")), st)
            raise AbsDead()
        o = 0
        for c in codes:
            x = value(c, o)
            o += sizes[c]
            if x is not None:
                out.append(V(x))
        return V(("tup", tuple(out)))

    def decomp(self, kind, a, st):
        x = a
        while x[0] == "term" and x[1] == "b64":
            x = x[2]
        if x[0] == "leaf" and a[0] == "term" and a[1] == "b64":
            s = self.meta(x).stype
            if isinstance(s, tuple) and s[0] == "b64":
                if kind == "auto":
                    kind = s[2] if s[2] in ("zlib", "gzip") else "zlib"
                if s[2] != kind:
                    exc = {"gzip": "gzip.BadGzipFile", "zlib": "zlib.error", "zstd": "zstd.Error",
                           "rawdeflate": "zlib.error"}[kind]
                    self.raise_exc(("exc", exc, vconst("wrong compression")), st)
                    raise AbsDead()
        if a[0] == "top":
            return V(a)
        return V(("term", kind, a))

    # ------------------------------------------------------------ getters
    def call_getter(self, a, args, st):
        kind, names = a[1], a[2]
        out = []
        for n in names:
            if kind == "item":
                out.append(self.get_item(args[0], V(n), st))
            elif kind == "attr":
                v = args[0]
                for part in str(n[2]).split("."):
                    v = self.get_attr(v, part, st)
                out.append(v)
            else:
                return self.call1(self.get_attr(args[0], n[2], st), list(a[3]), {}, st)
        return out[0] if len(out) == 1 else V(("tup", tuple(out)))

    # ------------------------------------------------------------ external calls
    def call_ext(self, dotted, args, kwargs, st):
        d = dotted
        if d.startswith("typing_extensions."):
            d = "typing." + d[18:]
        if d.startswith("attrs."):
            d = "attr." + d[6:]
        if d.startswith("posixpath."):
            d = "os.path." + d[10:]
        if d.startswith("io.open") or d == "codecs.open":
            d = "builtins.open"
        if d.startswith("xml.etree.cElementTree"):
            d = d.replace("cElementTree", "ElementTree")
        for p in OUTPUT:
            if d.startswith(p):
                self.event("output", st, what=d)
                return VNONE
        for p in EFFECTS:
            if d == p or (p.endswith(".") and d.startswith(p)) or (p in ("os.exec", "os.spawn") and d.startswith(p)):
                self.event("effect", st, what=d)
                return self.unk("call of %s" % d)
        if d.startswith("locale.") and d.split(".")[1] in LOCALIZED:
            self.event("locale", st, what=d)
        m = getattr(self, "x_" + d.replace(".", "_"), None)
        if m is not None:
            return m(args, kwargs, st)
        if d.startswith("builtins."):
            n = d[9:]
            t = getattr(_b, n, None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return V(("exc", d, args[0] if args else VNONE))
            if "." in n:
                head, meth = n.split(".", 1)
                if head in ("str", "dict", "list", "bytes", "set", "float", "tuple", "bytearray") and args:
                    return self.call1(self.get_attr(args[0], meth, st), args[1:], kwargs, st) \
                        if meth not in ("fromkeys", "fromhex", "maketrans") else self.unk(d)
                if head == "object":
                    return VNONE
        if d in self.EXT_EXC or d in self.EXT_CANON:
            return V(("exc", d, args[0] if args else VNONE))
        if d in DECOMP and args:
            kind = DECOMP[d]
            if kind == "zstd" and not self.zstd:
                self.raise_now("AttributeError", "no zstd", st)
            if d == "zlib.decompress":
                w = args[1] if len(args) > 1 else _k(kwargs, "wbits", vconst(15))
                w = single(w)
                w = w[2] if w and w[0] == "const" else None
                kind = "zlib" if w in (15, 0) or w in range(9, 15) else "gzip" if w is not None and w in range(24, 32) \
                    else "auto" if w is not None and w >= 32 else "rawdeflate" if w is not None and w < 0 else None
                if kind is None:
                    return self.unk("window bits")
            return self.each(args[0], lambda a: self.decomp(kind, a, st), st)
        if d.startswith("typing.") or d.startswith("abc.") or d.startswith("attr.validators"):
            return V(("ext", d + "()"))
        if d.startswith("logging."):
            if d.split(".")[-1] in ("getLogger",):
                return V(("logger",))
            return VNONE
        if d == "sa.noop":
            return VNONE
        self.event("ext-unknown", st, what=d)
        return self.unk("call of %s" % d)

    # ---- builtins
    def x_builtins_int(self, args, kw, st):
        if not args:
            return vconst(0)
        base = args[1] if len(args) > 1 else _k(kw, "base")
        if base is not None:
            b = single(base)
            if b == const(16):
                return self.each(args[0], lambda a: self.hexint(a, st), st)
            if b == const(10):
                return self.each(args[0], lambda a: self.to_int(a, st), st)
            if b == const(0):
                return self.unk("int base 0")
            if b and b[0] == "const":
                return self.each(args[0], lambda a: self.fold(lambda: int(a[2], b[2]), st) if a[0] == "const"
                                 else V(("num", "intbase", a, b)), st)
            return self.unk("int base")
        return self.each(args[0], lambda a: self.to_int(a, st), st)

    def x_builtins_float(self, args, kw, st):
        return self.each(args[0], lambda a: self.to_float(a, st), st) if args else vconst(0.0)

    def x_builtins_str(self, args, kw, st):
        return self.each(args[0], lambda a: self.to_str(a, st), st) if args else vconst("")

    def x_builtins_bool(self, args, kw, st):
        return self.to_bool(args[0], st) if args else vconst(False)

    def x_builtins_len(self, args, kw, st):
        v = args[0]
        out, forks = frozenset(), None
        for a in sorted(v, key=repr):
            if a[0] == "top":
                out = out | V(a)
                continue
            try:
                r = self.length(a, st)
            except AbsDead:
                if len(v) == 1:
                    raise
                continue
            if isinstance(r, tuple) and r and r[0] == "fork":
                if len(v) == 1:
                    t, f = self.item_fork(st, r[1])
                    res = []
                    if t is not None:
                        res.append((vconst(r[2] + 1), t))
                    if f is not None:
                        res.append((vconst(r[2]), f))
                    return res
                r = V(const(r[2]), const(r[2] + 1))
            out = out | r
        if not out:
            raise AbsDead()
        return out

    def x_builtins_isinstance(self, args, kw, st):
        names = self.type_names(args[1], st)
        out = frozenset()
        for a in args[0]:
            r = self.isinst(a, names, st)
            out = out | self.cond_value(r)
        return out

    def x_builtins_issubclass(self, args, kw, st):
        names = self.type_names(args[1], st)
        out = frozenset()
        for a in args[0]:
            if a[0] == "const" and a[2] is None:
                self.may_raise("builtins.TypeError", "issubclass() arg 1 must be a class", st)
                continue
            if a[0] not in ("cls", "ext"):
                return self.unk("issubclass")
            if a[0] == "ext":
                import builtins
                t = getattr(builtins, a[1].split(".")[-1], None) if a[1].startswith("builtins.") else None
                ns = {"builtins." + k.__name__ for k in t.__mro__} if isinstance(t, type) else None
            else:
                ns = None
            if ns is None:
                ns = set(self.exc_supers(a[1])) if a[0] == "ext" else \
                    {k.qual for k in self.classes[a[1]].mro} | \
                    {x for k in self.classes[a[1]].mro for b in k.bases if b[0] == "ext"
                     for x in [b[1]] + list(self.exc_supers(b[1]))} | {"builtins.object"}
            out = out | vconst(any(n in ns for n in names))
        return out

    def x_builtins_callable(self, args, kw, st):
        return vconst(all(a[0] in ("fn", "cls", "ext", "bound", "method", "partial", "getter", "static")
                          for a in args[0]))

    def has_attr1(self, a, name, st):
        if a[0] == "top":
            return None
        if a[0] == "obj" and st.heap[a[1]].kind == "inst":
            ob = st.heap[a[1]]
            return name in ob.fields or self.class_lookup(self.classes[ob.cls], name) is not None
        if a[0] == "nt":
            c = self.classes[a[1]]
            return any(f[0] == name for f in self.all_fields(c)) or self.class_lookup(c, name) is not None or \
                hasattr(tuple, name)
        if a[0] == "const":
            return hasattr(a[2], name)
        if a[0] == "mod":
            return name in st.frames["M:" + a[1]]
        if a[0] == "fn":
            return self.fn_has(a, name, st)
        if a[0] == "node":
            if self.node(a).fmt == "xml":
                import xml.etree.ElementTree as et
                return hasattr(et.Element("x"), name)
            return hasattr([] if self.node(a).isarray else {}, name)
        if a[0] == "cls":
            return self.class_lookup(self.classes[a[1]], name) is not None
        if a[0] == "obj":
            return hasattr([] if st.heap[a[1]].kind == "list" else {}, name)
        if a[0] == "leaf" or self.is_strish(a):
            p = self.pytype(a, st)
            t = {"str": "", "int": 0, "float": 0.0, "bool": True}.get(p if not isinstance(p, tuple) else p[0])
            return hasattr(t, name) if t is not None else None
        if is_path(a):
            import pathlib
            return hasattr(pathlib.Path("."), name)
        return None

    def x_builtins_hasattr(self, args, kw, st):
        n = single(args[1])
        if not n or n[0] != "const":
            return self.unk("hasattr")
        out = frozenset()
        for a in args[0]:
            r = self.has_attr1(a, n[2], st)
            out = out | (vtop("hasattr") if r is None else vconst(r))
        return out

    def x_builtins_getattr(self, args, kw, st):
        out = frozenset()
        if any(n[0] != "const" for n in args[1]):
            return self.unk("getattr with unmodelled name")
        for n in args[1]:
            for a in args[0]:
                if len(args) > 2:
                    r = self.has_attr1(a, n[2], st)
                    if r is False:
                        out = out | args[2]
                        continue
                    if r is None and a[0] != "top":
                        out = out | self.unk("getattr")
                        continue
                try:
                    out = out | self.get_attr1(a, n[2], st)
                except AbsDead:
                    if len(args[0]) == 1 and len(args[1]) == 1:
                        raise
        if not out:
            raise AbsDead()
        return out

    def x_builtins_setattr(self, args, kw, st):
        if len(args[1]) != 1 or single(args[1])[0] != "const":
            if all(n[0] == "const" for n in args[1]):
                for n in args[1]:
                    for a in args[0]:
                        old = self.get_attr(V(a), n[2], st)
                        self.set_attr(V(a), n[2], old | args[2], st)
                return VNONE
            t = self.unk("setattr with unmodelled name")
            for a in args[0]:
                if a[0] == "obj" and st.heap[a[1]].kind == "inst":
                    ob = st.heap[a[1]]
                    st.heap[a[1]] = Inst(ob.cls, {k: v | t for k, v in ob.fields.items()}, ob.sites)
            return VNONE
        self.set_attr(args[0], single(args[1])[2], args[2], st)
        return VNONE

    def x_builtins_delattr(self, args, kw, st):
        return self.unk("delattr")

    def seq_of(self, v, st):
        items = self.iter_items(v, st)
        return items

    def unordered_of(self, v, st):
        return any(a[0] == "obj" and st.heap[a[1]].kind == "list" and st.heap[a[1]].unordered for a in v)

    def mk_seq(self, args, st, ltype):
        if not args:
            return self.new_list(st, [], ltype)
        items = self.iter_items(args[0], st)
        if items is None:
            if any(a[0] == "top" for a in args[0]):
                return vtop("sequence of unmodelled items")
            return self.unk("sequence of %s" % (sorted(args[0], key=repr)[0][:2],))
        return self.alloc(st, List([(self.fresh(), v, c) for v, c in items], ltype,
                                   self.unordered_of(args[0], st) or ltype == "set"))

    def x_builtins_list(self, args, kw, st):
        return self.mk_seq(args, st, "list")

    def x_builtins_set(self, args, kw, st):
        r = self.mk_seq(args, st, "set")
        a = single(r)
        if a is not None and a[0] == "obj":
            # the order of a set is not that of its source
            o = st.heap[a[1]]
            st.heap[a[1]] = List(tuple(reversed(o.items)), o.ltype, o.unordered, o.site)
        return r

    x_builtins_frozenset = x_builtins_set

    def x_builtins_iter(self, args, kw, st):
        a = single(args[0])
        if a and a[0] == "obj" and st.heap[a[1]].kind == "list" and st.heap[a[1]].ltype == "iter":
            return args[0]
        if a and a[0] == "file":
            return args[0]
        return self.mk_seq(args, st, "iter")

    def x_builtins_tuple(self, args, kw, st):
        if not args:
            return V(("tup", ()))
        items = self.iter_items(args[0], st)
        if items is None:
            return self.unk("tuple of unmodelled items")
        if any(c is not None for _, c in items) or len(args[0]) > 1:
            return self.mk_seq(args, st, "tuple")
        if self.unordered_of(args[0], st):
            return self.mk_seq(args, st, "tuple")
        return V(("tup", tuple(v for v, _ in items)))

    def x_builtins_dict(self, args, kw, st):
        d = self.alloc(st, Dict(()))
        for x in args:
            self.dict_update(d, x, st)
        for k, (v, c) in kw.items():
            self.dict_set(single(d)[1], vconst(k), v, st, c)
        return d

    x_collections_OrderedDict = x_builtins_dict

    def x_collections_defaultdict(self, args, kw, st):
        d = self.x_builtins_dict(args[1:], kw, st)
        if args and args[0] != VNONE:
            if not hasattr(self, "ddefault"):
                self.ddefault = {}
            self.ddefault[single(d)[1]] = args[0]
        return d

    def x_collections_deque(self, args, kw, st):
        return self.mk_seq(args[:1], st, "list")

    def x_builtins_bytes(self, args, kw, st):
        if not args:
            return vconst(b"")
        return args[0]

    x_builtins_bytearray = x_builtins_memoryview = x_builtins_bytes

    def x_builtins_zip(self, args, kw, st):
        if args and all(a == args[0] for a in args) and len(args) > 1:
            a = single(args[0])
            if a and a[0] == "obj" and st.heap[a[1]].kind == "list" and st.heap[a[1]].ltype == "iter":
                it = self.atom_items(a, st)
                n = len(args)
                if all(c is None for _, c in it):
                    rows = [it[i:i + n] for i in range(0, len(it) - n + 1, n)]
                    return self.new_list(st, [V(("tup", tuple(v for v, _ in r))) for r in rows], "iter")
                return self.unk("zip of optional items")
        cols = [self.iter_items(a, st) for a in args]
        if any(c is None for c in cols):
            fin = [c for c in cols if c is not None]
            if not fin:
                return self.unk("zip")
            if not all(any(x[0] == "counter" for x in a) for a, c in zip(args, cols) if c is None):
                return self.unk("zip")
            cols2 = []
            n = min(len(c) for c in fin)
            for a, c in zip(args, cols):
                if c is None:
                    x = single(a)
                    c = [(vconst(x[1] + i * x[2]), None) for i in range(n)]
                cols2.append(c)
            cols = cols2
        n = min([len(c) for c in cols], default=0)
        if any(c is not None for col in cols for _, c in col):
            out = []
            for row in zip(*cols):
                cs = {c for _, c in row}
                if len(cs) == 1:
                    out.append((self.fresh(), V(("tup", tuple(v for v, _ in row))), row[0][1]))
                    continue
                return self.unk("zip of optional items")
            return self.alloc(st, List(out, "iter"))
        return self.new_list(st, [V(("tup", tuple(col[i][0] for col in cols))) for i in range(n)], "iter")

    def x_builtins_enumerate(self, args, kw, st):
        items = self.iter_items(args[0], st)
        if items is None:
            return self.unk("enumerate of unmodelled items")
        s = single(args[1] if len(args) > 1 else _k(kw, "start", vconst(0)))
        if not s or s[0] != "const":
            return self.unk("enumerate start")
        lo = hi = s[2]
        out = []
        for v, c in items:
            c2 = self.cond_state(c, st)
            if c2 is False:
                continue
            out.append((self.fresh(), V(("tup", (frozenset(const(i) for i in range(lo, hi + 1)), v))), c))
            hi += 1
            if c2 is None:
                lo += 1
        return self.alloc(st, List(out, "iter"))

    def x_builtins_range(self, args, kw, st):
        cs = [single(a) for a in args]
        if all(c and c[0] == "const" and isinstance(c[2], int) for c in cs):
            return self.fold(lambda: range(*[c[2] for c in cs]), st)
        return self.unk("range with unmodelled bounds")

    def x_itertools_count(self, args, kw, st):
        s = single(args[0]) if args else const(0)
        t = single(args[1]) if len(args) > 1 else const(1)
        if s and t and s[0] == "const" and t[0] == "const":
            return V(("counter", s[2], t[2]))
        return self.unk("count")

    def x_builtins_map(self, args, kw, st):
        if len(args) != 2:
            return self.unk("map over several sequences")
        items = self.iter_items(args[1], st)
        if items is None:
            return self.unk("map over unmodelled items")
        out = []
        for v, c in items:
            if c is None:
                out.append((self.fresh(), self.call1(args[0], [v], {}, st), None))
                continue
            t, f = self.item_fork(st.copy(), c)
            if t is None:
                continue
            try:
                r = self.call1(args[0], [v], {}, t)
            except AbsDead:
                if f is None:
                    raise
                st.become(f)
                continue
            st.become(self.join(t, f) if f is not None else t)
            out.append((self.fresh(), r, c if f is not None else None))
        return self.alloc(st, List(out, "iter", self.unordered_of(args[1], st)))

    def x_builtins_filter(self, args, kw, st):
        items = self.iter_items(args[1], st)
        if items is None:
            return self.unk("filter over unmodelled items")
        out = []
        for v, c in items:
            z = st.copy()
            tv = v if args[0] == VNONE else self.call1(args[0], [v], {}, z)
            rs = [self.truth(a, z) for a in tv]
            if all(r is True for r in rs):
                out.append((self.fresh(), v, c))
            elif all(r is False for r in rs):
                continue
            elif len(rs) == 1 and isinstance(rs[0], tuple) and c is None:
                out.append((self.fresh(), v, rs[0]))
            elif "top" in rs:
                out.append((self.fresh(), v | vtop("filtered by an undecided condition"), True))
            else:
                out.append((self.fresh(), v, True))
        return self.alloc(st, List(out, "iter"))

    def x_builtins_sorted(self, args, kw, st):
        items = self.iter_items(args[0], st)
        if items is None:
            return self.unk("sorted of unmodelled items")
        r, u = self.sort_items([(self.fresh(), v, c) for v, c in items], kw, st)
        return self.alloc(st, List(r, "list", u or (len(r) > 1 and False)))

    def x_builtins_reversed(self, args, kw, st):
        items = self.iter_items(args[0], st)
        if items is None:
            return self.unk("reversed")
        return self.alloc(st, List([(self.fresh(), v, c) for v, c in reversed(items)], "iter"))

    def _anyall(self, args, st, want):
        items = self.iter_items(args[0], st)
        if items is None:
            return self.unk("any/all")
        unk, n, taint, opaque = None, 0, False, []
        for v, c in items:
            for a in v:
                r = self.truth(a, st)
                if r is want and c is None and len(v) == 1:
                    return vconst(want)
                if r is (not want):
                    continue
                n += 1
                if r == "top":
                    taint = True
                opaque.append(r if c is None and len(v) == 1 else None)
                unk = r if isinstance(r, tuple) and c is None and len(v) == 1 else None
        if n == 0:
            return vconst(not want)
        if taint:
            return vtop("any/all of unmodelled values")
        if n == 1 and unk is not None:
            return V(self.mk_cond(*unk))
        if all(isinstance(r, tuple) for r in opaque):
            return V(("cond", ("any" if want else "all", tuple(sorted(opaque, key=repr))), True))
        return V(TRUE, FALSE)

    def x_builtins_any(self, args, kw, st):
        return self._anyall(args, st, True)

    def x_builtins_all(self, args, kw, st):
        return self._anyall(args, st, False)

    def x_builtins_sum(self, args, kw, st):
        items = self.iter_items(args[0], st)
        if items is None or any(c is not None for _, c in items):
            return self.unk("sum")
        out = args[1] if len(args) > 1 else _k(kw, "start", vconst(0))
        for v, _ in items:
            out = self.binop("Add", out, v, st)
        return out

    def _minmax(self, args, kw, st, name):
        if len(args) == 1:
            items = self.iter_items(args[0], st)
            if items is None:
                return self.unk(name)
        else:
            items = [(a, None) for a in args]
        key = _k(kw, "key")
        live = [(v, self.cond_state(c, st)) for v, c in items]
        live = [(v, c) for v, c in live if c is not False]
        out = frozenset()
        if not any(c is None for _, c in live):
            if "default" in kw:
                out = _k(kw, "default")
            else:
                self.raise_exc(("exc", "builtins.ValueError", vconst("%s() of an empty sequence" % name)), st)
            if not live:
                if out:
                    return out
                raise AbsDead()
        keys = []
        for v, c in live:
            kv = self.call1(key, [v], {}, st) if key is not None and key != VNONE else v
            if any(a[0] == "top" for a in kv):
                return self.unk(name)
            keys.append(kv)
        if all(is_const(a) for kv in keys for a in kv):
            if all(len(kv) == 1 for kv in keys):
                # drop optional entries one by one: possible results
                f = max if name == "max" else min
                defs = [(single(kv)[2], v) for kv, (v, c) in zip(keys, live) if c is None]
                opts = [(single(kv)[2], v) for kv, (v, c) in zip(keys, live) if c is not None]
                if defs:
                    best = f(defs, key=lambda x: x[0])
                    out = out | best[1]
                    for k, v in opts:
                        if f(k, best[0]) == k and k != best[0]:
                            out = out | v
                else:
                    for k, v in opts:
                        out = out | v
                return out
        if key is None and all(len(kv) == 1 for kv in keys) and all(c is None for _, c in live):
            if len(live) == 1:
                return live[0][0]
            return V(("term", name, tuple(sorted((single(kv) for kv in keys), key=repr))))
        return self.unk(name)

    def x_builtins_max(self, args, kw, st):
        return self._minmax(args, kw, st, "max")

    def x_builtins_min(self, args, kw, st):
        return self._minmax(args, kw, st, "min")

    def _num1(self, name, args, st):
        cs = [single(a) for a in args]
        if all(c and c[0] == "const" for c in cs):
            return self.fold(lambda: getattr(_b, name)(*[c[2] for c in cs]), st)
        return self.each(args[0], lambda a: V(a) if a[0] == "top" else V(("num", name, a) + tuple(cs[1:])), st)

    def x_builtins_abs(self, args, kw, st):
        return self._num1("abs", args, st)

    def x_builtins_round(self, args, kw, st):
        return self._num1("round", args, st)

    def x_builtins_divmod(self, args, kw, st):
        return V(("tup", (self.binop("FloorDiv", args[0], args[1], st), self.binop("Mod", args[0], args[1], st))))

    def x_builtins_ord(self, args, kw, st):
        return self._num1("ord", args, st)

    def x_builtins_chr(self, args, kw, st):
        return self._num1("chr", args, st)

    def x_builtins_pow(self, args, kw, st):
        return self.binop("Pow", args[0], args[1], st) if len(args) == 2 else self.unk("pow")

    def x_builtins_print(self, args, kw, st):
        self.event("output", st, what="print")
        return VNONE

    def x_builtins_repr(self, args, kw, st):
        return self.each(args[0], lambda a: V(a) if a[0] == "top" else V(("term", "strm", "repr", a)), st)

    x_builtins_format = x_builtins_ascii = x_builtins_repr

    def x_builtins_type(self, args, kw, st):
        if len(args) != 1:
            return self.unk("dynamic class")
        out = frozenset()
        for a in args[0]:
            p = self.pytype(a, st)
            if p is None or (isinstance(p, tuple) and p[0] not in ("cls", "exc")):
                out = out | vtop("type of an unmodelled value")
            elif isinstance(p, tuple):
                out = out | V(("cls", p[1]) if p[0] == "cls" or p[1] in self.classes else ("ext", p[1]))
            elif "." in p:
                out = out | V(("ext", p))
            else:
                out = out | V(("ext", "builtins." + p if p != "NoneType" else "types.NoneType"))
        return out

    def x_builtins_vars(self, args, kw, st):
        return self.get_attr(args[0], "__dict__", st)

    def x_builtins_id(self, args, kw, st):
        return self.unk("id()")

    x_builtins_hash = x_builtins_id

    def x_builtins_next(self, args, kw, st):
        a = single(args[0])
        if a and a[0] == "file":
            f = self.world_file(a[1])
            if len(args) > 1 and f is not None and f[0] == "empty":
                return args[1]
            return self.file_method(a, "__next__", [], {}, st)
        if a and a[0] == "counter":
            return self.unk("next of a counter")
        if not a or a[0] != "obj" or st.heap[a[1]].kind != "list":
            if args[0] and all(x[0] == "top" for x in args[0]):
                return args[0]
            return self.unk("next")
        o = st.heap[a[1]]
        items = list(o.items)
        out, cur = [], st
        for i, (n, v, c) in enumerate(items):
            if cur is None:
                break
            rest = items[i + 1:]
            if c is None or self.cond_state(c, cur) is None:
                cur.heap[a[1]] = List(rest, o.ltype, o.unordered, o.site)
                out.append((v, cur))
                cur = None
                break
            if self.cond_state(c, cur) is False:
                continue
            t, f = self.item_fork(cur, c)
            if t is not None:
                t.heap[a[1]] = List(rest, o.ltype, o.unordered, o.site)
                out.append((v, t))
            cur = f
        if cur is not None:
            if len(args) > 1:
                cur.heap[a[1]] = List((), o.ltype, o.unordered, o.site)
                out.append((args[1], cur))
            else:
                self.raise_exc(("exc", "builtins.StopIteration", VNONE), cur)
        if not out:
            raise AbsDead()
        return out

    def x_builtins_open(self, args, kw, st):
        mode = args[1] if len(args) > 1 else _k(kw, "mode", vconst("r"))
        m = single(mode)
        if m is None and mode and all(x[0] == "const" and isinstance(x[2], str) for x in mode):
            # the widest of the possible modes
            m = max(mode, key=lambda x: (bool(set(x[2]) & set("wax+")), "b" not in x[2], x[2]))
        enc = self.enc_of(args[3] if len(args) > 3 else _k(kw, "encoding"))
        mm = m[2] if m and m[0] == "const" else "?"
        er = self.enc_of(args[4] if len(args) > 4 else _k(kw, "errors"))
        return frozenset(self.do_open(p, mm, enc, st, errors=er) for p in sorted(args[0], key=repr))

    def x_builtins_slice(self, args, kw, st):
        return self.unk("slice()")

    def x_builtins_object(self, args, kw, st):
        return V(("ext", "sentinel%d" % self.fresh()))

    def x_builtins_int_from_bytes(self, args, kw, st):
        order = args[1] if len(args) > 1 else _k(kw, "byteorder", vconst("big"))
        o = single(order)
        signed = _k(kw, "signed", vconst(False))
        if not o or o[0] != "const" or signed not in (vconst(False), vconst(True)):
            return self.unk("from_bytes")

        def f(a):
            if a[0] == "top":
                return V(a)
            seq = None
            if a[0] == "tup":
                seq = [single(x) for x in a[1]]
            elif a[0] == "obj":
                it = self.atom_items(a, st)
                if it not in (None, "no") and all(c is None for _, c in it):
                    seq = [single(v) for v, _ in it]
            elif self.bytes_len(a) is not None:
                seq = [self.byte_at(a, i) for i in range(self.bytes_len(a))]
            if seq is None or any(x is None for x in seq):
                return self.unk("from_bytes of %s" % (a[:2],))
            if o[2] == "big":
                seq = seq[::-1]
            out = vconst(0)
            for i, x in enumerate(seq):
                out = self.binop("Add", out, self.binop("Mult", vconst(256 ** i), V(x), st), st)
            if signed == vconst(True):
                return V(("num", "signed", single(out)))
            return out
        return self.each(args[0], f, st)

    def x_builtins_bytes_fromhex(self, args, kw, st):
        def f(a):
            if a[0] == "top":
                return V(a)
            cs = self.to_cs(a) if a[0] == "leaf" and self._color(a) else a
            if cs[0] != "cs":
                return self.unk("fromhex")
            if "#" in cs[3] or len(cs[3]) % 2:
                self.raise_now("ValueError", "non-hexadecimal number found in fromhex()", st)
            return V(("tup", tuple(self.hexint(self.cs_mk(cs, cs[3][i:i + 2]), st) for i in range(0, len(cs[3]), 2))))
        return self.each(args[0], f, st)

    x_binascii_unhexlify = x_builtins_bytearray_fromhex = x_builtins_bytes_fromhex

    def x_builtins_dict_fromkeys(self, args, kw, st):
        items = self.iter_items(args[0], st)
        d = self.alloc(st, Dict(()))
        if items is None:
            return self.unk("fromkeys")
        for v, c in items:
            self.dict_set(single(d)[1], v, args[1] if len(args) > 1 else VNONE, st, c)
        return d

    # ---- documents
    def x_json_load(self, args, kw, st):
        if set(kw) - {"fp", "s"}:
            return self.unk("json.load with options")
        v = args[0] if args else _k(kw, "fp", _k(kw, "s"))
        return self.each(v, lambda a: self.load_doc(a, "json", st), st)

    x_json_loads = x_json_load

    def x_xml_etree_ElementTree_parse(self, args, kw, st):
        def f(a):
            return frozenset(("etree",) + x[1:] if x[0] == "node" else x for x in self.load_doc(a, "xml", st))
        return self.each(args[0] if args else _k(kw, "source"), f, st)

    def x_xml_etree_ElementTree_fromstring(self, args, kw, st):
        return self.each(args[0], lambda a: self.load_doc(a, "xml", st), st)

    x_xml_etree_ElementTree_XML = x_xml_etree_ElementTree_fromstring

    def x_xml_etree_ElementTree_Element(self, args, kw, st):
        return self.new_element(args, kw, st)

    def x_xml_etree_ElementTree_SubElement(self, args, kw, st):
        e = self.new_element(args[1:], kw, st)
        for a in args[0]:
            if a[0] == "node":
                self.xml_append(a, e, st)
        return e

    def new_element(self, args, kw, st):
        tag = single(args[0])
        if not tag or tag[0] != "const":
            return self.unk("element with unmodelled tag")
        nid = "new%d" % self.fresh()
        n = Node(nid, "xml", tag[2])
        self.world.nodes[nid] = n
        a = ("node", nid, 0)
        if len(args) > 1:
            ents = self.mapping_entries(args[1], st)
            if ents is None:
                return self.unk("element attributes")
            for k, v, c in ents:
                self.set_node_item(a, k[2], v if c is None else v | V(ABSENT), st)
        for k, (v, c) in kw.items():
            self.set_node_item(a, k, v, st)
        return V(a)

    # ---- paths
    def x_pathlib_Path(self, args, kw, st):
        if not args:
            return V(("term", "Path", const("")))

        def f(a):
            if a[0] == "top":
                return V(a)
            if a[0] == "const" and a[2] is None:
                self.raise_now("TypeError", "expected str, bytes or os.PathLike object", st)
            if a[0] in ("node", "obj", "tup", "nt", "attrib") or \
                    (a[0] == "leaf" and self.fmt(a) == "json" and self.meta(a).stype in NUMERIC + ("bool",)):
                self.raise_now("TypeError", "expected str, bytes or os.PathLike object", st)
            return V(mk_path(a))
        out = self.each(args[0], f, st)
        for x in args[1:]:
            out = self.binop("Div", out, x, st)
        return out

    x_pathlib_PurePath = x_pathlib_PosixPath = x_pathlib_Path

    def x_pathlib_Path_cwd(self, args, kw, st):
        return V(("term", "Path", ("cwd",)))

    x_os_getcwd = x_pathlib_Path_cwd

    def _pstr(self, v, f, st):
        return self.each(v, lambda a: V(a) if a[0] == "top" else V(("term", "str", f(mk_path(a)))), st)

    def x_os_path_join(self, args, kw, st):
        out = args[0]
        for x in args[1:]:
            out = self.each(out, lambda a: frozenset(mk_join(a, b) for b in x), st)
        return self._pstr(out, lambda p: p, st)

    def x_os_path_dirname(self, args, kw, st):
        return self._pstr(args[0], mk_parent, st)

    def x_os_path_abspath(self, args, kw, st):
        return self._pstr(args[0], mk_absolute, st)

    def x_os_path_realpath(self, args, kw, st):
        return self._pstr(args[0], mk_resolve, st)

    def x_os_path_normpath(self, args, kw, st):
        return self._pstr(args[0], lambda p: p, st)

    def x_os_path_isfile(self, args, kw, st):
        return self.each(args[0], lambda a: vtop("isfile") if a[0] == "top" else self.file_test(a, st), st)

    x_os_path_exists = x_os_path_isfile

    def x_os_path_isdir(self, args, kw, st):
        return self.each(args[0], lambda a: vtop("isdir") if a[0] == "top" else
                         (vconst(False) if strip_abs(mk_path(a)) in self.world.files else
                          V(("cond", ("isfile", strip_abs(mk_path(a))), False))), st)

    def x_os_path_isabs(self, args, kw, st):
        return self.each(args[0], lambda a: V(("cond", ("isabs", strip_abs(mk_path(a))), True)), st)

    def x_os_path_basename(self, args, kw, st):
        return self.each(args[0], lambda a: self.get_attr1(mk_path(a), "name", st) if a[0] != "top" else V(a), st)

    def x_os_path_split(self, args, kw, st):
        return V(("tup", (self.x_os_path_dirname(args, kw, st), self.x_os_path_basename(args, kw, st))))

    def x_os_path_splitext(self, args, kw, st):
        a = single(args[0])
        if a is None or a[0] == "top":
            return self.unk("splitext")
        n = self.get_attr1(mk_path(a), "suffix", st)
        return V(("tup", (V(("term", "pathstem", a)), n)))

    def x_os_fspath(self, args, kw, st):
        return self.each(args[0], lambda a: self.to_str(a, st), st)

    def x_os_listdir(self, args, kw, st):
        a = single(args[0]) if args else None
        r = self.list_dir(a, st, "name") if a else None
        return self.unk("directory listing") if r is None else self.new_list(st, r)

    def x_os_scandir(self, args, kw, st):
        a = single(args[0]) if args else None
        r = self.list_dir(a, st, "entry") if a else None
        if r is None:
            return self.unk("directory listing")
        return self.new_list(st, r, "iter")

    # ---- re
    def x_re_compile(self, args, kw, st):
        fl = single(args[1]) if len(args) > 1 else (single(_k(kw, "flags")) if "flags" in kw else None)
        return self.each(args[0], lambda a: V(a) if a[0] == "top" or (a[0] == "term" and a[1] == "regex") else
                         V(("term", "regex", a) + ((fl[2] if fl[0] == "const" else repr(fl),) if fl else ())), st)

    def _re(self, kind, args, kw, st):
        rx = self.x_re_compile([args[0]] + list(args[2:3]), kw, st)
        a = single(rx)
        if a is None:
            return self.unk("regular expression")
        return self.regex_test(kind, a, args[1], st)

    def x_re_match(self, args, kw, st):
        return self._re("match", args, kw, st)

    def x_re_search(self, args, kw, st):
        return self._re("search", args, kw, st)

    def x_re_fullmatch(self, args, kw, st):
        return self._re("fullmatch", args, kw, st)

    # ---- decoding
    def x_base64_b64decode(self, args, kw, st):
        def f(a):
            if a[0] == "top":
                return V(a)
            if a[0] == "const" and a[2] is None or a[0] in ("node", "obj"):
                self.raise_now("TypeError", "argument should be a bytes-like object or ASCII string", st)
            while a[0] == "term" and a[1] == "strip":
                a = a[2]
            if a[0] == "const":
                return self.unk("decoding a constant")
            return V(("term", "b64", a))
        return self.each(args[0], f, st)

    x_base64_standard_b64decode = x_binascii_a2b_base64 = x_base64_decodebytes = x_base64_b64decode

    def _fmt(self, v):
        f = single(v)
        if f and f[0] == "const" and isinstance(f[2], (str, bytes)):
            return f[2] if isinstance(f[2], str) else f[2].decode()
        return None

    def x_struct_unpack(self, args, kw, st):
        f = self._fmt(args[0])
        if f is None:
            return self.unk("struct format")
        return self.each(args[1], lambda a: V(a) if a[0] == "top" else self.unpack_bytes(f, a, st, False), st)

    def x_struct_unpack_from(self, args, kw, st):
        return self.unk("unpack_from") if len(args) > 2 or kw else self.x_struct_unpack(args, kw, st)

    def x_struct_iter_unpack(self, args, kw, st):
        f = self._fmt(args[0])
        if f is None:
            return self.unk("struct format")
        return self.each(args[1], lambda a: V(a) if a[0] == "top" else self.unpack_bytes(f, a, st, "tuples"), st)

    def x_struct_calcsize(self, args, kw, st):
        f = self._fmt(args[0])
        return self.fold(lambda: _struct.calcsize(f), st) if f else self.unk("calcsize")

    def x_array_array(self, args, kw, st):
        f = self._fmt(args[0])
        if f is None:
            return self.unk("array type")
        if len(args) < 2:
            return self.new_list(st, [], "array:" + f)
        r = self.each(args[1], lambda a: V(a) if a[0] == "top" else self.unpack_bytes("<" + f, a, st, True), st)
        for a in r:
            if a[0] == "obj" and st.heap[a[1]].kind == "list":
                o = st.heap[a[1]]
                st.heap[a[1]] = List(o.items, "array:" + f, o.unordered, o.site)
        return r

    # ---- imports and functools
    def x_importlib_util_find_spec(self, args, kw, st):
        n = single(args[0])
        if n == const("zstd"):
            return V(("ext", "zstd.spec")) if self.zstd else VNONE
        return self.unk("find_spec")

    def x_importlib_import_module(self, args, kw, st):
        n = single(args[0])
        if not n or n[0] != "const":
            self.event("effect", st, what="import of a computed name")
            return self.unk("dynamic import")
        m = self.import_module(n[2], st)
        if m is None:
            self.raise_now("ModuleNotFoundError", n[2], st)
        return V(m)

    def x_functools_partial(self, args, kw, st):
        return V(("partial", args[0], tuple(args[1:]), tuple(sorted((k, v) for k, (v, _) in kw.items()))))

    def x_functools_reduce(self, args, kw, st):
        items = self.iter_items(args[1], st)
        if items is None or any(c is not None for _, c in items):
            return self.unk("reduce")
        vals = [v for v, _ in items]
        acc = args[2] if len(args) > 2 else vals.pop(0)
        for v in vals:
            acc = self.call1(args[0], [acc, v], {}, st)
        return acc

    def x_functools_wraps(self, args, kw, st):
        return V(("wraps",))

    def x_functools_lru_cache(self, args, kw, st):
        return V(("memo-decorator",))

    x_functools_cache = x_functools_lru_cache

    def x_itertools_chain(self, args, kw, st):
        out = []
        for a in args:
            it = self.iter_items(a, st)
            if it is None:
                return self.unk("chain")
            out += it
        return self.alloc(st, List([(self.fresh(), v, c) for v, c in out], "iter"))

    def x_itertools_chain_from_iterable(self, args, kw, st):
        it = self.iter_items(args[0], st)
        if it is None:
            return self.unk("chain")
        out = []
        for v, c in it:
            sub = self.iter_items(v, st)
            if sub is None:
                return self.unk("chain")
            out += [(w, c if d is None else (d if c is None else True)) for w, d in sub]
        return self.alloc(st, List([(self.fresh(), v, c) for v, c in out], "iter"))

    def x_itertools_islice(self, args, kw, st):
        a = single(args[0])
        cs = [single(x) for x in args[1:]]
        if not all(c and c[0] == "const" for c in cs):
            return self.unk("islice")
        it = self.iter_items(args[0], st)
        if it is None or any(c is not None for _, c in it):
            return self.unk("islice")
        import itertools
        try:
            idx = list(itertools.islice(range(len(it)), *[c[2] for c in cs]))
        except ValueError:
            self.raise_now("ValueError", "bounds of islice", st)
        if a and a[0] == "obj" and st.heap[a[1]].kind == "list" and st.heap[a[1]].ltype == "iter":
            o = st.heap[a[1]]
            stop = cs[0][2] if len(cs) == 1 else cs[1][2]
            k = len(it) if stop is None else min(stop, len(it))
            st.heap[a[1]] = List(o.items[k:], o.ltype, o.unordered, o.site)
        return self.new_list(st, [it[i][0] for i in idx], "iter")

    def x_itertools_starmap(self, args, kw, st):
        items = self.iter_items(args[1], st)
        if items is None or any(c is not None for _, c in items):
            return self.unk("starmap")
        out = []
        for v, _ in items:
            sub = self.iter_items(v, st)
            if sub is None:
                return self.unk("starmap")
            out.append(self.call1(args[0], [x for x, _ in sub], {}, st))
        return self.new_list(st, out, "iter")

    def x_itertools_batched(self, args, kw, st):
        n = single(args[1])
        it = self.iter_items(args[0], st)
        if not n or n[0] != "const" or it is None or any(c is not None for _, c in it):
            return self.unk("batched")
        return self.new_list(st, [V(("tup", tuple(v for v, _ in it[i:i + n[2]])))
                                  for i in range(0, len(it), n[2])], "iter")

    def _getter(self, kind, args, extra=()):
        ns = []
        for a in args:
            n = single(a)
            if n is None:
                return self.unk("getter")
            ns.append(n)
        return V(("getter", kind, tuple(ns), extra))

    def x_operator_itemgetter(self, args, kw, st):
        return self._getter("item", args)

    def x_operator_attrgetter(self, args, kw, st):
        return self._getter("attr", args)

    def x_operator_methodcaller(self, args, kw, st):
        return self._getter("call", args[:1], tuple(args[1:]))

    def x_operator_eq(self, args, kw, st):
        return self.cond_value(self.compare1('Eq', args[0], args[1], st))

    def x_operator_ne(self, args, kw, st):
        return self.cond_value(self.compare1('NotEq', args[0], args[1], st))

    def x_operator_lt(self, args, kw, st):
        return self.cond_value(self.compare1('Lt', args[0], args[1], st))

    def x_operator_le(self, args, kw, st):
        return self.cond_value(self.compare1('LtE', args[0], args[1], st))

    def x_operator_gt(self, args, kw, st):
        return self.cond_value(self.compare1('Gt', args[0], args[1], st))

    def x_operator_ge(self, args, kw, st):
        return self.cond_value(self.compare1('GtE', args[0], args[1], st))

    def x_operator_is_(self, args, kw, st):
        return self.cond_value(self.compare1('Is', args[0], args[1], st))

    def x_operator_is_not(self, args, kw, st):
        return self.cond_value(self.compare1('IsNot', args[0], args[1], st))

    def x_operator_contains(self, args, kw, st):
        return self.cond_value(self.compare1("In", args[1], args[0], st))

    def x_operator_add(self, args, kw, st):
        return self.binop("Add", args[0], args[1], st)

    def x_operator_mul(self, args, kw, st):
        return self.binop("Mult", args[0], args[1], st)

    def x_operator_or_(self, args, kw, st):
        return self.binop("BitOr", args[0], args[1], st)

    # ---- copy
    def x_copy_copy(self, args, kw, st):
        out = frozenset()
        for a in args[0]:
            if a[0] == "obj":
                o = st.heap[a[1]]
                if o.kind == "inst":
                    out = out | self.alloc(st, Inst(o.cls, dict(o.fields), dict(o.sites)))
                elif o.kind == "list":
                    out = out | self.alloc(st, List([(self.fresh(), v, c) for _, v, c in o.items], o.ltype, o.unordered))
                else:
                    out = out | self.alloc(st, Dict([(self.fresh(), k, v, c) for _, k, v, c in o.entries], o.extra))
            elif a[0] in ("node", "attrib") and self.node(a).fmt == "json" or a[0] == "attrib":
                if a[0] == "node" and self.node(a).isarray:
                    out = out | self.list_method(a, "copy", [], {}, st)
                else:
                    out = out | self.copy_map(a, st)
            elif a[0] == "node":
                out = out | V(self.regen(a, st, False))
            else:
                out = out | V(a)
        return out

    def x_copy_deepcopy(self, args, kw, st):
        return self.deep(args[0], st, {})

    def deep(self, v, st, memo):
        out = frozenset()
        for a in v:
            if a[0] == "obj":
                if a[1] in memo:
                    out = out | V(("obj", memo[a[1]]))
                    continue
                o = st.heap[a[1]]
                oid = self.fresh()
                memo[a[1]] = oid
                st.heap[oid] = o
                if o.kind == "inst":
                    st.heap[oid] = Inst(o.cls, {k: self.deep(x, st, memo) for k, x in o.fields.items()}, dict(o.sites))
                elif o.kind == "list":
                    st.heap[oid] = List([(self.fresh(), self.deep(x, st, memo), c) for _, x, c in o.items], o.ltype,
                                        o.unordered, o.site)
                else:
                    st.heap[oid] = Dict([(self.fresh(), k, self.deep(x, st, memo), c) for _, k, x, c in o.entries],
                                        o.extra, o.site)
                out = out | V(("obj", oid))
            elif a[0] == "node":
                out = out | V(self.regen(a, st, True))
            elif a[0] in ("nt", "tup"):
                out = out | V(a[:-1] + (tuple(self.deep(x, st, memo) for x in a[-1]),))
            else:
                out = out | V(a)
        return out

    def regen(self, a, st, deep):
        g0, g = a[2], self.fresh()

        def fix(v):
            return frozenset(("node", x[1], g) + x[3:] if x[0] == "node" and x[2] == g0 and deep else x for x in v)
        new = {}
        for kk, v in st.over.items():
            if kk[0] == "kids" and kk[2] == g0 and (deep or kk[1] == a[1]):
                new[("kids", kk[1], g)] = tuple((i, single(fix(V(x))), c) for i, x, c in v)
            elif kk[0] == "aslist" and kk[2] == g0 and deep:
                self.unk("deep copy of a changed array")
            elif kk[0] not in ("kids", "aslist", "fpos") and kk[1] == g0 and (deep or kk[0] == a[1]):
                new[(kk[0], g, kk[2])] = fix(v)
        if not deep:
            if ("kids", a[1], g) not in new:
                new[("kids", a[1], g)] = tuple(self.kids(st, a[1], g0))
        st.over = dict(st.over)
        st.over.update(new)
        return ("node", a[1], g)

    # ---- typing, attrs, dataclasses
    def x_typing_cast(self, args, kw, st):
        return args[1]

    def x_typing_TypedDict(self, args, kw, st):
        return V(("ext", "builtins.dict"))

    def x_typing_NewType(self, args, kw, st):
        return V(("ext", "sa.identity"))

    def x_sa_identity(self, args, kw, st):
        return args[0]

    def x_typing_NamedTuple(self, args, kw, st):
        return self.functional_nt(args, st)

    def x_collections_namedtuple(self, args, kw, st):
        return self.functional_nt(args, st, _k(kw, "defaults"))

    def functional_nt(self, args, st, defaults=None):
        n = single(args[0])
        names = []
        f = single(args[1])
        if f and f[0] == "const" and isinstance(f[2], str):
            names = f[2].replace(",", " ").split()
        else:
            items = self.iter_items(args[1], st)
            for v, _ in items or []:
                x = single(v)
                if x and x[0] == "tup":
                    x = single(x[1][0])
                if x and x[0] == "const":
                    names.append(x[2])
                else:
                    return self.unk("namedtuple fields")
        if not n or n[0] != "const":
            return self.unk("namedtuple name")
        from .interp import Cls
        qual = "%s.%s" % (self.cur[0], n[2])
        c = Cls(qual, "", [])
        c.kind = "namedtuple"
        ds = [v for v, _ in self.iter_items(defaults, st)] if defaults is not None else []
        off = len(names) - len(ds)
        c.fields = [(x, None, ds[i - off] if i >= off else None, None, False, True, None) for i, x in enumerate(names)]
        self.classes[qual] = c
        return V(("cls", qual))

    def x_attr_ib(self, args, kw, st):
        d = {}
        if "default" in kw:
            d["default"] = kw["default"][0]
        elif args:
            d["default"] = args[0]
        if "factory" in kw:
            d["factory"] = kw["factory"][0]
        if "default_factory" in kw:
            d["factory"] = kw["default_factory"][0]
        if "converter" in kw and kw["converter"][0] != VNONE:
            d["converter"] = kw["converter"][0]
        for n in ("kw_only", "init"):
            if n in kw:
                a = single(kw[n][0])
                d[n] = bool(a[2]) if a and a[0] == "const" else False
        return V(("attrib_", tuple(sorted(d.items(), key=lambda x: x[0]))))

    x_attr_attrib = x_attr_field = x_dataclasses_field = x_attr_ib

    def x_attr_Factory(self, args, kw, st):
        return V(("factory", args[0]))

    def x_attr_evolve(self, args, kw, st):
        out = frozenset()
        for a in args[0]:
            if a[0] == "obj" and st.heap[a[1]].kind == "inst":
                o = st.heap[a[1]]
                f, s = dict(o.fields), dict(o.sites)
                for k, (v, c) in kw.items():
                    if k not in f:
                        self.raise_now("TypeError", "unexpected argument %s" % k, st)
                    f[k] = v if c is None else v | f[k]
                    s[k] = self.site()
                out = out | self.alloc(st, Inst(o.cls, f, s))
            else:
                out = out | self.unk("evolve")
        return out

    x_dataclasses_replace = x_copy_replace = x_attr_assoc = x_attr_evolve

    def x_attr_asdict(self, args, kw, st):
        if _k(kw, "recurse", vconst(True)) != vconst(False) or set(kw) - {"recurse", "filter"}:
            if not kw:
                pass
            else:
                return self.unk("asdict with options")
        out = frozenset()
        rec = _k(kw, "recurse", vconst(True)) == vconst(True)
        flt = _k(kw, "filter")
        if flt is not None:
            return self.unk("asdict filter")
        for a in args[0]:
            if a[0] == "obj" and st.heap[a[1]].kind == "inst":
                o = st.heap[a[1]]
                if rec and any(x[0] == "obj" and st.heap[x[1]].kind == "inst" for v in o.fields.values() for x in v):
                    return self.unk("recursive asdict")
                fs = [f[0] for f in self.all_fields(self.classes[o.cls])]
                out = out | self.new_dict(st, [(const(k), o.fields[k]) for k in fs if k in o.fields])
            else:
                out = out | self.unk("asdict")
        return out

    x_dataclasses_asdict = x_attr_asdict

    def x_attr_fields(self, args, kw, st):
        a = single(args[0])
        if not a or a[0] != "cls":
            return self.unk("fields")
        out = []
        for f in self.all_fields(self.classes[a[1]]):
            out.append(self.alloc(st, Inst("sa.Attribute", {"name": vconst(f[0]),
                                                            "default": f[2] or vtop("default")}, {})))
        from .interp import Cls
        self.classes.setdefault("sa.Attribute", Cls("sa.Attribute", "", []))
        return V(("tup", tuple(out)))

    def x_attr_fields_dict(self, args, kw, st):
        a = single(args[0])
        if not a or a[0] != "cls":
            return self.unk("fields_dict")
        return self.new_dict(st, [(const(f[0]), VNONE) for f in self.all_fields(self.classes[a[1]])])

    # ---- contextlib, misc
    def x_contextlib_suppress(self, args, kw, st):
        names = []
        for a in args:
            names += self.type_names(a, st)
        return V(("suppress", tuple(names)))

    def x_contextlib_closing(self, args, kw, st):
        return V(("closing", args[0]))

    def x_contextlib_ExitStack(self, args, kw, st):
        return V(("exitstack", self.fresh()))

    def x_contextlib_nullcontext(self, args, kw, st):
        return V(("nullctx", args[0] if args else VNONE))

    def x_warnings_catch_warnings(self, args, kw, st):
        return V(("nullctx", VNONE))

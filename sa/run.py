"""One analysis run: an entry point on a document world under a set of document facts; and the
comparison of the resulting abstract object tree with the expected one."""
from .docs import K, Node
from .loader import Broken
from .spec import Arith, Atoms, Ctx, Dct, Exp, Leaf, Lit, Lst, NT, Obj, OneOf
from .values import AbsDead, const, V, has_top, is_const, single


class Result:
    def __init__(self):
        self.value = self.state = None
        self.uncaught, self.events, self.undecided = [], [], {}


def entry(interp, name):
    fr = interp.st0.frames.get("M:pytiled_parser")
    v = fr.get(name) if fr else None
    if not v or has_top(v):
        raise Broken("entry point pytiled_parser.%s not found" % name)
    return v


def execute(interp, name, facts, args=None, st=None):
    """Analyse pytiled_parser.<name>(file)."""
    v = entry(interp, name)
    interp.origins = {}
    if st is None:
        st = interp.st0.copy()
        interp.memo_results = {}
    st.facts = dict(facts)
    interp.uncaught, interp.events, interp.event_seen, interp.undecided = [], [], set(), {}
    interp.steps = 0
    r = Result()
    interp.cur = ("<caller>", 0, name)
    interp.handlers, interp.stack, interp.depth = [], [], 0
    try:
        r.value = interp.call1(v, args or [frozenset([("param", "file")])], {}, st)
        r.state = st
    except AbsDead:
        pass
    r.uncaught, r.events, r.undecided = interp.uncaught, interp.events, interp.undecided
    return r


class Mismatch:
    __slots__ = ("tags", "path", "got", "want", "site", "kind", "nid")

    def __init__(self, tags, path, got, want, site, kind="value", nid=None):
        self.tags, self.path, self.got, self.want = frozenset(tags), path, got, want
        self.site, self.kind, self.nid = site, kind, nid

    def __repr__(self):
        return "%s %s: got %s, expected %s [%s] %s" % (
            "/".join(sorted(self.tags)), self.path, self.got, self.want, self.kind, self.site)


def show_atom(a, C=None):
    if not a or not isinstance(a[0], str):
        return "(%s)" % ", ".join(show_atom(x) if isinstance(x, tuple) else repr(x) for x in a)
    t = a[0]
    if t == "const":
        return repr(a[2])
    if t == "leaf":
        return "%s of %s (as written)" % (a[2], a[1])
    if t == "node":
        return "document part %s" % a[1]
    if t == "term":
        return "%s(%s)" % (a[1], ", ".join(show_atom(x) if isinstance(x, tuple) else repr(x) for x in a[2:]))
    if t == "nt":
        return "%s(%s)" % (a[1].split(".")[-1], ", ".join("|".join(map(show_atom, v)) for v in a[2]))
    if t == "dig":
        return "digit %s of %s of %s" % (a[3], a[2], a[1])
    if t == "lin":
        return "%s%s" % (a[1] or "", "".join(" + %s*%s" % (k, show_atom(x)) for x, k in a[2]))
    if t == "cond":
        return "truth of %s%s" % ("" if a[2] else "not ", a[1])
    if t == "byte":
        return "byte %s" % (a[2],)
    if t == "top":
        return "unknown (%s)" % a[1]
    return "%s" % (a,)


def show(v):
    return " | ".join(sorted(show_atom(a) for a in v)) or "nothing"


class Compare:
    def __init__(self, C, st):
        self.C, self.st = C, st
        self.out = []
        self.undecided = []
        self.count = 0

    def bad(self, tags, path, got, want, site, kind="value", nid=None):
        self.out.append(Mismatch(tags, path, got, want, site, kind, nid))

    def value(self, exp, v, path, tags, site):
        """Every possible value must be an expected one."""
        self.count += 1
        if not v:
            self.undecided.append((path, "no value"))
            return
        if has_top(v):
            self.undecided.append((path, next(a[1] for a in v if a[0] == "top")))
            v = frozenset(a for a in v if a[0] != "top")
            return
        for a in v:
            self.atom(exp, a, path, tags, site)

    def trial(self, exp, a, path, tags, site):
        c = Compare(self.C, self.st)
        c.atom(exp, a, path, tags, site)
        return c

    def atom(self, exp, a, path, tags, site):
        C, st = self.C, self.st
        N = C.interp.norm
        a = N(a)
        if isinstance(exp, OneOf):
            best = None
            for e in exp.alts:
                c = self.trial(e, a, path, tags, site)
                if not c.out:
                    best = c
                    break
                if best is None or len(c.out) < len(best.out):
                    best = c
            self.out += best.out
            self.undecided += best.undecided
            self.count += best.count
            return
        if a[0] == "top":
            self.undecided.append((path, a[1]))
            return
        if isinstance(exp, Leaf) and exp.conv == "color":
            return self.atom(C.color_exp(exp), a, path, set(tags) | {"C20"}, site)
        if isinstance(exp, Lit):
            if is_const(a):
                if a[2] == exp.value and type(a[2]) is type(exp.value):
                    return
                if a[2] == exp.value and isinstance(a[2], (int, float)) and exp.value is not None:
                    if isinstance(a[2], bool) or isinstance(exp.value, bool) or exp.kind == "int":
                        self.bad(("C19",), path, show_atom(a), exp.show(C), site, "type")
                    return
            elif a[0] == "obj" and exp.value is None:
                pass
            return self.bad(tags, path, self.desc(a), exp.show(C), site)
        if isinstance(exp, Atoms):
            if a not in N(frozenset(exp.atoms)):
                self.bad(tags, path, self.desc(a), exp.show(C), site, nid=None)
            return
        if isinstance(exp, Leaf):
            good, bad = (N(frozenset(x)) for x in C.accepts(exp))
            if a in good:
                return
            if a in bad:
                return self.bad(("C19",), path, show_atom(a), exp.show(C), site, "type", exp.nid)
            t = set(tags)
            if a == N(("leaf", exp.nid, exp.key)):
                t.add("C19")          # raw document text
            elif is_const(a) and not self.type_ok(a, exp):
                t.add("C19")
            elif exp.conv in ("bool", "tfbool") and C.zero(exp.nid, exp.key) and a == const(True):
                t.add("C19")          # a flag written 0
            return self.bad(t, path, self.desc(a), exp.show(C), site, nid=exp.nid)
        if isinstance(exp, NT):
            if a[0] != "nt" or a[1].split(".")[-1] != exp.cls:
                if not (a[0] == "tup" and False):
                    t = set(tags) | {"C19"}
                    return self.bad(t, path, self.desc(a), exp.show(C), site)
            cls = C.interp.classes[a[1]]
            names = [f[0] for f in C.interp.all_fields(cls)]
            got = dict(zip(names, a[2]))
            for n, e in exp.fields:
                if n not in got:
                    self.bad(tags, path + "." + n, "no such field", e.show(C), site)
                else:
                    none = const(None) in got[n]
                    self.value(e, got[n], path + "." + n, set(tags) | {"C19"} if none else tags, site)
            return
        if isinstance(exp, Obj):
            o = st.heap.get(a[1]) if a[0] == "obj" else None
            if o is None or o.kind != "inst" or o.cls.split(".")[-1] != exp.cls:
                got = o.cls.split(".")[-1] if o is not None and o.kind == "inst" else self.desc(a)
                return self.bad(set(exp.clstags) | set(tags), path, got, exp.cls, site, "class")
            for n, (e, tg) in exp.fields.items():
                p = path + "." + n
                s = o.sites.get(n, "")
                if n not in o.fields:
                    self.bad(tg, p, "no such attribute", e.show(C), s)
                else:
                    self.value(e, o.fields[n], p, tg, s)
            return
        if isinstance(exp, Arith):
            if not self.arith(exp, a):
                self.bad(tags, path, self.desc(a), exp.show(C), site)
            return
        if isinstance(exp, Lst):
            return self.list(exp, a, path, tags, site)
        if isinstance(exp, Dct):
            return self.dict(exp, a, path, tags, site)
        raise AssertionError(exp)

    @staticmethod
    def type_ok(a, exp):
        v = a[2]
        if v is None:
            return True
        if exp.conv == "int":
            return isinstance(v, int) and not isinstance(v, bool)
        if exp.conv == "num":
            return isinstance(v, (int, float)) and not isinstance(v, bool)
        if exp.conv in ("bool", "tfbool"):
            return isinstance(v, bool)
        if exp.conv == "str":
            return isinstance(v, str)
        return True

    def desc(self, a):
        if a[0] == "obj":
            o = self.st.heap[a[1]]
            if o.kind == "inst":
                return o.cls.split(".")[-1]
            return "a %s of %d" % (o.kind, len(o.items if o.kind == "list" else o.entries))
        return show_atom(a)

    def live(self, c):
        """Item condition -> True / False / None (maybe)."""
        if c is None:
            return True
        if c is True:
            return None
        r = self.C.interp.cond_state(c, self.st)
        return True if r is None else (False if r is False else None)

    def arith(self, exp, a):
        I, st = self.C.interp, self.st.copy()
        e = I.binop("Mult", V(exp.f), V(I.norm(exp.mult)), st)
        if exp.off is not None:
            e = I.binop("Add", e, V(I.norm(exp.off)), st)
        zero = {("num", "leaf") + k[1:] for k, v in self.C.facts.items() if k[0] == "zero" and v and len(k) == 3}

        def canon(x):
            ln = I.lin(x)
            if ln is None:
                return x
            return tuple(sorted(((t, c) for t, c in ln[1].items() if t not in zero), key=repr)), ln[0] or 0
        if exp.zero and canon(a) == ((), 0):
            return True
        if exp.zero:
            e2 = V(exp.off) if exp.off is not None else V(const(0.0))
            if canon(a) == canon(single(e2)):
                return True
        return canon(a) == canon(single(e))

    def list(self, exp, a, path, tags, site):
        tags = set(exp.tags) | set(tags)
        st = self.st
        if a[0] == "obj" and st.heap[a[1]].kind == "list":
            o = st.heap[a[1]]
            if o.ltype != "list":
                self.bad({"C19"} | tags, path, "a %s" % o.ltype, "a list", site, "type")
                return
            items = [(v, c) for _, v, c in o.items]
            unordered = o.unordered
        elif a[0] == "node" and self.C.world.nodes[a[1]].isarray:
            items = self.C.interp.atom_items(a, st)
            unordered = False
        elif a[0] == "tup":
            self.bad({"C19"}, path, "a tuple", "a list", site, "type")
            items, unordered = [(v, None) for v in a[1]], False
        else:
            return self.bad(tags, path, self.desc(a), "a list of %d" % len(exp.items), site)
        got, maybe, keys = [], 0, set()
        for v, c in items:
            lv = self.live(c)
            if lv is None:
                maybe += 1
                keys.add(c)
                if has_top(v):
                    keys.add("top")
            if lv is not False:
                got.append(v)
        if maybe:
            n, sure = len(exp.items), len(got) - maybe
            if "top" in keys:
                self.undecided.append((path, "membership of an item depends on an undecided condition"))
            elif not sure <= n <= len(got) or (n == len(got) or n == sure):
                # on some path an item is missing, or one too many is there
                self.bad(tags, path, "%d items, %d of them only under a condition" % (len(got), maybe),
                         "%d items" % n, site, "membership")
            else:
                self.cases(keys, lambda c: c.list(exp, a, path, tags, site), path)
            return
        if len(got) != len(exp.items):
            d = "%d items" % len(got)
            return self.bad(tags, path, d + self.contents(got), "%d items" % len(exp.items), site, "membership")
        pre = len(got) if exp.prefix is None else exp.prefix
        if unordered and len(got) > 1 and pre > 0:
            return self.bad(tags, path, "items in no defined order", "document order", site, "order")
        if pre < len(got):
            for i in range(pre):
                self.value(exp.items[i], got[i], "%s[%d]" % (path, i), tags, site)
            return self.unordered(exp.items[pre:], got[pre:], path, tags, site)
        n0 = len(self.out)
        for i, (e, v) in enumerate(zip(exp.items, got)):
            self.value(e, v, "%s[%d]" % (path, i), tags, site)
        if len(self.out) > n0 and len(got) > 1 and len(got) <= 12:
            # a permutation is an order violation of the list itself
            left = list(range(len(got)))
            for e in exp.items:
                for i in left:
                    c = Compare(self.C, st)
                    c.value(e, got[i], path, tags, site)
                    if not c.out:
                        left.remove(i)
                        break
            if not left:
                del self.out[n0:]
                self.bad(tags, path, "the right items in the wrong order", "document order", site, "order")

    def cases(self, conds, check, path):
        """Membership that depends on one undetermined fact: both of its values must be right."""
        facts = {c[0] for c in conds if isinstance(c, tuple)}
        if True in conds or len(facts) != 1:
            self.undecided.append((path, "membership of an item depends on an undecided condition"))
            return
        key = facts.pop()
        for val in (True, False):
            st = self.st.copy()
            st.facts[key] = val
            c = Compare(self.C, st)
            check(c)
            self.out += c.out
            self.undecided += c.undecided
            self.count += c.count

    def unordered(self, exps, got, path, tags, site):
        left = list(got)
        for e in exps:
            best = None
            for v in left:
                c = Compare(self.C, self.st)
                c.value(e, v, path + "[]", tags, site)
                if best is None or len(c.out) < len(best[0].out):
                    best = (c, v)
                if not c.out:
                    break
            left.remove(best[1])
            self.out += best[0].out
            self.undecided += best[0].undecided
            self.count += best[0].count

    def contents(self, got):
        return " (%s)" % ", ".join(show(v)[:40] if not any(a[0] == "obj" for a in v) else
                                   "/".join(self.desc(a) for a in v) for v in got[:8])

    def dict(self, exp, a, path, tags, site):
        tags = set(exp.tags) | set(tags)
        ktags = set(exp.keytags) or tags
        st = self.st
        if a[0] == "obj" and st.heap[a[1]].kind == "dict":
            o = st.heap[a[1]]
            if o.extra:
                self.undecided.append((path, "keys not all known"))
                return
            ents = [(k, v, c) for _, k, v, c in o.entries]
        elif a[0] == "node" and self.C.world.nodes[a[1]].fmt == "json" and not self.C.world.nodes[a[1]].isarray:
            ents = []
            for key, c in self.C.interp.node_keys(a, st):
                ents.append((const(key), self.C.interp.read_raw(st, a[1], a[2], key), c))
        else:
            return self.bad(tags, path, self.desc(a), "a dict of %d" % len(exp.entries), site)
        got, maybe, conds = {}, set(), set()
        for kk, v, c in ents:
            lv = self.live(c)
            if lv is None:
                conds.add("top" if has_top(v) else c)
                if kk in got or kk in maybe:
                    conds.add("again")
                maybe.add(kk)
            elif lv:
                if kk in maybe:
                    conds.add("again")
                got[kk] = v
        if maybe:
            n = len(exp.entries)
            if "top" in conds or "again" in conds and len({c for c in conds if c != "again"}) != 1:
                self.undecided.append((path, "membership of an entry depends on an undecided condition"))
            elif "again" not in conds and (not len(got) <= n <= len(got) + len(maybe)
                                           or n in (len(got), len(got) + len(maybe))):
                self.bad(tags, path, "%d entries, %d of them only under a condition" % (
                    len(got) + len(maybe), len(maybe)), "%d entries" % n, site, "membership")
            else:
                self.cases(conds - {"again"}, lambda c: c.dict(exp, a, path, tags, site), path)
            return
        used = set()
        for ke, ve in exp.entries:
            hit = None
            for kk in got:
                if kk in used:
                    continue
                c = self.trial(ke, kk, path, ktags, site)
                if not [m for m in c.out if m.kind != "type"]:
                    hit = kk
                    self.out += c.out
                    break
            if hit is None:
                self.bad(ktags, path, "keys %s" % ", ".join(sorted(show_atom(x) for x in got)),
                         "an entry under %s" % ke.show(self.C), site, "membership")
                continue
            used.add(hit)
            self.value(ve, got[hit], "%s[%s]" % (path, ke.show(self.C)), tags, site)
        for kk in got:
            if kk not in used and len(got) > len(exp.entries):
                self.bad(ktags, path, "an entry under %s" % show_atom(kk), "no such entry", site, "membership")


def shared(interp, v, st):
    """Mutable objects reachable twice, or reachable from static state, in the result v."""
    seen, out = {}, []

    def walk(v, path):
        for a in v:
            if a[0] == "obj":
                oid = a[1]
            elif a[0] == "node":
                oid = a[:3]
            elif a[0] in ("nt", "tup"):
                for i, x in enumerate(a[-1]):
                    walk(x, "%s[%d]" % (path, i))
                continue
            else:
                continue
            if oid in seen:
                if (seen[oid], path) not in out:
                    out.append((seen[oid], path, st.heap[oid] if a[0] == "obj" else None))
                continue
            seen[oid] = path
            if a[0] == "node":
                continue
            if oid < interp.static_limit:
                out.append(("module-level or default state", path, st.heap[oid]))
            o = st.heap[oid]
            if o.kind == "inst":
                for n, x in o.fields.items():
                    walk(x, path + "." + n)
            elif o.kind == "list":
                for i, (_, x, _) in enumerate(o.items):
                    walk(x, "%s[%d]" % (path, i))
            else:
                for _, kk, x, _ in o.entries:
                    walk(x, "%s[%s]" % (path, show_atom(kk)))
    walk(v, "result")
    return out, len(seen)

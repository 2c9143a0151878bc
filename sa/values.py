"""Abstract values, states and joins.

An abstract value is a frozenset of *atoms*; the empty set is bottom.  An atom says where a
value comes from (a document leaf, a constant, a conversion of another atom, a heap object...)
rather than what it is, so one analysis covers every concrete value a leaf can have.
"""

MAXATOMS = 40


def const(x):
    return ("const", type(x).__name__, x)


def V(*atoms):
    return frozenset(atoms)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
VNONE = V(NONE)
ABSENT = ("absent",)


def top(reason):
    return ("top", str(reason)[:120])


def vtop(reason):
    return V(top(reason))


def has_top(v):
    return any(a[0] == "top" for a in v)


def is_const(a):
    return a[0] == "const"


def single(v):
    if len(v) == 1:
        for a in v:
            return a
    return None


def vconst(x):
    return V(const(x))


def norm(v):
    if len(v) > MAXATOMS:
        return frozenset([top("value set too large")])
    return v


class AbsDead(Exception):
    """The analysed path ends here (definite exception)."""


class Inst:
    __slots__ = ("cls", "fields", "sites")
    kind = "inst"

    def __init__(self, cls, fields, sites):
        self.cls, self.fields, self.sites = cls, fields, sites


class List:
    """items: tuple of (iid, Value, cond); cond None = definitely there, True = maybe there,
    (factkey, polarity) = there exactly when that fact holds."""

    __slots__ = ("items", "ltype", "unordered", "site")
    kind = "list"

    def __init__(self, items, ltype="list", unordered=False, site=None):
        self.items, self.ltype, self.unordered, self.site = tuple(items), ltype, unordered, site


class Dict:
    """entries: tuple of (iid, keyatom, Value, cond) in insertion order."""

    __slots__ = ("entries", "extra", "site")
    kind = "dict"

    def __init__(self, entries, extra=None, site=None):
        self.entries, self.extra, self.site = tuple(entries), extra, site


class State:
    __slots__ = ("heap", "frames", "facts", "over", "taint")

    def __init__(self):
        self.heap, self.frames, self.facts, self.over, self.taint = {}, {}, {}, {}, False

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = dict(self.frames)
        s.facts = dict(self.facts)
        s.over = dict(self.over)
        s.taint = self.taint
        return s

    def become(self, o):
        self.heap, self.frames, self.facts = o.heap, o.frames, o.facts
        self.over, self.taint = o.over, o.taint


def join_values(a, b, taint=False):
    if a is b or a == b:
        return a
    v = a | b
    if taint:
        v = v | vtop("value chosen by a condition this analysis cannot decide")
    return norm(v)


def _join_seq(xs, ys, taint, ca, cb, mk):
    """Join two item sequences aligned by item id (first component)."""
    if xs is ys or xs == ys:
        return xs
    yid = {y[0]: y for y in ys}
    xid = {x[0]: x for x in xs}
    out, yi = [], 0
    ys = list(ys)
    for x in xs:
        if x[0] in yid:
            while yi < len(ys) and ys[yi][0] not in xid:
                out.append(mk(ys[yi], None, cb, taint))
                yi += 1
            if yi < len(ys) and ys[yi][0] == x[0]:
                yi += 1
            out.append(mk(x, yid[x[0]], None, taint))
        else:
            out.append(mk(x, None, ca, taint))
    for y in ys[yi:]:
        if y[0] not in xid:
            out.append(mk(y, None, cb, taint))
    return tuple(out)


def _one_side_cond(c, side):
    if c is None:
        return side if side is not None else True
    return c if side is None else (c if c == side else True)


def _mk_list(x, y, side, taint):
    if y is None:
        v = x[1] | vtop("item under undecided condition") if taint else x[1]
        return (x[0], v, _one_side_cond(x[2], side))
    c = x[2] if x[2] == y[2] else True
    return (x[0], join_values(x[1], y[1], taint), c)


def _mk_dict(x, y, side, taint):
    if y is None:
        v = x[2] | vtop("entry under undecided condition") if taint else x[2]
        return (x[0], x[1], v, _one_side_cond(x[3], side))
    c = x[3] if x[3] == y[3] else True
    return (x[0], x[1], join_values(x[2], y[2], taint), c)


def join_obj(a, b, taint, ca, cb):
    if a is b:
        return a
    if a.kind != b.kind:
        return a
    if a.kind == "inst":
        f = dict(a.fields)
        s = a.sites if a.sites is b.sites else {**b.sites, **a.sites}
        for k, v in b.fields.items():
            f[k] = join_values(f[k], v, taint) if k in f else v
        return Inst(a.cls, f, s)
    if a.kind == "list":
        return List(_join_seq(a.items, b.items, taint, ca, cb, _mk_list), a.ltype,
                    a.unordered or b.unordered, a.site)
    e = None
    if a.extra or b.extra:
        e = (a.extra or frozenset()) | (b.extra or frozenset())
    return Dict(_join_seq(a.entries, b.entries, taint, ca, cb, _mk_dict), e, a.site)


def diff_cond(fa, fb):
    """A fact on which the two states differ by definite opposite values, if any."""
    for k, v in fa.items():
        if k in fb and fb[k] != v:
            return k
    return None


def join_states(a, b, taint=False, read_over=None):
    if a is b:
        return a
    out = State()
    out.taint = a.taint and b.taint
    k = diff_cond(a.facts, b.facts)
    ca = (k, a.facts[k]) if k is not None else None
    cb = (k, b.facts[k]) if k is not None else None
    out.facts = {k: v for k, v in a.facts.items() if k in b.facts and b.facts[k] == v}
    ha, hb = a.heap, b.heap
    h = dict(hb)
    for oid, o in ha.items():
        p = h.get(oid)
        if p is None or p is o:
            h[oid] = o
        else:
            h[oid] = join_obj(o, p, taint, ca, cb)
    out.heap = h
    fr = dict(b.frames)
    for fid, f in a.frames.items():
        g = fr.get(fid)
        if g is None or g is f:
            fr[fid] = f
            continue
        m = dict(g)
        for n, v in f.items():
            w = m.get(n)
            m[n] = v if w is None else join_values(v, w, taint)
        fr[fid] = m
    out.frames = fr
    if a.over is b.over or a.over == b.over:
        out.over = a.over
    else:
        ov = {}
        for kk in set(a.over) | set(b.over):
            va = a.over.get(kk)
            vb = b.over.get(kk)
            if va is None:
                va = read_over(a, kk)
            if vb is None:
                vb = read_over(b, kk)
            if kk[0] == "kids":
                if va == vb:
                    ov[kk] = va
                else:
                    ov[kk] = _join_seq(va, vb, taint, ca, cb, _mk_kid)
            else:
                ov[kk] = join_values(va, vb, taint)
        out.over = ov
    return out


def _mk_kid(x, y, side, taint):
    if y is None:
        return (x[0], x[1], _one_side_cond(x[2], side))
    return (x[0], x[1], x[2] if x[2] == y[2] else True)

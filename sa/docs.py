"""Abstract documents: k-limited skeletons of Tiled documents whose leaves are abstract.

A skeleton fixes which elements exist; which optional attributes exist and what every leaf
holds stays unknown (or is constrained by the facts of one partition).
"""


class K:
    """One attribute/key.  stype: int float bool str color path regex or a tuple
    ('csv',n) ('points',n) ('b64',nbytes).  const: a fixed raw value."""

    __slots__ = ("stype", "opt", "const", "with_", "shape", "needs")

    def __init__(self, stype="str", opt=False, const=None, with_=(), shape="#8", needs=None):
        self.stype, self.opt, self.const, self.with_, self.shape = stype, opt, const, with_, shape
        self.needs = needs

    def clone(self, **kw):
        k = K(self.stype, self.opt, self.const, self.with_, self.shape, self.needs)
        for a, b in kw.items():
            setattr(k, a, b)
        return k


class Node:
    """fmt 'json' (object or array) or 'xml' (element)."""

    def __init__(self, nid, fmt, tag=None, keys=None, kids=None, items=None, text=None, kopt=None):
        self.id, self.fmt, self.tag = nid, fmt, tag
        self.keys = dict(keys or {})        # name -> K or Node (json)
        self.kopt = dict(kopt or {})        # json child node name -> optional?
        self.kids = list(kids or [])        # xml: list of (Node, optional)
        self.items = items                  # json array: list of (Node | K, optional)
        self.text = text                    # xml: K or None

    @property
    def isarray(self):
        return self.items is not None


class World:
    """The files an analysis may see: path atom -> ('json'|'xml'|'garbage'|'empty', Node)."""

    def __init__(self):
        self.files = {}
        self.nodes = {}
        self.listing = 0       # directory entries of the world directory
        self.listdir = None
        self.zstd = False
        self.blank = False     # JSON files begin with a blank

    def add(self, path, fmt, root=None):
        self.files[path] = (fmt, root)
        if root is not None:
            self.index(root)

    def index(self, node):
        assert node.id not in self.nodes or self.nodes[node.id] is node, node.id
        self.nodes[node.id] = node
        for c in node.keys.values():
            if isinstance(c, Node):
                self.index(c)
        for c, _ in node.kids:
            self.index(c)
        for c, _ in node.items or []:
            if isinstance(c, Node):
                self.index(c)

    def key(self, nid, key):
        n = self.nodes[nid]
        if key == "#text":
            return n.text
        if isinstance(key, int):
            return n.items[key][0]
        return n.keys.get(key)

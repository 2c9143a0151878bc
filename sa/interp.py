"""Interprocedural abstract interpreter over the package's syntax trees.

Domain: sets of provenance atoms (values.py); control flow is joined at every merge, partitions
are only over document facts (presence / emptiness of attributes).  Nothing of the package is
imported or executed, and no path condition is handed to a solver.
"""
import ast
import builtins as _b

from .loader import PKG, Broken
from .lib import Lib
from .models import Models, mk_lin
from .values import (ABSENT, FALSE, NONE, TRUE, VNONE, AbsDead, Dict, Inst, List, State, V, const,
                     has_top, is_const, join_states, join_values, norm, single, top, vconst, vtop)


class Fn:
    def __init__(self, node, mod, parent, qual, cls=None):
        self.node, self.mod, self.parent, self.qual, self.cls = node, mod, parent, qual, cls
        self.defaults, self.kwdefaults = [], []
        self.memo = False
        self.ctxmgr = False
        self.gen = False
        self.has_inner = False
        if not isinstance(node, ast.Lambda):
            st = list(node.body)
            while st:
                n = st.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    self.has_inner = True
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.gen = True
                st.extend(ast.iter_child_nodes(n))
        else:
            for n in ast.walk(node.body):
                if isinstance(n, ast.Lambda):
                    self.has_inner = True


class Cls:
    def __init__(self, qual, mod, bases):
        self.qual, self.mod, self.bases = qual, mod, bases
        self.env = {}
        self.fields = []        # own: (name, annotation, default Value|None, factory Value|None, kw_only, init)
        self.kind = "plain"
        self.kw_only = False
        self.mro = [self]
        self.node = None


class Ctx:
    def __init__(self, fn, fid):
        self.fn, self.fid = fn, fid
        self.returns, self.globals, self.nonlocals = [], set(), set()
        self.loops = []
        self.yields = None
        self.hook = None        # runs the body of a with statement at the yield of its context manager


MAXDEPTH = 45
MAXLOOP = 5000


class OverBudget(Exception):
    pass


class Interp(Lib, Models):
    def __init__(self, program, world, zstd=False):
        self.program = program
        self.world = world
        self.zstd = zstd
        self.n = 0
        self.fns, self.classes, self.dispatchers = [], {}, []
        self.fparent = {}
        self.modstate = {}
        self.handlers = []
        self.gencalls, self.genhooks = {}, []
        self.uncaught = []
        self.events = []
        self.event_seen = set()
        self.undecided = {}
        self.initing = True
        self.static_limit = 0
        self.static_frames = set()
        self.depth = 0
        self.cur = ("?", 0, "?")
        self.stack = []
        self.curexc = []
        self.analysed = set()
        self.steps = 0
        self.calledges = set()
        self.budget = 400000
        self.gen = 0
        self.memo_results = {}
        self.fn_attrs = {}      # function -> its attributes, a dictionary
        self.origins = {}
        self.lenient = set()
        self.canon = None       # leaf -> the leaf it holds the same value as (None: all differ)
        self.reached = set()
        self.st0 = State()
        for m in sorted(program.modules):
            self.load_module(m, self.st0)
        self.static_limit = self.n + 1
        self.static_frames = set(self.st0.frames)
        self.initing = False
        self.init_uncaught, self.uncaught = self.uncaught, []
        self.init_events, self.events = self.events, []
        self.event_seen = set()
        self.init_undecided, self.undecided = self.undecided, {}

    # ---------------------------------------------------------------- utils
    def fresh(self):
        self.n += 1
        return self.n

    def site(self):
        return "%s:%s (line %s)" % (self.cur[0], self.cur[2], self.cur[1])

    def construct_key(self):
        return "%s:%s" % (self.cur[0], self.cur[2])

    def event(self, kind, st, **kw):
        k = (kind, self.cur, tuple(sorted((a, repr(b)) for a, b in kw.items())))
        if k in self.event_seen:
            return
        self.event_seen.add(k)
        self.events.append(dict(kind=kind, site=self.site(), where=self.construct_key(),
                                taint=st.taint, stack=tuple(self.stack[-6:]), **kw))

    def unk(self, reason):
        """An operation this analysis does not model."""
        r = "%s at %s" % (reason, self.site())
        self.undecided[r] = self.undecided.get(r, 0) + 1
        return vtop(r)

    def read_over(self, st, kk):
        if kk[0] == "kids":
            return self.kids_base(kk[1], kk[2])
        if kk[0] == "aslist":
            return V(ABSENT)
        if kk[0] == "fpos":
            return vconst("start")
        if kk[0] == "fopen":
            return vconst("none")
        return self.read_base(st, kk[0], kk[1], kk[2])

    def join(self, a, b, taint=False):
        if a is None:
            return b
        if b is None:
            return a
        return join_states(a, b, taint, self.read_over)

    def join_all(self, states, taint=False):
        out = None
        for s in states:
            out = self.join(out, s, taint)
        return out

    def join_forks(self, forks, base_taint):
        """Join [(Value, State)] into one."""
        if len(forks) == 1:
            v, s = forks[0]
            s.taint = base_taint
            return v, s
        t = any(s.taint and not base_taint for _, s in forks)
        v, s = forks[0]
        for w, z in forks[1:]:
            v = join_values(v, w, t)
            s = self.join(s, z, t)
        s.taint = base_taint
        return v, s

    def fact(self, st, key):
        return st.facts.get(key)

    def assume(self, st, key, val):
        """Adds a fact; returns None when it contradicts the state."""
        old = st.facts.get(key)
        if old is not None:
            return st if old == val else None
        if key[0] == "pres":
            d = self.presence_def(key[1], key[2])
            if d is not None:
                return st if d == val else None
        st.facts[key] = val
        if key[0] == "pres":
            k = self.world.key(key[1], key[2]) if not str(key[2]).startswith("<") else None
            for w in getattr(k, "with_", ()) or ():
                if st.facts.get(("pres", key[1], w), val) != val:
                    return None
                st.facts[("pres", key[1], w)] = val
        return st

    # ---------------------------------------------------------------- heap
    def same(self, nid, key):
        """The leaf standing for all leaves with this one's value."""
        return self.canon.get((nid, key), (nid, key)) if self.canon else (nid, key)

    def norm(self, a):
        """The atom with every leaf replaced by the one standing for its value."""
        if not self.canon or not isinstance(a, (tuple, frozenset)):
            return a
        if isinstance(a, frozenset):
            return frozenset(self.norm(x) for x in a)
        if a and a[0] in ("leaf", "cs", "zero", "dig") and len(a) > 2:
            return (a[0],) + self.same(a[1], a[2]) + a[3:]
        if len(a) == 4 and a[:2] == ("num", "leaf"):
            return a[:2] + self.same(a[2], a[3])
        if a and a[0] in ("part", "pair") and len(a) == 3:
            return (a[0], self.norm(a[1]), (0, a[2][1]) if isinstance(a[2], tuple) else 0)
        if a and a[0] == "byte":
            return ("byte", self.norm(a[1]), a[2] % 4)
        if a and a[0] == "lin" and len(a) == 3:
            t = {}
            for x, k in a[2]:
                x = self.norm(x)
                t[x] = t.get(x, 0) + k
            return mk_lin(a[1], t)
        return tuple(self.norm(x) for x in a)

    def setify(self, obj):
        """A set holds one of several equal elements."""
        if obj.kind != "list" or obj.ltype != "set" or len(obj.items) < 2:
            return obj
        seen, keep = set(), []
        for i, v, c in obj.items:
            if len(v) == 1 and v in seen and next(iter(v))[0] != "top":
                continue
            if c is None:
                seen.add(v)
            keep.append((i, v, c))
        return obj if len(keep) == len(obj.items) else List(keep, "set", obj.unordered, obj.site)

    def put(self, st, oid, obj):
        obj = self.setify(obj)
        if not self.initing and oid < self.static_limit:
            self.event("static-mutation", st, what="module-level or default-argument object")
        st.heap[oid] = obj

    def alloc(self, st, obj):
        oid = self.fresh()
        obj = self.setify(obj)
        st.heap[oid] = obj
        if getattr(obj, "site", 1) is None:
            obj.site = self.site()
        return V(("obj", oid))

    def new_list(self, st, values, ltype="list", unordered=False):
        return self.alloc(st, List([(self.fresh(), v, None) for v in values], ltype, unordered))

    def new_dict(self, st, pairs):
        return self.alloc(st, Dict([(self.fresh(), k, v, None) for k, v in pairs]))

    # ---------------------------------------------------------------- modules
    def load_module(self, name, st):
        if name in self.modstate:
            return
        self.modstate[name] = "loading"
        tree, rel, _ = self.program.modules[name]
        fid = "M:" + name
        st.frames[fid] = {"__name__": vconst(name), "__file__": vconst("<file>")}
        fn = Fn.__new__(Fn)
        fn.node, fn.mod, fn.parent, fn.qual, fn.cls = tree, name, None, "<module>", None
        fn.gen = fn.memo = fn.has_inner = fn.ctxmgr = False
        ctx = Ctx(fn, fid)
        save = self.cur
        self.cur = (rel, 0, "<module>")
        out = self.exec_block(tree.body, st, ctx)
        if out is None:
            raise Broken("module %s cannot be initialised: %s" % (name, [u["exc"] for u in self.uncaught]))
        if out is not st:
            st.become(out)
        self.cur = save
        self.modstate[name] = "done"

    def resolve_from(self, modname, node):
        base = node.module or ""
        if node.level:
            parts = modname.split(".")
            if not self.program.modules[modname][2]:
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            base = ".".join(parts + ([node.module] if node.module else []))
        return base

    def import_module(self, dotted, st):
        if dotted in self.program.modules:
            parts = dotted.split(".")
            for i in range(1, len(parts) + 1):
                p = ".".join(parts[:i])
                if p in self.program.modules:
                    self.load_module(p, st)
            return ("mod", dotted)
        if dotted.split(".")[0] == PKG:
            return None
        if dotted.split(".")[0] == "zstd":
            return ("ext", "zstd") if self.zstd else None
        return ("ext", dotted)

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, st, ctx):
        for s in stmts:
            self.steps += 1
            self.reached.add((self.cur[0], s.lineno))
            if self.steps > self.budget:
                raise OverBudget("analysis budget exceeded in %s" % (self.cur,))
            self.cur = (self.cur[0], s.lineno, self.cur[2])
            try:
                st = getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, st, ctx)
            except AbsDead:
                return None
            if st is None:
                return None
        return st

    def s_unknown(self, s, st, ctx):
        self.unk("statement " + type(s).__name__)
        if any(isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom))
               for n in ast.walk(s)):
            raise NotImplementedError("statement " + type(s).__name__)
        st.taint = True
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.set_name(n.id, vtop("unmodelled statement"), st, ctx)
        return st

    def s_Pass(self, s, st, ctx):
        return st

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st, ctx)
        return st

    def s_Assign(self, s, st, ctx):
        v = self.eval(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return st

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            v = self.eval(s.value, st, ctx)
            self.assign(s.target, v, st, ctx)
        return st

    def s_AugAssign(self, s, st, ctx):
        load = ast.copy_location(_as_load(s.target), s.target)
        cur = self.eval(load, st, ctx)
        v = self.eval(s.value, st, ctx)
        if isinstance(s.op, ast.Add):
            objs = [a for a in cur if self.is_listlike(a, st) and self.obj_ltype(a, st) == "list"]
            if objs and len(objs) == len(cur):
                self.list_extend(cur, v, st)
                return st
        if isinstance(s.op, ast.BitOr) and any(a[0] == "obj" and st.heap[a[1]].kind == "dict" for a in cur):
            self.dict_update(cur, v, st)
            return st
        r = self.binop(type(s.op).__name__, cur, v, st)
        self.assign(s.target, r, st, ctx)
        return st

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                pass
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, ctx)
                if isinstance(t.slice, ast.Slice):
                    self.set_slice(o, t.slice, V(("tup", ())), st, ctx)
                    continue
                k = self.eval(t.slice, st, ctx)
                self.del_item(o, k, st)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, ctx)
                for a in o:
                    if a[0] == "obj" and st.heap[a[1]].kind == "inst":
                        old = st.heap[a[1]]
                        f = dict(old.fields)
                        f.pop(t.attr, None)
                        self.put(st, a[1], Inst(old.cls, f, old.sites))
        return st

    def s_If(self, s, st, ctx):
        base = st.taint
        t, f, taint = self.cond(s.test, st, ctx)
        line = self.cur
        if taint and t is not None and f is not None:
            t.taint = f.taint = True
        a = self.exec_block(s.body, t, ctx) if t is not None else None
        self.cur = line
        b = (self.exec_block(s.orelse, f, ctx) if s.orelse else f) if f is not None else None
        out = self.join(a, b, taint)
        if out is not None:
            out.taint = base
        return out

    def s_Return(self, s, st, ctx):
        if s.value is None:
            ctx.returns.append((VNONE, st))
            return None
        for v, z in self.eval_forks(s.value, st, ctx):
            ctx.returns.append((v, z))
        return None

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            excs = self.curexc[-1] if self.curexc else V(("exc", "builtins.RuntimeError", VNONE))
        else:
            v = self.eval(s.exc, st, ctx)
            excs = set()
            for a in v:
                excs.add(self.as_exc(a, st))
            if s.cause is not None:
                self.eval(s.cause, st, ctx)
        for a in excs:
            self.raise_exc(a, st)
        raise AbsDead()

    def s_Assert(self, s, st, ctx):
        base = st.taint
        t, f, taint = self.cond(s.test, st, ctx)
        if f is not None:
            f.taint = f.taint or taint
            self.raise_exc(("exc", "builtins.AssertionError", VNONE), f)
        if t is not None:
            t.taint = base
        return t

    def s_Global(self, s, st, ctx):
        ctx.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st, ctx):
        ctx.nonlocals.update(s.names)
        return st

    def s_Break(self, s, st, ctx):
        ctx.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st, ctx):
        ctx.loops[-1][1].append(st)
        return None

    def s_For(self, s, st, ctx):
        it = self.eval(s.iter, st, ctx)
        base = st.taint
        breaks, final = [], None
        alts = self.iter_alternatives(it, st)
        a = single(it)
        live = a is not None and a[0] == "obj" and a[1] in st.heap and st.heap[a[1]].kind == "list"
        for items, z in alts:
            out = self.run_loop(s, self.live_items(a, items, s) if live and items else items, z, ctx, breaks)
            final = self.join(final, out)
        if s.orelse and final is not None:
            final = self.exec_block(s.orelse, final, ctx)
        t = any(b.taint and not base for b in breaks)
        for b in breaks:
            final = self.join(final, b, t)
        if final is not None:
            final.taint = base
        return final

    def run_loop(self, s, items, st, ctx, breaks):
        """items None: unknown iterable."""
        base = st.taint
        if items is None:
            skip = st.copy()
            st.taint = True
            ctx.loops.append((breaks, []))
            try:
                self.assign(s.target, vtop("element of an unmodelled iterable"), st, ctx)
                out = self.exec_block(s.body, st, ctx)
            except AbsDead:
                out = None
            cont = ctx.loops.pop()[1]
            for c in cont:
                out = self.join(out, c, True)
            out = self.join(skip, out, True)
            out.taint = base
            self.taint_assigned(s.body, out, ctx)
            return out
        cur = st
        line = self.cur
        if callable(items):
            items = items(lambda: cur)
        for v, c in items:
            if cur is None:
                return None
            self.cur = line
            skip = None
            if c is not None:
                cur, skip = self.item_fork(cur, c)
                if cur is None:
                    cur = skip
                    continue
            nb = len(breaks)
            ctx.loops.append((breaks, []))
            try:
                self.assign(s.target, v, cur, ctx)
                out = self.exec_block(s.body, cur, ctx)
            except AbsDead:
                out = None
            cont = ctx.loops.pop()[1]
            t = any(z.taint and not base for z in cont) or any(z.taint and not base for z in breaks[nb:])
            for z in cont:
                out = self.join(out, z, t)
            if skip is not None:
                out = self.join(out, skip)
            cur = out
        self.cur = line
        return cur

    def live_items(self, a, items, s):
        """The items of a list as it is while the loop runs."""
        def gen(state):
            i = 0
            while True:
                st = state()
                if st is None or a[1] not in st.heap:
                    return
                its = st.heap[a[1]].items
                if i >= len(its):
                    return
                if i > MAXLOOP:
                    self.event("diverge", st, what="a for loop over a list that keeps growing")
                    return
                yield its[i][1], its[i][2]
                i += 1
        return gen

    def taint_assigned(self, body, st, ctx):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    old = self.lookup_local(n.id, st, ctx)
                    if old is not None:
                        self.set_name(n.id, old | vtop("assigned in an unmodelled loop"), st, ctx)

    def item_fork(self, st, c):
        """c: item condition -> (state where present | None, state where absent | None)."""
        if c is True:
            return st, st.copy()
        key, pol = c
        f = st.facts.get(key)
        if f is None and key[0] == "pres":
            f = self.presence_def(key[1], key[2])
        if f is not None:
            return (st, None) if f == pol else (None, st)
        skip = st.copy()
        a = self.assume(st, key, pol)
        b = self.assume(skip, key, not pol)
        return a, b

    def s_While(self, s, st, ctx):
        base = st.taint
        breaks, exits, cur, n, unknown = [], [], st, 0, 0
        while cur is not None:
            n += 1
            t, f, taint = self.cond(s.test, cur, ctx)
            if f is not None:
                if t is not None and taint:
                    f.taint = True
                exits.append(f)
            if t is None:
                break
            if f is not None:
                unknown += 1
            if unknown > 3 or n > MAXLOOP:
                if n > MAXLOOP and not unknown:
                    self.event("diverge", cur, what="a while loop that never reaches an exit")
                self.unk("loop bound")
                for e in exits:
                    e.taint = True
                break
            ctx.loops.append((breaks, []))
            out = self.exec_block(s.body, t, ctx)
            cont = ctx.loops.pop()[1]
            for z in cont:
                out = self.join(out, z)
            cur = out
        fin = None
        t = any(e.taint and not base for e in exits)
        for e in exits:
            fin = self.join(fin, e, t)
        if t and fin is not None:
            self.taint_assigned(s.body, fin, ctx)
        if s.orelse and fin is not None:
            fin = self.exec_block(s.orelse, fin, ctx)
        t = any(b.taint and not base for b in breaks)
        for b in breaks:
            fin = self.join(fin, b, t)
        if fin is not None:
            fin.taint = base
        return fin

    def s_With(self, s, st, ctx):
        return self.with_items(s.items, lambda z: self.exec_block(s.body, z, ctx), st, ctx)

    def capture(self, run, st, ctx):
        """Runs a with-body -> {kind: [(extra, state)]}: fall, return, break, continue, and exceptions apart."""
        n0 = len(ctx.returns)
        nb, nc = (len(ctx.loops[-1][0]), len(ctx.loops[-1][1])) if ctx.loops else (0, 0)
        coll = []
        self.handlers.append(coll)
        try:
            out = run(st)
        except AbsDead:
            out = None
        finally:
            self.handlers.pop()
        outs = []
        if out is not None:
            outs.append(("fall", None, out))
        outs += [("return", v, z) for v, z in ctx.returns[n0:]]
        del ctx.returns[n0:]
        if ctx.loops:
            b, c = ctx.loops[-1]
            outs += [("break", None, z) for z in b[nb:]] + [("continue", None, z) for z in c[nc:]]
            del b[nb:]
            del c[nc:]
        return outs, coll

    def deliver(self, outs, ctx):
        """Lets captured outcomes take effect -> the state that falls through, if any."""
        fall = None
        for kind, v, z in outs:
            if kind == "fall":
                fall = self.join(fall, z)
            elif kind == "return":
                ctx.returns.append((v, z))
            else:
                ctx.loops[-1][0 if kind == "break" else 1].append(z)
        return fall

    def with_items(self, items, body, st, ctx):
        if not items:
            return body(st)
        item = items[0]
        line = self.cur
        v = self.eval(item.context_expr, st, ctx)
        rest = lambda z: self.with_items(items[1:], body, z, ctx)

        def enter(z, r):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, frozenset(r), z, ctx)
            return rest(z)
        a = single(v)
        if a and a[0] == "genctx":
            return self.with_genctx(a, enter, st, ctx)
        if a and a[0] == "obj" and st.heap[a[1]].kind == "inst":
            return self.with_inst(a, enter, st, ctx)
        if a and a[0] == "suppress":
            self.event("suppress", st, what=sorted(a[1]))
            outs, coll = self.capture(lambda z: enter(z, VNONE), st, ctx)
            for e, z in coll:
                if any(self.exc_matches(e[1], h) for h in a[1]):
                    outs.append(("fall", None, z))
                else:
                    self.raise_exc(e, z)
            return self.deliver(outs, ctx)
        r, closers = set(), []
        for a in v:
            if a[0] == "file":
                if self.file_state(a[3], st) == vconst("closed"):
                    self.raise_exc(("exc", "builtins.ValueError", vconst("I/O operation on closed file")), st)
                    continue
                r.add(a)
                closers.append(a)
            elif a[0] == "nullctx":
                r |= a[1]
            elif a[0] == "closing":
                r |= a[1]
                closers += [x for x in a[1] if x[0] == "file"]
            elif a[0] == "exitstack":
                r.add(a)
            elif a[0] == "obj" and st.heap[a[1]].kind == "list" and st.heap[a[1]].ltype == "iter":
                r.add(a)
            elif a[0] in ("const", "leaf", "node", "attrib", "fn", "tup") or \
                    a[0] == "obj" and st.heap[a[1]].kind != "inst":
                self.raise_exc(("exc", "builtins.TypeError", vconst("not a context manager")), st)
            else:
                r |= self.unk("context manager %s" % (a[0],))
        if not r:
            raise AbsDead()
        if not closers:
            return enter(st, r)
        for a in closers:
            self.closed(a[3], st)
        outs, coll = self.capture(lambda z: enter(z, r), st, ctx)
        for e, z in coll:
            for a in closers:
                self.move_file(a[3], z, "closed")
            self.raise_exc(e, z)
        for kind, _, z in outs:
            for a in closers:
                self.move_file(a[3], z, "closed")
        self.cur = line
        return self.deliver(outs, ctx)

    def with_inst(self, a, enter, st, ctx):
        c = self.classes[st.heap[a[1]].cls]
        if self.class_lookup(c, "__enter__") is None or self.class_lookup(c, "__exit__") is None:
            self.raise_now("TypeError", "not a context manager", st)
        r = self.call_method(a, "__enter__", [], {}, st)
        outs, coll = self.capture(lambda z: enter(z, r), st, ctx)
        done = []
        for kind, v, z in outs:
            try:
                self.call_method(a, "__exit__", [VNONE, VNONE, VNONE], {}, z)
                done.append((kind, v, z))
            except AbsDead:
                pass
        for e, z in coll:
            try:
                res = self.call_method(a, "__exit__", [V(("ext", e[1]) if e[1] not in self.classes else ("cls", e[1])),
                                                       V(e), vtop("traceback")], {}, z)
            except AbsDead:
                continue
            ts = [self.truth(x, z) for x in res]
            if all(t is True for t in ts):
                done.append(("fall", None, z))
            elif all(t is False for t in ts):
                self.raise_exc(e, z)
            else:
                done.append(("fall", None, z.copy()))
                self.raise_exc(e, z)
        return self.deliver(done, ctx)

    def with_genctx(self, a, enter, st, ctx):
        """A @contextmanager function: the body of the with runs at its yield."""
        idx, args, kwargs = self.gencalls[a[1]]
        outcomes = []

        def run(which, z0):
            seen = []

            def hook(v, gst):
                if seen:
                    self.unk("context manager that yields twice")
                seen.append(1)
                cur, self.cur = self.cur, line
                first = which is None
                if not first:
                    self.handlers.append([])
                try:
                    outs, coll = self.capture(lambda z: enter(z, v), gst, ctx)
                finally:
                    if not first:
                        self.handlers.pop()
                    self.cur = cur
                groups = [o for o in outs]
                if len(groups) > 6:
                    keep, byk = [], {}
                    for kind, v2, z in groups:
                        byk.setdefault(kind, []).append((v2, z))
                    for kind, l in byk.items():
                        if kind == "return":
                            keep.append((kind,) + self.join_forks(l, gst.taint))
                        else:
                            keep.append((kind, None, self.join_all([z for _, z in l])))
                    groups = keep
                if first:
                    outcomes.append(len(groups))
                    for e, z in coll:
                        self.raise_exc(e, z)
                k = which or 0
                if k >= len(groups):
                    raise AbsDead()
                picked.append(groups[k][:2])
                gst.become(groups[k][2])
                return VNONE
            picked = []
            self.genhooks.append((idx, hook))
            try:
                rets = self.call_fn(idx, args, kwargs, z0, hooked=True)
            except AbsDead:
                return None
            finally:
                self.genhooks.pop()
            _, z = self.join_forks(rets, base)
            if not picked:
                self.raise_exc(("exc", "builtins.RuntimeError", vconst("generator didn't yield")), z)
                return None
            return picked[0] + (z,)
        line, base = self.cur, st.taint
        start = st.copy()
        done = []
        r = run(None, st)
        if r:
            done.append(r)
        for k in range(1, outcomes[0] if outcomes else 0):
            r = run(k, start.copy())
            if r:
                done.append(r)
        self.cur = line
        return self.deliver(done, ctx)

    def s_Try(self, s, st, ctx):
        base = st.taint
        n0 = len(ctx.returns)
        loops0 = [(len(b), len(c)) for b, c in ctx.loops]
        coll = []
        self.handlers.append(coll)
        line = self.cur
        try:
            out = self.exec_block(s.body, st, ctx)
        finally:
            self.handlers.pop()
        outer = []
        if s.finalbody:
            self.handlers.append(outer)
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out, ctx)
        buckets = [[] for _ in s.handlers]
        # handler types are evaluated once in an arbitrary exceptional state
        htypes = []
        for h in s.handlers:
            if h.type is None:
                htypes.append(["builtins.BaseException"])
            elif coll:
                tv = self.eval(h.type, coll[0][1].copy(), ctx)
                names = []
                for a in tv:
                    names += self.exc_names(a, coll[0][1])
                htypes.append(names)
            else:
                htypes.append([])
        for e, z in coll:
            for i, names in enumerate(htypes):
                if any(n == "?" or self.exc_matches(e[1], n) for n in names):
                    buckets[i].append((e, z))
                    break
            else:
                self.raise_exc(e, z)
        results = [out]
        tainted = False
        for h, b in zip(s.handlers, buckets):
            if not b:
                continue
            t = any(z.taint and not base for _, z in b)
            tainted = tainted or t
            z = self.join_all([z for _, z in b], t)
            excs = frozenset(e for e, _ in b)
            self.event("caught", z, excs=sorted({e[1] for e in excs}), line=h.lineno,
                       handler=_handler_summary(h))
            if h.name:
                self.set_name(h.name, excs, z, ctx)
            self.curexc.append(excs)
            self.cur = line
            results.append(self.exec_block(h.body, z, ctx))
            self.curexc.pop()
        self.cur = line
        out = None
        for r in results:
            out = self.join(out, r, tainted)
        if s.finalbody:
            self.handlers.pop()
            if out is not None:
                out = self.exec_block(s.finalbody, out, ctx)
            new = ctx.returns[n0:]
            del ctx.returns[n0:]
            for v, z in new:
                z = self.exec_block(s.finalbody, z, ctx)
                if z is not None:
                    ctx.returns.append((v, z))
            for (b, c), (nb, nc) in zip(ctx.loops, loops0):
                for lst, k in ((b, nb), (c, nc)):
                    tail = lst[k:]
                    del lst[k:]
                    for z in tail:
                        z = self.exec_block(s.finalbody, z, ctx)
                        if z is not None:
                            lst.append(z)
            for e, z in outer:
                z = self.exec_block(s.finalbody, z, ctx)
                if z is not None:
                    self.raise_exc(e, z)
        if out is not None:
            out.taint = base
        return out

    def s_Import(self, s, st, ctx):
        for a in s.names:
            m = self.import_module(a.name, st)
            if m is None:
                self.raise_exc(("exc", "builtins.ModuleNotFoundError", vconst(a.name)), st)
                raise AbsDead()
            if a.asname:
                self.set_name(a.asname, V(m), st, ctx)
            else:
                head = a.name.split(".")[0]
                self.set_name(head, V(("mod", head) if head in self.program.modules else ("ext", head)), st, ctx)
        return st

    def s_ImportFrom(self, s, st, ctx):
        if s.module == "__future__":
            return st
        base = self.resolve_from(ctx.fn.mod, s)
        m = self.import_module(base, st)
        if m is None:
            self.raise_exc(("exc", "builtins.ModuleNotFoundError", vconst(base)), st)
            raise AbsDead()
        for a in s.names:
            if a.name == "*":
                if m[0] == "mod":
                    for k, v in dict(st.frames["M:" + base]).items():
                        if not k.startswith("_"):
                            self.set_name(k, v, st, ctx)
                continue
            if m[0] == "mod":
                v = st.frames["M:" + base].get(a.name)
                if v is None:
                    sub = base + "." + a.name
                    if sub in self.program.modules:
                        self.load_module(sub, st)
                        v = V(("mod", sub))
                    else:
                        self.raise_exc(("exc", "builtins.ImportError", vconst(a.name)), st)
                        raise AbsDead()
            elif (m[1], a.name) == ("typing", "TYPE_CHECKING"):
                v = V(FALSE)
            else:
                v = V(("ext", m[1] + "." + a.name))
            self.set_name(a.asname or a.name, v, st, ctx)
        return st

    def s_FunctionDef(self, s, st, ctx, cls=None):
        pfid = self.fparent.get(ctx.fid) if cls is not None else ctx.fid
        fn = Fn(s, ctx.fn.mod, None if pfid is None or pfid.startswith("M:") else pfid,
                (cls.qual.split(".")[-1] + "." if cls else "") + s.name, cls)
        fn.defaults = [self.eval(d, st, ctx) for d in s.args.defaults]
        fn.kwdefaults = [self.eval(d, st, ctx) if d is not None else None for d in s.args.kw_defaults]
        self.fns.append(fn)
        v = V(("fn", len(self.fns) - 1))
        if self.initing:
            self.fn_attrs[len(self.fns) - 1] = single(self.alloc(st, Dict(())))
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, fn, st, ctx)
        self.set_name(s.name, v, st, ctx)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def apply_decorator(self, d, v, fn, st, ctx):
        dv = self.eval(d, st, ctx)
        a = single(dv)
        if a and a[0] == "ext":
            n = a[1]
            if n in ("builtins.property", "functools.cached_property"):
                return V(("property", v))
            if n in ("builtins.staticmethod",):
                return V(("static", v))
            if n in ("builtins.classmethod",):
                return V(("classm", v))
            if n in ("functools.lru_cache", "functools.cache"):
                fn.memo = True
                return v
            if n == "contextlib.contextmanager":
                fn.ctxmgr = True
                return v
            if n in ("typing.overload", "typing.no_type_check", "typing.final", "abc.abstractmethod",
                     "typing_extensions.override", "typing.override"):
                return v
            if n == "functools.singledispatch":
                self.dispatchers.append([(None, v)])
                return V(("dispatch", len(self.dispatchers) - 1))
        if a and a[0] == "memo-decorator":
            fn.memo = True
            return v
        if a and a[0] == "wraps":
            return v
        r, z = self.join_forks(self.call_value(dv, [v], {}, st), st.taint)
        st.become(z)
        return r

    def s_ClassDef(self, s, st, ctx):
        qual = ctx.fn.mod + "." + s.name
        bases = []
        for b in s.bases:
            bases += list(self.eval(b, st, ctx))
        c = Cls(qual, ctx.fn.mod, bases)
        c.node = s
        self.classes[qual] = c
        mro = [c]
        for b in bases:
            if b[0] == "cls":
                for m in self.classes[b[1]].mro:
                    if m not in mro:
                        mro.append(m)
                k = self.classes[b[1]].kind
                if k != "plain" and c.kind == "plain":
                    c.kind = k
            elif b[0] == "ext":
                n = b[1]
                if n.endswith(".NamedTuple"):
                    c.kind = "namedtuple"
                elif n.endswith(".TypedDict"):
                    c.kind = "typeddict"
                elif n.startswith("enum."):
                    c.kind = "enum"
                elif n.startswith("builtins.") and isinstance(getattr(_b, n[9:], None), type) and \
                        issubclass(getattr(_b, n[9:]), BaseException):
                    c.kind = "exc"
                elif n.split(".")[-1] in ("Protocol", "Generic", "ABC", "object"):
                    pass
                elif "Error" in n or "Exception" in n:
                    c.kind = "exc"
        c.mro = mro
        auto, explicit = False, False
        for d in s.decorator_list:
            name, kws = self.decorator_info(d, st, ctx)
            if name in ("attr.s", "attr.attrs", "attr.attributes", "attr.define", "attrs.define", "attr.frozen",
                        "attrs.frozen", "attrs.mutable", "attr.mutable", "attr.dataclass", "dataclasses.dataclass"):
                explicit = True
                c.kind = "attrs"
                auto = name not in ("attr.s", "attr.attrs", "attr.attributes") or kws.get("auto_attribs") is True
                c.kw_only = kws.get("kw_only") is True
            elif name and name.split(".")[-1] in ("total_ordering", "final", "unique", "runtime_checkable"):
                pass
            else:
                self.unk("class decorator %s" % name)
        # body
        fid = "C:%s:%d" % (qual, self.fresh())
        st.frames[fid] = {}
        cctx = Ctx(ctx.fn, fid)
        self.fparent[fid] = ctx.fid
        for b in s.body:
            self.cur = (self.cur[0], b.lineno, self.cur[2])
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                sub = Ctx(ctx.fn, fid)
                sub.fid = fid
                self.s_FunctionDef(b, st, _ClassCtx(ctx, fid), cls=c)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                classvar = "ClassVar" in ast.unparse(b.annotation)
                dv = self.eval(b.value, st, cctx) if b.value is not None else None
                if dv is not None and not (auto and any(a[0] == "attrib_" for a in dv)):
                    st.frames[fid] = dict(st.frames[fid], **{b.target.id: dv})
                if not classvar:
                    if (c.kind == "attrs" and auto) or c.kind in ("namedtuple", "typeddict"):
                        c.fields.append(self.field_of(b.target.id, b.annotation, dv, c, st))
            elif isinstance(b, ast.Assign) and c.kind == "attrs" and len(b.targets) == 1 and \
                    isinstance(b.targets[0], ast.Name):
                dv = self.eval(b.value, st, cctx)
                if any(a[0] == "attrib_" for a in dv):
                    c.fields.append(self.field_of(b.targets[0].id, None, dv, c, st))
                else:
                    st.frames[fid] = dict(st.frames[fid], **{b.targets[0].id: dv})
            else:
                out = self.exec_block([b], st, cctx)
                if out is not None and out is not st:
                    st.become(out)
        c.env = dict(st.frames[fid])
        if c.kind == "enum":
            for k, v in list(c.env.items()):
                if not k.startswith("_") and not any(a[0] in ("fn", "property", "static", "classm") for a in v):
                    c.env[k] = self.alloc(st, Inst(qual, {"value": v, "name": vconst(k)}, {}))
        self.set_name(s.name, V(("cls", qual)), st, ctx)
        return st

    def decorator_info(self, d, st, ctx):
        kws = {}
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if isinstance(k.value, ast.Constant):
                    kws[k.arg] = k.value.value
            d = d.func
        v = single(self.eval(d, st, ctx))
        return (v[1] if v and v[0] == "ext" else None), kws

    def field_of(self, name, ann, dv, c, st):
        default, factory, kw, init, conv = dv, None, c.kw_only, True, None
        if dv is not None:
            a = single(dv)
            if a and a[0] == "attrib_":
                d = dict(a[1])
                default, factory, conv = d.get("default"), d.get("factory"), d.get("converter")
                kw = kw or d.get("kw_only", False)
                init = d.get("init", True)
                if default is not None:
                    fa = single(default)
                    if fa and fa[0] == "factory":
                        default, factory = None, fa[1]
            elif a and a[0] == "factory":
                default, factory = None, a[1]
        return (name, ann, default, factory, kw, init, conv)

    def all_fields(self, c):
        out = {}
        for k in reversed(c.mro):
            for f in k.fields:
                out.pop(f[0], None)
                out[f[0]] = f
        return list(out.values())

    def s_Match(self, s, st, ctx):
        subj = self.eval(s.subject, st, ctx)
        base = st.taint
        cur, outs, tainted = st, [], False
        tmp = "$match%d" % id(s)
        self.set_name(tmp, subj, cur, ctx)
        for case in s.cases:
            if cur is None:
                break
            test, binds = self.pattern_test(case.pattern, tmp)
            if test is None:
                self.unk("match pattern")
                return self.s_unknown(s, cur, ctx)
            t, f, ta = self.cond(test, cur, ctx)
            if t is not None:
                for name, expr in binds:
                    self.set_name(name, self.eval(expr, t, ctx), t, ctx)
                if case.guard is not None:
                    t, f2, tb = self.cond(case.guard, t, ctx)
                    ta = ta or tb
                    f = self.join(f, f2)
            if ta:
                tainted = True
                for z in (t, f):
                    if z is not None:
                        z.taint = True
            if t is not None:
                outs.append(self.exec_block(case.body, t, ctx))
            cur = f
        if cur is not None:
            outs.append(cur)
        out = None
        for o in outs:
            out = self.join(out, o, tainted)
        if out is not None:
            out.taint = base
        return out

    def pattern_test(self, p, tmp):
        return self.pattern_expr(p, ast.Name(tmp, ast.Load()))

    def pattern_expr(self, p, e):
        """The test a pattern makes on the expression e, and the names it binds: [(name, expression)]."""
        mk = lambda x: ast.fix_missing_locations(ast.copy_location(x, p))
        name = lambda n: ast.Name(n, ast.Load())
        call = lambda f, *a: ast.Call(name(f), list(a), [])

        def every(tests):
            return mk(tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests))
        if isinstance(p, ast.MatchValue):
            return mk(ast.Compare(e, [ast.Eq()], [p.value])), []
        if isinstance(p, ast.MatchSingleton):
            return mk(ast.Compare(e, [ast.Is()], [ast.Constant(p.value)])), []
        if isinstance(p, ast.MatchOr):
            ts = []
            for q in p.patterns:
                t, b = self.pattern_expr(q, e)
                if t is None or b:
                    return None, []
                ts.append(t)
            return mk(ast.BoolOp(ast.Or(), ts)), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return mk(ast.Constant(True)), ([(p.name, mk(e))] if p.name else [])
            t, b = self.pattern_expr(p.pattern, e)
            return t, b + ([(p.name, mk(e))] if p.name else [])
        parts, binds = [], []
        if isinstance(p, ast.MatchMapping):
            tests = [call("isinstance", e, name("dict"))]
            for k in p.keys:
                tests.append(ast.Compare(k, [ast.In()], [e]))
            parts = [(q, ast.Subscript(e, k, ast.Load())) for k, q in zip(p.keys, p.patterns)]
            if p.rest:
                v = "$k"
                gen = ast.comprehension(ast.Tuple([ast.Name(v, ast.Store()), ast.Name("$v", ast.Store())], ast.Store()),
                                        ast.Call(ast.Attribute(e, "items", ast.Load()), [], []),
                                        [ast.Compare(name(v), [ast.NotIn()], [ast.Tuple(list(p.keys), ast.Load())])]
                                        if p.keys else [], 0)
                binds.append((p.rest, mk(ast.DictComp(name(v), name("$v"), [gen]))))
        elif isinstance(p, ast.MatchSequence):
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            tests = [call("isinstance", e, ast.Tuple([name("list"), name("tuple")], ast.Load())),
                     ast.Compare(call("len", e), [ast.GtE() if star else ast.Eq()],
                                 [ast.Constant(n - 1 if star else n)])]
            for i, q in enumerate(p.patterns):
                if star and i == star[0]:
                    if q.name:
                        hi = i - n + 1
                        binds.append((q.name, mk(call("list", ast.Subscript(
                            e, ast.Slice(ast.Constant(i), ast.Constant(hi) if hi else None), ast.Load())))))
                    continue
                parts.append((q, ast.Subscript(e, ast.Constant(i - n if star and i > star[0] else i), ast.Load())))
        elif isinstance(p, ast.MatchClass):
            tests = [call("isinstance", e, p.cls)]
            if p.patterns:
                if len(p.patterns) > 1 or not isinstance(p.cls, ast.Name) or p.cls.id not in (
                        "str", "int", "float", "bool", "bytes", "dict", "list", "tuple", "set"):
                    return None, []
                parts.append((p.patterns[0], e))
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                tests.append(call("hasattr", e, ast.Constant(a)))
                parts.append((q, ast.Attribute(e, a, ast.Load())))
        else:
            return None, []
        for q, x in parts:
            t, b = self.pattern_expr(q, x)
            if t is None:
                return None, []
            if not (isinstance(t, ast.Constant) and t.value is True):
                tests.append(t)
            binds += b
        return every(tests), binds

    # ---------------------------------------------------------------- names and targets
    def set_name(self, name, v, st, ctx):
        fid = ctx.fid
        if name in ctx.globals:
            fid = "M:" + ctx.fn.mod
        elif name in ctx.nonlocals:
            f = self.fparent.get(fid)
            while f and name not in st.frames.get(f, {}):
                f = self.fparent.get(f)
            fid = f or fid
        if not self.initing and fid in self.static_frames:
            self.event("global-write", st, what=name)
        d = dict(st.frames[fid])
        d[name] = v
        st.frames[fid] = d

    def lookup_local(self, name, st, ctx):
        f = ctx.fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                return fr[name]
            f = self.fparent.get(f)
        return None

    def e_Name(self, e, st, ctx):
        v = self.lookup_local(e.id, st, ctx)
        if v is not None:
            return v
        m = st.frames.get("M:" + ctx.fn.mod)
        if m is not None and e.id in m:
            return m[e.id]
        if hasattr(_b, e.id):
            return V(("ext", "builtins." + e.id))
        if e.id in ("reveal_type", "__file__"):
            return vtop(e.id)
        self.raise_exc(("exc", "builtins.NameError", vconst(e.id)), st)
        raise AbsDead()

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, ctx)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, ctx)
            self.set_attr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, ctx)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(o, t.slice, v, st, ctx)
            else:
                k = self.eval(t.slice, st, ctx)
                self.set_item(o, k, v, st)
        else:
            self.unk("assignment target")

    def unpack(self, elts, v, st, ctx):
        n = len(elts)
        star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        cols = [frozenset() for _ in elts]
        for a in v:
            seq = self.definite_seq(a, st)
            if seq is None:
                for i in range(n):
                    cols[i] = cols[i] | self.unk("unpacking")
                continue
            if star:
                i = star[0]
                after = n - i - 1
                if len(seq) < n - 1:
                    self.raise_exc(("exc", "builtins.ValueError", vconst("unpack")), st)
                    raise AbsDead()
                mid = seq[i:len(seq) - after]
                row = seq[:i] + [self.new_list(st, mid)] + seq[len(seq) - after:]
            else:
                if len(seq) != n:
                    self.raise_exc(("exc", "builtins.ValueError", vconst("unpack")), st)
                    if len(v) == 1:
                        raise AbsDead()
                    continue
                row = seq
            for i, x in enumerate(row):
                cols[i] = cols[i] | x
        for x, c in zip(elts, cols):
            self.assign(x, norm(c), st, ctx)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, st, ctx)
        base = st.taint
        forks = self.eval_forks(e, st, ctx)
        if not forks:
            raise AbsDead()
        v, z = self.join_forks(forks, base)
        if z is not st:
            st.become(z)
        return v

    def eval_forks(self, e, st, ctx):
        m = getattr(self, "f_" + type(e).__name__, None)
        if m is not None:
            return m(e, st, ctx)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(self.unk("expression " + type(e).__name__), st)]
        return [(m(e, st, ctx), st)]

    def e_Constant(self, e, st, ctx):
        return V(const(e.value))

    def f_IfExp(self, e, st, ctx):
        t, f, taint = self.cond(e.test, st, ctx)
        out = []
        for z, b in ((t, e.body), (f, e.orelse)):
            if z is None:
                continue
            if taint and t is not None and f is not None:
                z.taint = True
            try:
                out += self.eval_forks(b, z, ctx)
            except AbsDead:
                pass
        if not out:
            raise AbsDead()
        return out

    def f_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        out, cur = [], [st]
        for i, x in enumerate(e.values):
            nxt = []
            for z in cur:
                try:
                    forks = self.eval_forks(x, z, ctx)
                except AbsDead:
                    continue
                for v, y in forks:
                    if i == len(e.values) - 1:
                        out.append((v, y))
                        continue
                    (tv, t), (fv, f), taint = self.split_truth(v, y, x, ctx)
                    if taint:
                        for q in (t, f):
                            if q is not None:
                                q.taint = True
                    stop, go = ((fv, f), t) if isand else ((tv, t), f)
                    if stop[1] is not None:
                        out.append(stop)
                    if go is not None:
                        nxt.append(go)
            cur = nxt
        if not out:
            raise AbsDead()
        return out

    def f_NamedExpr(self, e, st, ctx):
        out = []
        for v, z in self.eval_forks(e.value, st, ctx):
            self.set_name(e.target.id, v, z, ctx)
            out.append((v, z))
        return out

    def _bool_value(self, e, st, ctx):
        t, f, taint = self.cond(e, st, ctx)
        if t is None and f is None:
            raise AbsDead()
        if f is None:
            st.become(t) if t is not st else None
            return V(TRUE)
        if t is None:
            st.become(f) if f is not st else None
            return V(FALSE)
        diff = [(k, v) for k, v in t.facts.items() if k in f.facts and f.facts[k] != v]
        z = self.join(t, f)
        base = z.taint
        st.become(z)
        st.taint = base
        if taint:
            return V(TRUE, FALSE, top("undecided condition at " + self.site()))
        if diff:
            return V(self.mk_cond(*diff[0]))
        return V(TRUE, FALSE)

    def e_Compare(self, e, st, ctx):
        return self._bool_value(e, st, ctx)

    def e_UnaryOp(self, e, st, ctx):
        if isinstance(e.op, ast.Not):
            return self._bool_value(e, st, ctx)
        v = self.eval(e.operand, st, ctx)
        return self.unop(type(e.op).__name__, v, st)

    def e_BinOp(self, e, st, ctx):
        a = self.eval(e.left, st, ctx)
        b = self.eval(e.right, st, ctx)
        return self.binop(type(e.op).__name__, a, b, st)

    def e_Attribute(self, e, st, ctx):
        o = self.eval(e.value, st, ctx)
        return self.get_attr(o, e.attr, st)

    def e_Subscript(self, e, st, ctx):
        o = self.eval(e.value, st, ctx)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st, ctx) if e.slice.lower else VNONE
            hi = self.eval(e.slice.upper, st, ctx) if e.slice.upper else VNONE
            stp = self.eval(e.slice.step, st, ctx) if e.slice.step else VNONE
            return self.get_slice(o, lo, hi, stp, st)
        k = self.eval(e.slice, st, ctx)
        return self.get_item(o, k, st)

    def e_Slice(self, e, st, ctx):
        return vtop("slice object")

    def seq_elts(self, elts, st, ctx):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, ctx)
                items = self.iter_items(v, st)
                if items is None:
                    out.append((self.unk("starred"), True))
                else:
                    out += items
            else:
                out.append((self.eval(x, st, ctx), None))
        return out

    def e_List(self, e, st, ctx):
        it = self.seq_elts(e.elts, st, ctx)
        return self.alloc(st, List([(self.fresh(), v, c) for v, c in it]))

    def e_Set(self, e, st, ctx):
        it = self.seq_elts(e.elts, st, ctx)
        return self.alloc(st, List([(self.fresh(), v, c) for v, c in it], "set"))

    def e_Tuple(self, e, st, ctx):
        it = self.seq_elts(e.elts, st, ctx)
        if any(c is not None for _, c in it):
            return self.alloc(st, List([(self.fresh(), v, c) for v, c in it], "tuple"))
        return V(("tup", tuple(v for v, _ in it)))

    def e_Dict(self, e, st, ctx):
        d = self.alloc(st, Dict(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, st, ctx), st)
            else:
                kv = self.eval(k, st, ctx)
                vv = self.eval(v, st, ctx)
                self.set_item(d, kv, vv, st)
        return d

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(V(const(x.value)))
            else:
                v = self.eval(x.value, st, ctx)
                if x.conversion not in (-1, 115) or x.format_spec is not None:
                    if all(is_const(a) for a in v) and x.format_spec is not None:
                        spec = self.eval(x.format_spec, st, ctx)
                        s = single(spec)
                        v = frozenset(const(format(a[2], s[2])) for a in v) if s else vtop("format")
                    else:
                        v = frozenset(("term", "format", a) for a in v)
                parts.append(self.call_ext("builtins.str", [v], {}, st))
        out = vconst("")
        for p in parts:
            out = self.binop("Add", out, p, st)
        return out

    def e_FormattedValue(self, e, st, ctx):
        return self.eval(e.value, st, ctx)

    def e_Lambda(self, e, st, ctx):
        fn = Fn(e, ctx.fn.mod, None if ctx.fid.startswith("M:") else ctx.fid, "<lambda>")
        fn.defaults = [self.eval(d, st, ctx) for d in e.args.defaults]
        fn.kwdefaults = [self.eval(d, st, ctx) if d is not None else None for d in e.args.kw_defaults]
        self.fns.append(fn)
        return V(("fn", len(self.fns) - 1))

    def e_Starred(self, e, st, ctx):
        return self.eval(e.value, st, ctx)

    def e_Await(self, e, st, ctx):
        return self.eval(e.value, st, ctx)

    def e_Yield(self, e, st, ctx):
        v = self.eval(e.value, st, ctx) if e.value is not None else VNONE
        if ctx.hook is not None:
            return ctx.hook(v, st)
        oid = ctx.yields
        o = st.heap[oid]
        st.heap[oid] = List(o.items + ((self.fresh(), v, None),), o.ltype, o.unordered, o.site)
        return VNONE

    def e_YieldFrom(self, e, st, ctx):
        v = self.eval(e.value, st, ctx)
        self.list_extend(V(("obj", ctx.yields)), v, st)
        return VNONE

    # comprehensions
    def _comp(self, e, st, ctx, emit):
        """Runs generators; emit(state, cond) is called per element in the (joined) state."""
        fid = "L:%d" % self.fresh()
        self.fparent[fid] = ctx.fid
        st.frames[fid] = {}
        sub = Ctx(ctx.fn, fid)
        sub.globals, sub.nonlocals = ctx.globals, ctx.nonlocals
        sub.fid = fid

        def rec(i, z, maybe, taint):
            if i == len(e.generators):
                emit(z, sub, maybe, taint)
                return z
            g = e.generators[i]
            it = self.eval(g.iter, z, sub if i else ctx)
            alts = self.iter_alternatives(it, z)
            res = None
            for items, y in alts:
                m0 = maybe if len(alts) == 1 else (maybe or True)
                if items is None:
                    self.unk("comprehension over unmodelled iterable")
                    skip = y.copy()
                    self.assign(g.target, vtop("element of an unmodelled iterable"), y, sub)
                    r = rec_ifs(g, 0, i, y, True, True)
                    r = self.join(r, skip, True)
                else:
                    r = y
                    for v, c in items:
                        if r is None:
                            break
                        skip = None
                        m = m0
                        if c is not None:
                            r, skip = self.item_fork(r, c)
                            if r is None:
                                r = skip
                                continue
                            if skip is not None:
                                m = c if not m0 and c is not True else True
                        try:
                            self.assign(g.target, v, r, sub)
                            r = rec_ifs(g, 0, i, r, m, taint)
                        except AbsDead:
                            r = None
                        r = self.join(r, skip)
                res = self.join(res, r)
            return res

        def rec_ifs(g, j, i, z, maybe, taint):
            if j == len(g.ifs):
                return rec(i + 1, z, maybe, taint)
            t, f, ta = self.cond(g.ifs[j], z, sub)
            m = maybe
            if t is not None and f is not None:
                k = None
                for kk, vv in t.facts.items():
                    if kk in f.facts and f.facts[kk] != vv:
                        k = (kk, vv)
                        break
                m = k if (k is not None and not maybe) else True
            r = rec_ifs(g, j + 1, i, t, m, taint or ta) if t is not None else None
            return self.join(r, f, False)

        out = rec(0, st, None, False)
        if out is None:
            raise AbsDead()
        if out is not st:
            st.become(out)

    def _comp_list(self, e, st, ctx, ltype):
        r = self.alloc(st, List((), ltype))
        oid = single(r)[1]

        def emit(z, sub, maybe, taint):
            v = self.eval(e.elt, z, sub)
            if taint:
                v = v | vtop("filtered by an undecided condition")
            o = z.heap[oid]
            z.heap[oid] = List(o.items + ((self.fresh(), v, maybe or None),), o.ltype, o.unordered, o.site)

        self._comp(e, st, ctx, emit)
        return r

    def e_ListComp(self, e, st, ctx):
        return self._comp_list(e, st, ctx, "list")

    def e_SetComp(self, e, st, ctx):
        return self._comp_list(e, st, ctx, "set")

    def e_GeneratorExp(self, e, st, ctx):
        return self._comp_list(e, st, ctx, "iter")

    def e_DictComp(self, e, st, ctx):
        r = self.alloc(st, Dict(()))
        oid = single(r)[1]

        def emit(z, sub, maybe, taint):
            k = self.eval(e.key, z, sub)
            v = self.eval(e.value, z, sub)
            if taint:
                v = v | vtop("filtered by an undecided condition")
            self.dict_set(oid, k, v, z, maybe or None)

        self._comp(e, st, ctx, emit)
        return r

    # ---------------------------------------------------------------- calls
    def call_args(self, e, st, ctx):
        args, kwargs, bad = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, ctx)
                items = self.iter_items(v, st)
                if items is None or any(c is not None for _, c in items):
                    bad = "star argument"
                else:
                    args += [x for x, _ in items]
            else:
                args.append(self.eval(a, st, ctx))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st, ctx)
                ents = self.mapping_entries(v, st)
                if ents is None:
                    bad = "double-star argument"
                    continue
                for key, val, c in ents:
                    if key[0] != "const":
                        bad = "non-constant keyword"
                        continue
                    self._kw(kwargs, key[2], val, c)
            else:
                kwargs[k.arg] = (self.eval(k.value, st, ctx), None)
        return args, kwargs, bad

    @staticmethod
    def _kw(kwargs, name, val, c):
        if name in kwargs and c is not None:
            old, oc = kwargs[name]
            kwargs[name] = (old | val, oc)
        else:
            kwargs[name] = (val, c)

    def f_Call(self, e, st, ctx):
        save = self.cur
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return [(self.make_super(st, ctx), st)]
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            return [(self.unk(e.func.id + "()"), st)]
        callee = self.eval(e.func, st, ctx)
        args, kwargs, bad = self.call_args(e, st, ctx)
        self.cur = (save[0], getattr(e, "lineno", save[1]), save[2])
        if bad:
            r = [(self.unk(bad), st)]
        else:
            r = self.call_value(callee, args, kwargs, st)
        self.cur = save
        return r

    def make_super(self, st, ctx):
        fr = st.frames[ctx.fid]
        fn = ctx.fn
        if fn.cls is None or not fn.node.args.args:
            return self.unk("super()")
        self_v = fr.get(fn.node.args.args[0].arg, vtop("self"))
        return V(("super", fn.cls.qual, self_v))

    def call_value(self, callee, args, kwargs, st):
        """-> list of (Value, State); raises AbsDead if every callee dies."""
        atoms = sorted(callee, key=repr)
        if len(atoms) == 1:
            return self.apply(atoms[0], args, kwargs, st)
        out = []
        for a in atoms:
            try:
                out += self.apply(a, args, kwargs, st.copy())
            except AbsDead:
                pass
        if not out:
            raise AbsDead()
        return out

    def call1(self, callee, args, kwargs, st):
        base = st.taint
        v, z = self.join_forks(self.call_value(callee, args, kwargs, st), base)
        if z is not st:
            st.become(z)
        return v

    def apply(self, a, args, kwargs, st):
        t = a[0]
        if t == "fn":
            return self.call_fn(a[1], args, kwargs, st)
        if t == "cls":
            return [(self.construct(a[1], args, kwargs, st), st)]
        if t == "ext":
            r = self.call_ext(a[1], args, kwargs, st)
            return r if isinstance(r, list) else [(r, st)]
        if t == "bound":
            r = self.call_bound(a[1], a[2], args, kwargs, st)
            return r if isinstance(r, list) else [(r, st)]
        if t == "method":       # user function bound to self
            return self.call_value(a[2], [a[1]] + args, kwargs, st)
        if t == "static":
            return self.call_value(a[1], args, kwargs, st)
        if t == "partial":
            kw = dict(a[3])
            kw = {k: (v, None) for k, v in kw.items()}
            kw.update(kwargs)
            return self.call_value(a[1], list(a[2]) + args, kw, st)
        if t == "dispatch":
            return self.call_dispatch(a, args, kwargs, st)
        if t == "dispatch-register":
            table = self.dispatchers[a[1]]
            if len(a) > 2:              # register(cls)(function)
                table.append((V(a[2]), args[0]))
                return [(args[0], st)]
            c = single(args[0]) if args else None
            if c and c[0] in ("cls", "ext") and len(args) == 1:
                return [(V(("dispatch-register", a[1], c)), st)]
            if len(args) == 2:
                table.append((args[0], args[1]))
                return [(args[1], st)]
            if c and c[0] == "fn":
                n = self.fns[c[1]].node
                ann = n.args.args[0].annotation if not isinstance(n, ast.Lambda) and n.args.args else None
                if ann is not None:
                    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                        ann = ast.parse(ann.value, mode="eval").body
                    if isinstance(ann, ast.Subscript):
                        return [(self.unk("register of a generic type"), st)]
                    ctx = Ctx(self.fns[c[1]], "M:" + self.fns[c[1]].mod)
                    table.append((self.eval(ann, st, ctx), args[0]))
                    return [(args[0], st)]
            return [(self.unk("register"), st)]
        if t == "getter":
            return [(self.call_getter(a, args, st), st)]
        if t == "memo-decorator" or t == "wraps":
            return [(args[0], st)] if args else [(self.unk("decorator"), st)]
        if t == "obj" and st.heap[a[1]].kind == "inst":
            return [(self.call_method(a, "__call__", args, kwargs, st), st)]
        if t == "top":
            return [(V(a), st)]
        if t == "const" and a[2] is None:
            self.raise_exc(("exc", "builtins.TypeError", vconst("None is not callable")), st)
            raise AbsDead()
        return [(self.unk("call of %s" % (a[0],)), st)]

    def call_dispatch(self, a, args, kwargs, st):
        if not args:
            return [(self.unk("dispatch"), st)]
        out = []
        for x in sorted(args[0], key=repr):
            z = st.copy() if len(args[0]) > 1 else st
            found, sure = [], True
            for t, f in self.dispatchers[a[1]]:
                if t is None:
                    continue
                r = self.call_ext("builtins.isinstance", [V(x), t], {}, z)
                if r == V(TRUE):
                    found.append((t, f))
                elif r != V(FALSE):
                    sure = False
            if len(found) > 1:          # the most specific class; the later one of equals
                best = [(t, f) for t, f in found
                        if all(self.call_ext("builtins.issubclass", [t, o], {}, z) == V(TRUE) for o, _ in found)]
                found = best[-1:]
                sure = sure and bool(best)
            if not sure:
                out.append((self.unk("dispatch on %s" % (x[0],)), z))
                continue
            f = found[0][1] if found else self.dispatchers[a[1]][0][1]
            try:
                out += self.call_value(f, [V(x)] + list(args[1:]), kwargs, z)
            except AbsDead:
                pass
        if not out:
            raise AbsDead()
        return out

    def bind(self, fn, args, kwargs, st):
        A = fn.node.args
        pos = [x.arg for x in A.posonlyargs + A.args]
        frame = {}
        extra = list(args[len(pos):])
        for n, v in zip(pos, args):
            frame[n] = v
        kwargs = dict(kwargs)
        nd = len(fn.defaults)

        def miss(n):
            self.raise_exc(("exc", "builtins.TypeError", vconst("missing argument %s of %s" % (n, fn.qual))), st)
            raise AbsDead()

        for i, n in enumerate(pos):
            di = i - (len(pos) - nd)
            d = fn.defaults[di] if di >= 0 else None
            if n in frame:
                if n in kwargs:
                    if kwargs[n][1] is None:
                        self.raise_exc(("exc", "builtins.TypeError", vconst("duplicate argument %s" % n)), st)
                        raise AbsDead()
                continue
            if n in kwargs:
                v, c = kwargs.pop(n)
                if c is not None:
                    if d is None:
                        miss(n)
                    v = v | d
                frame[n] = v
            elif d is not None:
                frame[n] = d
            else:
                miss(n)
        for x, d in zip(A.kwonlyargs, fn.kwdefaults):
            if x.arg in kwargs:
                v, c = kwargs.pop(x.arg)
                frame[x.arg] = v if c is None else (v | d if d is not None else v)
            elif d is not None:
                frame[x.arg] = d
            else:
                miss(x.arg)
        if extra:
            if not A.vararg:
                self.raise_exc(("exc", "builtins.TypeError", vconst("too many arguments for %s" % fn.qual)), st)
                raise AbsDead()
        if A.vararg:
            frame[A.vararg.arg] = V(("tup", tuple(extra)))
        left = {k: v for k, v in kwargs.items() if k not in frame}
        if left:
            if not A.kwarg:
                self.raise_exc(("exc", "builtins.TypeError",
                                vconst("unexpected argument %s of %s" % (sorted(left), fn.qual))), st)
                raise AbsDead()
        if A.kwarg:
            d = self.alloc(st, Dict([(self.fresh(), const(k), v, c) for k, (v, c) in left.items()]))
            frame[A.kwarg.arg] = d
        return frame

    def call_fn(self, idx, args, kwargs, st, hooked=False):
        fn = self.fns[idx]
        if fn.ctxmgr and not hooked:
            key = self.fresh()
            self.gencalls[key] = (idx, args, kwargs)
            return [(V(("genctx", key)), st)]
        if self.depth > MAXDEPTH:
            self.event("diverge", st, what="a recursion that never reaches its end")
            return [(self.unk("recursion depth"), st)]
        frame = self.bind(fn, args, kwargs, st)
        fid = "F:%d" % self.fresh()
        self.fparent[fid] = fn.parent
        if fn.memo:
            key = (idx, repr(sorted((k, sorted(map(repr, v))) for k, v in frame.items())))
            if key in self.memo_results and not self.initing:
                v, objs = self.memo_results[key]
                self.event("memo-hit", st, fn=fn.qual)
                for o, ob in objs.items():
                    st.heap.setdefault(o, ob)
                return [(v, st)]
        st.frames[fid] = frame
        ctx = Ctx(fn, fid)
        if hooked:
            ctx.hook = self.genhooks[-1][1]
        save = self.cur
        rel = self.program.modules[fn.mod][1]
        self.calledges.add((save[0] + ":" + save[2], rel + ":" + fn.qual))
        self.cur = (rel, getattr(fn.node, "lineno", 0), fn.qual)
        self.analysed.add((rel, fn.qual))
        self.stack.append("%s:%s" % (rel, fn.qual))
        self.depth += 1
        base = st.taint
        nev = len(self.events)
        try:
            if isinstance(fn.node, ast.Lambda):
                rets = self.eval_forks(fn.node.body, st, ctx)
            else:
                if fn.gen and not hooked:
                    y = self.alloc(st, List((), "iter"))
                    ctx.yields = single(y)[1]
                out = self.exec_block(fn.node.body, st, ctx)
                rets = ctx.returns
                if out is not None:
                    rets = rets + [(VNONE, out)]
                if fn.gen and not hooked:
                    z = None
                    t = any(s.taint and not base for _, s in rets)
                    for _, s in rets:
                        z = self.join(z, s, t)
                    if z is None:
                        raise AbsDead()
                    z.taint = base
                    rets = [(y, z)]
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur = save
        if not rets:
            raise AbsDead()
        if len(rets) > 6:
            rets = [self.join_forks(rets, base)]
        if not fn.has_inner:
            for _, s in rets:
                s.frames.pop(fid, None)
        if fn.memo and not self.initing:
            v, z = self.join_forks(rets, base)
            opened = any(ev["kind"] == "open" for ev in self.events[nev:])
            objs = self.reachable(v, z)
            if opened or objs:
                self.event("memo-impure", z, fn=fn.qual, opens=opened, mutable=bool(objs))
            self.memo_results[key] = (v, {o: z.heap[o] for o in objs})
            rets = [(v, z)]
        return rets

    def reachable(self, v, st, seen=None):
        seen = set() if seen is None else seen
        for a in v:
            if a[0] == "obj" and a[1] not in seen:
                seen.add(a[1])
                o = st.heap[a[1]]
                if o.kind == "inst":
                    for x in o.fields.values():
                        self.reachable(x, st, seen)
                elif o.kind == "list":
                    for _, x, _ in o.items:
                        self.reachable(x, st, seen)
                else:
                    for _, k, x, _ in o.entries:
                        self.reachable(x, st, seen)
            elif a[0] == "node":
                seen.add(("node",) + a[1:]) if False else None
            elif a[0] in ("nt", "tup"):
                for x in a[-1]:
                    self.reachable(x, st, seen)
        return seen

    # ---------------------------------------------------------------- classes
    def construct(self, qual, args, kwargs, st):
        c = self.classes[qual]
        if c.kind == "exc":
            return V(("exc", qual, args[0] if args else VNONE))
        if c.kind == "typeddict":
            d = self.alloc(st, Dict(()))
            for a in args:
                self.dict_update(d, a, st)
            for k, (v, cc) in kwargs.items():
                self.dict_set(single(d)[1], vconst(k), v, st, cc)
            return d
        if c.kind == "enum":
            for k, v in c.env.items():
                for a in v:
                    if a[0] == "obj" and st.heap[a[1]].kind == "inst" and args and \
                            st.heap[a[1]].fields.get("value") == args[0]:
                        return V(a)
            return self.unk("enum construction")
        if c.kind == "namedtuple":
            vals = self.bind_fields(c, args, kwargs, st)
            return V(("nt", qual, tuple(vals[f[0]] for f in self.all_fields(c))))
        if c.kind == "attrs":
            init = self.class_lookup(c, "__init__")
            if init is None:
                vals = self.bind_fields(c, args, kwargs, st)
                site = self.site()
                r = self.alloc(st, Inst(qual, vals, {k: site for k in vals}))
                for hook in ("__attrs_post_init__", "__post_init__"):
                    if self.class_lookup(c, hook) is not None:
                        self.call_method(single(r), hook, [], {}, st)
                return r
        r = self.alloc(st, Inst(qual, {}, {}))
        if self.class_lookup(c, "__init__") is not None:
            self.call_method(single(r), "__init__", args, kwargs, st)
        elif any(b[0] == "ext" and b[1] not in ("builtins.object",) and
                 b[1].split(".")[-1] not in ("ABC", "Protocol", "Generic")
                 for k in c.mro for b in k.bases):
            return self.unk("construction of %s" % qual)
        return r

    def bind_fields(self, c, args, kwargs, st):
        fields = self.all_fields(c)
        vals, kwargs = {}, dict(kwargs)
        pos = [f for f in fields if not f[4] and f[5]]
        if len(args) > len(pos):
            self.raise_exc(("exc", "builtins.TypeError", vconst("too many arguments for %s" % c.qual)), st)
            raise AbsDead()
        for f, v in zip(pos, args):
            vals[f[0]] = v
        for f in fields:
            name = f[0]
            pub = name.lstrip("_") if c.kind == "attrs" else name
            if name in vals:
                if pub in kwargs:
                    self.raise_exc(("exc", "builtins.TypeError", vconst("duplicate argument %s" % pub)), st)
                    raise AbsDead()
            else:
                given = kwargs.pop(pub, None) if f[5] else None
                d = f[2]
                if d is None and f[3] is not None and (given is None or given[1] is not None):
                    d = self.call1(f[3], [], {}, st)
                if given is not None:
                    v, cc = given
                    if cc is not None:
                        if d is None:
                            self.raise_exc(("exc", "builtins.TypeError",
                                            vconst("argument %s of %s may be missing" % (pub, c.qual))), st.copy())
                        else:
                            v = v | d
                    vals[name] = v
                elif d is not None:
                    vals[name] = d
                elif not f[5]:
                    continue
                else:
                    self.raise_exc(("exc", "builtins.TypeError",
                                    vconst("missing argument %s of %s" % (pub, c.qual))), st)
                    raise AbsDead()
            if len(f) > 6 and f[6] is not None:
                vals[name] = self.call1(f[6], [vals[name]], {}, st)
        if kwargs:
            left = [k for k, (_, cc) in kwargs.items() if cc is None]
            self.raise_exc(("exc", "builtins.TypeError",
                            vconst("unexpected arguments %s of %s" % (sorted(kwargs), c.qual))), st)
            if left:
                raise AbsDead()
        return {f[0]: vals[f[0]] for f in fields if f[0] in vals}

    def class_lookup(self, c, name, after=None):
        mro = c.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.env:
                return k.env[name]
        return None

    def call_method(self, a, name, args, kwargs, st):
        m = self.get_attr(V(a), name, st)
        return self.call1(m, args, kwargs, st)

    # ---------------------------------------------------------------- exceptions
    def as_exc(self, a, st):
        if a[0] == "exc":
            return a
        if a[0] == "cls":
            return ("exc", a[1], VNONE)
        if a[0] == "ext":
            return ("exc", a[1], VNONE)
        return ("exc", "?", VNONE)

    def exc_names(self, a, st):
        if a[0] == "tup":
            out = []
            for v in a[1]:
                for x in v:
                    out += self.exc_names(x, st)
            return out
        if a[0] in ("cls", "ext"):
            return [a[1]]
        if a[0] == "obj":
            out = []
            for v, _ in self.iter_items(V(a), st) or []:
                for x in v:
                    out += self.exc_names(x, st)
            return out
        return ["?"]

    EXT_EXC = {"json.JSONDecodeError": "builtins.ValueError", "json.decoder.JSONDecodeError": "builtins.ValueError",
               "xml.etree.ElementTree.ParseError": "builtins.SyntaxError", "zlib.error": "builtins.Exception",
               "binascii.Error": "builtins.ValueError", "gzip.BadGzipFile": "builtins.OSError",
               "struct.error": "builtins.Exception", "re.error": "builtins.Exception",
               "zstd.Error": "builtins.Exception"}
    EXT_CANON = {"json.decoder.JSONDecodeError": "json.JSONDecodeError"}

    def exc_supers(self, n):
        out = [n]
        n = self.EXT_CANON.get(n, n)
        if n in self.EXT_EXC:
            out.append(n)
            n = self.EXT_EXC[n]
        if n.startswith("builtins."):
            t = getattr(_b, n[9:], None)
            if isinstance(t, type):
                out += ["builtins." + k.__name__ for k in t.__mro__]
                if t in (OSError,):
                    out += ["builtins.IOError", "builtins.EnvironmentError"]
        elif n in self.classes:
            for k in self.classes[n].mro:
                out.append(k.qual)
                for b in k.bases:
                    if b[0] == "ext":
                        out += self.exc_supers(b[1])
        return out

    def exc_matches(self, n, h):
        if n == "?":
            return h in ("builtins.Exception", "builtins.BaseException")
        return self.EXT_CANON.get(h, h) in [self.EXT_CANON.get(x, x) for x in self.exc_supers(n)]

    def raise_exc(self, exc, st):
        if self.initing and not self.handlers:
            pass
        st = st.copy()
        self.origins.setdefault((exc[1], exc[2]), (self.site(), self.construct_key(), tuple(self.stack)))
        if self.handlers:
            self.handlers[-1].append((exc, st))
            return
        self.uncaught.append(dict(exc=exc[1], msg=exc[2], facts=dict(st.facts), site=self.site(),
                                  where=self.construct_key(), taint=st.taint, stack=tuple(self.stack[-6:]),
                                  leaked=self.leaked(st)))

    def may_raise(self, name, msg, st):
        self.raise_exc(("exc", name, vconst(msg)), st)


class _ClassCtx:
    """Context for methods: names resolve past the class body."""

    def __init__(self, ctx, fid):
        self.fn, self.fid = ctx.fn, fid
        self.returns, self.globals, self.nonlocals, self.loops, self.yields = [], set(), set(), [], None
        self.hook = None


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


def _handler_summary(h):
    """How an except clause ends: 'raise', 'return', 'pass' or 'continue'."""
    last = h.body[-1]
    return type(last).__name__

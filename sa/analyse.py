"""Runs the analysis of a property: scenarios x partitions, in parallel; collects what each run
establishes or refutes, tagged with the properties it decides."""
import multiprocessing
import re
import time
import traceback

from . import catalog, lint, rows
from .interp import Interp, OverBudget
from .loader import Broken, Program
from .run import Compare, execute, shared, show
from .spec import Dct, Lit, Lst, NT, Obj, OneOf
from .scenarios import MAPFILE, raises_ok
from .values import V

TURNS = 4
OWNER = [("/layer.py", "C03"), ("/tiled_object.py", "C06"), ("/tileset.py", "C09"), ("/wang_set.py", "C10"),
         ("/properties.py", "C11"), ("/tiled_map.py", "C02"), ("/world.py", "C17")]
FORMAT_ERRORS = ("json.JSONDecodeError", "xml.etree.ElementTree.ParseError", "pytiled_parser.exception.UnknownFormat")
_W = {}


def program():
    if "prog" not in _W:
        _W["prog"] = Program()
    return _W["prog"]


def interp_of(s):
    return Interp(program(), s.world, s.zstd)


def entries():
    if "cat" not in _W:
        _W["cat"] = catalog.catalog(interp_of, lint.lengths(program()))
    return _W["cat"]


def special_rows():
    return [("all", lv) for lv in ("value", "absent", "zero")] + [("equal", "value")]


def row_specs(kind, tier, full):
    """Partition names of an entry."""
    if kind == "one":
        return [("all", "value")]
    sp = special_rows()
    if tier == "quick":
        n = 81
        step = {"full": 1, "some": 3, "few": 9}[kind]
        if not full:
            step = {"full": 9, "some": 20, "few": 40}[kind]
        return sp + [(2, r) for r in range(0, n, step)]
    step = {"full": 1, "some": 2, "few": 6}[kind]
    if not full:
        step *= 6
    return sp + [(2, r) for r in range(0, 81, step)] + [(3, r) for r in range(0, 729, step)]


def level_of(spec):
    if spec[0] in ("all", "equal"):
        return lambda fam, i: spec[1]
    key = ("rows", spec[0])
    if key not in _W:
        _W[key] = rows.Rows(spec[0])
    return lambda fam, i: _W[key].level(fam, i, spec[1])


def turn_of(spec, i):
    return i % TURNS


def norm_path(p):
    return re.sub(r"\[\d+\]", "[]", p)


def owners(stack, s):
    """Properties a failure inside these functions belongs to."""
    out = set(s.tags)
    color = False
    for f in reversed(stack):
        file, qual = f.rsplit(":", 1)
        if qual.endswith("parse_color"):
            color = True
            out.add("C20")
            continue
        for suffix, p in OWNER:
            if file.endswith(suffix) and not (suffix == "/tileset.py" and file.endswith("wang_set.py")):
                out.add(p)
                return out
        if color:
            continue
    return out


class Sink:
    """What one job found."""

    def __init__(self):
        self.findings = []
        self.undecided = {}
        self.stats = dict(runs=0, steps=0, comparisons=0, containers=0, opens=0, histories=0, refused=0, facts=0,
                          exceptions=0)
        self.functions, self.edges, self.reached, self.opened = set(), set(), set(), set()
        self.partitions = set()
        self.obligations = {}
        self.samples = []

    def add(self, props, rule, where, text, e, spec, path="", nid=None, facts=None, stack=()):
        self.findings.append(dict(props=sorted(props), rule=rule, where=where, text=text, scenario=e.name, fmt=e.fmt,
                                  spec=list(spec), path=norm_path(path), nid=nid,
                                  partition=near(facts, nid) if facts else {}, stack=list(stack)[-6:]))

    def maybe(self, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1


def near(facts, nid):
    """The facts of the document part concerned."""
    out = {}
    for k, v in facts.items():
        if k[0] in ("pres", "zero") and nid is not None and k[1] == nid:
            name = str(k[2])
            if k[0] == "pres":
                out[name] = "present" if v else "absent"
            elif v and out.get(name) != "absent":
                out[name] = "zero, false or empty"
    return out


def tagged(m, s):
    t = set(m.tags)
    p = m.path
    if ".tiles[" in p and (".objects" in p or ".properties" in p):
        t.add("C09")
    if ".wang_sets" in p:
        t.add("C10")
    if s.name.startswith("template") and (".tiled_objects" in p):
        t.add("C08")
    return t


def run_one(e, spec, turn, sink, prepared, hist):
    s, I, fs = prepared
    if not s.vary:
        spec = ("all", "value")
    f = rows.facts(s.world, fs, level_of(spec))
    f.update(s.facts)
    I.canon = rows.equal(s.world) if spec[0] == "equal" else None
    st = None
    for entry, file in s.before:
        b = execute(I, entry, f, args=[V(file)], st=st)
        sink.stats["runs"] += 1
        for u in b.undecided:
            sink.maybe(u)
        if b.value is None:
            return sink.maybe("the call before")
        st = b.state
    r = execute(I, s.entry, f, st=st)
    sink.stats["runs"] += 1
    sink.stats["steps"] += I.steps
    sink.stats["facts"] += len(f)
    sink.partitions.add((e.name, e.fmt, turn) + tuple(spec))
    for u in r.undecided:
        sink.maybe(u)
    events(e, s, I, r, spec, f, sink)
    for u in r.uncaught:
        if u["leaked"] and not u["taint"]:
            for site in u["leaked"]:
                sink.add({"C15"}, "a file opened here is still open when %s leaves the call" % u["exc"].split(".")[-1],
                         site.split(" (")[0], site, e, spec)
    if s.only:
        return
    if s.raises:
        sink.stats["refused"] += 1
        if r.value is not None:
            if r.state.taint or r.undecided:
                sink.maybe("whether %s is refused" % s.name)
            else:
                sink.add(s.tags, "a document that must be refused is accepted", s.entry,
                         "%s (%s): the call returns %s; it must raise %s" %
                         (s.name, e.fmt, show(r.value)[:80], "an error" if s.raises == "any" else " or ".join(s.raises)),
                         e, spec)
        for u in r.uncaught:
            sink.stats["exceptions"] += 1
            if raises_ok(I, u["exc"], s.raises):
                continue
            if u["taint"] or r.undecided or u["exc"] == "?":
                sink.maybe("exception of " + s.name)
                continue
            sink.add(s.tags, "a document is refused with the wrong error", u["where"],
                     "%s (%s): %s at %s; expected %s" % (s.name, e.fmt, u["exc"], u["site"], " or ".join(s.raises)),
                     e, spec, stack=u["stack"])
        return
    for u in r.uncaught:
        if u["taint"]:
            sink.maybe("exception %s at %s" % (u["exc"], u["site"]))
            continue
        site, where, stack = I.origins.get((u["exc"], u["msg"]), (u["site"], u["where"], u["stack"]))
        props = {"C23"} | owners(stack, s)
        for (x, _), (_, _, stk) in I.origins.items():
            # the error that was turned into the one that came out
            props |= owners(stk, s) if u["exc"] in FORMAT_ERRORS else set()
            if x in FORMAT_ERRORS:
                props.add("C01")
        if u["exc"] in FORMAT_ERRORS[:2]:
            props.add("C01")
        if s.name.startswith("template"):
            props.add("C08")
        if e.family == "data":
            props.add("C05")
        if e.family == "world":
            props.add("C17")
        why = "; ".join("%s at %s" % (x.split(".")[-1], o[0]) for (x, _), o in list(I.origins.items())[:3])
        sink.add(props, "a well-formed document is refused", where,
                 "%s (%s): %s %s (%s)" % (s.name, e.fmt, u["exc"], show(u["msg"]), why), e, spec, stack=stack,
                 path="uncaught " + u["exc"])
    if r.value is None:
        return
    C = s.ctx(I, f)
    exp = s.expected(C)
    if spec == ("all", "value"):
        for p, t, x in sites(exp, "result", ()):
            for q in t:
                sink.obligations.setdefault(q, set()).add((e.fmt, norm_path(p)))
            sink.obligations.setdefault("*", set()).add((e.fmt, norm_path(p)))
    compare(C, exp, r.value, r.state, e, s, spec, f, sink)
    dup, n = shared(I, r.value, r.state)
    sink.stats["containers"] += n
    sharing(dup, e, spec, sink)
    for site in I.leaked(r.state):
        if not r.state.taint:
            sink.add({"C15"}, "a file opened here is never closed", site.split(" (")[0], site, e, spec)
    if spec[0] in ("all", "equal") and hist:
        history(C, exp, r, e, s, I, spec, f, sink)


def sites(e, path, tags):
    """(path, tags, Exp) of every attribute and element the expectation fixes."""
    if isinstance(e, OneOf):
        for a in e.alts:
            yield from sites(a, path, tags)
        return
    yield path, tags, e
    if isinstance(e, NT):
        for n, x in e.fields:
            yield from sites(x, path + "." + n, tags)
    elif isinstance(e, Obj):
        for n, (x, t) in e.fields.items():
            yield from sites(x, path + "." + n, t)
    elif isinstance(e, Lst):
        for x in e.items:
            yield from sites(x, path + "[]", tuple(e.tags) + tuple(tags))
    elif isinstance(e, Dct):
        for k, x in e.entries:
            yield from sites(x, path + "[%s]" % (k.value if isinstance(k, Lit) else "?"), tuple(e.tags) + tuple(tags))


def compare(C, exp, v, st, e, s, spec, f, sink, only=None, note=""):
    c = Compare(C, st)
    c.value(exp, v, "result", (), "")
    sink.stats["comparisons"] += c.count
    for x in c.undecided:
        sink.maybe("%s: %s" % x)
    if st.taint and c.out:
        sink.maybe("comparison of a result under an undecided condition")
        return
    for m in c.out:
        props = only or tagged(m, s)
        sink.add(props, note or {"type": "a value of the wrong type", "class": "an element of the wrong class",
                                 "membership": "an element lost, added or misplaced",
                                 "order": "elements out of order"}.get(m.kind, "a wrong value"),
                 (m.site or "").split(" (")[0], "%s: got %s, expected %s%s" % (
                     m.path, m.got, m.want, " [assigned at %s]" % m.site if m.site else ""),
                 e, spec, path=m.path, nid=m.nid, facts=f)


def sharing(dup, e, spec, sink, rule="a mutable container is shared"):
    for a, b, o in dup:
        sink.add({"C14"}, rule, (getattr(o, "site", None) or "").split(" (")[0],
                 "%s and %s are the same object%s" % (a, b, " created at %s" % o.site
                                                      if o is not None and getattr(o, "site", None) else ""),
                 e, spec, path="%s = %s" % (norm_path(a), norm_path(b)))


def history(C, exp, r, e, s, I, spec, f, sink):
    """The same call again, on the state the first one left behind."""
    first = r.value
    r2 = execute(I, s.entry, f, st=r.state.copy())
    sink.stats["histories"] += 1
    events(e, s, I, r2, spec, f, sink)
    if r2.value is None:
        if not r2.undecided and all(not u["taint"] for u in r2.uncaught):
            sink.add({"C14"}, "parsing the document a second time fails", s.entry,
                     ", ".join(u["exc"] + " at " + u["site"] for u in r2.uncaught), e, spec)
        return
    compare(C, exp, r2.value, r2.state, e, s, spec, f, sink, only={"C14"}, note="the second parse gives another result")
    compare(C, exp, first, r2.state, e, s, spec, f, sink, only={"C14"},
            note="a later parse changes an earlier result")
    dup, n = shared(I, V(("tup", (first, r2.value))), r2.state)
    sink.stats["containers"] += n
    sharing(dup, e, spec, sink, "two results share a mutable container")


UTF8 = ("utf-8", "utf8", "utf_8", "utf-8-sig", "utf_8_sig", "u8", "utf", "cp65001")


def events(e, s, I, r, spec, f, sink):
    wellformed = not s.raises and not s.only
    for ev in r.events:
        k = ev["kind"]
        where, site = ev["where"], ev["site"]

        def bad(props, rule, text):
            if ev["taint"]:
                sink.maybe("%s at %s" % (rule, site))
            else:
                sink.add(props, rule, where, "%s at %s" % (text, site), e, spec, stack=ev["stack"])
        if k == "open":
            sink.stats["opens"] += 1
            sink.opened.add(site)
            mode = ev["mode"]
            if mode == "?" or not isinstance(mode, str):
                sink.maybe("mode of the open at " + site)
            elif set(mode) & set("wax+"):
                bad({"C15"}, "a file is opened for writing", "open with mode %r" % mode)
            if isinstance(mode, str) and "b" not in mode:
                enc = ev["enc"]
                if enc == "?":
                    sink.maybe("encoding of the open at " + site)
                elif enc is None or str(enc).lower() not in UTF8:
                    bad({"C21"}, "text is decoded with an encoding that is not UTF-8",
                        "open with encoding %s" % (enc or "left to the locale"))
            if ev["known"] is False:
                p = {"C12"} | ({"C17"} if s.entry == "parse_world" else set())
                bad(p, "a file is opened that no reference of the documents names",
                    "open of %s" % show(V(ev["path"]))[:200])
            elif ev["known"] is None:
                sink.maybe("path of the open at " + site)
            if s.entry == "parse_world" and ev["known"] and ev["path"] != MAPFILE and ev["path"][0] != "top":
                bad({"C17", "C12"}, "a world's map is opened", "open")
        elif k == "listdir":
            if s.entry != "parse_world" or ev["path"] != s.world.listdir:
                if ev["path"][0] == "top":
                    sink.maybe("directory listed at " + site)
                else:
                    bad({"C12"} | ({"C17"} if s.entry == "parse_world" else set()),
                        "a directory is listed that the documents do not name",
                        "listing of %s" % show(V(ev["path"]))[:200])
        elif k == "codec":
            enc = str(ev["enc"]).lower()
            if enc == "?":
                sink.maybe("encoding of the decode at " + site)
            elif enc not in UTF8:
                bad({"C21"}, "text is decoded with an encoding that is not UTF-8", "decode with %s" % ev["enc"])
        elif k == "locale":
            bad({"C21"}, "a result depends on the locale", str(ev["what"]))
        elif k == "lenient":
            bad({"C16"}, "undecodable bytes are accepted", ev["what"])
        elif k == "static-mutation":
            bad({"C14"}, "module-level or default-argument state is modified", ev["what"] + " modified")
        elif k == "global-write":
            bad({"C14"}, "module-level state is modified", "%s is assigned" % ev["what"])
        elif k == "memo-impure":
            if ev["opens"] or ev["mutable"]:
                bad({"C14"}, "a cached result outlives the call",
                    "%s is cached but %s" % (ev["fn"], "reads files" if ev["opens"] else "returns a mutable object"))
        elif k in ("output", "effect", "extwrite"):
            bad({"C15"}, {"output": "something is written to a standard stream", "effect": "an outside effect",
                          "extwrite": "an attribute of another module is changed"}[k], str(ev["what"]))
        elif k == "ext-unknown":
            sink.maybe("effect of %s at %s" % (ev["what"], site))
        elif k == "diverge":
            bad({"C22"}, "the analysis finds no end", ev["what"])


# ------------------------------------------------------------------ jobs
def work(job):
    idx, specs, hist = job
    sink = Sink()
    cache = {}
    e = entries()[idx]
    for spec, turn in specs:
        if turn not in cache:
            s = e.build(turn)
            cache[turn] = (s, Interp(program(), s.world, s.zstd), rows.factors(s.world))
        try:
            run_one(e, spec, turn, sink, cache[turn], hist)
        except OverBudget as x:
            sink.maybe(str(x))
            break
        except Broken:
            raise
        except Exception:
            # a construct the analysis does not know: nothing is concluded from this run
            sink.maybe("analysis of %s failed: %s" % (e.name, traceback.format_exc().strip().splitlines()[-1]))
    for s, I, _ in cache.values():
        sink.functions |= I.analysed
        sink.edges |= I.calledges
        sink.reached |= I.reached
    return sink


def jobs_for(prop, tier):
    full, few = catalog.FAMILIES[prop]
    out = []
    for i, e in enumerate(entries()):
        if e.family not in full and e.family not in few:
            continue
        specs = row_specs(e.rows, tier, e.family in full)
        byturn = {}
        for n, sp in enumerate(specs):
            if sp[0] in ("all", "equal"):
                for t in ((0, 1) if e.rows != "one" else (0,)):
                    byturn.setdefault(t, []).append((sp, t))
            else:
                t = n % TURNS
                byturn.setdefault(t, []).append((sp, t))
        for t, ss in byturn.items():
            for j in range(0, len(ss), 24):
                out.append((i, ss[j:j + 24], prop == "C14"))
    # long jobs first
    out.sort(key=lambda j: -len(j[1]))
    return out


def analyse(prop, tier, budget=None, procs=8):
    t0 = time.time()
    prog = program()
    # the program must load and its entry points exist
    from .scenarios import layers_scn
    from .run import entry
    I = interp_of(layers_scn("json", 0))
    for n in ("parse_map", "parse_tileset", "parse_world"):
        entry(I, n)
    jobs = jobs_for(prop, tier)
    total = Sink()
    skipped = 0
    with multiprocessing.Pool(procs) as pool:
        it = pool.imap_unordered(work, jobs)
        for _ in jobs:
            try:
                sk = it.next(timeout=None if budget is None else max(0.5, budget - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                skipped = 1
                pool.terminate()
                break
            total.findings += sk.findings
            for k, v in sk.undecided.items():
                total.undecided[k] = total.undecided.get(k, 0) + v
            for k, v in sk.stats.items():
                total.stats[k] += v
            total.functions |= sk.functions
            total.edges |= sk.edges
            total.reached |= sk.reached
            total.opened |= sk.opened
            total.partitions |= sk.partitions
            for k, v in sk.obligations.items():
                total.obligations.setdefault(k, set()).update(v)
    found, total.calls = lint.forbidden(prog, total.functions)
    e = catalog.Entry("source", "source", "both", None, "one")
    for where, line, what in found:
        total.add({"C15"}, "a parsing function contains an effect parsing must not have", where,
                  "%s at %s (line %d)" % (what, where, line), e, ("all", "value"))
    cross_format(total)
    total.jobs, total.cut = len(jobs), skipped
    total.wall = time.time() - t0
    return prog, total


def cross_format(total):
    """A result that goes wrong in one format only differs from the other format's."""
    by = {}
    for f in total.findings:
        if f["path"] and not f["path"].startswith("result = ") and f["rule"] not in (
                "a mutable container is shared",):
            key = (f["scenario"], "uncaught" if f["path"].startswith("uncaught") else f["path"])
            by.setdefault(key, set()).add(f["fmt"])
    for f in total.findings:
        key = (f["scenario"], "uncaught" if f["path"].startswith("uncaught") else f["path"])
        if len(by.get(key, ())) == 1 and not f["scenario"].startswith("world") and "legacy" not in f["scenario"] \
                and "C14" not in f["props"]:
            f["props"] = sorted(set(f["props"]) | {"C18"})

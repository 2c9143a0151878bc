"""Shows on every run that the rules can fire: event rules on a small package that breaks each of
them, comparison rules on expectations with one attribute replaced by a value nothing has."""
import os

from . import analyse, catalog, rows
from .interp import Interp
from .loader import Broken, Program
from .run import Compare, execute, shared
from .scenarios import layers_scn, single_tileset_scn, world_scn
from .spec import Atoms, Dct, Lst, NT, Obj, OneOf

HERE = os.path.dirname(os.path.abspath(__file__))
EVENTS = ("C12", "C14", "C15", "C21", "C22")


def positive(prop):
    prog = Program(os.path.join(HERE, "positive"))
    sink = analyse.Sink()
    for s in (layers_scn("json", 0), single_tileset_scn("json", 0), world_scn(0)):
        I = Interp(prog, s.world, s.zstd)
        f = rows.facts(s.world, rows.factors(s.world), lambda a, b: "value")
        f.update(s.facts)
        e = catalog.Entry("selftest", s.name, s.fmt, None, "one")
        r = execute(I, s.entry, f)
        analyse.events(e, s, I, r, ("all", "value"), f, sink)
        for u in r.uncaught:
            for site in u["leaked"]:
                sink.add({"C15"}, "a file opened here is still open when an error leaves the call", site, site, e,
                         ("all", "value"))
        if r.value is not None:
            dup, _ = shared(I, r.value, r.state)
            analyse.sharing(dup, e, ("all", "value"), sink)
            for site in I.leaked(r.state):
                sink.add({"C15"}, "a file opened here is never closed", site, site, e, ("all", "value"))
    return sorted({f["rule"] for f in sink.findings if prop in f["props"]})


NOTHING = Atoms(("term", "nothing-has-this-value"), what="a value nothing has")


def spoil(e, prop, tags=(), done=None):
    """e with the first attribute of `prop` replaced; done[0] tells whether one was found."""
    if done[0]:
        return e
    if isinstance(e, OneOf):
        return OneOf([spoil(a, prop, tags, done) if i == 0 else a for i, a in enumerate(e.alts)]) \
            if len(e.alts) == 1 else e
    leaf = not isinstance(e, (Obj, Lst, Dct))
    if leaf and prop in tags:
        done[0] = True
        return NOTHING
    if isinstance(e, Obj):
        if prop in e.clstags and prop in ("C04", "C07"):
            done[0] = True
            return Obj("NoSuchClass", e.fields, e.tags, e.clstags)
        return Obj(e.cls, {n: (spoil(x, prop, t, done), t) for n, (x, t) in e.fields.items()}, e.tags, e.clstags)
    if isinstance(e, Lst):
        return Lst([spoil(x, prop, tuple(e.tags) + tuple(tags), done) for x in e.items], e.tags, e.prefix)
    if isinstance(e, Dct):
        return Dct([(k, spoil(x, prop, tuple(e.tags) + tuple(tags), done)) for k, x in e.entries], e.tags, e.keytags)
    if isinstance(e, NT):
        return NT(e.cls, [(n, spoil(x, prop, tags, done)) for n, x in e.fields])
    return e


def sensitive(prop):
    """A comparison in which exactly one attribute of `prop` is expected to be something else."""
    for e in analyse.entries():
        if e.family not in catalog.WELL or e.family not in catalog.FAMILIES[prop][0] + catalog.FAMILIES[prop][1]:
            continue
        s = e.build(0)
        I = Interp(analyse.program(), s.world, s.zstd)
        f = rows.facts(s.world, rows.factors(s.world), lambda a, b: "value")
        f.update(s.facts)
        C = s.ctx(I, f)
        done = [False]
        exp = spoil(s.expected(C), prop, (), done)
        if not done[0]:
            continue
        r = execute(I, s.entry, f)
        if r.value is None:
            return None
        c = Compare(C, r.state)
        c.value(s.expected(C), r.value, "result", (), "")
        if c.out or c.undecided:
            return None             # the program itself is not as expected: nothing to probe
        c = Compare(C, r.state)
        c.value(exp, r.value, "result", (), "")
        return bool([m for m in c.out if prop in analyse.tagged(m, s)]) or bool(c.undecided)
    return None


def run(prop):
    out = {}
    if prop in EVENTS:
        out["forbidden_effects_reported_on_positive_example"] = positive(prop)
        if not out["forbidden_effects_reported_on_positive_example"]:
            raise Broken("self-test: the rules of %s report nothing on the positive example" % prop)
    if prop in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C17", "C20"):
        try:
            ok = sensitive(prop)
        except Exception:       # the analysed code is one the engine cannot follow: the check itself says so
            ok = None
        if ok is False:
            raise Broken("self-test: a changed expectation of %s is not reported" % prop)
        out["changed_expectation_reported"] = ok
    return out

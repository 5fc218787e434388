"""C30 equality and hashing of rules, modules, processes and events"""
from collections import OrderedDict

from procmon_parser.configuration import Rule
from procmon_parser.consts import Column, EventClass, RuleAction, RuleRelation
from procmon_parser.logs import Event, Module, Process
from rt.common import Scenario

NOTE = """Bounds: two objects of the same class whose attributes are all symbolic at once (integers up to 64 bits, texts of up
to 2 arbitrary characters, 0 to 2 modules or stack frames, 0 to 2 details), every pair of columns, relations and actions,
one attribute at a time with texts of different lengths or of another type, and objects of other kinds. Events have a
process (hash() of an event without one has nothing to go by)."""

TEXTS = {"Module": ("path", "version", "company", "description"),
         "Process": ("integrity", "user", "process_name", "image_path", "command_line", "company", "version",
                     "description"),
         "Event": ("category", "path", "operation"), "Rule": ("value",)}
NUMBERS = {"Module": (("base_address", 64), ("size", 32), ("timestamp", 32)),
           "Process": (("pid", 32), ("parent_pid", 32), ("authentication_id", 64), ("session", 32), ("virtualized", 32),
                       ("start_time", 64), ("end_time", 64)),
           "Event": (("tid", 32), ("date_filetime", 64), ("result", 32), ("duration", 64)), "Rule": ()}
CLASSES = {"Module": Module, "Process": Process, "Event": Event, "Rule": Rule}


def base(kind):
    """attributes of a plain object"""
    if kind == "Module":
        return dict(base_address=1, size=2, path="p", version="v", company="c", description="d", timestamp=3)
    if kind == "Process":
        return dict(pid=1, parent_pid=2, authentication_id=3, session=4, virtualized=0, is_process_64bit=True,
                    integrity="i", user="u", process_name="n", image_path="P", command_line="C", company="c",
                    version="v", description="d", start_time=5, end_time=6, modules=[])
    if kind == "Event":
        return dict(process=Process(**base("Process")), tid=1, event_class=EventClass.Registry, operation="O", duration=2,
                    date_filetime=3, result=4, stacktrace=[5], category="c", path="p",
                    details=OrderedDict([("a", "b")]))
    return dict(column=Column.PID, relation=RuleRelation.IS, value="v", action=RuleAction.INCLUDE)


def laws(ctx, a, b, same):
    """a == b must be the condition `same`"""
    eq = a == b
    ctx.eq(eq, same, "equal exactly when all attributes are")
    ctx.eq(b == a, same, "symmetric")
    ctx.eq(a != b, not same, "not equal")
    ctx.eq(b != a, not same, "not equal, symmetric")
    if same:
        ctx.check(hash(a) == hash(b), "equal objects hash alike")
        ctx.cover("equal")
    else:
        ctx.cover("different")
    ctx.check(a == a, "reflexive")
    ctx.check(hash(a) == hash(a), "stable hash")


def every(kind):
    """all numbers and texts symbolic, in both objects"""
    def run(ctx):
        fa, fb, conds = base(kind), base(kind), []
        for k, n in NUMBERS[kind]:
            fa[k], fb[k] = ctx.bits("a_" + k, n), ctx.bits("b_" + k, n)
            conds.append(fa[k] == fb[k])
        for k in TEXTS[kind]:
            fa[k], fb[k] = ctx.text("a_" + k, 2, "raw"), ctx.text("b_" + k, 2, "raw")
            conds.append(fa[k] == fb[k])
        if kind == "Process":
            fa["is_process_64bit"], fb["is_process_64bit"] = ctx.u32("a_64"), ctx.u32("b_64")
            conds.append(ctx.either(ctx.both(fa["is_process_64bit"] == 0, fb["is_process_64bit"] == 0),
                                    ctx.both(fa["is_process_64bit"] != 0, fb["is_process_64bit"] != 0)))
        laws(ctx, CLASSES[kind](**fa), CLASSES[kind](**fb), ctx.both(*conds))
    return run


def one_text(kind, attr):
    """one text, of any length, or no text"""
    def run(ctx):
        fa, fb = base(kind), base(kind)
        n, m = ctx.choice("lengths", [(0, 0), (0, 1), (1, 2), (2, 2), (2, 3), (3, 3), (None, 0), (None, 1), (None, None)])
        fa[attr] = None if n is None else ctx.text("a", n, "raw")
        fb[attr] = None if m is None else ctx.text("b", m, "raw")
        if kind == "Rule" and n is None:
            fa[attr] = ""
            n = 0
        if kind == "Rule" and m is None:
            fb[attr] = ""
            m = 0
        same = False
        if n == m:
            same = fa[attr] == fb[attr] if n is not None else True
        laws(ctx, CLASSES[kind](**fa), CLASSES[kind](**fb), same)
    return run


def one_number(kind, attr, bits):
    def run(ctx):
        fa, fb = base(kind), base(kind)
        fa[attr] = ctx.bits("a", bits)
        fb[attr] = ctx.choice("b", ["number", None])
        if fb[attr] is not None:
            fb[attr] = ctx.bits("b_value", bits)
        same = False if fb[attr] is None else fa[attr] == fb[attr]
        laws(ctx, CLASSES[kind](**fa), CLASSES[kind](**fb), same)
    return run


def rules(attr, members):
    """every pair of members"""
    def run(ctx):
        fa, fb = base("Rule"), base("Rule")
        fa[attr] = ctx.choice("a", members)
        fb[attr] = ctx.choice("b", members)
        va, vb = ctx.text("va", 1, "raw"), ctx.text("vb", 1, "raw")
        fa["value"], fb["value"] = va, vb
        laws(ctx, Rule(**fa), Rule(**fb), ctx.both(fa[attr] is fb[attr], va == vb))
    return run


def modules(ctx):
    n, m = ctx.choice("counts", [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2)])

    def make(name, k):
        return [Module(base_address=ctx.u64("%s_base%d" % (name, i)), size=ctx.u32("%s_size%d" % (name, i)),
                       path=ctx.text("%s_path%d" % (name, i), 1, "raw"),
                       description=ctx.text("%s_d%d" % (name, i), 1, "raw"), timestamp=1) for i in range(k)]
    xs, ys = make("a", n), make("b", m)
    fa, fb = base("Process"), base("Process")
    fa["modules"], fb["modules"] = xs, ys
    same = n == m
    if same:
        for x, y in zip(xs, ys):
            same = ctx.both(same, x.base_address == y.base_address, x.size == y.size, x.path == y.path,
                            x.description == y.description)
    laws(ctx, Process(**fa), Process(**fb), same)
    ea, eb = base("Event"), base("Event")
    ea["process"], eb["process"] = Process(**fa), Process(**fb)
    laws(ctx, Event(**ea), Event(**eb), same)


def frames(ctx):
    n, m = ctx.choice("counts", [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2)])
    fa, fb = base("Event"), base("Event")
    fa["stacktrace"] = [ctx.u64("a%d" % i) for i in range(n)]
    fb["stacktrace"] = [ctx.u64("b%d" % i) for i in range(m)]
    same = n == m
    if same:
        for x, y in zip(fa["stacktrace"], fb["stacktrace"]):
            same = ctx.both(same, x == y)
    laws(ctx, Event(**fa), Event(**fb), same)


def details(ctx):
    ka, kb = ctx.choice("keys", [("", ""), ("x", ""), ("x", "x"), ("x", "y"), ("xy", "x"), ("xy", "xy"), ("xy", "xz")])
    fa, fb = base("Event"), base("Event")
    fa["details"] = OrderedDict([(k, ctx.text("a_" + k, 2, "raw")) for k in ka])
    fb["details"] = OrderedDict([(k, ctx.text("b_" + k, 2, "raw")) for k in kb])
    same = ka == kb
    if same:
        for k in ka:
            same = ctx.both(same, fa["details"][k] == fb["details"][k])
    laws(ctx, Event(**fa), Event(**fb), same)


def event_process(ctx):
    """the process of an event counts with all its attributes"""
    fa, fb = base("Event"), base("Event")
    pa, pb, same = base("Process"), base("Process"), True
    for k, n in NUMBERS["Process"]:
        pa[k], pb[k] = ctx.bits("a_" + k, n), ctx.bits("b_" + k, n)
        same = ctx.both(same, pa[k] == pb[k])
    for k in TEXTS["Process"]:
        pa[k], pb[k] = ctx.text("a_" + k, 1, "raw"), ctx.text("b_" + k, 1, "raw")
        same = ctx.both(same, pa[k] == pb[k])
    fa["process"], fb["process"] = Process(**pa), Process(**pb)
    laws(ctx, Event(**fa), Event(**fb), same)


def classes(ctx):
    fa, fb = base("Event"), base("Event")
    members = list(EventClass)
    fa["event_class"], fb["event_class"] = ctx.choice("a", members), ctx.choice("b", members)
    ta, tb = ctx.u32("ta"), ctx.u32("tb")
    fa["tid"], fb["tid"] = ta, tb
    laws(ctx, Event(**fa), Event(**fb), ctx.both(fa["event_class"] is fb["event_class"], ta == tb))


class Lookalike(object):
    """has whatever attributes it is given"""

    def __init__(self, d):
        self.__dict__.update(d)


def subclass(cls):
    class Sub(cls):
        pass
    return Sub


def other_kinds(kind):
    def run(ctx):
        f = base(kind)
        k, n = (NUMBERS[kind] or ((None, 0),))[0]
        if k:
            f[k] = ctx.bits("number", n)
        f[TEXTS[kind][0]] = ctx.text("text", 1, "raw")
        a = CLASSES[kind](**f)
        others = [None, 0, 1, "", "x", b"", (), [], {}, a.__dict__, dict(a.__dict__), Lookalike(a.__dict__),
                  subclass(CLASSES[kind])(**f), CLASSES[kind]]
        others += [CLASSES[o](**base(o)) for o in sorted(CLASSES) if o != kind]
        i = ctx.choice("other", list(range(len(others))))
        b = others[i]
        ctx.check(not (a == b), "equal to another kind")
        ctx.check(a != b, "not equal to another kind")
        ctx.check(not (b == a), "another kind equal to it")
        ctx.check(b != a, "another kind not equal to it")
    return run


def scenarios(tier):
    out = []
    for kind in ("Module", "Process", "Event", "Rule"):
        if NUMBERS[kind]:
            out.append(Scenario("every-" + kind, every(kind), "all numbers and texts at once"))
        out.append(Scenario("kinds-" + kind, other_kinds(kind), "objects of other kinds"))
        for k in TEXTS[kind]:
            out.append(Scenario("text-%s-%s" % (kind, k), one_text(kind, k), "texts of 0 to 3 characters, or none"))
        for k, n in NUMBERS[kind]:
            out.append(Scenario("number-%s-%s" % (kind, k), one_number(kind, k, n), "every number, or none"))
    out.append(Scenario("columns", rules("column", list(Column)), "all pairs of columns"))
    out.append(Scenario("relations", rules("relation", list(RuleRelation)), "all pairs of relations"))
    out.append(Scenario("actions", rules("action", list(RuleAction)), "all pairs of actions"))
    out.append(Scenario("modules", modules, "0 to 2 modules each"))
    out.append(Scenario("frames", frames, "0 to 2 frames each"))
    out.append(Scenario("details", details, "0 to 2 details each"))
    out.append(Scenario("event-process", event_process, "all attributes of the events' processes"))
    out.append(Scenario("classes", classes, "all pairs of event classes"))
    return out

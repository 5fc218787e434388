"""C27 CSV columns"""
from collections import OrderedDict

from rt.common import Scenario
from spec import pml as P, tables as T, zoo
from spec.pml import u8, u32
from harness.C04 import body

NOTE = """Bounds: every value of every numeric field, strings of 0..3 characters, every operation of every class, the
detail blocks of every kind of event in the zoo; one timestamp and duration (C26, C28, C29 decide those columns)."""

WHEN = 132000000012345678


def columns(is64, proc64, n):
    def run(ctx):
        names = ("integrity", "user", "process_name", "image_path", "command_line", "company", "version",
                 "description")
        texts = [ctx.text(k, n if i else 1, "char") for i, k in enumerate(names)]
        f = dict((k, i) for i, k in enumerate(names))
        auth = ctx.u64("auth")
        f.update(index=3, pid=ctx.u32("pid"), parent_pid=ctx.u32("ppid"), session=ctx.u32("session"),
                 virtualized=ctx.u32("virtualized"), is_64bit=proc64, authentication_id=auth,
                 start_time=ctx.u64("start"), end_time=ctx.u64("end"))
        ev = zoo.reg_plain("RegDeleteKey", "Write", n)(ctx, is64)
        tid = ctx.u32("tid")
        e = P.one_event(ev.record(is64, process=3, tid=tid, date=WHEN, duration=15, result=0), is64,
                        procs=[P.process_record(is64, **f)], strings=texts)
        v = f["virtualized"]
        flag = "False" if v == 0 else "True" if v == 1 else "n/a"
        want = {
            "Date & Time": "4/17/2019 6:40:01 PM", "Process Name": texts[2], "PID": "%d" % f["pid"],
            "Operation": "RegDeleteKey", "Result": "SUCCESS", "Detail": "", "Sequence": "n/a", "Company": texts[5],
            "Description": texts[7], "Command Line": texts[4], "User": texts[1], "Image Path": texts[3],
            "Session": "%d" % f["session"], "Path": ev.path, "TID": "%d" % tid, "Relative Time": "00:00:00.0000000",
            "Duration": "0.0000015", "Time of Day": "6:40:01.2345678 PM", "Version": texts[6],
            "Event Class": "Registry", "Authentication ID": "%08x:%08x" % (auth >> 32, auth & 0xffffffff),
            "Virtualized": flag, "Integrity": texts[0], "Category": "Write", "Parent PID": "%d" % f["parent_pid"],
            "Architecture": "64-bit" if proc64 else "32-bit", "Completion Time": "6:40:01.2345693 PM"}
        r = e.get_compatible_csv_info()
        ctx.eq(sorted(r.keys()), sorted(want.keys()), "column names")
        for k in sorted(want):
            ctx.eq(r[k], want[k], k)
    return run


def operation(cls, is64):
    """class and operation names of every operation number, category of plain ones"""
    def run(ctx):
        op = ctx.choice("op", list(T.OPERATIONS[cls]))
        tid = ctx.u32("tid")
        e = P.one_event(P.event(is64, cls=cls, op=op, tid=tid, details=body(cls, is64), date=WHEN, duration=15, result=0), is64)
        name = T.OPERATIONS[cls][op]
        if cls == 5:
            name = "UDP " + name
        elif cls == 1:
            name = name.replace("_", " ")
        r = e.get_compatible_csv_info()
        ctx.eq((r["Operation"], r["Event Class"], r["TID"]),
               (name, T.CLASS_NAME[cls].replace("_", " "), "%d" % tid), "operation and class")
    return run


def sub_operation(op, is64):
    def run(ctx):
        sub = ctx.u8("sub")
        ctx.assume(sub != 0)
        d = u8(sub) + body(3, is64)[1:]
        e = P.one_event(P.event(is64, cls=3, op=op, details=d, date=WHEN, duration=15, result=0), is64)
        name = "<Unknown>"
        for k, v in T.SUBOPERATIONS[op].items():
            if sub == k:
                name = v
                break
        ctx.eq(e.get_compatible_csv_info()["Operation"], name, "operation")
    return run


def pure(make, is64):
    def run(ctx):
        ev = make(ctx, is64)
        e = P.one_event(ev.record(is64, tid=5, date=WHEN, duration=20, result=0, stack=[1]), is64)
        details = e.details
        before = P.view_event(e)
        values = [(k, list(v) if isinstance(v, list) else v) for k, v in details.items()]
        one = e.get_compatible_csv_info()
        ctx.check(e.details is details, "the same details object")
        ctx.eq(P.view_event(e), before, "event after one record")
        ctx.eq(list(details.items()), values, "details after one record")
        two = e.get_compatible_csv_info()
        ctx.eq(two, one, "records agree")
        ctx.eq((one["Path"], one["Category"], one["Operation"]),
               (ev.path, ev.category, ev.operation.replace("_", " ") if ev.cls == 1 else ev.operation),
               "path, category, operation")
        ctx.eq(P.view_event(e), before, "event after two records")
    return run


def scenarios(tier):
    out = []
    deep = tier == "thorough"
    for is64 in (0, 1):
        for proc64 in (0, 1):
            for n in (0, 2) + ((5,) if deep else ()):
                out.append(Scenario("columns-%d-%d-%d" % (is64, proc64, n), columns(is64, proc64, n),
                                    "every numeric value, strings of %d characters" % n, weight=9))
        for cls in (1, 2, 3, 4, 5):
            out.append(Scenario("operation-%d-%d" % (cls, is64), operation(cls, is64), "every operation", weight=3))
        for op in T.SUBOPERATIONS:
            out.append(Scenario("sub-%d-%d" % (op, is64), sub_operation(op, is64), "every sub-operation"))
        for k, make in zoo.KINDS.items():
            if k == "RegSetInfoKey":  # its time is rendered as a date, so it has to be one
                make = lambda ctx, is64: zoo.reg_set_info(ctx, is64, ctx.choice("time", [0, WHEN, 1 << 61]))
            out.append(Scenario("pure-%s-%d" % (k, is64), pure(make, is64), "every value", weight=2))
    return out

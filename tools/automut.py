#!/usr/bin/env python3
"""automut.py LOG [file[:regex of function names]]...: mutate the code one place at a time on a scratch copy, run the checks of the
mutated function until one reports a violation; the mutants none reports go to LOG."""
import ast, copy, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PD = "/repo/procmon_parser"
DONT = {"__repr__"}

# function (regex) -> checks to try first
MAP = [
    ("stream_logs_format.py", [
        ("Header", "C01 C37 C36 C05"), ("EventOffsets", "C05 C06"), ("StringsTable|read_table_string", "C02 C36 C10"),
        ("ProcessTable", "C03 C02"), ("Hostnames|Ports", "C10"), ("read_event", "C04 C07 C08 C05"),
        ("PMLStreamReader", "C05 C10 C03 C07 C36"), ("", "C01 C04 C05")]),
    ("stream_helper.py", [("multisz", "C12 C11 C15"), ("utf16", "C09 C02 C01"), ("", "C01 C04 C12")]),
    ("logs.py", [
        ("Module|Process", "C30 C03"), ("date", "C25 C26 C38"), ("strftime", "C26"),
        ("_get_os_name|system_details", "C37"), ("PMLStructReader", "C05 C06"),
        ("detail_column", "C28 C27"), ("Event.__", "C30 C25"), ("Event", "C27 C28 C29 C26"), ("", "C26 C30")]),
    ("configuration.py", [("Rule", "C35"), ("Font", "C31 C32 C35"), ("", "C35")]),
    ("configuration_format.py", [("", "C31 C32 C33 C34")]),
    ("construct_helper.py", [("", "C31 C32 C33 C34")]),
    ("__init__.py", [("", "C05 C06 C36 C07")]),
    ("consts.py", [("mask|MASK|Mask|OPTIONS|Attributes|ShareMode|IoFlags", "C18 C13 C19 C22"), ("ioctl|Ioctl", "C20"),
                   ("rror", "C29"), ("Column|Rule", "C35 C31 C27"), ("Registry", "C14 C15 C16 C13"),
                   ("FileInformation", "C21"), ("Notify", "C22"), ("PageProt|SyncType|Mapping", "C22"),
                   ("Operation", "C17 C04 C12 C27"), ("Priority", "C19"), ("Disposition|OpenResult", "C18"), ("", "C04 C17 C35")]),
    ("stream_logs_detail_format.py", [
        ("sid", "C24"), ("detail_string", "C09"), ("network", "C10 C11"), ("registry_data|set_value", "C15"),
        ("load_or_rename|open_or_create", "C13"), ("enum_key", "C14"), ("enum_value", "C15"), ("set_info", "C16"),
        ("registry_event", "C13 C14 C15 C16 C09"), ("directory", "C21 C22"), ("create_file_mapping", "C22"),
        ("create_file", "C18 C24"), ("read_write", "C19"), ("ioctl", "C20"), ("disposition", "C23 C17"),
        ("filesystem", "C17 C09 C23 C22"), ("process|load_image|thread", "C12"), ("reg_type|enum_name", "C15 C14 C18"),
        ("", "C17 C13 C12 C10")]),
]
FALLBACK = ("C01 C02 C03 C04 C07 C08 C10 C12 C13 C14 C15 C16 C17 C19 C20 C22 C23 C24 C25 C27 C29 C30 C35 C37 C38 C34 C33 "
            "C11 C09 C05 C36 C18 C28 C31 C32 C21 C06 C26").split()


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, what, scope):
        a, b = span(n)
        out.append((scope, n.lineno, what, raw[:a] + new.encode() + raw[b:]))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
           ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&",
           ast.LShift: ">>", ast.RShift: "<<", ast.Div: "*"}

    def walk(n, scope, docs):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            scope = scope + [n.name]
        if isinstance(n, ast.Assign) and not scope and isinstance(n.targets[0], ast.Name):
            scope = scope + [n.targets[0].id]
        s = ".".join(scope)
        if scope and scope[-1] in DONT:
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if type(v) is int:
                add(n, str(v + 1), "const+1 %s" % v, s)
                if v > 0:
                    add(n, str(v - 1), "const-1 %s" % v, s)
            elif type(v) is bool:
                add(n, str(not v), "bool", s)
            elif type(v) is str and v:
                add(n, repr(v + "x"), "str+x %r" % v, s)
            elif type(v) is bytes and v:
                add(n, repr(v[:-1] + bytes([v[-1] ^ 1])), "bytes %r" % v, s)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "%s %s %s" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "cmp %s" % text(n), s)
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, op.join("(%s)" % text(v) for v in n.values), "bool %s" % text(n)[:60], s)
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, op2.join("(%s)" % text(v) for v in rest), "drop %s" % text(n.values[i])[:60], s)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(%s %s %s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "bin %s" % text(n)[:60], s)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), "not %s" % text(n), s)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                add(n.test, "True", "if-true %s" % text(n.test)[:60], s)
            add(n.test, "False", "if-false %s" % text(n.test)[:60], s)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del %s" % text(n)[:60], s)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and scope and isinstance(
                getattr(n, "target", None) or n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "del %s" % text(n)[:60], s)
        if isinstance(n, ast.AugAssign):
            op = BIN.get(type(n.op))
            if op:
                add(n, "%s %s= %s" % (text(n.target), op, text(n.value)), "aug %s" % text(n)[:60], s)
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "del %s" % text(n), s)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and \
                text(n.args[0]) != text(n.args[1]):
            a, b = span(n.args[0])[0], span(n.args[1])[1]
            out.append((s, n.lineno, "swap %s" % text(n)[:60], raw[:a] + text(n.args[1]).encode() + b", " +
                        text(n.args[0]).encode() + raw[b:]))
        if isinstance(n, ast.List) and len(n.elts) >= 2:
            for i in range(len(n.elts)):
                add(n, "[%s]" % ", ".join(text(e) for j, e in enumerate(n.elts) if j != i), "drop elt %s" % text(n.elts[i])[:40], s)
        for c in ast.iter_child_nodes(n):
            walk(c, scope, docs)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    walk(tree, [], docs)
    return out


def main(argv):
    log = open(argv[0], "a")
    top = tempfile.mkdtemp(prefix="amut.", dir="/tmp")
    shutil.rmtree(top)
    shutil.copytree("/repo", top, symlinks=True)
    env = dict(os.environ, VERIF_TARGET=top)
    total = caught = 0
    try:
        for spec in argv[1:]:
            fname, _, rx = spec.partition(":")
            src = open(os.path.join(PD, fname)).read()
            ms = [m for m in mutants(src) if re.search(rx, m[0])]
            cap = int(os.environ.get("CAP", "0"))
            if cap and len(ms) > cap:
                random.seed(int(os.environ.get("SEED", "1")))
                ms = sorted(random.sample(ms, cap), key=lambda m: m[1])
            print(fname, len(ms), "mutants", flush=True)
            first = dict(MAP)[fname]
            for scope, line, what, data in ms:
                open(os.path.join(top, "procmon_parser", fname), "wb").write(data)
                r = subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, %r); import procmon_parser" % top],
                                   capture_output=True)
                if r.returncode:
                    continue
                total += 1
                order = next(p for rx2, p in first if re.search(rx2, scope)).split()
                if os.environ.get("ALL", "1") == "1":
                    order += [p for p in FALLBACK if p not in order]
                hit = None
                for p in order:
                    t = time.time()
                    r = subprocess.run([os.path.join(ROOT, "check.sh"), p, "quick"], capture_output=True, text=True, cwd=ROOT, env=env)
                    if r.returncode == 1:
                        hit = p
                        break
                    if r.returncode not in (0, 1):
                        log.write("RC%d %s %s:%d %s %s\n" % (r.returncode, p, fname, line, scope, what))
                caught += hit is not None
                if hit is None or hit not in order[:4]:
                    log.write("%s %s:%d %s %s\n" % (hit or "MISSED", fname, line, scope, what))
                    log.flush()
            open(os.path.join(top, "procmon_parser", fname), "w").write(src)
            print(fname, "total", total, "caught", caught, flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])

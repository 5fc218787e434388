#!/usr/bin/env python3
"""refac.py VARIANT.py [Cxx...]: apply a refactoring to a scratch copy of /repo, run its tests and these (all) quick checks.

VARIANT.py calls D(file, source): every top-level function, class or assignment and every method "class X: def m" of the
source replaces the one of that name (new ones go before the next replaced one), and R(file, old, new) replaces a text."""
import ast, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spans(tree):
    out = {}
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            a = min([n.lineno] + [d.lineno for d in n.decorator_list])
            out[n.name] = (a, n.end_lineno)
            if isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        a = min([m.lineno] + [d.lineno for d in m.decorator_list])
                        out[n.name + "." + m.name] = (a, m.end_lineno)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            out[n.targets[0].id] = (n.lineno, n.end_lineno)
    return out


class Variant(object):
    def __init__(self, top):
        self.top = top

    def path(self, f):
        return os.path.join(self.top, "procmon_parser", f)

    def D(self, f, src):
        src = src.strip("\n") + "\n"
        new = ast.parse(src)
        lines = src.splitlines(True)
        at = spans(new)
        pending = ""
        items = []
        for n in new.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                text = open(self.path(f)).read()
                open(self.path(f), "w").write("".join(lines[n.lineno - 1:n.end_lineno]) + text)
                continue
            if isinstance(n, ast.Expr):
                items.append((None, "".join(lines[n.lineno - 1:n.end_lineno]), n))
                continue
            name = n.targets[0].id if isinstance(n, ast.Assign) else n.name
            items.append((name, "".join(lines[at[name][0] - 1:at[name][1]]), n))
        for name, text, n in items:
            if name not in spans(ast.parse(open(self.path(f)).read())):
                pending += text + "\n\n"   # a new definition goes before the next replaced one
                continue
            if pending:
                lines = open(self.path(f)).read().splitlines(True)
                a = spans(ast.parse("".join(lines)))[name][0]
                lines[a - 1:a - 1] = [pending]
                open(self.path(f), "w").write("".join(lines))
                pending = ""
            self.put(f, name, text, n)
        assert not pending

    def put(self, f, name, text, n):
        src = open(self.path(f)).read()
        lines = src.splitlines(True)
        at = spans(ast.parse(src))
        if isinstance(n, ast.ClassDef) and name in at and getattr(n.body[0], "value", None) is not None and \
                getattr(n.body[0].value, "value", None) == "methods":
            tl = text.splitlines(True)
            for m in n.body[1:]:
                a = min([m.lineno] + [d.lineno for d in m.decorator_list]) - n.lineno
                b = m.end_lineno - n.lineno
                src = open(self.path(f)).read()
                lines = src.splitlines(True)
                at = spans(ast.parse(src))
                key = name + "." + m.name
                body = tl[a:b + 1]
                if key in at:
                    lines[at[key][0] - 1:at[key][1]] = body
                else:
                    lines[at[name][1]:at[name][1]] = ["\n"] + body
                open(self.path(f), "w").write("".join(lines))
            return
        lines[at[name][0] - 1:at[name][1]] = [text]
        open(self.path(f), "w").write("".join(lines))

    def R(self, f, old, new, count=1):
        src = open(self.path(f)).read()
        assert src.count(old) >= 1, (f, old)
        assert count == 0 or src.count(old) == count, (f, old, src.count(old))
        open(self.path(f), "w").write(src.replace(old, new))


def main(argv):
    variant, props = argv[0], argv[1:]
    top = tempfile.mkdtemp(prefix="refac.", dir="/tmp")
    shutil.rmtree(top)
    shutil.copytree("/repo", top, symlinks=True)
    try:
        v = Variant(top)
        exec(compile(open(variant).read(), variant, "exec"), {"D": v.D, "R": v.R})
        if os.environ.get("SHOW"):
            subprocess.call(["git", "-C", top, "diff", "--stat"])
        out = os.environ.get("DIFF")
        if out:
            open(out, "wb").write(subprocess.check_output(["git", "-C", top, "diff"]))
        if not os.environ.get("NOTEST"):
            code = "import sys; sys.path.insert(0, %r); import pytest; sys.exit(pytest.main(['-q','-x','-p','no:cacheprovider', %r]))"
            r = subprocess.run(["/opt/venv/bin/python", "-c", code % (top, top + "/tests")], cwd=top, capture_output=True, text=True)
            print("tests:", r.stdout.strip().splitlines()[-1:], flush=True)
            if r.returncode:
                print(r.stdout[-3000:], r.stderr[-3000:])
                return 1
        for p in sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, "harness")) if re.match(r"C\d\d\.py$", f)):
            if props and p not in props:
                continue
            r = subprocess.run([os.path.join(ROOT, "check.sh"), p, "quick"], capture_output=True, text=True, cwd=ROOT,
                               env=dict(os.environ, VERIF_TARGET=top))
            if r.returncode or "exhaustive=True" not in r.stdout:
                print(p, "rc=%d" % r.returncode, (r.stdout + r.stderr)[:1500], flush=True)
        print("done", variant)
    finally:
        if os.environ.get("KEEP"):
            print("kept", top)
            return
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

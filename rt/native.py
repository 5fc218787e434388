"""Replay of harness scenarios on the real, uninstrumented code.

usage: native.py <jobs.json>   (list of {property, scenario, inputs}); prints one JSON result per job
       native.py --one <file>  (a replay file written by a check); exit 1 if the property is violated
"""
import json
import os
import resource
import shutil
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("VERIF_TARGET", "/repo"), ROOT]
warnings.simplefilter("ignore")

import importlib  # noqa: E402
import datetime  # noqa: E402
from rt.common import Outcome, enter, norm  # noqa: E402


class CheckFailed(Exception):
    pass


class Killed(Exception):
    """an assumption of the scenario does not hold for these inputs"""


def diff(a, b, path=""):
    if isinstance(a, bool) != isinstance(b, bool):
        return "%s: %r is not %r" % (path, a, b)
    for t in (int, str, (bytes, bytearray), float, list, tuple, dict, datetime.datetime):
        if isinstance(a, t) != isinstance(b, t):
            return "%s: %r is not %r" % (path, a, b)
    if isinstance(a, dict):
        ka, kb = list(a.keys()), list(b.keys())
        if ka != kb:
            return "%s: keys %r are not %r" % (path, ka, kb)
        for k in ka:
            d = diff(a[k], b[k], "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r is not %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if type(a).__module__.startswith("procmon_parser") and not isinstance(a, int):
        if type(a) is not type(b):
            return "%s: %r is not %r" % (path, a, b)
        return diff(vars(a), vars(b), path + "." + type(a).__name__)
    if a != b:
        return "%s: %r is not %r" % (path, a, b)
    return None


class NatCtx(object):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.observed = []
        self.covered = set()
        self.folder = None

    def _in(self, name, default=None):
        if name in self.inputs:
            return self.inputs[name]
        return default

    def bits(self, name, n):
        return self._in(name, 0)

    def u8(self, name): return self._in(name, 0)
    def u16(self, name): return self._in(name, 0)
    def u32(self, name): return self._in(name, 0)
    def u64(self, name): return self._in(name, 0)
    def s32(self, name): return self._in(name, 0)
    def s64(self, name): return self._in(name, 0)

    def int(self, name, lo, hi):
        return self._in(name, lo)

    def bool(self, name):
        return self._in(name, False)

    def bytes(self, name, n):
        return bytes.fromhex(self._in(name, {"hex": "00" * n})["hex"])

    def text(self, name, n, kind="char"):
        return "".join(map(chr, self._in(name, {"units": [65] * n})["units"]))

    def file(self, data):
        """the path of a file that holds these bytes"""
        if self.folder is None:
            self.folder = tempfile.mkdtemp(prefix="verif")
        path = os.path.join(self.folder, "%d.PML" % len(os.listdir(self.folder)))
        with open(path, "wb") as f:
            f.write(data)
        return path

    def choice(self, name, options):
        return options[self._in(name, 0)]

    def date(self, name, lo=1, hi=9999):
        """(year, month, day, days since 1970-01-01)"""
        y, m, d = self._in(name + ".y", 1970), self._in(name + ".m", 1), self._in(name + ".d", 1)
        return y, m, d, (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days

    def assume(self, cond):
        if not cond:
            raise Killed()

    def check(self, cond, label):
        self.observed.append([label, bool(cond)])
        if not cond:
            raise CheckFailed("%s" % label)

    def eq(self, a, b, label):
        self.observed.append([label, norm(a)])
        d = diff(a, b)
        if d:
            raise CheckFailed("%s: %s" % (label, d))

    def outcome(self, f, *a, **k):
        try:
            r = f(*a, **k)
        except Exception as e:
            return Outcome("err", e)
        return Outcome("ok", r)

    def fail(self, label):
        raise CheckFailed(label)

    def cover(self, label):
        self.covered.add(label)

    def concrete(self, v):
        return v

    def concrete_int(self, v):
        return v

    def either(self, *conds):
        return any(conds)

    def both(self, *conds):
        return all(conds)

    def ite(self, c, a, b):
        return a if c else b


_mods = {}


def find_scenario(prop, name, tier):
    if (prop, tier) not in _mods:
        m = importlib.import_module("harness." + prop)
        _mods[prop, tier] = {s.name: s for s in m.scenarios(tier)}
    return _mods[prop, tier][name]


# zones without a seasonal rule of their own in the machine's database: one ahead of UTC, two that change by season
ZONES = ["XST-05:43:21", "XST+03:17XDT+02:17,M3.2.0,M11.1.0", "XST-09:30XDT-10:30,M10.1.0,M4.1.0"]


def run_job(job):
    """local time is tried in several zones where it matters"""
    for zone in ZONES if job["property"] == "C38" else ZONES[:1]:
        os.environ["TZ"] = zone
        time.tzset()
        res = run_in_zone(job)
        if res["status"] == "failed":
            break
    return res


def run_in_zone(job):
    ctx = NatCtx(job["inputs"])
    s = find_scenario(job["property"], job["scenario"], job.get("tier", "quick"))
    enter(ctx, s)
    res = {"status": "ok"}
    try:
        s.fn(ctx)
    except CheckFailed as e:
        res = {"status": "failed", "why": str(e)[:2000]}
    except Killed:
        res = {"status": "killed"}
    except Exception as e:
        res = {"status": "failed", "why": "unexpected exception %s: %s" % (type(e).__name__, str(e)[:500])}
    finally:
        if ctx.folder is not None:
            shutil.rmtree(ctx.folder, ignore_errors=True)
    res["observed"] = ctx.observed
    return res


def main():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))   # like values.MEMORY
    if sys.argv[1] == "--one":
        with open(sys.argv[2]) as f:
            job = json.load(f)
        r = run_job(job)
        print("property %s, scenario %s" % (job["property"], job["scenario"]))
        print("inputs: %s" % json.dumps(job["inputs"]))
        if r["status"] == "failed":
            print("VIOLATED: %s" % r["why"])
            sys.exit(1)
        print("not violated (%s)" % r["status"])
        return
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    for j in jobs:
        try:
            r = run_job(j)
        except BaseException as e:  # report, never die in the middle of a batch
            r = {"status": "error", "why": repr(e)}
        sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush()


if __name__ == "__main__":
    main()

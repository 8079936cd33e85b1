"""Findings, parallel evaluation, evidence."""
import gc
import hashlib
import json
import multiprocessing
import os
import time

from .absval import AStr, Part

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")

_FN = None
_ITEMS = None


def _work(r):
    return [_FN(_ITEMS[i]) for i in range(*r)]


def pmap(fn, items, procs=None, chunk=None):
    """[fn(x) for x in items] on all cores; fn and items are inherited by fork, results are pickled."""
    global _FN, _ITEMS
    items = list(items)
    procs = procs or min(8, os.cpu_count() or 1)
    if len(items) < 24 or procs == 1 or os.environ.get("VERIF_SERIAL"):
        return [fn(x) for x in items]
    _FN, _ITEMS = fn, items
    chunk = chunk or max(1, min(64, len(items) // (procs * 6) or 1))
    ranges = [(i, min(i + chunk, len(items))) for i in range(0, len(items), chunk)]
    gc.freeze()
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        out = []
        for r in pool.imap(_work, ranges):
            out += r
    gc.unfreeze()
    return out


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.findings = {}
        self.counts = {}
        self.undecided = {}
        self.samples = []
        self.notes = []
        self.floors = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def finding(self, key, message, example=""):
        """key names the construct that breaks the rule; the first example is kept."""
        f = self.findings.get(key)
        if f is None:
            self.findings[key] = {"key": key, "message": message, "example": str(example), "occurrences": 1}
        else:
            f["occurrences"] += 1

    def undecide(self, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, what, least):
        """The run is void when fewer than `least` of something were decided: the rule has lost its anchor."""
        self.floors.append((what, least))

    # ------------------------------------------------------------- outcome
    def finish(self, rule, seed):
        known = read_known(self.pid)
        new = [f for k, f in sorted(self.findings.items()) if k not in known]
        old = [f for k, f in sorted(self.findings.items()) if k in known]
        broken = [(w, n, self.counts.get(w, 0)) for w, n in self.floors if self.counts.get(w, 0) < n]
        for f in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, f["key"], known[f["key"]]))
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": rule,
                "analysed": self.counts,
                "undecided": dict(sorted(self.undecided.items(), key=lambda x: -x[1])[:40]),
                "undecided_total": sum(self.undecided.values()),
                "samples": self.samples,
                "known_findings_seen": [f["key"] for f in old],
                "violations": new[:50],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1, default=str)
        if new:
            for f in new[:20]:
                path = os.path.join(VERIF, "evidence", "%s-%s.txt" % (self.pid, hashlib.sha1(f["key"].encode()).hexdigest()[:10]))
                with open(path, "w") as h:
                    h.write("property %s\nconstruct: %s\n%s\nexample: %s\noccurrences: %d\n" % (self.pid, f["key"], f["message"], f["example"], f["occurrences"]))
                print("%s: %s" % (f["key"], f["message"]))
                if f["example"]:
                    print("    e.g. " + f["example"])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            if len(new) > 20:
                print("... and %d more" % (len(new) - 20))
            return 1
        if broken:
            for w, n, c in broken:
                print("ANALYSIS-BROKEN property=%s only %d %s (expected at least %d)" % (self.pid, c, w, n))
            for w, n in list(ev["coverage"]["undecided"].items())[:5]:
                print("  undecided: %s (%d)" % (w, n))
            return 2
        print("property %s holds on everything analysed: %s; undecided %d" % (self.pid, ", ".join("%s %s" % (v, k) for k, v in self.counts.items()), sum(self.undecided.values())))
        return 0


def read_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as h:
            for line in h:
                line = line.rstrip("\n")
                if line.startswith("known: property=%s key=" % pid):
                    rest = line[len("known: property=%s key=" % pid) :]
                    key, _, desc = rest.partition(" :: ")
                    out[key] = desc
    return out


# ----------------------------------------------------------------------------------------------- differences


def shape(x):
    if x is None:
        return "nothing"
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            if x[0] in ("call", "type", "op", "set", "?", "not", "cast", "typector", "join") and len(x) > 1 and isinstance(x[1], str):
                return "%s %s" % (x[0], x[1])
            return x[0]
        return "list"
    if isinstance(x, str):
        return x if x.isupper() or len(x) < 12 else "text"
    if isinstance(x, AStr):
        return "text"
    return str(x)


def first_diff(a, b, path=""):
    """Where two neutral forms part: (place, what)."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ("q",) and b[:1] in (("select",), ("set",), ("values",), ("tablequery",)):
            b = ("q", (), b, (), None, None)
        elif b[:1] == ("q",) and a[:1] in (("select",), ("set",), ("values",), ("tablequery",)):
            a = ("q", (), a, (), None, None)
        la = shape(a)
        if la != shape(b) and not (la == "list" or shape(b) == "list"):
            return path, "%s becomes %s" % (la, shape(b))
        if la == "?":
            return path, "differs"
        here = la if la != "list" else path
        if len(a) != len(b):
            if la == "list" or shape(b) == "list":
                return path, "a list of %s becomes %s" % ("different length", "shorter" if len(b) < len(a) else "longer")
            return here, "%d parts become %d" % (len(a), len(b))
        # the deepest difference below
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                sub = here if la == "list" else "%s.%d" % (la, i)
                return first_diff(x, y, sub)
    return path, "%s becomes %s" % (shape(a), shape(b))


def leaves(x, out=None):
    """The user-given pieces in a neutral form."""
    out = [] if out is None else out
    if isinstance(x, tuple):
        if x[:1] == ("num",):
            out.append(x)
            return out
        if x[:1] == ("hole",):
            out.append(x)
            return out
        for y in x:
            leaves(y, out)
    elif isinstance(x, AStr):
        for p in x.parts:
            if isinstance(p, Part):
                out.append((p.kind, p.key))
    return out


def labels(x, out=None):
    out = [] if out is None else out
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] not in ("num",):
            out.append(shape(x))
        for y in x:
            labels(y, out)
    elif isinstance(x, str) and x.isupper():
        out.append(x)
    return out


def brief(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."

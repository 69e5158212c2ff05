"""Obligation bookkeeping, known findings, evidence and the exit protocol of a check."""
import json
import os
import pathlib
import resource
import sys
import time
import traceback

from .model import AnalysisError

ROOT = pathlib.Path(__file__).resolve().parent.parent


class Check:
    """Obligations of one property: each is discharged, violated or undecided."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obs = []          # (status, rule, fn, construct, msg, where, path)
        self.rules = {}        # rule -> description
        self.stats = {}
        self.assumptions = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self._seen = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, name, text):
        self.rules[name] = text

    def _add(self, status, rule, fn, construct, msg, where, path=()):
        k = (status, rule, fn, construct)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obs.append((status, rule, fn, construct, msg, where, tuple(path)))

    def ok(self, rule, fn, construct="", msg="", where=""):
        self._add("ok", rule, fn, construct, msg, where)

    def bad(self, rule, fn, construct, msg, where="", path=()):
        self._add("violation", rule, fn, construct, msg, where, path)

    def unsure(self, rule, fn, construct, msg, where=""):
        self._add("undecided", rule, fn, construct, msg, where)

    def decide(self, verdict, rule, fn, construct, msg="", where="", path=()):
        """verdict: True (holds), False (violated), None (undecided)."""
        if verdict is None:
            self.unsure(rule, fn, construct, msg, where)
        elif verdict:
            self.ok(rule, fn, construct, msg, where)
        else:
            self.bad(rule, fn, construct, msg, where, path)
        return verdict

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def require(self, cond, what):
        if not cond:
            raise AnalysisError(what)

    def failed(self, rule, fn, exc):
        """An analysis that could not be carried out: its obligations stay undecided."""
        self.unsure(rule, fn, "analysis", f"analysis not completed: {type(exc).__name__}: {str(exc)[:200]}")

    def guard(self, rule, fn, run):
        spent = time.time() - self.t0
        if spent > (60 if self.by("violation") else 500):
            self.unsure(rule, fn, "analysis", "not analysed: out of time")
            return None
        try:
            return run()
        except (AnalysisError, RecursionError) as e:
            self.failed(rule, fn, e)
        except Exception as e:  # a construct the analysis does not understand
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.failed(rule, fn, e)
        return None

    def cut_short(self):
        """The budget of the check is spent: what is not decided by now stays undecided."""
        self.unsure("budget", "", "analysis", f"not completed within {time.time() - self.t0:.0f} s; what remained was not analysed")
        return finish(self)

    def by(self, status):
        return [o for o in self.obs if o[0] == status]


def known_keys(pid):
    out = {}
    f = ROOT / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: "):
                d = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                if d.get("property") == pid:
                    out[d["key"]] = line[7:].split(" ", 2)[2] if line[7:].count(" ") >= 2 else ""
    return out


def finish(c, digest=""):
    """Write the evidence, print the verdict, return the exit code."""
    ev = pathlib.Path(os.environ.get("SA_EVID") or ROOT / "evidence")
    ev.mkdir(exist_ok=True)
    known = known_keys(c.pid)
    bad, listed = [], []
    for o in c.by("violation"):
        key = f"{o[1]}|{o[2]}|{o[3]}".replace(" ", "_")
        (listed if key in known else bad).append((key, o))
    undecided = c.by("undecided")
    good = c.by("ok")
    fns = sorted({o[2] for o in c.obs if o[2]})
    coverage = {
        "explanation": (
            f"Static analysis of the source in /repo (digest {digest}). Every obligation below was derived from the current "
            "source by the rule named with it, and is discharged, violated or left undecided; undecided ones are not claimed to hold."
        ),
        "obligations": len(c.obs),
        "discharged": len(good),
        "undecided": len(undecided),
        "violated": len(bad),
        "known_findings": len(listed),
        "functions_concerned": len(fns),
        "functions": fns[:80],
        "rules": c.rules,
        "obligations_by_rule": {r: {s: sum(1 for o in c.obs if o[1] == r and o[0] == s) for s in ("ok", "violation", "undecided")}
                                for r in sorted({o[1] for o in c.obs})},
        "samples": [f"{o[1]}: {o[2]} {o[3]} {o[4]} {o[5]}".strip()[:400] for o in good[:: max(1, len(good) // 25)][:25]],
        "undecided_list": [f"{o[1]}: {o[2]} {o[3]} {o[4]}"[:300] for o in undecided[:40]],
    }
    coverage.update(c.stats)
    data = {
        "property": c.pid, "tier": c.tier, "seed": c.seed, "level": "other", "coverage": coverage,
        "assumptions": c.assumptions, "wall_s": round(time.time() - c.t0, 3), "violations": len(bad),
    }
    (ev / f"{c.pid}.json").write_text(json.dumps(data, indent=1, default=str))
    for key, o in listed:
        print(f"KNOWN-FINDING: property={c.pid} {key} {o[4]}")
    if not bad:
        print(f"{c.pid}: {len(good)} obligations discharged, {len(undecided)} undecided, {len(listed)} known findings "
              f"({data['wall_s']:.1f} s)")
        if os.environ.get("SA_VERBOSE"):
            for o in undecided:
                print("  undecided", *o[1:6])
        return 0
    rp = ev / f"{c.pid}.violation.txt"
    lines = []
    for key, o in bad:
        lines.append(f"rule:      {o[1]} - {c.rules.get(o[1], '')}\nfunction:  {o[2]}\nconstruct: {o[3]}\nwhere:     {o[5]}\nproblem:   {o[4]}\nkey:       {key}")
        for p in o[6]:
            lines.append(f"  path: {p}")
        lines.append("")
    rp.write_text("\n".join(lines))
    for key, o in bad:
        print(f"{o[5] or o[2]}: [{o[1]}] {o[4]}")
    print(f"VIOLATION property={c.pid} replay={rp}")
    return 1


def overdue(c):
    spent = time.time() - c.t0
    if spent > float(os.environ.get("SA_BUDGET", 720)) or spent > 240 and c.by("violation"):
        return True
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 16 * 1024 * 1024  # in kB


def main(pid, box=None):
    import importlib
    sys.setrecursionlimit(30000)
    c = Check(pid)
    if box is not None:
        box.append(c)
    try:
        from .lab import Lab
        lab = Lab()
        mod = importlib.import_module(f"checks.{pid.lower()}")
        mod.run(c, lab)
        for group, what, e in lab.cache.get("allruns_errors", ()):
            c.failed("analysis", f"{group}.{what}", e)
        if not c.obs:
            raise AnalysisError("no obligations were derived from the source")
        return finish(c, lab.p.digest())
    except AnalysisError as e:
        if c.by("violation"):
            return finish(c)
        print(f"{pid}: the analysis cannot give a verdict: {e}", file=sys.stderr)
        return 3
    except Exception as e:  # a construct the analysis does not understand, outside any single obligation
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        if not c.obs:
            print(f"{pid}: the analysis cannot give a verdict: {type(e).__name__}: {e}", file=sys.stderr)
            return 3
        c.failed("analysis", "", e)
        return finish(c)

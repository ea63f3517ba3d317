"""One run of one check: collects what was covered and what failed, writes evidence and replay files."""
import hashlib
import json
import os
import re
import time
from collections import Counter

from vlib import env, tlc


class Ctx:
    def __init__(self, cid, tier, seed):
        self.cid, self.tier, self.seed = cid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.replayed = 0
        self.design_models = []
        self.samples = []
        self.failures = []          # (clause, detail, payload)
        self.ops = Counter()
        self.notes = {}
        self.tlc_wall = 0.0

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def seeds(self, k, salt):
        """k distinct seeds derived from VERIF_SEED"""
        h = int(hashlib.sha256(("%d/%s" % (self.seed, salt)).encode()).hexdigest()[:8], 16) % 10 ** 9
        return [h + i for i in range(k)]

    # -- design models ------------------------------------------------------------------------
    def design(self, module, cfg=None, **kw):
        r = tlc.design(module, cfg, **kw)
        self._count(r)
        self.design_models.append({"module": module, "config": cfg or module, "distinct_states": r.distinct,
                                   "states_generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        return r

    def refuted(self, module, cfg, **kw):
        """a mistaken design that the properties must refute"""
        r = tlc.refuted(module, cfg, **kw)
        self._count(r)
        self.design_models.append({"module": module, "config": cfg, "refuted": True, "distinct_states": r.distinct, "wall_s": round(r.wall, 1)})

    def _count(self, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.tlc_wall += r.wall

    # -- conformance --------------------------------------------------------------------------
    def relevant(self, clause):
        head = clause.split(".")[0].split("+")
        return "ANY" in head or self.cid in head

    def validate(self, module, traces, driver=None, kws=None, cfg=None, chunk=20000, **kw):
        """Check recorded traces against a trace specification; drivers that failed outright are failures themselves."""
        good, gk = [], []
        for i, t in enumerate(traces):
            k = kws[i] if kws else {}
            if t is None:
                continue
            if "_error" in t:
                self.fail("ANY.raise", t["_error"], {"module": module, "driver": driver, "kwargs": k, "traceback": t.get("_tb")})
                continue
            if not t["ev"]:
                continue
            good.append(t)
            gk.append(k)
        groups, size = [[]], 0
        for i, t in enumerate(good):
            if size > chunk:
                groups.append([])
                size = 0
            groups[-1].append(i)
            size += len(t["ev"])
        for g in groups:
            if not g:
                continue
            fails, r = tlc.validate(module, [good[i] for i in g], cfg=cfg, **kw)
            self._count(r)
            self.traces += len(g)
            for i in g:
                self.events += len(good[i]["ev"])
                for e in good[i]["ev"]:
                    self.ops["%s:%s" % (module, e.get("op", "?"))] += 1
            for (ti, li, clause, info) in fails:
                if self.relevant(clause):
                    i = g[ti]
                    self.fail(clause, info, {"module": module, "driver": driver, "kwargs": gk[i], "event": li + 1,
                                             "events_up_to_failure": good[i]["ev"][max(0, li - 6):li + 1],
                                             "trace_head": {k: v for k, v in good[i].items() if k != "ev"}})
        if good and len(self.samples) < 6:
            t = min(good, key=lambda t: len(json.dumps(t)))
            self.samples.append({"module": module, "driver": driver, "kwargs": gk[good.index(t)],
                                 "events": [_short(e) for e in t["ev"][:8]]})

    def replay(self, n):
        """n behaviours of the specification were stepped through the real code"""
        self.replayed += n

    def fail(self, clause, detail, payload):
        if self.relevant(clause):
            self.failures.append((clause, str(detail)[:2000], payload))

    def sample(self, x):
        if len(self.samples) < 8:
            self.samples.append(x)

    # -- outcome ------------------------------------------------------------------------------
    def finish(self):
        known = load_known(self.cid)
        fresh, seen_known = [], set()
        for f in self.failures:
            k = next((k for k in known if re.search(k["match"], f[0] + " " + f[1])), None)
            if k:
                seen_known.add(k["what"])
            else:
                fresh.append(f)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.cid, k["what"]))
        path = None
        if fresh:
            os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
            path = os.path.join(env.VERIF, "replays", "%s-%d.json" % (self.cid, self.seed))
            by = Counter(f[0] for f in fresh)
            with open(path, "w") as fh:
                json.dump({"property": self.cid, "tier": self.tier, "seed": self.seed, "clauses": by,
                           "failures": [{"clause": c, "detail": d, "replay": p} for c, d, p in first_of_each(fresh)]},
                          fh, indent=1, default=str)
            for c, d, p in first_of_each(fresh)[:8]:
                print("  %s (%d times): %s" % (c, by[c], d[:300]))
            print("VIOLATION property=%s replay=%s" % (self.cid, path))
        ev = {
            "property": self.cid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces + self.replayed,
                "recorded_traces": self.traces, "recorded_events": self.events,
                "specification_behaviours_replayed": self.replayed,
                "design_models": self.design_models,
                "events_by_kind": dict(sorted(self.ops.items())),
                "samples": self.samples or ["no trace"],
                **self.notes,
            },
            "assumptions": ["CPython, numpy and TLC behave as documented",
                            "exhaustive within the constants of each design model; recorded traces are a sample of the implementation's executions"],
            "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh),
        }
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", self.cid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s %s: %d states, %d recorded traces (%d events), %d replayed behaviours, %.0f s, %d violations" % (
            self.cid, self.tier, self.states, self.traces, self.events, self.replayed, ev["wall_s"], len(fresh)))
        return 1 if fresh else 0


def first_of_each(fails):
    seen, res = Counter(), []
    for f in fails:
        if seen[f[0]] < 2:
            res.append(f)
        seen[f[0]] += 1
    return res


def _short(e):
    s = json.dumps(e)
    return e if len(s) < 600 else s[:600] + "..."


def load_known(cid):
    """lines 'known: property=<id> match=<regex> ; <what>' of known-findings.txt; 'fixed:' lines suppress nothing"""
    res = []
    try:
        for line in open(os.path.join(env.VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) match=(.*?) ; (.*)$", line.strip())
            if m and m.group(1) == cid:
                res.append({"match": m.group(2), "what": m.group(3)})
    except OSError:
        pass
    return res

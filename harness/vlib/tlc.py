"""Running TLC and reading its results."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from vlib import env

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out, wall):
        self.out = out
        self.wall = wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else None
        self.ok = "Model checking completed. No error has been found." in out \
            or "Finished in" in out and "Error:" not in out
        self.violated = re.findall(r"Error: (?:Invariant|Action property|Temporal properties|The following).*", out)

    def printed(self, tag):
        """JSON payloads printed by PrintT("<tag>" \\o ToJson(..)), sorted: workers print in any order."""
        res = []
        pre = '"%s' % tag
        for line in sorted(x for x in self.out.splitlines() if x.startswith(pre)):
            res.append(json.loads(json.loads(line)[len(tag):]))
        return res


def run(module, cfg=None, env_vars=None, workers=8, timeout=840, extra=(), heap="6g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg in a scratch copy of spec/. Raises TLCError on machinery failure."""
    work = tempfile.mkdtemp(prefix="tlc.", dir=env.SCRATCH)
    try:
        for f in os.listdir(env.SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                os.symlink(os.path.join(env.SPEC, f), os.path.join(work, f))
        e = dict(os.environ)
        e.update(env_vars or {})
        jtmp = os.path.join(work, "jtmp")
        os.mkdir(jtmp)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + jtmp, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out on %s/%s" % (module, cfg))
        out = p.stdout.decode("utf-8", "replace")
        return Result(out, time.time() - t)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def design(module, cfg=None, **kw):
    """Exhaustive check of a design model; an error in it is an error of the machinery, never a verdict on the code."""
    r = run(module, cfg, **kw)
    if not r.ok:
        raise TLCError("design model %s/%s does not hold:\n%s" % (module, cfg, r.out[-6000:]))
    return r


def refuted(module, cfg, **kw):
    """A design with a known mistake: TLC must find it, or the properties it is checked against say too little."""
    r = run(module, cfg, **kw)
    if not r.violated and "Error: Temporal property" not in r.out:
        raise TLCError("design model %s/%s should be refuted:\n%s" % (module, cfg, r.out[-3000:]))
    return r


def validate(module, traces, cfg=None, workers=8, **kw):
    """Validate traces (lists of events) with the trace specification.

    The specification evaluates every clause for every event and prints one @V line per failed clause and
    one @D line per finished trace.  A trace with an event the specification cannot even evaluate (no such
    action, values outside its types) is no behaviour of it: it is isolated and reported as such.
    Returns (failures, Result) with failures = [(trace index, event index, clause, info)]."""
    fails, done, r = _validate(module, traces, cfg, workers, **kw)
    if len(done) != len(traces) or not r.ok:
        total = r
        todo, bad = [list(range(len(traces)))], []
        fails = []
        while todo and len(bad) < 4:
            g = todo.pop()
            f, d, r1 = _validate(module, [traces[i] for i in g], cfg, workers, **kw)
            total.distinct += r1.distinct
            total.generated += r1.generated
            total.wall += r1.wall
            if r1.ok and len(d) == len(g):
                fails += [(g[x[0]],) + x[1:] for x in f]
            elif len(g) == 1:
                if "Error:" not in r1.out:
                    raise TLCError("trace validation with %s failed\n%s" % (module, r1.out[-6000:]))
                m = re.search(r"Error:.*(?:\n.*){0,6}", r1.out)
                bad.append((g[0], max(0, r1.distinct - 1), "ANY.no_behaviour", "the specification cannot take this step: " + m.group(0)[:800]))
            else:
                todo += [g[:len(g) // 2], g[len(g) // 2:]]
        if not bad:
            raise TLCError("trace validation with %s failed: %d of %d traces finished\n%s" % (module, len(done), len(traces), r.out[-6000:]))
        fails, r = fails + bad, total
    fails.sort(key=lambda x: (x[0], x[1], x[2]))
    return fails, r


def _validate(module, traces, cfg, workers, **kw):
    fd, path = tempfile.mkstemp(suffix=".json", dir=env.SCRATCH)
    with os.fdopen(fd, "w") as f:
        json.dump(traces, f)
    try:
        r = run(module, cfg, env_vars={"TRACE_FILE": path}, workers=workers, **kw)
    finally:
        os.unlink(path)
    return [(v["t"] - 1, v["l"] - 1, v["c"], v.get("x")) for v in r.printed("@V")], set(r.printed("@D")), r

"""Generates spec/FixTables.tla: fixed point tables of ln, exp(-x) and the normal distribution function."""
import math, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seq(name, xs, per=16):
    out = [name + " == <<"]
    for i in range(0, len(xs), per):
        out.append("  " + ", ".join(map(str, xs[i:i + per])) + ("," if i + per < len(xs) else ""))
    out.append(">>")
    return "\n".join(out)
ln = [round(math.log(n) * 10**6) for n in range(1, 2050)]
ex = [round(math.exp(-i * 0.005) * 10**6) for i in range(0, 3601)]
ph = [round(0.5 * (1 + math.erf(i / 100 / math.sqrt(2))) * 10**6) for i in range(0, 601)]
open(os.path.join(V, "spec", "FixTables.tla"), "w").write("\n".join([
 "------------------------------ MODULE FixTables -------------------------------",
 "(* Generated by tools/mktables.py; all values times 10^6.                         *)",
 "(* LnTab[n] = ln n; ExpTab[i+1] = exp(-i/200); PhiTab[i+1] = Phi(i/100).            *)",
 seq("LnTab", ln), seq("ExpTab", ex), seq("PhiTab", ph),
 "==============================================================================="]) + "\n")

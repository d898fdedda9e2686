"""Writes spec/NormTable.tla: the standard normal distribution and density, spacing 1/32 on [0, 6]."""
import math
P = lambda v: [v[i:i + 12] for i in range(0, len(v), 12)]
cdf = [round(1e6 * 0.5 * (1 + math.erf(i / 32 / math.sqrt(2)))) for i in range(193)]
den = [round(1e6 * math.exp(-(i / 32) ** 2 / 2) / math.sqrt(2 * math.pi)) for i in range(193)]
with open("spec/NormTable.tla", "w") as f:
    f.write("---- MODULE NormTable ----\n(* NORMCDF[i+1] = round(10^6 Phi(i/32)), NORMPDF[i+1] = round(10^6 phi(i/32)), i = 0..192; written by tools/ *)\n")
    for n, t in (("NORMCDF", cdf), ("NORMPDF", den)):
        f.write(f"{n} == <<\n" + ",\n".join(", ".join(map(str, r)) for r in P(t)) + ">>\n")
    f.write("====\n")

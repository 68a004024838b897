#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from the fix commits of /repo (run by hand, never by a check)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
    ("when allocating threw", "K01"), ("when allocating its memory threw", "K01"), ("when growing the storage threw", "K01"), ("push_back was noexcept", "K01"), ("when leaving the fallback", "K01"),
    ("operator< ran out", "B03"), ("post-increment", "B02"), ("AppendBits", "B04"), ("Write of zero", "B04"),
    ("FixedVector copy assignment", "V03"), ("FixedVector move assignment", "V03"), ("FixedVector insertions", "V01"),
    ("FixedVector remains", "V04"), ("StackVector insertions", "V02"), ("StackVector and StackArray remain", "V04"),
    ("StackVector moves", "V02"), ("StackArray moves", "V02"), ("MemoryPool Reset", "M01"), ("MemoryPool move", "M02"),
    ("MemoryPool gives", "M02"), ("MemoryPool RetrieveEntryIndex", "M01"), ("CallOnExit", "O01"),
    ("Signal ConnectionGuard", "S02"), ("Signal left null", "S02"), ("Signal ", "S01"), ("FunctionRef", "G01"), ("OffsetOf", "A01"), ("CountOf", "A01"), ("Constants.hpp", "X01"), ("long double constants", "X01"), ("compute Mod exactly", "X01"), ("TypeName", "Y01"), ("FunctionTraits", "Y01"),
    ("Result", "R01"), ("PrivateImpl", "O02"), ("Movable", "O03"), ("SparsePtr", "P01"), ("EnumArray", "E01"), ("Flags", "F01"),
    ("Align", "N02"), ("IsPow2", "N02"), ("IntegralLog2", "N02"), ("IntegralPow", "N02"), ("NumberEquals", "N02"), ("Approach", "N02"), ("NearestPowerOfTwo", "N02"), ("Mod", "N02"), ("NazaraAssert", "D01"),
    ("FindLastBit", "N01"), ("SwapBytes", "N01"), ("ArithmeticRightShift", "N01"), ("ClearBit", "N01"), ("Bit", "N01"),
    ("FNV", "H01"), ("Hash", "H01"), ("SafeCast", "C01"), ("TypeList", "T01"), ("List", "T01"), ("Path", "U01"),
]
head = ["# Known findings. 'finding:' lines are defects recorded and not repaired (suppressed one by one by the checks);",
        "# 'fixed:' lines are history and suppress nothing."]
p = os.path.join(V, "known-findings.txt")
keep = [x.rstrip("\n") for x in open(p) if x.startswith("finding:")] if os.path.exists(p) else []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for ln in log:
    h, s = ln.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    pr = next((b for a, b in PROP if a in s), "??")
    out.append("fixed: property=%s %s %s" % (pr, h, s[5:]))
open(p, "w").write("\n".join(head + keep + out) + "\n")
print("\n".join(out))

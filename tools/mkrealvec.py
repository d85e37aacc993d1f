#!/usr/bin/env python3
"""Generates spec/RealVec.tla (operator signatures) from spec/java/RealVec.java."""
import re, os
here = os.path.dirname(os.path.abspath(__file__)); sp = os.path.join(here, "..", "spec")
src = open(os.path.join(sp, "java", "RealVec.java")).read()
out = ["---------------------------- MODULE RealVec ----------------------------",
"(* Real vectors for TLC.  A real vector is a TLA+ string: either decimal doubles",
"   separated by blanks (\"1.5 -2 nan\") or an interned handle produced by one of",
"   the operators below.  A scalar is a vector of length one.  The operators are",
"   evaluated by spec/java/RealVec.java (TLC module override) in IEEE double",
"   arithmetic; the TLA+ bodies are place-holders that TLC never evaluates.",
"   Generated by tools/mkrealvec.py. *)",
"EXTENDS Naturals, Sequences", ""]
for m in re.finditer(r"/\*\*\s*(.*?)\s*\*/\s*public static Value (\w+)\((.*?)\)", src, re.S):
    doc, name, args = m.groups()
    a = [x.split()[-1] for x in args.split(",") if x.strip()]
    out.append("\\* " + " ".join(doc.split()))
    out.append("%s%s == CHOOSE zz_ \\in {\"\"} : TRUE" % (name, "(" + ", ".join(a) + ")" if a else ""))
out.append("=" * 72)
open(os.path.join(sp, "RealVec.tla"), "w").write("\n".join(out) + "\n")

#!/usr/bin/env python3
"""tools/fixed.py Cxx [rev] : records /repo's commit as fixed for a property"""
import os, subprocess, sys
rev = sys.argv[2] if len(sys.argv) > 2 else "HEAD"
h, s = subprocess.check_output(["git", "-C", os.environ.get("TS_REPO", "/repo"), "log", "-1", "--format=%h\t%s", rev], text=True).strip().split("\t")
line = "fixed: property=%s %s %s\n" % (sys.argv[1], h, s.removeprefix("fix: "))
p = "/verif/known_findings.txt"
t = open(p).read()
if line not in t:
    open(p, "a").write(line)
    print(line.strip())

#!/usr/bin/env python3
"""replay.py <contract file stem> <replay file>: run the contract natively (sanitizers on) on the recorded input."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, rp = sys.argv[1:3]
src = os.path.join(V, "contracts", f + ".cpp")
flags = []
for l in open(src):
    if l.startswith("//@flags"):
        flags += l[8:].replace("$VERIF", V).split()
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call(["clang++-18", "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=undefined,address", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all", "-DVP_NATIVE", "-DSAMURAI_VERIF",
                           "-DFLUX_CONTAINER_xtensor", "-I" + V + "/include", "-I/repo/include", *flags, src, V + "/include/vp_native.cpp", "-lfmt", "-lpthread", "-o", d + "/a"])
    sys.exit(subprocess.call([d + "/a", "replay", rp]))

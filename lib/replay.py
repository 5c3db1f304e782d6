#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness of a counterexample against /repo's
current headers and run it natively with the recorded inputs."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
import check
text = open(sys.argv[1]).read()
get = lambda k: re.search(r"^#%s (.*)$" % k, text, re.M).group(1)
tmp = tempfile.mkdtemp()
try:
    inc17, inc20, _ = check.overlay(tmp)
    inc = inc17 if get("std") == "17" else inc20
    bad = 0
    for opts in (["-O0", "-fsanitize=address"], ["-O2"]):
        exe = os.path.join(tmp, "r")
        subprocess.check_call([check.CLANG, "-w", "-g1", "-I" + inc, "-I" + os.path.join(ROOT, "harness"), "-DVH_NATIVE", "-DENTRY=" + get("entry")]
            + get("flags").split() + opts + [os.path.join(ROOT, "harness", get("src")), os.path.join(HERE, "replay.cpp"), "-o", exe])
        for fill in ("165", "0", "255"):
            p = subprocess.run([exe, sys.argv[1], fill], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"))
            print(" ".join(opts), "fill", fill, "exit", p.returncode)
            bad |= p.returncode != 0
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(tmp)

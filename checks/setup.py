#!/usr/bin/env python3
"""Nothing is prebuilt (each check compiles its harnesses against the current /repo); verify the tools are there."""
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <vector>\nint main(){std::vector<int> v(3);return v[0];}\n")
    for cc, f in (("g++", "-fsanitize=address,undefined"), ("clang++", "-fsanitize=thread")):
        exe = os.path.join(d, "a")
        r = subprocess.run([cc, "-std=c++17", f, src, "-o", exe]).returncode or subprocess.run([exe]).returncode
        if r:
            sys.exit("setup: %s %s does not work" % (cc, f))
finally:
    shutil.rmtree(d)
print("setup ok")

#!/usr/bin/env python3
"""Checks that the tools the checks need are present and that the shim compiles; builds nothing persistent."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
cc = next((c for c in ("clang++-18", "clang++") if shutil.which(c)), None)
if cc is None or shutil.which("g++") is None:
    sys.exit("clang++ and g++ are required")
d = tempfile.mkdtemp(prefix="neo-mc-setup-")
try:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write('#include <mdspan/mdarray.hpp>\n#include <mdspan/mdspan.hpp>\nint main(){Kokkos::Experimental::mdarray<int,Kokkos::dextents<unsigned long,1>> a{3};a(2)=1;return a(2)-1;}\n')
    subprocess.run([cc, "-std=c++20", "-fsanitize=address,undefined", "-I" + V + "/shim", src, "-o", d + "/t"], check=True)
    subprocess.run([d + "/t"], check=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
finally:
    shutil.rmtree(d, ignore_errors=True)
print("setup ok")

"""Builds everything the checks need once (each check rebuilds what is missing by itself)."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from zsv import build
t = time.time()
build.prepare("jar", "jrt", "jsrv", "cpp", "pch", "pyb")
print("built in %.1f s" % (time.time() - t))

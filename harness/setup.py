#!/usr/bin/env python3
"""Checks that what the checks need is there: the tools, and a build of the working tree (thrown away)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import impls

b = impls.Build()
try:
    b.start(cli=True)
    b.wait()
    for n in impls.ALL:
        i = impls.make(n, b)
        print(n, i.one("A", "", "latkerlo"))
        i.close()
finally:
    b.close()

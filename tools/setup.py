#!/usr/bin/env python3
"""Builds the fact extractor (and warms the fact cache)."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
sys.dont_write_bytecode = True
import model  # noqa: E402

m = model.load()
print("%d functions in %d translation units" % (len(m.functions), len(m.units)))

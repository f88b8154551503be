#!/usr/bin/env python3
"""Builds library and drivers once (checks rebuild whatever changed)."""
import glob, os, sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build
d=sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(build.V,'harness','*.cpp')))
print(build.build(d,'asan'))

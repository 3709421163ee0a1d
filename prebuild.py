#!/usr/bin/env python3
"""setup: builds the shared tools and the plotter from /repo's current tree (every check does the same again when the tree differs)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build as B
B.build([B.plotter(), B.plotcheck(), B.perturb(), B.iotrace()])
print("built", B.tree_hash())

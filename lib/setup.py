#!/usr/bin/env python3
"""Warms the Go build cache and checks that the specifications parse."""
import os, sys, subprocess
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gv.build import Build, VERIF
b = Build()
print("prover:", os.path.exists(b.goeland()))
for m in sorted(f for f in os.listdir(os.path.join(VERIF, "spec")) if f.endswith(".tla")): print("spec:", m)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

#!/usr/bin/env python3
"""Checks the tool chain; every check builds its own simulation from /repo's current tree."""
import shutil, sys, os
need = ["clang++", "clang", "ld.lld", "g++"]
miss = [n for n in need[:2] if not shutil.which(n)]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("setup: missing " + ", ".join(miss) if miss else "setup: ok")
sys.exit(1 if miss else 0)

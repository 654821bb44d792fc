#!/usr/bin/env python3
"""setup_cmd: builds the working tree and the hooked runtimes once, so that a first check starts warm."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
I = build()
I.hooked_runtime()
I.hooked_runtime(asan=True)
print("ready:", I.root)

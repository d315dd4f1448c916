"""Builds the generator variants and the engines once, from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import harness, glob
for v in VARIANTS:
    build_coderdbc(v)
for e in glob.glob(os.path.join(LIB, "*.c")):
    if os.path.basename(e).startswith("engine"):
        harness.engine_obj(os.path.basename(e))
print("ready")

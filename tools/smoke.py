#!/opt/venv/bin/python
"""setup: nothing to build; make sure the engine and the toolkit import."""
import os
import sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/repo/src"]
import symx  # noqa
import z3  # noqa
from symx import core, harness, npshim  # noqa
import aws.osml.photogrammetry  # noqa

print("ok", z3.get_version_string())

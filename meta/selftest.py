#!/opt/venv/bin/python
"""setup_cmd: nothing to build; verifies that the framework and the code under test can be imported."""

import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "vendor"), "/repo/src"]

import hypothesis  # noqa: E402

import cognitivefactory.interactive_clustering as package  # noqa: E402
from vp.engine import RandDraw, ReplayDraw  # noqa: E402

draw = RandDraw("1")
values = [draw.int(0, 9) for _ in range(20)]
again = ReplayDraw(draw.record)
assert values == [again.int(0, 9) for _ in range(20)]
assert os.path.abspath(package.__file__).startswith("/repo/src/"), package.__file__
print("hypothesis", hypothesis.__version__, "code under test:", package.__file__)

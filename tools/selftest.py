"""Nothing to build: makes sure that the tools the checks need are there and that the code under test can be imported."""
import os
import sys

sys.dont_write_bytecode = True
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
assert sys.version_info >= (3, 12), sys.version
assert hasattr(sys, "monitoring")
from sim import real  # noqa: E402

real.R()
print("ok")

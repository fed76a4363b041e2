"""pytest plugin: the tests import fastkml's instrumented modules."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vf import rewrite  # noqa: E402

rewrite.install(os.environ.get("VF_REPO", "/repo"))
import fastkml  # noqa: E402

assert hasattr(fastkml, rewrite.HOOK)

"""Print, per property, the contracts grouped by family (for DESIGN.md)."""
import collections
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import worker  # noqa: E402
worker.init("concrete", os.environ.get("VF_REPO", "/repo"))
hs = worker.load_specs().values()
for p in [f"C{i:02}" for i in range(1, 21)]:
    c = collections.Counter((h.mode, h.name.split(":")[0]) for h in hs if p in h.props)
    print(p, ", ".join(f"{n} {k[1]}[{k[0][0]}]" for k, n in sorted(c.items())))

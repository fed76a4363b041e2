"""Run the repository's own tests on the instrumented modules (vf/rewrite.py).

    /opt/venv/bin/python -B tools/instrumented_tests.py [pytest arguments]

This is a self-test of the verifier, not a check of /repo: with concrete
operands every hook has to perform the original operation, so the tests have
to pass exactly as they do without the instrumentation."""
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")

with tempfile.TemporaryDirectory() as tmp:
    env = dict(os.environ, PYTHONPATH=os.path.join(ROOT, "tools") + ":/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1",
               HYPOTHESIS_STORAGE_DIRECTORY=tmp, TZ="UTC", LANG="C.UTF-8")
    args = sys.argv[1:] or ["tests", "-n", "6", "--dist", "loadfile"]
    sys.exit(subprocess.call([sys.executable, "-B", "-m", "pytest", "-q", "-p", "vf_instrumented", "-p", "no:cacheprovider", "-p", "vp_hypothesis", "--hypothesis-profile=vp",
                              "--rootdir=" + REPO, *args], cwd=REPO, env=env))

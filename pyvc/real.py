"""Import of the code under verification from /repo's working tree."""
import os
import sys

REPO = os.environ.get("NESSAID_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"      # never read a stale cache either
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if SITE not in sys.path:
    sys.path.append(SITE)
sys.setrecursionlimit(20000)

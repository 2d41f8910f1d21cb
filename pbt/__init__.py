"""Property-based checks. The library under test is the one of PBT_REPO (/repo)."""
import os
import sys

sys.path.insert(0, os.environ.get("PBT_REPO", "/repo"))

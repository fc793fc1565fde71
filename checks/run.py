"""python3-vt checks/run.py <property>: decide one property on /repo's current tree."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO_COPY", "/repo"))
os.environ.setdefault("LANG", "C.UTF-8")

if __name__ == "__main__":
    m = importlib.import_module("checks.%s" % sys.argv[1].lower())
    sys.exit(m.main())

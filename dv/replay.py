"""replay.py FILE: runs the recorded failing input against the real code again."""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.environ.get("DV_REPO", "/repo"))
os.environ.setdefault("DIFF_DIFF_BACKEND", "python"); os.environ.setdefault("MPLBACKEND", "Agg")
import dv
from dv import harness as hz
b = json.load(open(sys.argv[1]))
importlib.import_module("dv.props." + b["property"].lower())
h = hz.REG[(b["property"], b["harness"])]
if b.get("seed") is None:
    print("no failing input recorded; failed obligations:"); print(json.dumps(b["failed_obligations"], indent=1)); sys.exit(1)
q = hz.run_concrete(h, b["seed"], b["overrides"])
print(q[:3]); sys.exit(1 if q[0] == "viol" else 0)

import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ["FORUST_PKG"])
import pc

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        _, _, prop, tier, name, idx = sys.argv
        sys.exit(pc.replay(importlib.import_module(prop.lower()).spaces(tier == "thorough"), name, int(idx)))
    prop, tier = sys.argv[1], sys.argv[2]
    sys.exit(pc.main(prop, tier, importlib.import_module(prop.lower()).spaces(tier == "thorough"), sys.argv[3] if len(sys.argv) > 3 else None))

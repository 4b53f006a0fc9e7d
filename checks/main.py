import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

if __name__ == "__main__":
    prop, tier = sys.argv[1], sys.argv[2]
    replay = None
    if len(sys.argv) > 4 and sys.argv[3] == "replay":
        replay = os.path.abspath(sys.argv[4])
    mod = importlib.import_module("p_" + prop.lower())
    sys.stdout.flush()
    code = common.main(mod, tier, replay)
    sys.stdout.flush()
    os._exit(code)

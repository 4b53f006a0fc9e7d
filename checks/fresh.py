"""Solves one model in this fresh process and prints its results as JSON (used by C19)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings

warnings.simplefilter("ignore")
import p_c19

if __name__ == "__main__":
    job = json.load(sys.stdin)
    s = p_c19.solve(p_c19.construct(job["spec"], job["kind"]), job["kind"], job["spec"])
    out = [x.tolist() for x in p_c19.results(s, job["kind"])]
    print("RESULT " + json.dumps(out))
    sys.stdout.flush()
    os._exit(0)

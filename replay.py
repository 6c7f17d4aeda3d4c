#!/usr/bin/env python3
"""Runs a recorded violation again on /repo's working tree:
python3 replay.py out/C05-seed1.json"""
import json, shutil, sys, tempfile
import check


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    work = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        exe = check.build(check.PROPS[r["property"]]["area"], work)
        if r.get("history"):
            again = check.after_history(exe, r["property"], r["trace_module"], r["history"], work)
        else:
            again = check.confirm(exe, r["property"], r["trace_module"], r["event"], work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if again:
        print(json.dumps(again))
        print("still rejected by", r["trace_module"])
        return 1
    print("accepted")
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""runbugs.py [ID...]: applies each seeded bug to /repo, runs its property's check, undoes it."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
for b in ids:
    prop = None
    if ":" in b:
        b, prop = b.split(":")
    d = HERE + "/seeded/" + b
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout == b""
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        p = subprocess.run(["python3", "check.py", prop], cwd=HERE, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    lines = [l for l in p.stdout.split("\n") if l.strip()]
    print("%s %s %s rc=%d %.0fs  %s" % ("caught" if p.returncode == 1 else "MISSED", b, prop, p.returncode, time.time() - t, (lines[0] if lines else "")[:170]), flush=True)

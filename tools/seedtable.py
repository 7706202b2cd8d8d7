#!/usr/bin/env python3
"""seedtable.py [--all] [id...]: run the property's quick check (--all: every check) against
planted changes, one at a time, in /repo, and keep the outcome in seeded/RESULTS.json.
seedtable.py --table prints the table of DESIGN.md. Not used by any check."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
RES = os.path.join(SEED, "RESULTS.json")

def load():
    return json.load(open(RES)) if os.path.exists(RES) else {}

def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)

def run(prop):
    t = time.time()
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    p = subprocess.run([sys.executable, os.path.join(HERE, "tools/check.py"), prop], cwd=HERE, env=env,
                       capture_output=True, text=True)
    hit = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
    return hit, p.returncode, round(time.time() - t), p.stdout + p.stderr

def table():
    r = load()
    print("| change | property | caught by |")
    print("|---|---|---|")
    for i in sorted(os.listdir(SEED)):
        m = os.path.join(SEED, i, "meta.json")
        if os.path.exists(m):
            p = json.load(open(m))["property"]
            c = r.get(i, {})
            print(f"| {i} | {p} | {', '.join(k for k in sorted(c) if c[k]) or 'not caught'} |")

def main():
    a = sys.argv[1:]
    if a == ["--table"]:
        return table()
    every = "--all" in a
    ids = [x for x in a if x != "--all"] or sorted(x for x in os.listdir(SEED) if os.path.isdir(os.path.join(SEED, x)))
    claims = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    assert not git("status", "--porcelain").stdout.strip()
    for i in ids:
        d = os.path.join(SEED, i)
        p = json.load(open(os.path.join(d, "meta.json")))["property"]
        ap = git("apply", os.path.join(d, "patch.diff"))
        if ap.returncode:
            print(i, "does not apply", ap.stderr); continue
        try:
            for c in (claims if every else [p]):
                hit, rc, t, out = run(c)
                r = load(); r.setdefault(i, {})[c] = hit
                json.dump(r, open(RES, "w"), indent=1, sort_keys=True)
                print(f"{i:32} {c} {'CAUGHT' if hit else 'missed' if rc == 0 else 'rc %d' % rc} {t}s", flush=True)
                if not hit and rc:
                    print(out[-1500:])
        finally:
            git("checkout", "--", ".")

main()

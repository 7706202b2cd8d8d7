#!/usr/bin/env python3
"""Prints the essentials of a replay file."""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(p))
    print(d.get("property"), d.get("trace"), d.get("failing_event"), d.get("what"), d.get("mismatching_traces"))
    print(" expected", str(d.get("expected"))[:600])
    print(" observed", str(d.get("observed"))[:600])
    for e in (d.get("events") or [])[-3:]:
        print("  ", json.dumps(e)[:600])
    for o in d.get("others") or []:
        print("  other", str(o)[:300])
    if d.get("tlc") or d.get("output"):
        print((d.get("tlc") or d.get("output"))[:3000])

"""Known findings: genuine defects that are recorded, not repaired."""

import os

from common import *

HARNESS = os.path.join(VERIF, "known")


def results():
    messages, ok, err = cargo_build(HARNESS, env(), timeout=300)
    if not ok:
        # Then the property's own templates tell what is wrong
        log("the templates of the known findings cannot be compiled")
        return {}
    code, out, err = run([os.path.join(TARGET, "debug", "vknown")], 30, env=env())
    return dict(line.split("\t", 1) for line in out.splitlines() if "\t" in line)


def report(prop):
    """Repeats the findings of a property"""
    known = known_findings(prop)
    if not known:
        return
    got = results()
    for k in known:
        result = got.get(k["id"])
        if result == k["fails_with"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        elif result is not None and result != k["should_be"]:
            message = f"{k['what']}: yields {result!r}, should be {k['should_be']!r}, was {k['fails_with']!r}"
            path = write_replay(prop, 0, {"kind": "known", "id": k["id"], "message": message})
            raise Violation(message, path)


def replay(data):
    result = results().get(data["id"])
    known = [k for k in known_findings(data["property"]) if k["id"] == data["id"]]
    if not known or result in (None, known[0]["fails_with"], known[0]["should_be"]):
        return None
    return f"{known[0]['what']}: yields {result!r}"

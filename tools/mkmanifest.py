#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
PROG = "property-based testing: generated declarations, compiled and sent generated requests, compared with a reference model"
NOTE = ("Random exploration of generated programs and requests from a fixed seed; shows no violation on what was generated, "
        "proves nothing beyond it. Trusts the reference model in harness/core, rustc, hyper/http/futures.")
T = {
 "C01": PROG + " (segment-wise matcher as oracle)",
 "C02": PROG + " (raw path text and FromStr as oracle)",
 "C03": PROG + "; metamorphic HEAD/GET comparison",
 "C04": PROG + " (set of accepting routes as oracle)",
 "C05": PROG + " (recursive model of forwarding and fallback)",
 "C06": PROG + " (event log of instrumented guards under generated readiness schedules)",
 "C07": PROG + " (independent form-urlencoded decoder as oracle)",
 "C08": PROG + " (whole-body decoding as oracle, generated chunkings and stream faults)",
 "C09": PROG + " (context provenance recorded by instrumented guards and bodies)",
 "C10": "property-based testing: pairs of patterns enumerated and sets of routes generated, compiled, verdict compared with an exact overlap oracle, plus requests sent to accepted routers",
 "C11": "property-based testing: well-formed declarations generated and mutated by rule-breaking mutations, compiled, verdict compared with the rules; disguising decorations must not matter",
 "C12": "property-based testing: generated sources and method lists combined with every status code, checked against the stated properties of errors and responses",
 "C13": "stateful property-based testing: generated histories of requests, clones and connections over scripted decoders and handlers, compared with a model",
 "C14": "stateful property-based testing with injected panics: generated histories over scripted services with nested panic catching, compared with a model",
 "C16": "property-based testing: generated waves of competing blocking futures on generated pools, exactly-once accounting",
 "C15": PROG + "; differential between entry points, poll schedules, interleavings and histories",
 "C17": PROG + "; crash, panic and hang detection with adversarial requests",
 "C19": "stateful property-based testing: generated connection histories (pipelining, framing, segmentation, aborts, malformed input) over real servers built from generated declarations, compared with the reference model",
 "C20": PROG + " and abandoned after generated numbers of polls (reference counts, drop counters, event log and allocated bytes as oracle)",
 "C18": PROG + "; metamorphic generic/monomorphic comparison",
}
TODO = {}
NA = {}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",
                 technique=t, level="exploration", level_note=NOTE) for p, t in sorted(T.items())],
 "not_applicable": [dict(property=p, reason=r) for p, r in sorted(NA.items()) if p not in T],
 "notes": "No hooks in /repo are needed. Failing cases are written to work/replays and replayed with ./check.sh replay FILE.",
}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)

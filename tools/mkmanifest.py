"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
tech = {
    "P01": "runtime monitoring: recorders at both applications' ends of real RPCs over an instrumented in-process network, exactly-once/in-order oracle through google.protobuf",
    "P02": "runtime monitoring: differential execution of one body under many chunkings, with an online per-byte delivery monitor",
    "P03": "runtime monitoring with fault injection: every cut offset and way of cutting, safety monitor 'cut implies error, delivered is a prefix'",
    "P04": "runtime monitoring: raised error recorded at the handler compared with the error observed by the caller",
    "P05": "runtime monitoring: multimap recorders at both ends compared with the multimap that was set",
    "P06": "runtime monitoring: sizes at and around limits observed at every receiver against an exact-size oracle",
    "P07": "runtime monitoring: grammar-based and mutated hostile requests against real applications under ASGI/WSGI and no-handler monitors",
    "P08": "runtime monitoring: online checkers of the ASGI and PEP 3333 grammars with injected disconnects, send failures and cancellation",
    "P09": "runtime monitoring: real clients against adversarial servers, independent reference decoder as outcome oracle, hang and endless-loop sanitizer",
    "P10": "runtime monitoring in virtual time: observed failure instants against the deadline, exact",
    "P11": "runtime monitoring: call logs of generated interceptor stacks checked offline for order and start/end pairing",
    "P12": "runtime monitoring: correlation-tagged concurrent calls under randomised schedules in virtual time and in threads with injected switches",
    "P13": "runtime monitoring: cancellation and disconnection injected at every step, leak sanitizers for tasks, async generators, coroutines and warnings",
    "P14": "runtime monitoring: event-order checker over recorded dialogue traces, deadlock sanitizer of the event loop",
    "P15": "runtime monitoring: differential execution of GET and POST with handler-invocation monitor",
    "P16": "runtime monitoring: negotiated encodings observed on the wire against a reference negotiation, corruption injection",
    "P17": "runtime monitoring: random operation histories checked against an executable multimap model",
    "P18": "runtime monitoring: handler-identity monitor over generated paths, mounts, content types and codecs",
    "P19": "runtime monitoring: lifespan event histories checked offline against an exactly-once life-cycle specification",
    "P20": "runtime monitoring: exported spans checked offline against the recorded calls",
    "P21": "runtime monitoring: differential execution of the same calls with and without telemetry",
    "P22": "runtime monitoring: generated service definitions through the real plugin, imported and exercised, against descriptor-derived expectations",
    "P23": "runtime monitoring: wire tap checked by an independent strict decoder of the three protocols, and reference-encoded peers",
    "P24": "runtime monitoring: differential execution with the default and the google.protobuf message classes",
    "P25": "runtime monitoring: message counts injected on the wire, cardinality oracle at handler and caller",
    "P27": "runtime monitoring: real servers and clients on the loopback network (hypercorn, uvicorn, werkzeug, wsgiref, pyqwest, grpcio), recorders at both applications compared, connections segmented and cut by a fault-injecting proxy",
    "P26": "runtime monitoring: contexts recorded in handlers and interceptors against an independent derivation from URL, scope and environ",
}
NA = {}
props = [json.loads(l)["id"] for l in open(root / "properties.jsonl")]
checks, na = [], []
for p in props:
    if (root / f"vf/props/{p.lower()}.py").exists() and p not in NA:
        checks.append({"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": tech[p],
                       "level": (re.search(r"^LEVEL = \"(\w+)\"", (root / f"vf/props/{p.lower()}.py").read_text(), re.M) or [0, "exploration"])[1],
                       "level_note": "Judges the executions it runs; the workload sizes and what was observed are in the evidence file."})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through public interfaces, the event loop and the interpreter. VERIF_SEED selects the random choices; /verif/check is a thin wrapper around python -m vf.core."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json

TECH = {
    "C01": "TLA+ framing automaton; TLC validates recorded executions of the real server, streams cut at random",
    "C02": "TLA+ platform model; TLC-generated scripts with corrupted frames replayed into the real server, executions validated by TLC",
    "C03": "TLA+ wire specification; TLC validates every byte the real server wrote in generated scenarios",
    "C04": "TLA+ wire and platform specification; TLC validates recorded executions of the real server",
    "C05": "TLA+ platform model checked by TLC; its behaviours replayed into the real server, executions validated by TLC",
    "C06": "TLA+ platform model checked by TLC; sequential and concurrent executions of the real server validated by TLC (linearizability)",
    "C07": "TLA+ platform model checked by TLC; its behaviours replayed into the real server, executions validated by TLC",
    "C08": "TLA+ platform model checked by TLC; sequential and concurrent executions validated by TLC (linearizability)",
    "C09": "TLA+ platform model checked by TLC; its behaviours replayed into the real server, executions validated by TLC",
    "C10": "TLA+ platform model with time checked by TLC; fake-clock executions of the real server validated by TLC",
    "C11": "TLA+ platform model with time checked by TLC; fake-clock executions of the real server validated by TLC",
    "C12": "TLA+ platform model checked by TLC; executions of the real server validated by TLC",
    "C13": "TLA+ status-word specification; executions of the real server and encoder validated by TLC",
    "C14": "TLA+ fragment assembly checked by TLC; its behaviours replayed into the real server, executions validated by TLC",
    "C15": "TLA+ platform model checked by TLC; sequential and concurrent executions validated by TLC (linearizability)",
    "C16": "TLA+ serial-number specification; sequential and concurrent executions validated by TLC",
    "C17": "TLA+ wire specification; concurrent executions with explored schedules validated by TLC",
    "C18": "TLA+ platform model; executions with hostile input validated by TLC, a crash being no behaviour of the model",
    "C19": "TLA+ parameter encoding specification; executions of the real server validated by TLC",
    "C20": "TLA+ terminal and closed-loop models checked by TLC; executions of the real simulated terminal, alone and joined to the real server, validated by TLC",
    "C21": "TLA+ platform model; concurrent executions with explored schedules validated by TLC (linearizability)",
    "C22": "TLA+ model of what is held and who owns it, checked by TLC (safety and liveness); long repeated histories of the real server measured, the measurements validated by TLC",
    "C23": "TLA+ tables of all messages, reading and writing checked inverse by TLC; what the real codec reads and writes validated by TLC",
    "C24": "TLA+ model of the program's start-up checked by TLC; runs of the real program under many configurations and scripts over real sockets validated by TLC",
}
NOTE = ("The model is checked exhaustively by TLC for small instances; the real code (TCP server, HTTP API, rebuilt from /repo) is bound to it by "
        "executing generated scenarios under a fake clock and in-memory connections and having TLC decide for every step whether the specification "
        "allows what was observed. Holds for everything explored, which is a sample of the unbounded space; trusts TLC, testing/synctest and the driver's recording.")
NA = []
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = {x["property"] for x in NA}
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": NA,
     "notes": "No hooks in /repo: the driver, scheduling points and the in-memory listener come in through a build overlay."}
for i in ids:
    if i in na:
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                        "technique": TECH[i], "level": "model_checking", "level_note": NOTE})
json.dump(m, open("MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os, sys

MODEL = "online trace checking of generated histories against a sequential model"
KIT = "online trace checking of generated tests against a sequential model"
TRUST = "Covers only the generated cases of the tier; trusts the recorder and the model in /verif/harness and, for a given seed, the same cases run every time."

CHECKS = {
 "C01": (MODEL, "Every delivery of every generated history is predicted and compared. "),
 "C02": (MODEL + ", over the envelopes in recorded facts", "Every envelope of every generated history is compared with what the handlers really did. "),
 "C03": (MODEL + ", with snapshots of every root", "Every root given to a handler is compared with the replay of the recorded events. One known defect is reported and not counted. "),
 "C04": (MODEL + ", with snapshots of every root", "Every root, begin, end and ignored message is compared with the model. "),
 "C05": (MODEL + ", with exactly-once and ordering checks of timeouts", "Every scheduled timeout is followed until it is delivered or canceled. "),
 "C06": (MODEL + " of the projection protocol", "Every call to a projection is compared with the protocol. "),
 "C07": ("race detector on unsynchronised handlers and observers, forced overlap of compaction and handling, and model-checked histories", "Races are found only on executed paths; overlap is forced by bounded waits which influence reach and never the verdict. "),
 "C08": (MODEL + " under generated settings", "Participation of every handler in every operation is predicted and compared. "),
 "C09": (MODEL + " with injected errors, panics and cancellations", "The returned error of every operation is compared with the injected faults. "),
 "C10": ("race detector on unsynchronised handlers and observers, and linearizability of concurrent histories by witness order against a sequential model", "Explores real interleavings with injected jitter, not all of them. "),
 "C11": (MODEL + " with resets, sequential and concurrent", "Everything observable after a reset is compared with a new model. "),
 "C12": (MODEL + " parsing the stream of facts, and race detector on the fact buffer", "Every fact of every generated history is predicted and compared, for several observers. "),
 "C13": (MODEL + " with injected offences and panics", "Every offence is compared with what the panic value says, and the engine is used afterwards. "),
 "C14": (MODEL + " with operations that must be rejected, and a table of generated arguments", "Every rejected operation is checked to have no effect on anything observed afterwards. "),
 "C15": (KIT + ", with an independent verdict for every message expectation", "Every verdict is computed from what the handlers really produced. "),
 "C16": (KIT + ", with monitored leaves and parsed reports", "Every combination's verdict, and every call to a leaf, is compared with the model. "),
 "C17": (KIT + ", over the events seen by a recording testing interface", "Testing interfaces that return, panic or exit are all used. "),
 "C18": (KIT + ", with generated impossible expectations", "Whether an expectation is rejected is predicted from the routes of the application. "),
 "C19": (KIT + ", comparing every engine time with a model clock", "Every engine time seen by a handler or observer is compared. "),
 "C20": (KIT + ", with interceptors and concurrent calls, under the race detector", "Explores real interleavings, not all of them. "),
 "C21": (KIT + ", with scripted expectation functions, some of which use several goroutines, under race detector", "Every operation performed by the function, and the line it was on, is recorded and compared. "),
 "C22": (KIT + ", with parsed reports", "Explanations are compared with the observed facts, diffs are applied in both directions. Some explanations whose truth the property does not settle are skipped. "),
 "C23": ("comparison with the program counters recorded at the place itself, below generated stacks, and model-checked histories with injected offences", "Every location is compared with one that the runtime reports at the place concerned. One known defect is reported and not counted. "),
 "C24": (KIT + ", with generated selections", "Which handlers take part is predicted and compared for every action. "),
 "C25": ("online trace checking of runs: causality bounds on observed clock readings and a sequential model of each tick, and race detector on unsynchronised handlers and observers", "The bounds follow from the order of clock readings, so that delays can never cause an alarm. "),
 "C26": (MODEL + ", matching log lines one-to-one with recorded facts", "Every line of every generated history is compared with the fact it is about. "),
 "C27": ("runtime monitoring of the context seen by every handler method, action, interceptor and executor (values, deadline, cancellation on entry and on return) against the context given to the operation, under race detector", "Every call of every generated history is compared with the context of its operation. "),
 "C28": ("runtime monitoring of a recording testing interface: headings are compared with the generated actions and expectations, on line (when each action begins) and after each step", "Every step of every generated test is compared with what was logged. "),
 "C29": ("runtime monitoring of the writer of generated reports and of a recording testing interface, against an independent rendering, with destinations that fail", "Every line of every generated report is compared. "),
 "C30": (KIT + ", with parsed reports of predicate-based expectations", "The lists are recomputed from what the handlers really produced and what the predicate returned. "),
 "C31": (MODEL + " and " + KIT + ", used concurrently and, where that goes wrong, alone, and race detector; shared actions and expectations are compared with ones that are used once", "Explores real interleavings, not all of them. "),
}

NOT_APPLICABLE = {}

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [],
        "not_applicable": [],
        "notes": "No hooks are needed in /repo: everything is observed at the public boundary (handlers, observers, testing interface). Each check builds /verif/harness with the race detector against /repo's working tree in a temporary directory.",
    }
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            m["checks"].append({
                "property": i,
                "quick_cmd": f"./run.sh {i} quick",
                "thorough_cmd": f"./run.sh {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": t,
                "level": "exploration",
                "level_note": n + TRUST,
            })
        else:
            m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check has been built yet.")})
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

main()

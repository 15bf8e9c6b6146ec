#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the tables below."""
import json
import os

import plan

HERE = os.path.dirname(os.path.abspath(__file__))
TECHNIQUE = "deterministic simulation with fault injection: seeded search over "
WHAT = {
    "C01": "schedules and network faults, real client and server, per-message model",
    "C02": "divisions of streams, one endpoint against a reference receiver, and against itself "
           "fed the same streams whole and byte by byte",
    "C03": "mixes of failing and healthy exchanges, per-stream reference models",
    "C04": "schedules, with a heal phase after which everything must complete",
    "C05": "relative orders of the two directions, per-message model",
    "C06": "handle and connection lifetime histories, under AddressSanitizer",
    "C07": "control stream contents and schedules against a reference receiver",
    "C08": "hostile streams and call orders, under sanitizers with memory and step limits",
    "C09": "cut points and peer deaths against a reference receiver",
    "C10": "extensions and their placement against a reference receiver",
    "C11": "forbidden and malformed input against a reference receiver",
    "C12": "submission histories, output judged by an independent decoder",
    "C13": "field sections and their divisions against an independent codec",
    "C14": "divisions, item by item against an independent codec",
    "C15": "operation histories and allocation failures against plain strings",
    "C16": "operation histories and allocation failures against plain strings",
    "C17": "which allocation fails and when, against the same models as without failure",
    "C18": "histories of exchanges, with a ledger of the library's live memory",
    "C19": "invalid calls placed in histories, per-message model and output bytes",
    "C20": "file system faults, the two programs against an independent codec",
    "C21": "network faults, partial acceptance, windows and schedules, real QUIC client over a "
           "stand-in transport, per-stream model",
    "C22": "network faults, windows and schedules, real QUIC client, per-stream model",
    "C23": "losses, partitions, stalls and timer moments in virtual time",
    "C24": "damaged and forged packets, broken handshakes, key updates, cipher suites, against "
           "an independent implementation of the protection",
    "C25": "network faults, scripted servers, system call failures and timer moments in virtual "
           "time, the whole client program from arguments to exit status and output",
    "C26": "message, clock and output failure histories in simulated outputs, and connection "
           "histories compared with and without a logger",
}
NOTE = ("Sampled, not exhaustive: a clean batch says no explored run broke the property. "
        "Trusts the independent codec and models in sim/, the simulated transport's contract "
        "(ordered exactly-once bytes per stream) and the compiler's sanitizers.")
NOT_APPLICABLE = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in plan.PLANS:
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py %s --tier quick" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECHNIQUE + WHAT[i],
                "level": "exploration",
                "level_note": NOTE,
            })
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE[i]})
    json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
               "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()

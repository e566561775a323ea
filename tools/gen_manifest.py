#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NET = "TLC model checking of the network of stations (MCNet); recorded histories of the code and replayed MCNet behaviours judged by the TLA+ rules (Net, StationRules, NetTrace)"
COD = "TLC model checking of the codec (MCCodec, MCCipher); recorded encipherments and decipherments of the code judged by the TLA+ codec (CodecTrace)"
STO = "TLC model checking of stores, saving and loading (MCStore); recorded and replayed histories of saves and loads of the code judged by the TLA+ rules (Store, StoreTrace)"
CLI = "recorded runs of the built program judged by the TLA+ rules of its commands (CliTrace)"
CRA = "TLC model checking of saving with crashes and faults at every system call (MCSave); traced, faulted and killed saves of the code judged by the TLA+ rules (CrashTrace)"
TECH = {
    "C01": COD + "; " + NET, "C06": COD + "; " + NET, "C07": COD,
    "C02": NET, "C03": NET, "C04": NET + "; " + COD, "C05": NET + "; " + COD, "C12": NET, "C13": NET, "C14": NET, "C17": NET, "C24": NET,
    "C08": STO, "C09": STO,
    "C10": CRA + "; " + STO,
    "C11": STO + "; " + CLI,
    "C15": "TLC model checking of key generation (MCGen); generation by the code from recorded random bytes judged by the TLA+ rules (GenTrace); " + NET,
    "C16": "TLC model checking of wiping with failing random source (MCWipe); recorded and replayed wipes of the code judged by the TLA+ rules (WipeTrace); " + NET,
    "C18": "TLC model checking of the TLA+ grammar of radiograms (Radiogram, MCRadiogram); TLC-generated and random radiograms parsed by the code judged by it (RadioTrace)",
    "C19": "TLC model checking of the layout of sheets (Sheets, MCPages); recorded text and PDF output of the code judged by the TLA+ rules (PrintTrace)",
    "C20": "TLC model checking of selections (Select, MCSelect); TLC-generated selections and " + CLI,
    "C21": "TLC model checking of the program's order of saving and showing (MCCli); TLC-generated command histories, injected faults and kills and " + CLI,
    "C22": STO + "; " + CRA + "; " + CLI,
    "C25": "TLC model checking of columns (MCColumns); recorded listings of the code, with fields of random and TLC-generated lengths, judged by the TLA+ rules (Listing, ListTrace); " + CLI,
    "C23": "TLC model checking of the locked random source (MCCrand); recorded concurrent runs with an instrumented source judged by the TLA+ rules (CrandTrace)",
}
LEVEL = {p: "model_checking" for p in TECH}
LEVEL.update({"C09": "fault_enumeration", "C10": "fault_enumeration", "C19": "exploration"})
NOTE = "The model is checked completely within its constants; the code is bound to the specification by judging recorded executions, so the assurance for the code is that of the recorded inputs, histories and faults (seeded random plus TLC-generated). Trusted: TLC, the Go recorder in harness/, the public API as window into the state."
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s" % p["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                 "technique": TECH[p["id"]], "level": plans.PLANS[p["id"]].get("level", "model_checking"), "level_note": NOTE}
                for p in props if p["id"] in plans.PLANS],
     "not_applicable": [{"property": p["id"], "reason": "the check is not built yet"} for p in props if p["id"] not in plans.PLANS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

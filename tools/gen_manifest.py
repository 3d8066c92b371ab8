#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys, subprocess
CLAIMED = sys.argv[1:]
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
TECH = {
 'default': "runtime monitoring: seeded hostile workloads over the real library, decided online by an independent reference model/oracle",
 'C05': "runtime monitoring: hostile inputs under overflow checks, debug assertions, panic capture, step-counting buffers and a per-case CPU watchdog",
 'C25': "runtime monitoring: operation histories against a model map with per-value drop counting",
 'C26': "runtime monitoring: counting allocator (peak live bytes per call) and exact-limit oracles",
 'C27': "runtime monitoring: recorded multi-thread histories compared with single-thread runs and with the writer's state sequence; ThreadSanitizer build of the same workload; Miri's data-race and deadlock detection",
 'C29': "sanitizers: AddressSanitizer/LeakSanitizer and MemorySanitizer builds of all workloads, Miri undefined-behaviour interpreter, per-case leak accounting",
 'C30': "runtime monitoring: operation histories on requests, responses and builders against a model, decided after every step",
 'C31': "runtime monitoring: pairs of equal and nearly equal values compared, hashed, ordered and copied, decided by their keys",
 'C12': "runtime monitoring: whole-connection histories compared block by block with an independent RFC 7541 codec and its table",
 'C13': "runtime monitoring: whole-connection histories read back by an independent RFC 7541 decoder, table states compared after every step",
 'C14': "runtime monitoring: operation histories against an independent dynamic table model",
 'C28': "runtime monitoring: connection histories read back by an independent frame and HPACK reader",
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
          "technique": TECH.get(i, TECH['default']), "level": "exploration",
          "level_note": "held on the executions counted in the evidence file; says nothing about inputs the workload does not produce"})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)

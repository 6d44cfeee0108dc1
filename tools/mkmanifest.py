#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks in check.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

TECH = {
    "P01": "property-based testing: generated images and ranges against the content model",
    "P02": "stateful property-based testing: descriptor histories against a position model",
    "P03": "stateful property-based testing: open/close histories with injected descriptor exhaustion against a set model",
    "P04": "property-based testing: generated trees and near-miss paths against a reference resolver",
    "P05": "property-based testing: generated link graphs against a reference resolver",
    "P06": "property-based testing: generated attributes, round trip through the image",
    "P07": "property-based testing: generated targets and buffer sizes with guarded buffers",
    "P08": "stateful property-based testing: alternating streams against the list of entries",
    "P09": "stateful property-based testing: tell/seek/rewind histories against a position model",
    "P10": "property-based testing with allocation faults: generated directories, select and compare functions against the model",
    "P11": "stateful property-based testing: extraction histories over several images against the model, in a scratch directory",
    "P12": "fault injection by property-based testing: full disk, descriptors, directory, damaged block, memory",
    "P13": "stateful property-based testing: alternating traversals with prunes against a depth-first model",
    "P14": "property-based testing: iteration resumed at every kind of offset (metamorphic) against the model",
    "P15": "property-based testing: generated inode and id tables, round trip",
    "P16": "metamorphic property-based testing: the same image at different offsets and surroundings; generated headers to refuse",
    "P17": "fault injection by property-based testing: damaged blocks, against an oracle of which blocks an operation needs",
    "P18": "property-based testing: failing calls under different preset errno values against a reference of reasons",
    "P19": "metamorphic property-based testing: any history against the image just opened",
    "P20": "stateful property-based testing of generated schedules (cooperative scheduler) and ThreadSanitizer runs against the sequential results",
    "P21": "stateful property-based testing: mixed histories, then exact accounting of memory, descriptors and locks",
    "P22": "enumeration of every failing allocation of generated operations against the normal result",
    "P23": "property-based testing: generated huge sparse files, positions at every magnitude against the content model",
    "P24": "model-based property testing of the containers with allocation faults",
    "P25": "differential property-based testing: interposed calls against the image model and the operating system",
    "P26": "stateful property-based testing: chdir histories against a reference resolver and the operating system",
    "P27": "stateful property-based testing: overlay histories against a model of image and overlay",
    "P28": "differential property-based testing: the same call sequence on a virtual and a real file",
    "P29": "stateful property-based testing: generated paths, argument lists and working directories against what the (recorded) system calls are given",
    "P30": "stateful property-based testing of generated schedules (cooperative scheduler) and ThreadSanitizer runs of interposed calls against the sequential results",
}
NOTE = "Generated-input search: says nothing about inputs outside the generators' reach (see DESIGN.md, section of the property); fixed number of cases per tier, cases determined by VERIF_SEED."
done = [p for p in sorted(check.PARTS) if all(os.path.exists(os.path.join(HERE, "harness", h + ".cpp")) for h, _, _ in check.PARTS[p])]
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py", "checks": [], "not_applicable": []}
for p in sorted(check.PARTS):
    if p not in done:
        m["not_applicable"].append({"property": p, "reason": "its search is not built yet"})
        continue
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[p],
        "level": "fault_enumeration" if p == "P22" else "exploration",
        "level_note": NOTE,
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE = "model_checking", "fault_enumeration"
HIST = "explicit-state model checking of the real binary: breadth-first enumeration of all bounded run histories, monitors between any two file operations, comparison with a reference model"
COMMON = "Exhaustive within the stated bounds (evidence lists alphabets and depth); no claim beyond them. Trusts the interposition shim (self-checked against full disk scans, repeated runs and real kills) and the reference model; process crashes only, no power loss."
T = {
 "C01": (MC, HIST + ", every crash point and I/O fault, and all pairs of them", ""),
 "C02": (MC, HIST + ", every crash point and I/O fault, and all pairs of them", ""),
 "C03": (MC, HIST, ""),
 "C04": (MC, HIST, ""),
 "C05": (MC, HIST + ", every crash point and I/O fault, and all pairs of them", ""),
 "C06": (MC, HIST, ""),
 "C07": (FE, "exhaustive crash-point enumeration (every operation, every write also cut in half) on the real binary, with recovery histories, and all pairs of kills and faults", ""),
 "C08": (FE, "exhaustive fault enumeration on the real binary: every file operation and read fails, once or lastingly; all pairs of such mishaps and kills; with repeated runs", ""),
 "C09": (MC, "exhaustive enumeration of single alterations of every upstream file (every byte of the notification, every cut, structural changes with the hash adapted) on the real binary from several published states, monitors between any two file operations", ""),
 "C10": (MC, "stateless exploration of the real binary: every interleaving of two or three processes at their file operations up to a preemption bound, crash and recovery included", ""),
 "C11": (MC, "exhaustive enumeration of an alphabet of URIs in every place of upstream data (snapshot, delta, published and withdrawn object) on the real binary from several published states, every file operation outside of the configured directories observed or stood in for", ""),
  "C21": (MC, "stateless exploration of the real binary: upstream switched to another version between any two reads of its files, every position and pair of versions", ""),
 "C12": (MC, "exhaustive enumeration, with the real binary and a controlled https server, of certificates x connections x modes, redirect chains x statuses x files, forms of the source base, and URIs; every request, look-up and file operation observed", ""),
 "C23": (MC, "exhaustive enumeration of HTTP responses x requests x published states x leftovers, and of all histories over https to a bounded depth, with the real binary and a controlled https server", ""),
 "C15": (MC, "exhaustive enumeration of all sequences of up to three script outcomes with the real binary, from several published states, with what each script found compared to what must be staged and published at that moment", ""),
 "C13": (MC, "exhaustive enumeration of all single defects of an alphabet x objects x positions in trees of certification authorities, signed by the checks, with the real binary in both modes", ""),
  "C14": (MC, "explicit-state model checking of the real binary: enumeration of all bounded histories of versions x run modes x clock advances, the verdict compared with that of a fresh installation (another run) and with what is known to be wrong", ""),
 "C16": (MC, HIST + ", every crash point and I/O fault, over repositories of real objects: kinds x flaws x dates x places, and every cut of each kind", ""),
 "C17": (MC, "exhaustive enumeration of CA certificate graphs (functional graphs, parallel paths, chains, resource sets, keys) and of all single-byte and structural alterations of signed objects, with the real binary under bounded memory and time", ""),
 "C22": (MC, "explicit-state model checking of the real binary and controlled https servers: enumeration of all bounded histories of runs x validation modes x states of the other repositories x clock advances, every connection and request observed", ""),
 "C24": (MC, HIST + ", from states left by earlier releases of krill-sync", "The states were recorded once from the original and the repaired binary; they are data, and do not depend on the tree that is checked."),
 "C18": (MC, HIST + ", with the configuration changed between the runs in every pair of configurations", ""),
 "C19": (MC, HIST, ""),
 "C20": (MC, HIST + " with a virtual clock", ""),
}
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": [],
     "notes": "Black-box model checking of the unmodified krill-sync binary; no hooks in /repo. See DESIGN.md."}
for p in props:
    if p in T:
        level, tech, note = T[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": tech, "level": level, "level_note": (note + " " + COMMON).strip()})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")

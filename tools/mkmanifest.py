#!/usr/bin/env python3
# Writes MANIFEST.json (run from /verif: python3 tools/mkmanifest.py).
import json
CLAIMED={
"C01":"Seeded search over session histories against a map model; map iteration order and read chunking are simulated. No faults: errors and crashes are C02 and C04.",
"C02":"Seeded search over session histories with process crashes at any operation, inside writes at byte granularity. Process crashes only: what was handed to the file system survives, as the code never calls fsync.",
"C03":"Seeded damage (flips, cuts, wrong counts) of generated files, recovered by the real code under crashes, against an independent parser of the format.",
"C04":"Seeded transient I/O errors and partial writes in session histories against a model of acknowledged operations.",
"C05":"A plain open of a copy of the current bytes is tried between file operations, inside writes at byte granularity, of seeded histories.",
"C06":"Seeded session histories of the index against a map model.",
"C07":"Seeded crashes and I/O errors in index sessions; every open must give the contents of one whole session or fail.",
"C08":"Seeded histories of next, rewrite, rewind on generated files, every file byte compared with a model after each rewrite.",
"C09":"As C08 with seeded read, write and seek errors, including partial writes and bursts.",
"C10":"Seeded damage of stored bytes; the process has a memory limit, the statement count is bounded, allocations are compared with the file size.",
"C11":"Seeded writer and reader faults at any byte; an independent decoder compares what reached the file.",
"C12":"Seeded schedules of clients, stops and cancellation on the real worker, preempted between statements. The like storage is a stub: the repository has none.",
"C13":"As C12; every batch the stub like storage is handed is compared with the answers.",
"C14":"As C12 with the real delta and index storages on the simulated file system, inspected after termination.",
"C15":"Seeded crashes (byte granularity) and I/O errors over several incarnations of a namespace, restarted on what is left.",
"C16":"Seeded schedules of clients over the real HTTP routes and the service; histories are checked for linearizability. Delete only through the service, which has no route for it.",
"C17":"Seeded crashes in histories of concurrent changes; the stored registry after each restart must be explained by a sequential order of the acknowledged and in-flight changes.",
"C18":"Seeded I/O errors and short writes in saves; running, stored and restarted registry are compared with a model after each change.",
"C19":"Seeded instants of signals, listen failures and slow requests on the real application loop; net/http and signals are simulated.",
"C22":"Seeded mixes of valid, invalid and cut-off requests from concurrent clients over the real routes; answers are judged by an independent validator, effects by a linearizable model, the stored registry and a restart.",
"C23":"Seeded environments and .env files with read errors and crashes over restarts of the whole shard; address, registry and exit are compared with an independent reading of the configuration.",
"C24":"Seeded schedules of concurrent sessions on separate files with shared factories, and of several namespaces, each compared with a model of its own.",
"C25":"Seeded histories of failing and succeeding work in one process; goroutines, open files and files left at rest are counted after each third, growth of three or more is a violation.",
"C26":"Seeded histories of registry changes and requests to the running namespaces of one service, with failing starts, saves and batches, crashes and restarts. The like storage is a stub put into the namespaces, as the repository has none.",
}
CLAIMED["C27"]="Seeded schedules and faults of the registry, running namespaces, the application and the storages; every access of the instrumented code to shared memory is checked by vector clocks, so that a race is found in any schedule that makes both accesses."
NA={f"C{i:02d}":"check under construction" for i in range(1,20)}
PURE="a pure function of its input: no concurrency, time, I/O or failure for a simulator to control; input testing or proof would be the technique for it"
for i in range(20,24): NA[f"C{i:02d}"]=PURE
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
 "notes":"No hooks in /repo: the simulator rewrites a scratch copy of /repo's working tree at build time (DESIGN.md), so the shipped code has no guard to switch."}
for k,v in CLAIMED.items():
    m["checks"].append({"property":k,"quick_cmd":f"bash run.sh {k}","thorough_cmd":f"VERIF_TIER=thorough bash run.sh {k}",
      "evidence_file":f"evidence/{k}.json","technique":"deterministic simulation with fault injection","level":"exploration","level_note":v})
for k,v in NA.items():
    if k not in CLAIMED: m["not_applicable"].append({"property":k,"reason":v})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")

#!/usr/bin/env python3
"""writes MANIFEST.json: python3 mkmanifest.py"""
import json
TECH = "deterministic simulation: the real crate on simulated locks, threads, rayon and disk, seeded search over schedules and faults, against a reference model"
CLAIMED = {
 "C01": ("exploration", "Seeded search; every lock operation, task boundary and file access of the real crate is a scheduling point. Trusts the file generator, the reference decoder and the simulated std::sync/rayon; memory is sequentially consistent (the crate has no unsafe shared state beside the read-only map)."),
 "C02": ("exploration", "As C01; the oracle is the generated file's own tree and the record of what every thread saw."),
 "C03": ("exploration", "As C01; deadlock is decided by the simulator's lock table (no task can run), under writer-preferring and reader-preferring locks. Callers that mix upward and downward questions while holding nodes are a known finding."),
 "C04": ("exploration", "As C01; the oracle follows every link in the generated model."),
 "C05": ("exploration", "As C01; direct lookups race with parse and unparse of the same image."),
 "C06": ("exploration", "Seeded damage to generated files (truncation, flips, lost and foreign blocks, hostile field values, entries led elsewhere, extreme nesting), before opening or while open, one or more threads. Memory rule: 48 MB + 2500 x file length; CPU limit 30 s per run; a crash of the process is caught in a forked child."),
 "C07": ("exploration", "Damage to stored bytes in place (or before opening) and failing open, mmap and stat calls, with loads, lookups, unloads and heals by 1-3 simulated threads; after healing, the model decides. Containers loaded successfully from damaged bytes are unloaded (files: reopened) before they are judged."),
 "C08": ("exploration", "Damage confined to some images of an archive (behind the first byte) or to payload bytes, or to another archive, before or while open; everything else is compared with the model in every order of access."),
 "C09": ("exploration", "Generated data directories (base files, nested folders, numbered parts, stray files) under every listing order drawn, with a failure at any open, mmap, opendir, readdir or stat call and broken files; the oracle is the merged model tree."),
 "C10": ("exploration", "Sounds of every header kind saved to files or written to writers, with short writes, EINTR, zero-length writes and errors at any write, open or chain of them; what lies on the simulated disk or in the writer is compared with the generated bytes. Errors that std's File swallows on close are out of reach of the crate."),
 "C11": ("exploration", "Canvases of every format and many sizes are decoded while the simulated rayon divides the work, orders, steals and interleaves the parts as the seed says, from pool threads and from outside; the oracle is an independent pixel decoder."),
 "C12": ("exploration", "Every file is first opened by itself, in each way used, in a fresh copy of the process; what it gives there is compared with what it gives after and besides other files of other regions, versions and formats, damaged files, failing opens, kept handles, shared keys and reused paths."),
 "C13": ("exploration", "As C01; the oracle is the generated tree after each parse / unparse / walk."),
 "C14": ("exploration", "Trees from archives, folders, images and nodes made by hand, with chosen overlap, are merged while other simulated threads read, walk, look up and parse in them; every state seen and the final trees, handles and parents are compared with the merge of the models. Links between merged nodes and merging a node into its own ancestor are left out."),
 "C15": ("exploration", "Handles to random nodes are used while simulated threads drop, unload, replace and reopen what they come from; release is decided by weak references to every node and reader seen and by the descriptors and mappings counted at the system call seam, also after failing opens, damaged files and images whose links form circles (two threads racing to make opposite links are left out)."),
 "C16": ("exploration", "A client failing (panic, error or failing writer) at the n-th call back of walk_node, filter_parent, WzSound::write_to and JSON printing, in and out of guards, while other simulated threads parse, unload, read, extract and look up; no lock may stay held after the failure and everything is re-read, unloaded and loaded anew at the end."),
 "C18": ("exploration", "Every answer of a node is compared with the generated tree while 1-4 simulated threads ask, print, load, unload and walk the same files; the printed JSON is read back into nodes and printed again. The oracle follows links in the generated model. An unloaded container may print with no children; with one client and everything loaded nothing may be missing."),
 "C19": ("exploration", "The workloads and oracles of C01, C02, C04-C09, C11-C15 and C18 run on the crate built without rayon, with indexmap, overflow checks and debug assertions; every listing is also compared with the order of the file. Without rayon there is no pool to simulate: the schedules are those of the callers' threads."),
}
NA = {"C17": "Pure conversions: no concurrency, time, I/O or fault can change their result, so a simulated execution would only be random input testing; left to other techniques."}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        l, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
          "technique": TECH, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check is being built.")})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
  "hooks": {"guard": "--cfg wz_sim", "enable": "bash build.sh (sim/wrap.sh, the RUSTC_WRAPPER, passes --cfg wz_sim when it compiles wz_reader)", "source_commits": ["cc66817"]},
  "notes": "The only hook in /repo replaces the 2^32 hashes that an unknown pkg2 archive of 1199 to 1201 is searched for by a few candidates. Everything else is done from outside: the crate is compiled against a replacement for std's synchronisation, thread and file primitives and a replacement rayon-core (sim/wrap.sh, sim/simstd, sim/rayon-core)."},
  open("MANIFEST.json", "w"), indent=1)

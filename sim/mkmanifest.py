#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("deterministic simulation: seeded analysis histories on simulated heap and enumeration order, differential against a fresh process", "Sampled histories. Trusts that the simulated allocator hands out and recycles memory as a real one may, and that the answer of a fresh process is the right one."),
 "C02": ("deterministic simulation: seeded accessor histories, differential against the first call in a fresh process", "Sampled call sequences over corpus and mutated texts."),
 "C03": ("deterministic simulation with fault injection: read, seek, open, close faults, short reads, concurrent changes of the file", "Sampled fault sequences. The reference is the set of versions the simulator gave the file."),
 "C04": ("deterministic simulation with fault injection: seeded trees, enumeration orders and directory faults against a tree model", "Sampled trees and faults; the model takes away exactly what lies behind a call the simulator failed."),
 "C05": ("deterministic simulation with fault injection: persistent and transient faults on files and directories, differential against the tree without them", "Sampled fault assignments in every report mode."),
 "C06": ("deterministic simulation: seeded enumeration orders and merge trees, conservation between all reports", "Sampled trees. One recorded finding (Puppet) is printed and not reported again."),
 "C07": ("deterministic simulation: seeded revision histories against algebraic laws of deltas, in memory and through temporary files", "Sampled histories. The laws bound the counts but do not fix them where several minimal comparisons exist."),
 "C08": ("deterministic simulation with fault injection on the calls of a comparison; exact result or loud failure", "Sampled placements of one to three faults, of calls that a dry run recorded."),
 "C09": ("deterministic simulation with fault injection; file system snapshots and a guard on every path-changing call", "Sampled. Destructive calls outside the scratch temporary directory are refused and recorded."),
 "C10": ("deterministic simulation: seeded scheduler over several processes, kills, stale temporary files, colliding names", "Sampled interleavings at system-call granularity."),
 "C11": ("deterministic simulation with fault injection: resource levels over repetitions", "Sampled operations and faults; levels are those of the simulated allocator and descriptor tables."),
 "C12": ("deterministic simulation with fault injection: failing allocations, differential against the run with memory", "Sampled allocation numbers of sampled operations, program and pcre (libmagic's own allocations are not failed)."),
 "C13": ("deterministic simulation: seeded changes of the tree between system calls against the versions that existed", "Sampled edit placements; edits are atomic between two system calls."),
 "C14": ("deterministic simulation with fault injection on the output stream at seeded bytes", "Sampled byte positions and errors in every report mode."),
 "C15": ("deterministic simulation: seeded schedules of garbage collections and object disposals inside the Ruby binding, differential against no collection", "Sampled scripts and collection points; the real interpreter and the real binding run under a seeded collector schedule."),
 "C17": ("deterministic simulation: seeded scripts and schedules of garbage collections inside the Ruby binding, native heap levels over repetitions", "Sampled scripts of calls that return; constructor calls that raise are left out. Levels are those of the simulated heap under the binding."),
 "C16": ("deterministic simulation: seeded visiting orders and histories, differential against a fresh process", "Sampled file sets and orders."),
}
PURE = "A pure function of one text: no schedule, clock, I/O, history or other party takes part, so there is nothing for a simulator to decide; what histories, memory, faults and orders can do to it is decided by "
NA = [("N01", PURE + "C01, C02, C03 and C06."), ("N02", PURE + "C01, C02 and C05."), ("N03", PURE + "C01, C02 and C12."), ("N04", PURE + "C01 and C02.")]
claimed = os.environ.get("CLAIM", " ".join(T)).split()
M = {"version": 1, "setup_cmd": "bash ./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in T if p in claimed],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA], "notes": "No hooks in /repo: all seams are link-time wraps of the system calls (sim/wraps.txt) and of the Ruby interpreter's collector. See DESIGN.md."}
json.dump(M, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": ("exploration", "runtime monitoring: reply streams of segmented and pipelined requests compared with an executable model", "Every position of small streams and sampled positions of large ones, with a barrier between segments; trusts the reference model and that a barrier round trip makes the server read."),
"C02": ("exploration", "runtime monitoring: liveness, memory and data monitors under generated hostile input", "Held on the hostile streams of a table, mutations and every command with hostile arguments; memory is judged by the peak resident set."),
"C03": ("exploration", "runtime monitoring: differential monitor of live replies against a sequential model", "Held on the generated histories."),
"C04": ("exploration", "runtime monitoring: differential monitor of live replies against a sequential model", "Held on the generated histories, with lists from empty to several pages."),
"C05": ("exploration", "runtime monitoring: differential monitor of live replies against a sequential model", "Held on the generated histories."),
"C06": ("exploration", "runtime monitoring: differential monitor of live replies against a sequential model", "Held on the generated histories; random choices are followed by the model."),
"C07": ("exploration", "runtime monitoring: differential monitor of live replies against a sequential model", "Held on the generated histories; negative ranks are out of scope."),
"C08": ("exploration", "runtime monitoring: differential monitor under a driven clock, probing both sides of every deadline", "The clock is time.Now of an instrumented standard library; the sources of metis are compiled unchanged."),
"C09": ("exploration", "runtime monitoring: differential monitor over several interleaved connections and databases", "Held on the generated histories."),
"C10": ("exploration", "runtime monitoring: authentication-state monitor over hostile framings and histories", "Held on the generated histories and framings."),
"C11": ("exploration", "runtime monitoring: dataset comparison around every erroneous command and after a restart", "Held on the generated erroneous commands."),
"C12": ("fault_enumeration", "runtime monitoring: kills at injected system-call points, acknowledgement log compared with the dataset after restart", "A kill of the process, not of the machine."),
"C13": ("exploration", "runtime monitoring: dataset compared with a model across restarts under a driven clock", "Held on the generated histories and restarts."),
"C14": ("exploration", "runtime monitoring: live and reloaded dataset compared with a model across delayed rewrites", "Held on the generated datasets and interleavings, which injected delays widen."),
"C15": ("fault_enumeration", "runtime monitoring: every truncation of recorded logs loaded and compared with the recorded prefix states", "Every byte of small logs, sampled bytes of large ones."),
"C16": ("fault_enumeration", "runtime monitoring: kills before and after each file system call of a rewrite", "A kill of the process, not of the machine."),
"C17": ("exploration", "runtime monitoring: offline checker over the recorded order of write, fsync and reply system calls", "System calls are recorded inside the process by an instrumented syscall package."),
"C18": ("exploration", "runtime monitoring: linearizability checking of recorded concurrent histories (porcupine) and conservation checks", "Held on the recorded histories."),
"C19": ("exploration", "Go race detector over stress workloads with rewrites, expiry and signals", "No race was reported on the schedules produced; happens-before detection generalises each of them somewhat."),
"C20": ("exploration", "runtime monitoring: online model comparison of every operation, hostile hash functions, comparison counting", "Held on the generated histories of the exported API."),
"C21": ("exploration", "runtime monitoring: online model comparison of every operation", "Held on the generated histories of the exported API."),
"C22": ("exploration", "runtime monitoring: structural invariant walk and online model comparison after operations", "Held on the generated histories; walks the exported fields of the skiplist."),
"C23": ("exploration", "runtime monitoring: online checker of timer callbacks under a driven and a real clock", "Held on the generated timer histories; the driven clock is set back only between rounds."),
"C24": ("exploration", "runtime monitoring: online checker of file-event callbacks against registrations and poll(2)", "Held on the generated histories over socket pairs."),
"C25": ("exploration", "runtime monitoring: per-connection byte-exact delivery monitors with slow, stalled and vanishing readers and short socket calls", "Held on the generated schedules; descriptors are counted in the process."),
"C26": ("exploration", "runtime monitoring: exit status, output and reloaded dataset after signals at random moments", "Held on the generated moments."),
"C27": ("exploration", "runtime monitoring: observer of file size and identity under a driven clock against the growth rule", "Sizes close to a threshold are not judged."),
"C28": ("exploration", "runtime monitoring: memory picture after bounded rounds of the periodic task under a driven clock", "A rewritten log is taken as the picture of memory; the number of rounds is a generous bound."),
"C29": ("exploration", "runtime monitoring: effects of each configuration observed in kernel socket tables, connections and files", "Held on the generated configurations."),
"C30": ("fault_enumeration", "runtime monitoring: injected write and sync errors, replies compared with the bytes that reached the file", "Faults are injected in an instrumented syscall package."),
"C31": ("exploration", "runtime monitoring: differential monitor and settings observer while the configuration file is edited", "Held on the generated edits; what edits mean for a later start is judged in C29."),
"C32": ("fault_enumeration", "runtime monitoring: every system call of a rewrite fails in turn, replies, directory and reloaded dataset judged by the model", "Faults are injected in an instrumented syscall package; failing close and unlink are not injected."),
"C33": ("fault_enumeration", "runtime monitoring: disk states after a power failure computed from recorded write, fsync and rename calls, and loaded", "A rename counts as on disk at once or not at all; the unsynced part of a file is lost from some byte on."),
"C34": ("exploration", "runtime monitoring: live heap, descriptors, threads and goroutines compared between phases of churn", "Leaks of a few bytes per operation show; slower ones do not."),
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert set(ids) == set(T), set(ids) ^ set(T)
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "bash check.sh " + i,
                 "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                 "technique": T[i][1], "level": T[i][0], "level_note": T[i][2]} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: clock, system calls and signals are instrumented in an overlay of the standard library; monitors are laid over /repo by go build -overlay. Repairs are listed in known-findings.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")

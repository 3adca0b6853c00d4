#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GUARDP = "guard-page monitors (read-only and inaccessible mappings, canaries) over generated workloads"
REFM = "online monitor comparing every observed result with an executable reference model, over generated workloads"
T = {
 "C01": (REFM, "Round trips of about a million sequences through every writer/reader pair, incl. one whose stream exceeds 2^31 bytes."),
 "C02": (REFM, "As C01 for differences, sorted and unsorted, random and boundary prev, wrap-around."),
 "C03": (REFM, "Every byte of every returned stream is compared with an independent reference encoder, incl. one stream beyond 2^32 bytes."),
 "C04": (REFM, "As C03 for wrapped differences."),
 "C05": (REFM, "Streams come from the reference encoder, not from the library: non-minimal lengths, garbage control bits, trailing bytes, dirty and surplus output."),
 "C06": (REFM, "As C05 with running sums from any prev."),
 "C07": (GUARDP, "The MMU observes every access of Go and assembly code to streams and outputs of exactly the documented size. Over-reads that stay inside the same mapping on the open side are seen on other placements only."),
 "C08": (GUARDP + ", with the Go allocator hooked so that results end at an inaccessible page", "Every result the writers allocate ends exactly at an inaccessible page; the input is read-only and ends or begins at one."),
 "C09": (GUARDP, "Inputs are mapped read-only for the code under test, so even a temporary write faults; tables are hashed repeatedly."),
 "C10": (REFM + "; guard pages", "All 65536 control values, several value classes each; 2^26 (quick) or all 2^32 (thorough) values per lane."),
 "C11": (REFM + "; guard pages", "All 65536 control values with many data patterns."),
 "C12": ("fault injection of short buffers with panic, canary and guard-page monitors", "Every shortfall of every buffer, with and without spare capacity."),
 "C13": ("race detector, history checker against the reference model, retained-result and overlap monitors under stress, with calls halted half-way by userfaultfd", "Assembly is not instrumented by the race detector; its effects are observed through results, read-only shared inputs and canaries."),
 "C14": ("instruction-level trace monitor (single-stepping) under masked CPU features", "Every instruction executed by the automatic entry points is classified in every feature configuration."),
 "C15": (REFM + ", run as 386, wasm, and emulated big-endian MIPS of 32 and 64 bits", "Code is executed for four non-amd64 targets; others are built only."),
 "C16": ("exhaustive table monitor with a software model of the shuffle instruction", "All control bytes and control pairs."),
 "C17": ("monitors of the other properties run against a build with regenerated code", "Generators are run in a scratch copy; their output is judged by behaviour, not by text."),
 "C18": (REFM, "Byte-exact comparison with a reference LEB128 encoder."),
 "C19": (REFM + "; statistical monitor over 2^26 draws", "Statistical tolerances are at least 9 standard deviations."),
 "C20": ("process-level monitor: tool executions on generated READMEs against a reference splice", "Runs in scratch directories only."),
 "C21": ("online history checker for block-by-block and segmented histories", "Random mixes of block functions and segmentations over about 560000 sequences."),
 "C23": ("resource monitors: allocation counters, live heap after collection, time per value", "Limits are generous (16 bytes per value, 40 times the time per value), so that only a change of order is reported."),
 "C24": ("process-level monitor: script executions in scratch repositories against a comparison of the files", "22 kinds of working trees; quick tier runs each once."),
 "C25": ("fault injection (inaccessible memory, short buffers) into histories of calls, with results compared with a reference model, and blocked-call, goroutine and heap monitors", "Failures at random positions of every function, also concurrently and as the first call of fresh processes."),
 "C26": ("address, memory and race sanitizers, pointer checks, and a reference-model monitor in builds of many kinds", "25 kinds of builds: 5 toolchains, optimisation, inlining, instrumentation, linking modes, architecture levels. ASan, MSan and the race detector do not instrument assembly."),
 "C27": ("instruction-count monitor (single-stepping) comparing functions on the same arguments, also while other calls are halted half-way, and sampled bursts of long calls", "Instructions, not time, so that the verdict does not depend on the load of the machine; calls of millions of values are sampled."),
 "C22": ("process-state monitor comparing snapshots before and after import and use", "States that Go programs can observe through the standard library and /proc."),
}
PENDING = {a for a in sys.argv[1:]}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i, "evidence_file": "evidence/%s.json" % i,
             "technique": T[i][0], "level": "exploration", "level_note": T[i][1] + " Held on what was executed, nothing more."} for i in ids if i not in PENDING],
 "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i in PENDING],
 "notes": "No hooks in /repo. fix: commits are listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

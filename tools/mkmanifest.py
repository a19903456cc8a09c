#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("exhaustive bounded histories of the real writer against a reference model, decoded by an independent reader",
         "Every history over the alphabets and depths of DESIGN.md, at small limits (pages and flushes inside the histories) and at the real limits up to a real 128 MiB flush. Trusts the harness's reader and that the small limits run the same code."),
 "C02": ("exhaustive bounded histories (depth-first over the real writer, states deduplicated) against a reference acceptance model",
         "Every sequence of writes over boundary timestamps and two to four series up to the stated depth, including page seals and flushes at any point."),
 "C03": ("exhaustive histories with every kind of refused write at every position, differential against the history without it",
         "All combinations of refusal kinds and positions in the base histories; the file must be byte-identical to the one without the refused writes."),
 "C04": ("exhaustive bounded histories and schemas, each file parsed completely by an independent structural checker",
         "Every byte of every file explored is accounted for. Bounded schemas/histories."),
 "C05": ("exhaustive enumeration of device/sensor sets and written subsets; lookups by an independent index reader",
         "All shapes up to several tree levels at fan-outs 2..5, the boundary shapes at the real fan-out 256, all small sets of names over an alphabet with dots."),
 "C06": ("exhaustive enumeration of value/timestamp sequences and page/chunk splits against exact statistics",
         "All sequences over boundary values per type up to the stated length; merged statistics over all splits."),
 "C07": ("exhaustive enumeration of path lengths, contents and series counts; membership evaluated by an independent Bloom/murmur implementation",
         "All path lengths and counts in the stated ranges, characters of every width at every place."),
 "C08": ("exhaustive enumeration of value/timestamp sequences, decoded by an independent decoder",
         "All sequences over boundary values up to the stated length, all lengths around block boundaries, all delta widths."),
 "C09": ("exhaustive exploration of steady streams with an invariant on every state (after every write)",
         "Invariant on sink position and page sizes after every write; every step of streams past two real flushes, all small-limit streams up to the stated depth."),
 "C10": ("exhaustive enumeration of schema orders, interleavings, groupings and points at which the clock moves; byte equality of the files",
         "All permutations/interleavings of the bounded histories, several processes."),
 "C11": ("exhaustive interleavings of two and three live writers on one and on several threads under a controlled scheduler",
         "All interleavings at the granularity of writer operations and sink requests. Writable static objects of the crate, the only memory writers could share, are looked for in the executable; where there are any, one preemption is explored just before and after every instruction that changes one (single-stepped threads)."),
 "C12": ("exhaustive fault injection: every short-write and interruption pattern of the sink within the deviation bound",
         "Every offset with one deviation, all pairs within the stated distance, and all uniform patterns."),
 "C13": ("exhaustive fault injection: every write request of every base history fails, once or permanently, with each error kind",
         "Sinks in memory, plus real files with limits (RLIMIT_FSIZE, /dev/full) in child processes."),
 "C14": ("exhaustive crash points: every byte prefix of every explored history is recovered by a forward scan",
         "All cuts of all base histories at byte granularity; append-only checked on every request and by tracing the system calls of real files."),
 "C15": ("exhaustive enumeration of initial file-system states and path shapes, as root and as an unprivileged user",
         "All combinations of the stated states and shapes in scratch directories."),
 "C16": ("exhaustive bounded histories of writes and closes, bytes compared after every operation",
         "All sequences up to the stated depth, at small and real limits."),
 "C17": ("exhaustive enumeration of all 2^32 unsigned and signed values",
         "Complete for the stated domain."),
 "C18": ("exhaustive bounded builder call sequences against a map model; all 256 codes",
         "All call sequences up to the stated depth over a small name alphabet."),
 "C19": ("exhaustive bounded schemas and operation sequences of the log against an independent parser and CRC",
         "All sequences up to the stated depth over a small name alphabet."),
 "C20": ("exhaustive server behaviours (every answer mutation, truncation, disconnect) against the real client over loopback",
         "Every byte position of the answer with every single-byte mutation, all truncations, all answer kinds. Two negative-length answers are known findings."),
 "C21": ("explicit-state exploration of directory states: crash before/after every system call, torn writes at every byte, power failure, failing calls, restarts; all schedules of two and three starts up to a preemption bound",
         "Breadth-first over crash states of the real code in child processes stopped by ptrace at every system call."),
 "C22": ("exhaustive fault positions of the transfer protocol against a scripted server, checked with a protocol model",
         "Every step with every refusal, exception, loss and truncation; file contents over all digest-prefix classes."),
 "C23": ("exhaustive legal call sequences of the C interface in a poisoned-memory process, differential against the Rust interface",
         "All legal sequences up to the stated depth with reused call strings and an allocator that detects use after free."),
 "C24": ("exhaustive programs over the Python classes, legal calls and misuse, run in an interpreter that fills freed memory; differential against the Rust interface",
         "All programs up to the stated depth over two schema slots and three writers, every point at which a with block can be left, all pairs of unusual names."),
 "C25": ("exhaustive sequences of calls and handler results over one connection between the real client and the real receiving side, in memory, and exhaustive forms of messages made by an independent encoder",
         "All sequences up to the stated depth, all numbers around powers of two, all characters, every cut of every message, unknown fields of every type at every place."),
 "C26": ("exhaustive histories of writers, schemas, senders and the C interface, each repeated in a process whose allocator and descriptor table are watched",
         "All histories up to the stated depth over memory, files and paths that cannot be opened, every write failing, every kind of answer at every step of a transfer; growth is decided over consecutive windows of repetitions."),
}
checks = []
for pid, (tech, note) in T.items():
    checks.append({"property": pid, "quick_cmd": f"bin/check {pid} quick", "thorough_cmd": f"bin/check {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": "model checking: " + tech,
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bin/build",
     "hooks": {"guard": "cfg(tsfile_verif), cfg(tsfile_verif_small)",
               "enable": "RUSTFLAGS=\"--cfg tsfile_verif\" (real limits) and RUSTFLAGS=\"--cfg tsfile_verif --cfg tsfile_verif_small\" (small page, chunk-group and check limits), both built by bin/build",
               "source_commits": ["67fb2ad", "807739c", "bab97af", "a770c06"]},
     "checks": checks, "not_applicable": [],
     "notes": "Every check explores the real code of /repo, built from its working tree in two variants. KNOWN_FINDINGS lists unrepaired defects and repairs. bin/replay FILE re-executes a recorded violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection"
note = {
 "C01": "Seeded search over well-formed files and benign delivery (short reads, single bytes, interrupted calls, delays) of the real library; the expected content comes from an independent encoder and model of the format. Not exhaustive; trusts that model.",
 "C02": "Seeded search over source failures of every kind at any byte and over truncation at any byte (biased to boundaries), judged against the model of completely read blobs.",
 "C03": "Seeded search over storage faults inside compressed payloads. A damaged payload that still passes the 32-bit checksum with other content would be reported; none was met.",
 "C04": "Seeded search over damaged and hostile files through every reader and accessor with step, result and time bounds, overflow checks on; a panic, hang or unbounded iteration is a violation.",
 "C05": "Seeded histories of reader calls with transient faults, judged step by step against a small reference model of positions.",
 "C06": "Seeded histories with persistent and transient faults, judged step by step against a reference model of the stopped/running state.",
 "C07": "Seeded intact, cut and damaged files read both ways and compared; a real memory map of a real file on one side.",
 "C08": "Seeded search over schedules of the real rayon thread pool under a deterministic scheduler (random, PCT, starvation, round-robin), files and delivery; sequentially consistent memory is assumed.",
 "C09": "As C08 with source failures, truncation, undecodable blobs and panicking closures; a call that never returns is detected as a simulated deadlock or step bound.",
 "C10": "Seeded query histories on one indexed reader against a reference model computed from the stored content.",
 "C11": "Seeded query histories with transient read and seek errors and panicking callbacks at any point, then recovery, against the same model.",
 "C12": "Seeded search around both limits and over lying lengths and decompression bombs, with heap use counted at the allocator and reads counted at the source.",
 "C13": "Seeded streams delivered through an unbuffered source that records every byte handed out, and a simulated stall exactly at a boundary.",
 "C14": "Seeded orders and thread interleavings of decoding under the deterministic scheduler, compared with decoding the blob alone.",
 "C19": "Seeded schedules of the real rayon pool on a simulated clock, with simulated costs of reads, decoding (per allocation) and callbacks; blobs in hand are counted at every callback, the time in which all threads sleep is held against the work. Thresholds are generous (64 + 8 blobs per thread; 3/4 or 1/2 of the work).",
 "C20": "Seeded repetitions and long files with undecodable blobs, failing sources and panicking callbacks; live heap is counted at the allocator between passes and along the file. Growth below 64 bytes over all passes, or below 64 KiB along a file, is not seen.",
 "C21": "Seeded query histories with transient failures over an unbuffered source that records every read, held against the blobs a small model says can contribute.",
 "C15": "Seeded system-call failures (open, lseek, read, mmap, fstat, statx) interposed at libc while the library opens and reads real files; open descriptors and mappings are counted before and after.",
}
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
  "evidence_file": f"evidence/{i}.json", "technique": T, "level": "exploration", "level_note": n} for i, n in note.items()]
na = {
 "C16": "Pure integer and float arithmetic on values already in memory: no schedule, time, I/O, fault or history can influence it, so a simulator decides nothing here that plain input generation would not. (C01 does compare coordinates and timestamps of the values it happens to store.)",
 "C17": "The announced length is a pure function of an immutable decoded block; no concurrency, time, I/O or fault takes part.",
 "C18": "Error conversion and formatting are pure functions of one value; no concurrency, time, I/O or fault takes part. (C15 does check that the operating system's error survives at the constructors.)",
}
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
  "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
  "notes": "No hooks in /repo: the seams are the Read/Seek traits, libc symbols (interposed by the simulator binary), the global allocator, and vendored copies of rayon and crossbeam-deque in /verif/sim/vendor. known-findings.txt lists the defects found and repaired. ./check.sh replay FILE replays a violation."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "w"), indent=1)

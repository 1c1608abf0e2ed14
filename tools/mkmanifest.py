#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from runs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from runs import RUNS
TECH = {
    "C01": "online conservation monitor on every release/capture of the real trap managers under random cloud histories",
    "C02": "invariant monitor over the watermark state of the real trap managers after every cloud",
    "C03": "online differential oracle: an independent depth-resolved trap model run beside the real trap managers",
    "C04": "online differential oracle: an independent transfer-by-transfer clocking model run beside the real image code",
    "C05": "offline conservation and exactly-once checker over the express matrices the real code builds",
    "C06": "trace monitor of trap states saved and restored by the real clocking, and checker of the save matrices",
    "C07": "trace monitor of phase/pixel interactions against simulated movement of charge, and checker of the clocking sequences",
    "C08": "metamorphic runtime oracle (permuted, removed and altered columns and rows) over random images",
    "C09": "metamorphic runtime oracle (windows, offsets, prescans, padding) with untouched-pixel monitor",
    "C10": "runtime oracle on the add/remove round trip and its convergence",
    "C11": "metamorphic runtime oracle (transposition, sequence)",
    "C12": "history monitor: bit-identical repetition under interleaved calls, with snapshots of inputs and models",
    "C13": "ThreadSanitizer on an instrumented OpenMP runtime, and bit-identity monitor across threads and concurrent callers",
    "C14": "AddressSanitizer, UBSan and LeakSanitizer over the workloads of all other properties and extreme images",
    "C15": "invariant and differential monitor around pruning of the real trap managers, and of whole images",
    "C16": "non-negativity monitor and differential oracle over random images, in C++ and Python",
    "C17": "runtime oracle: documented formula and order over random wells and clouds",
    "C18": "runtime oracle: independent quadrature of the release-time distribution against exact, inverse and tabulated functions",
    "C19": "differential oracle: Python against the C++ library, with snapshots of the caller's objects",
    "C20": "runtime oracle: independent bounce model, locality and linearity monitors over random images",
    "C21": "runtime oracle: independent neighbourhood formula, and per-step monitor of the separation",
    "C22": "round-trip and fault-injection monitor on image files in child processes; oracles for the array utilities",
    "C23": "outcome monitor of valid and invalid configurations in child processes",
    "C24": "metamorphic runtime oracle (no traps, out of reach, scalings)",
    "C25": "metamorphic runtime oracle (split, reordered, zero-density, reduced trap species)",
    "C26": "conservation ledger over whole images and their trap states",
    "C27": "monitor of file descriptor 1 and bit-identity across levels of verbosity",
    "C28": "invariant monitor over models requested for random dates in random order",
    "C29": "statistical monitor over seeded Poisson draws and oracle for the ellipticity fit",
    "C30": "monitor of exit status, output and files of the sanitized program against a reading of its command line",
}
NOTE = "sampled executions of the real code judged by an oracle; no claim beyond the inputs generated (counts in the evidence file)"
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 /verif/check.py %s quick" % p,
                 "thorough_cmd": "python3 /verif/check.py %s thorough" % p,
                 "technique": TECH[p], "level": "exploration", "level_note": NOTE} for p in RUNS],
     "not_applicable": []}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")

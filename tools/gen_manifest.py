#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = "reference-model runtime monitor: the real code driven by PRNG-determined workloads, every public observation compared with a mathematical model"
T = {
 "C01": RM + " after every write of random histories",
 "C02": RM + " after every write and resize of random vector histories",
 "C03": "trace monitor on enumeration event streams (exactly once, coordinates, values, counts), several enumerations interleaved",
 "C04": "trace monitor on callback events of maps and unary operators, plus reference model of the result",
 "C05": RM + "; views and arrays snapshotted and mutated both ways",
 "C06": "reference-model monitor with one independent model per copy/result under interleaved writes to all of them",
 "C07": "differential monitor: verdicts of all equality entry points against an element-wise oracle, equal and near-equal pairs, every format pair",
 "C08": RM + " for every product entry point and format combination, stale outputs",
 "C09": RM + " for sums and differences, outputs fresh, stale and aliased",
 "C10": RM + " for scaling and negation",
 "C11": RM + " for transposes and conversions, involution included",
 "C12": RM + " for element-wise intersection and union, outputs fresh, stale and aliased",
 "C13": "reference-model monitor of masked operations: old content protected at selected cells, unmasked result elsewhere, by mask format",
 "C14": "before/after snapshot monitor on every input plus recording proxies that flag any write to an input during the call",
 "C15": "fault injection with invalid calls: panic required, snapshots unchanged, goroutine leak detector",
 "C16": "fault injection of cancellations at every kind of event (polls, accesses, writes, callbacks, asynchronous), work-after-cancel counter, old-or-final cell oracle, goroutine leak detector",
 "C17": "Go race detector plus recording monoids (exactly-once fold checker), schedule disturbance, goroutine leak detector",
 "C18": "Go race detector plus offline linearizability checking (porcupine) of recorded concurrent histories, lock-release watchdog",
 "C19": "Go race detector over concurrent readers, each answer compared with the sequential one",
 "C20": "Go race detector plus reference-model monitor under disturbed schedules, goroutine leak detector",
 "C21": "reference-model monitor: structural echelon-form checker plus exact-arithmetic oracle within rounding bounds",
 "C22": "reference-model monitor: definition evaluated cell by cell, near-symmetric mutants, every format",
 "C23": "callback-trace monitor against path counts computed level by level; recording proxies for extra calls",
 "C24": "result monitor: multiset and order oracle on sorted matrices",
 "C25": "order-axiom monitor over triples of matrices plus code-point oracle",
 "C26": "Go race detector plus formula oracle and fold-trace checker over concurrent folds",
 "C27": "life-cycle monitor of the format registry: every element type asked at each step",
 "C28": "fault injection of panics at chosen callback invocations; old-or-new cell oracle, continued-use monitor, goroutine leak detector",
 "C29": "lock-step monitor of random operation programs against mathematical matrices",
 "C31": RM + " for vast dimensions, with heap and processor-time monitors that catch work growing with the dimension",
 "C32": "Go race detector over goroutines that use separate objects, each object compared with its own reference model; objects derived from one source included",
 "C33": "resource monitor: heap bytes and objects after collection and goroutine dumps before and after many repetitions of recorded activities",
 "C30": "differential monitor of context chains against the standard library's contexts",
}
RACE = "The happens-before race detector only sees races on executed paths. "
checks = []
for p, t in sorted(T.items()):
    note = ("Held on every execution observed; numbers and distinct cases are in the evidence file. Nothing is claimed for inputs or schedules not executed. "
            + (RACE if "race detector" in t else "")
            + "Trusts the Go toolchain and the reference models in harness/.")
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                       technique=t, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: everything is observed through the public API, user-side implementations of its interfaces, the race detector and goroutine dumps. Repairs of genuine defects are the fix: commits listed in known_findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

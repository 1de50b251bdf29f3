#!/usr/bin/env python3
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
base = "Seeded search over fixed numbers of simulated runs (no wall-clock cut-off), all real conversion code, confirmed and minimised replay for every violation. Samples schedules and inputs, does not enumerate them; trusts the reference tables in sim/data and that callers follow the documented protocol. "
notes = {
 "P01": ("seeded search over deliveries of byte streams to decoders, refinement against a reference model over the whole stream", "Faults: partial delivery, tiny/zero/exact windows, short reads, withheld end, damage, stalls; every 16th run sweeps consecutive characters so each character of each encoding is met."),
 "P02": ("seeded search over deliveries of text to encoders, refinement against a reference model over the whole stream", "Includes base letters and combining marks arriving apart, and every legal use of the Big5 end flag."),
 "P03": ("seeded search over relay chains encode-transport-decode with back-pressure, stalls and relay restarts, conservation of text", "The three Shift JIS substitutions in known_findings.txt are still present (pinned by an existing test) and printed as KNOWN-FINDING; any other change of text is a violation."),
 "P04": ("invariant on every call of seeded runs with damaged streams and dirty, guarded buffers; calls reaching new states repeated under Miri", "Undefined behaviour that leaves no trace in the output is looked for by repeating about 1600 (quick) calls, one per newly reached abstract state, in Miri with exactly sized heap blocks."),
 "P05": ("bounded liveness: progress of every call during faults, completion within pending+1 calls once faults stop", "A call that never returns is found by a watchdog on processor time and reported with its minimised replay."),
 "P06": ("streams cut at arbitrary bytes (with and without the end being signalled), history oracle on delivered units and the one truncation report", ""),
 "P07": ("bit flips, loss, duplication, insertion and segment swaps in transit with provenance tracking; containment and resynchronisation oracles", "Big5 and Shift JIS are required to recover from the next byte below 0x40 on; UTF-16/32 only where the damage keeps alignment."),
 "P08": ("crash and restart of conversions from saved positions with torn output, exactly-once oracle against an uninterrupted run of the same code", "Compared with the same code run in one call, so it judges restart consistency, not tables."),
 "P09": ("interleavings of several streams over shared dirty buffers, histories replayed in other orders and processes, threads under Miri's seeded scheduler", "Thread preemption inside calls is sampled under Miri's seeded scheduler (44 workloads x 8 schedules quick); shared state touched by no sampled call is not seen."),
 "P10": ("unrepresentable characters with skip, substitute and stop recovery under any delivery and crashes; per-call and whole-history oracles", ""),
 "P11": ("accounting invariant on every decoder call and tiling of the stream by conversions and reports over the recorded history", ""),
 "P14": ("allocation failure injected into every call (from the first, second or third allocation on) and small stacks, results compared with the undisturbed call", "The unchanged code asks for no memory at all, so on it the fault fires but nothing is refused; refused allocations end the process or change the result when code does ask. Simulated code runs on a 256 KiB stack with inputs up to about 140 kB."),
 "P16": ("seeded search over relay chains decode-encode(-decode-encode) with back-pressure, stalls and restarts; bytes passed on compared with the bytes received", "Big5 and Shift JIS streams may be normalised once to the codes of the published encoding table."),
 "P12": ("seeded search over window sequences, every call compared with the longest run of whole characters the reference model allows", ""),
}
checks = []
for p, (t, n) in sorted(notes.items()):
    checks.append(dict(property=p, quick_cmd=f"VERIF_TIER=quick ./check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}",
        evidence_file=f"evidence/{p}.json", technique=T + t, level="exploration", level_note=base + n))
na = [
 dict(property="P13", reason="A pure function of its input in one call: no schedule, fault, clock or interleaving for a simulator to vary; dressing table enumeration as simulation would be another technique. What streams need of the tables is decided by P01-P03."),
 dict(property="P17", reason="A statement about time; a simulator that replaces time decides nothing about performance. (A call that never returns is P05, memory is P14.)"),
 dict(property="P15", reason="A build-time relation between generator scripts and committed files, with no run-time behaviour, fault or schedule."),
]
json.dump(dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the crate's functions take their streams and buffers as arguments, which are the seams. Replays: ./check.sh replay FILE. Determinism self-test: ./check.sh selftest."),
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

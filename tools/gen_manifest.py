#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": "runtime monitoring: online trace-automaton checker over demuxer callbacks under randomised histories; race-detector run",
 "C02": "runtime monitoring: every delivered packet matched online against an executable reference model",
 "C03": "runtime monitoring: shadow copies of payloads and a per-stream block ledger around the real stream buffers",
 "C04": "runtime monitoring: end of probing compared with exact rational spans of a reference model",
 "C05": "runtime monitoring: announced tracks compared with the stream generator's ground truth after the input memory is overwritten",
 "C06": "runtime monitoring: shadow-block oracle over exhaustive short and random long operation sequences",
 "C07": "runtime monitoring: shadow-block oracle, split halves driven independently",
 "C08": "runtime monitoring: per-stream shadow oracle over interleaved pipelines",
 "C09": "runtime monitoring: sequence-model oracle over exhaustive short and random long operation sequences",
 "C10": "runtime monitoring: linearizability checking of recorded concurrent histories (porcupine), race detector",
 "C11": "runtime monitoring: fresh-object comparison and ownership set over recycling histories, race detector",
 "C12": "runtime monitoring: naive-scanner oracle over exhaustive short and random long byte strings",
 "C13": "runtime monitoring: unit-list oracle with guarded destinations over generated access units",
 "C14": "runtime monitoring: unit-list and metadata oracle over converted packets",
 "C15": "runtime monitoring: independent record reader and writer as oracle; truncation at every byte",
 "C16": "runtime monitoring: independent record reader and writer as oracle; truncation at every byte",
 "C17": "runtime monitoring: SPS generator's ground truth as oracle",
 "C18": "runtime monitoring: SPS generator's ground truth as oracle",
 "C19": "runtime monitoring: type-sequence oracle over exhaustive and random access units",
 "C20": "runtime monitoring: configuration views compared with ground truth and each other; concurrent readers under the race detector",
 "C21": "runtime monitoring: bit-level reference for ADTS and AudioSpecificConfig over enumerated and random fields",
 "C22": "runtime monitoring: mutation and truncation workloads under panic, CPU, allocation, guard-byte and input-change monitors",
 "C23": "runtime monitoring: bit-string model over enumerated ranges and random sequences",
 "C24": "runtime monitoring: cursor model over operation sequences with guard bytes",
 "C25": "runtime monitoring: exact rational-arithmetic oracle over timestamps",
 "C26": "runtime monitoring: model-checked roles run alone and concurrently, race detector, shared read-only inputs",
 "C27": "runtime monitoring: dump files read back and compared with recorded deliveries",
 "C28": "runtime monitoring: registry model over operation histories",
 "C29": "runtime monitoring: live-heap and allocation monitors over long steady-state runs",
 "C30": "runtime monitoring: contract checks over enumerated and extreme ranges, concurrent calls under the race detector",
 "C31": "runtime monitoring: end-to-end conservation oracle over chains of demuxers and converters, race detector",
}
RACE = {"C01","C02","C03","C04","C05","C10","C11","C20","C22","C26","C30","C31"}
checks = []
for k, t in sorted(T.items()):
    note = "The real code is executed under the monitors on a fixed, seeded set of workloads; a violation the workloads do not provoke is not seen. "
    if k in RACE: note += "The schedules are the ones the Go scheduler produced. "
    checks.append({"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
        "technique": t, "level": "exploration", "level_note": note.strip()})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)

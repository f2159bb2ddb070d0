#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
HOW = {
 "C01": ("reference-model monitor on exhaustive and random call histories", "every int32 through Split; all 11172 valid triples in all forms through Join; oracle: Unicode canonical decomposition"),
 "C02": ("reference-model monitor, single-fault letter triples", "all triples over a universe of letters, neighbours and aliases; per position every rune below 2^21 or so (thorough: every int32) with the others valid"),
 "C03": ("reference-model monitor, every rune value", "all six functions on every int32 value and in random call sequences"),
 "C04": ("reference-model monitor on Unicode letter identity", "oracle derived from Unicode character names; every int32 in the thorough tier"),
 "C05": ("reference-model monitor, histories with hostile callers", "every letter form; returned slices overwritten and results observed again"),
 "C06": ("reference-model and conservation monitors", "published counts as oracle, and observed counts of parts against observed counts of wholes"),
 "C07": ("reference-model monitor on hostile words", "every Unicode scalar value as final character in several contexts; malformed and long words"),
 "C08": ("reference-model monitor on word and particle pairs", "every syllable with a list of particle pairs; arbitrary bytes as word and particles"),
 "C09": ("reference-model monitor on CP949 texts", "all 32768 two-byte characters in contexts; random texts; oracle from Python's cp949 and glibc's UHC, cross-checked with x/text"),
 "C10": ("reference-model monitor on UTF-8 and malformed texts", "every Unicode scalar value in contexts; all byte strings of up to three bytes; random texts"),
 "C11": ("conservation monitor on round trips", "in = out through all 49 combinations of decoding and encoding interfaces"),
 "C12": ("error monitor on truncated and whole texts", "texts cut at every position, through every interface"),
 "C13": ("stream monitor with hostile sources and buffers", "all divisions of short texts; random schedules on long ones; interleaved readers; canaries around buffers"),
 "C14": ("online monitor in the source, fault injection", "at every source read: delivered = complete characters supplied; injected errors at every position"),
 "C15": ("online monitor in the sink on divided writes", "all divisions of short texts; random schedules on long ones; interleaved writers"),
 "C16": ("fault injection in the sink with exactly-once monitor", "every set of failing calls on short texts; random failures on long ones; retried writes"),
 "C17": ("transformer contract monitor on every call", "every window and destination size on short texts; random ones on long texts; all x/text entry points; reused instances"),
 "C18": ("structural monitor on hanja conversion", "IsHanja on runes (thorough: every int32); texts against what was observed for single characters; idempotence"),
 "C19": ("reference monitor on readings; order monitor of KS X 1001", "all 27496 hanja in nine contexts against pinned readings; observed readings against the order of the standard"),
 "C20": ("Go race detector and differential histories against solo runs", "cold-start concurrent phases and random histories compared with fresh single-operation processes; race reports with frames of the code under test"),
 "C21": ("write-protected arguments, overwritten buffers, retained results", "arguments in read-only mappings during calls; canaries; results compared again after later calls"),
 "C22": ("reference monitor on the constants and their use", "Unicode character names as oracle; constants carried through the conversions"),
 "C23": ("supervised stress with resource and validity monitors", "watchdog on processor time and heap; counted source reads, sink writes and allocation; memory and goroutines kept after repeated operations and during long streams; validity of all output"),
}
checks = []
for l in open("properties.jsonl"):
    d = json.loads(l)
    t, n = HOW[d["id"]]
    checks.append({"property": d["id"], "quick_cmd": f"./check {d['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {d['id']}",
                   "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n + "; held on the executions observed"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")

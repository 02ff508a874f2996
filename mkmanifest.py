#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the texts here."""
import json

LEVEL_NOTE = ("Searches generated inputs; no finding is evidence, not proof. Trusts the harness's schoolbook reference "
              "integers, the byte conversions used to make and observe values, and rustc. ")

TECHNIQUE = {
    "C15": "stateful model-based property testing (random histories against reference integers, with shrinking)",
    "C18": "stateful model-based property testing of ring histories against reference residues",
    "C20": "property testing of operations across rings against an identity model",
    "C21": "property testing with chosen random sources (bijection, adversarial outputs) and chi-square on seeded samples",
    "C22": "round-trip and reference-token property testing over several formats",
    "C23": "property testing around the size limit, reached in full on the 16-bit word build",
    "C24": "differential testing: transcripts of generated programs compared over six builds",
    "C25": "stateful property testing under a checking allocator, with fault injection; AddressSanitizer builds and Miri",
    "C28": "fuzzing of serialized forms and readers, differential against serde's own reading of the same input",
    "C29": "metamorphic property testing: the same operation on operands 8 times as long, work counted by compiler-inserted callbacks",
    "C30": "property testing of generated programs run alone and in several threads at once on shared operands (and under Miri, which detects data races)",
    "C31": "fault injection: generated operations in child processes under an allocator that refuses chosen requests, outcome compared with an undisturbed run",
    "C32": "metamorphic property testing: the same operation on operands 8 and 64 times as long, stack use read from a painted stack",
    "C27": "generated literal programs compiled and compared with the reference and with run-time parsing",
}
NOTE = {
    "C29": "Work inside the standard library and memory moves is not counted. ",
    "C23": "The 64- and 32-bit limits are only approached by shifts of short values, since values of that length do not fit memory. ",
    "C25": "Memory errors that leave canaries, poison and AddressSanitizer silent are not seen; Miri runs small cases only. ",
    "C30": "Schedules are those of the operating system and of Miri (which sees data races whatever the order); they are not enumerated. ",
    "C21": "Uniformity of long ranges is tested by the bijection between source outputs and values and by bucketed chi-square, not for every range. ",
}

checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECHNIQUE.get(i, "property-based testing against reference integers, with shrinking") + ("" if i in ("C24", "C27", "C29", "C30", "C31", "C32") else "; random and coverage-guided search"),
        "level": "exploration",
        "level_note": LEVEL_NOTE + NOTE.get(i, ""),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "nothing to enable: the checks use the public API and the project's own cfg(force_bits)", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "Replay a failure with: python3 check.py <ID> --replay <path>. Findings and fixes: known_findings.txt.",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

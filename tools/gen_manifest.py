#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("model-based property testing: generated contract models vs. parsed summary", "Contracts are built from a model of the interface (names, types, order, duplicates, special names, any bodies) and the summary read through the public fields must equal the model."),
 "C02": ("model-based property testing: generated type trees in every position", "Types generated to depth 12 with any legal parenthesisation; the reported type must equal the generated one."),
 "C03": ("generative fuzzing with a crash/hang oracle in a supervised child process", "Arbitrary characters, token soups, mauled contracts, grammatical programs, deep nesting on an 8 MiB stack, 64 KiB repetitions; overflow checks and debug assertions on."),
 "C04": ("grammar-based generation plus mutation; differential against an independent Earley recogniser", "The documented grammar is restated as data; verdicts of 45 category parsers are compared with the recogniser's."),
 "C05": ("metamorphic property testing over layouts of one token sequence", "Trees without positions and summaries of differently laid out texts must be equal, valid or damaged."),
 "C06": ("differential property testing against an independent reference lexer", "Kinds, extents and spellings of all tokens compared, on separated and run-together lexemes."),
 "C07": ("property-based testing: positions recomputed from the generated layout", "Every token and every positioned node of generated trees compared with where the layout printer put it."),
 "C08": ("grammar-based generation of derivations; parsed tree compared with the derivation", "The sampler's derivation tree is the oracle for alternatives, children, order, leaf texts and printed identifiers."),
 "C09": ("mutation of generated texts; first offending token from an Earley viable-prefix oracle", "Blamed token, extent and kind, or end of text, compared with the recogniser's viable-prefix verdict."),
 "C10": ("round-trip property testing of type values, equality against a structural model", "Type values of depth 10 printed, declared, re-read; equality checked on near-miss pairs."),
 "C11": ("differential property testing file vs. text with injected file faults", "Files of odd names next to misleading ones, symlinks, ten path spellings, sizes to 5 MiB, twelve faults (invalid UTF-8, missing files, directories, dangling links …), in a scratch directory."),
 "C12": ("property-based testing of recorded walks against the tree's own structure", "All visitor events, positions included, compared with the pre/post-order derived from the tree."),
 "C13": ("fault injection at every visitor event of generated trees, plus random skip sets", "Each event index fails once on small trees (a sample on large ones); expected event prefix and error compared exactly."),
 "C14": ("stateful property testing: random histories and threads against first results", "Histories of parses with shared and fresh parser objects over up to 8 threads, one case in ten repeated in a process with another directory, environment and locale, and fixed canaries re-checked against the process's first results; schedules are the operating system's."),
 "C15": ("stateful metamorphic testing: edit histories against a summary model", "Random edits applied to generated and example contracts; summary must change exactly as the model."),
 "C16": ("property-based testing: one unrepresentable type planted at a random place", "An offending type in the interface must give Err, elsewhere Ok with the right summary."),
 "C17": ("property-based testing of equality, copies and constructors against plain data", "Near-miss pairs of summaries, parsed and hand-built; == must agree with the model's equality at every level."),
 "C18": ("metamorphic property testing of tree equality and order against the trees' own content", "Pairs and triples of same-category texts related by layout, respelling or damage; == must agree with a field-by-field reading of both trees, and the order must be a consistent total order."),
 "C19": ("model-based testing: program trees assembled from parsed parts, with the summary each part stands for", "Random recombination of parsed contract parts; the emitted summary must be the recombined model."),
 "C20": ("property-based performance testing: generated pumpable texts, growth of allocations and processor time", "A part of a sampled sentence that the recogniser finds repeatable is repeated more and more often; allocations and thread processor time may grow at most 3 and 10 times faster than the repetitions, re-measured before a verdict."),
 "C21": ("stateful property testing in a process of its own, observed from outside and inside", "Random histories of repeated operations in a child process whose output, files, descriptors, threads, children, signal state, limits, directory, environment, panic hook and memory in use are compared before and after."),
 "C22": ("differential property testing of error contents against an Earley viable-prefix oracle", "Every listed expected token must be one the recogniser finds possible at that place; lists may be incomplete (the parser reduces before it notices an error)."),
}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = [{
  "property": p,
  "quick_cmd": f"./run.sh {p} --tier quick",
  "thorough_cmd": f"./run.sh {p} --tier thorough",
  "evidence_file": f"evidence/{p}.json",
  "technique": T[p][0],
  "level": "exploration",
  "level_note": T[p][1] + " Generated-input search: no violation in the cases explored, no proof of absence.",
} for p in props]
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {"guard": "none", "enable": "no hooks: the checks use the crate's public API only", "source_commits": []},
 "checks": checks,
 "not_applicable": [],
 "notes": "Every check is a pure function of /repo's tree and VERIF_SEED: fixed numbers of generated cases, each drawn from (seed, property, index). A replay file is replayed with ./run.sh ID --replay FILE. Defects found and repaired are listed in known_findings.txt.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")

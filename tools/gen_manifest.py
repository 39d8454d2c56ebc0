#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    s = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique=s.get("technique", "property-based testing: generated programs x generated schedules (random walk, PCT) under a deterministic runtime, with shrinking and exact replay"),
        level="exploration",
        level_note=s.get("note", "Explores a seeded sample of programs and interleavings of the real code, deterministic and replayable; absence of failures is evidence, not proof. Trusts the harness runtime as a model of POSIX threads and semaphores, and interleaves sequentially consistently.")))
doc = dict(version=1, setup_cmd="python3 check.py --build", hooks=dict(guard="none", enable="no hooks: the library's headers are compiled unmodified with -fsanitize=thread instrumentation, linked against harness/rt.cpp instead of the sanitizer runtime", source_commits=[]),
    checks=checks, not_applicable=[dict(property=i, reason="no check built yet") for i in ids if i not in PROPS],
    notes="See DESIGN.md. VERIF_SEED seeds every random choice.")
json.dump(doc, open(V + "/MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json (a development aid: no check runs it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from manifest_notes import NOTES
old = json.load(open(os.path.join(V, "MANIFEST.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
old["checks"] = [{
    "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
    "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]} for p in props if p in NOTES]
old["not_applicable"] = []
json.dump(old, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

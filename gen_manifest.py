#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CONFIG
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
json.dump(dict(version=1, setup_cmd="python3 check.py --build",
               checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                            technique=CONFIG[i]["technique"], level=CONFIG[i]["level"], level_note=CONFIG[i]["note"])
                       for i in ids if i in CONFIG],
               not_applicable=[dict(property=i, reason="check under construction") for i in ids if i not in CONFIG],
               notes="No hooks in /repo: every monitor observes the public interface, the files on disk or the system calls."),
          open("MANIFEST.json", "w"), indent=1)

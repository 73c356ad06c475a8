#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
import props
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props.properties()))
(V / "MANIFEST.json").write_text(json.dumps(props.manifest(), indent=1) + "\n")

#!/bin/bash
# regenerate properties.jsonl, MANIFEST.json and DESIGN.md
cd "$(dirname "$0")/.." && python3 tools/make_properties.py && python3 tools/make_manifest.py && python3 tools/make_design.py

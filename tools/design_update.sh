#!/bin/bash
# Rewrites the rows of the planted-changes table in DESIGN.md.
cd "$(dirname "$0")/.." || exit 1
n=$(grep -n '^## Planted changes' DESIGN.md | cut -d: -f1)
h=$(tail -n +"$n" DESIGN.md | grep -n '^|---\|^| ---' | head -1 | cut -d: -f1)
head -n $((n + h - 1)) DESIGN.md > DESIGN.new
python3 tools/design_table.py >> DESIGN.new && mv DESIGN.new DESIGN.md

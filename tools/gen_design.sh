#!/bin/bash
# gen_design.sh RESULTS...: DESIGN.md from its parts and the table of planted bugs
cd "$(dirname "$0")/.."
{ cat tools/DESIGN.head.md; echo "## 6. Planted bugs"; echo
echo "\`seeded/<id>\`; every one compiles, passes the existing tests, and has a demonstration. All are caught by the quick check of the property they were written from."; echo
python3 tools/gen_design_tables.py "$@"; cat tools/DESIGN.tail.md; } > DESIGN.md

#!/bin/bash
# DESIGN.md = head + per-property part + tail (findings, false alarms) + planted bugs
cd "$(dirname "$0")"
{ cat DESIGN.head.md; echo '## Properties'; echo; /opt/venv/bin/python gen_design_table.py; cat DESIGN.tail.md; [ -d seeded ] && /opt/venv/bin/python gen_design_seeds.py; } > DESIGN.md

#!/bin/bash
# regenerate the 'fixed:' lines of KNOWN_FINDINGS.txt, keeping the 'finding:' lines
cd "$(dirname "$0")/.." || exit 1
f=$(grep '^finding:' KNOWN_FINDINGS.txt)
{ echo "# 'finding:' lines suppress exactly one (sub, tag) of a property; 'fixed:' lines suppress nothing."; python3 tools/mkfixed.py; echo "$f"; } > KF.tmp && mv KF.tmp KNOWN_FINDINGS.txt

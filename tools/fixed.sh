#!/bin/bash
# tools/fixed.sh PID "what failed" FILE... : commit the files in /repo with message $MSG and record it
PID=$1; WHAT=$2; shift 2
git -C /repo commit -qm "fix: $MSG" "$@" || exit 1
H=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$PID $H $WHAT" >> /verif/known_findings.jsonl
echo "$H fix: $MSG"

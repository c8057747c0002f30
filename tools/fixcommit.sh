#!/bin/bash
# fixcommit.sh PROPERTY "commit message after fix:" "what failed" FILE...   (run the suite yourself first)
P=$1; M=$2; W=$3; shift 3
cd /repo && git add "$@" && git commit -qm "fix: $M" && H=$(git rev-parse --short HEAD) && echo "fixed: property=$P $H $W" >> /verif/KNOWN_FINDINGS.txt && echo $H

#!/bin/bash
# fixline.sh C07 "subject fragment" "what failed": appends a fixed line for the /repo commit whose subject matches
h=$(git -C /repo log --format='%h %s' | grep -F "$2" | head -1 | cut -d' ' -f1)
[ -n "$h" ] || { echo "no commit for $2"; exit 1; }
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt

#!/bin/bash
# usage: tools/fixed.sh <property> <subject substring> <what failed>   records a repaired defect
h=$(git -C /repo log --format='%h %s' --abbrev=7 | grep -F -- "$2" | cut -c1-7)
[ "$(echo $h | wc -w)" = 1 ] || { echo "no single commit for $2: $h" >&2; exit 1; }
echo "fixed: property=$1 $h $3" >> "$(dirname "$0")/../known_findings.txt"

#!/bin/bash
# fixlog.sh PROPERTY "commit subject" "what failed": commit the repair in /repo and record it
set -e
git -C /repo commit -qam "fix: $2"
echo "fixed: property=$1 $(git -C /repo log --format=%h -1) $3" >> /verif/known-findings.txt

#!/bin/bash
# usage: fix.sh <property> <what failed> -- commits the current /repo change as a "fix:" and records it
prop=$1; what=$2
cd /repo && git commit -qam "fix: $what" && h=$(git rev-parse --short HEAD) && echo "fixed: property=$prop $h $what" >> /verif/known_findings.txt && git show --stat | tail -3

#!/bin/bash
# usage: fixed.sh <property> <what failed>   (records the commit at /repo's HEAD)
echo "fixed: property=$1 $(git -C "${R:-/repo}" rev-parse --short HEAD) $2" >> "$(dirname "$0")/../known_findings.txt"

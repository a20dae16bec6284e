#!/bin/sh
# usage: fixed.sh <property> <text>: records the latest /repo commit as a repair
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/known_findings.jsonl

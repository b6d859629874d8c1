#!/bin/bash
# t.sh "<harnesses>" seconds "<seeds>" [bin]
cd /verif; python3 tools/build.py $( [ "${4:-simcore}" = simfull ] && echo full || echo core ) 2>&1 | grep -E "error" | head -20
for s in ${3:-1}; do for h in $1; do build/${4:-simcore} run $h --seed $s --time ${2:-8} --jobs 8 --out work/$h.json --prop T01 --replay-dir work --known known-findings.txt; python3 tools/jv.py work/$h.json; done; done

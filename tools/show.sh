#!/bin/bash
# dev helper: run a check, print unique problems briefly
cd /verif
./check "$@" -v -k > /tmp/show_$1.txt 2>&1
grep -E "INCOMPLETE|Traceback" /tmp/show_$1.txt | sed -E 's/ +paths=/ paths=/' | cut -c1-300 | head -${SHOWN:-12}
grep -E "^   (VIOL|UNCONF|DISAG)" /tmp/show_$1.txt | sed -E "s/'values': \{[^}]*\}/V/" | sort | uniq -c | sort -rn | cut -c1-330 | head -12
grep -E "^   (VIOL|UNCONF|DISAG)" /tmp/show_$1.txt | cut -c1-700 | head -3
tail -1 /tmp/show_$1.txt

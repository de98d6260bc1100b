#!/bin/bash
# usage: fixcommit.sh "message" : build, run the stable tests, commit /repo's change
cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
r=$(python3 /verif/tools/cmp_baseline.py /tmp/o.json); echo "$r"
case "$r" in "74 of 74"*) git commit -qam "$1" && git log --oneline | head -1;; *) echo "NOT COMMITTED";; esac
git status --short | head

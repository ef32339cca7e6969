#!/bin/bash
# try.sh ID : check the seeded bug: demo ok unpatched, tests pass patched, demo fails patched
id=$1; d=/verif/seeded/$id
rm -rf /tmp/sb/wt_$id; cp -a /repo /tmp/sb/wt_$id; cd /tmp/sb/wt_$id || exit 9
sh $d/demo.sh >/tmp/sb/o1 2>&1; a=$?
git apply $d/patch.diff || { echo "$id APPLY FAILED"; exit 1; }
sh $d/demo.sh >/tmp/sb/o2 2>&1; b=$?
t=$(/opt/venv/bin/python -m pytest -q dustgoggles 2>&1 | tail -1)
echo "$id demo clean=$a patched=$b ($(tail -1 /tmp/sb/o2 | cut -c1-150)) tests: $t"
[ $a = 0 ] || tail -5 /tmp/sb/o1
cd /; rm -rf /tmp/sb/wt_$id

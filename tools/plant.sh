#!/bin/bash
# plant.sh ID: diff of the scratch copy /tmp/wt against /repo HEAD -> seeded/ID/patch.diff (+ demo helpers), then reset it
set -e
ID=$1; S=/verif/seeded/$ID; mkdir -p "$S/worlds"
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
if [ -n "$(git -C /tmp/wt diff)" ]; then git -C /tmp/wt diff > "$S/patch.diff"; git -C /tmp/wt checkout -q -- .; fi
cp /verif/tools/demo/demo.sh /verif/tools/demo/demolib.py "$S/"
cp /verif/worlds/__init__.py /verif/worlds/nav.py /verif/worlds/proc.py /verif/worlds/ci.py /verif/worlds/cal.py /verif/worlds/instr.py /verif/worlds/conv.py "$S/worlds/"
chmod +x "$S/demo.sh"
cd /tmp/wt; git checkout -q -- .
"$S/demo.sh" > /tmp/plant.out 2>&1 && echo "clean: ok" || { echo "clean: FAILS"; tail -5 /tmp/plant.out; }
git apply "$S/patch.diff"
"$S/demo.sh" > /tmp/plant.out 2>&1 && echo "patched: NOT DETECTED" || { echo "patched: fails as wanted"; tail -2 /tmp/plant.out | cut -c1-300; }
git checkout -q -- .

#!/bin/bash
# redemo.sh ID: run the demo of a seed on a clean and a patched scratch copy
W=/tmp/w/redemo_$$; rm -rf $W; mkdir -p $W; git -C /repo archive HEAD | tar x -C $W
(cd $W && timeout 300 bash /verif/seeded/$1/demo.sh >/tmp/w/rd.log 2>&1; echo "$1 clean rc=$?")
(cd $W && git init -q && git apply /verif/seeded/$1/patch.diff && timeout 300 bash /verif/seeded/$1/demo.sh >/tmp/w/rd.log 2>&1; echo "$1 patched rc=$?")
rm -rf $W

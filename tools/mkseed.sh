#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" < python edit script on stdin (functions sub(file, old, new)); demo.sh must already exist in seeded/ID
# Makes seeded/ID/patch.diff + meta.json from an edit of a scratch copy of /repo and confirms the demo both ways.
set -e
ID=$1; PROP=$2; D=/verif/seeded/$ID; W=/tmp/w/seed_$$
mkdir -p $D /tmp/w; rm -rf /tmp/w/seed_$$; mkdir $W
git -C /repo archive HEAD | tar x -C $W; (cd $W && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x)
cat > $W.py <<'P'
import sys
def sub(f, old, new, n=1):
    s = open(f).read()
    assert s.count(old) >= 1, (f, old)
    assert s.count(old) == n, ("count", s.count(old))
    open(f, 'w').write(s.replace(old, new))
P
cat >> $W.py
echo "clean: expect 0"; (cd $W && bash $D/demo.sh) >/tmp/w/seed.log 2>&1 && echo "  ok" || { echo "  FAILED"; tail -5 /tmp/w/seed.log; }
(cd $W && python3 $W.py && git diff > $D/patch.diff)
echo "patched: expect nonzero"; (cd $W && timeout 290 bash $D/demo.sh) >/tmp/w/seed.log 2>&1 && echo "  DEMO PASSES (bad)" || { echo "  ok rc=$?"; tail -2 /tmp/w/seed.log | cut -c1-200; }
# the stable test, compiled as the official build does
if (cd $W && g++-13 -std=c++20 -I. bant/util/arena-container_test.cc -o $W.t -lgmock -lgtest -lgtest_main -lpthread 2>/tmp/w/seed.log && $W.t >/dev/null && g++-13 -std=c++20 -I. -c bant/frontend/source-locator.cc -o /dev/null && g++-13 -std=c++17 -c scripts/run-clang-tidy-cached.cc -o /dev/null); then echo "stable test ok"; else echo "STABLE TEST FAILS"; tail -3 /tmp/w/seed.log; fi
python3 - "$D" "$PROP" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
for x in $W $W.py $W.t; do rm -rf "$x"; done

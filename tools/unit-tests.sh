#!/bin/bash
# Builds and runs all of bant's own unit tests against the stand-in headers (for judging fixes and planted bugs; no check uses it).
R=${1:-/repo}; O=$(mktemp -d); cd "$R"
ls bant/*.cc bant/*/*.cc | grep -v 'bant/bant.cc' | xargs -P8 -I{} sh -c "g++ -std=c++23 -w -g -O1 -I. -isystem /verif/shims -c {} -o $O/\$(echo {}|tr / _).o || echo COMPILE FAIL {}"
ar rcs $O/lib.a $(ls $O/*.o | grep -v _test.cc)
for t in $O/*_test.cc.o; do g++ $t $O/lib.a -lgtest -lgmock -lgtest_main -lpthread -l:libre2.so.10 -o $t.x 2>/dev/null && (cd $O; echo "$(basename $t): $(timeout 100 $t.x 2>&1 | grep -E '^\[  (PASSED|FAILED)' | tr '\n' ' ')") || echo "NO LINK $t"; done
rm -rf "$O"

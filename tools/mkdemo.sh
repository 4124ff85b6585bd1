#!/bin/bash
# mkdemo.sh ID "repo sources | ALL" "comment" < demo.cc : writes seeded/ID/{demo.sh,demo.cc,inc/} (inc: stand-ins for headers this sandbox lacks)
D=/verif/seeded/$1; mkdir -p $D; cat > $D/demo.cc
rm -rf "$D/inc"; cp -r /verif/shims $D/inc
FL="-std=c++23 -w -g ${SAN--fsanitize=address,undefined -fno-sanitize-recover=all}"
if [ "$2" = ALL ]; then FL="-std=c++23 -w -O0 ${SAN-}"; fi
{ cat <<S
#!/bin/bash
# $3
H=\$(cd "\$(dirname "\$0")" && pwd); T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
S
if [ "$2" = ALL ]; then cat <<S
ls bant/*.cc bant/*/*.cc | grep -v _test.cc | grep -v '^bant/bant.cc' | xargs -P8 -I{} bash -c 'g++-13 $FL -I. -isystem "'"\$H"'/inc" -c {} -o "'"\$T"'/\$(echo {} | tr / _).o"' || exit 9
g++-13 $FL -I. -isystem "\$H/inc" "\$H/demo.cc" "\$T"/*.o -o "\$T/d" -l:libre2.so.10 -lpthread || exit 9
S
else cat <<S
g++-13 $FL -I. -isystem "\$H/inc" "\$H/demo.cc" $2 -o "\$T/d" -l:libre2.so.10 -lpthread || exit 9
S
fi
cat <<S
cd "\$T" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./d
S
} > $D/demo.sh

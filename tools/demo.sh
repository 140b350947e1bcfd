#!/bin/bash
# Run in the root of the built repository: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 9; trap 'rm -rf "$T"' EXIT
gcc -O1 -w -D_GNU_SOURCE -march=haswell -Iheaders -Iheaders/RadarKit -o "$T/demo" "$D/demo.c" libradarkit.a -L/usr/local/lib -L/usr/lib/x86_64-linux-gnu -lfftw3f -lnetcdf -lpthread -lz -lm -lssl -lcrypto -lrt -ldl || exit 9
cd "$T" && timeout 200 ./demo

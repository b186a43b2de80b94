#!/bin/bash
# compiles demo.cc against the built cyclus and runs it; exit 0 iff the property held
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
I=/opt/cyclus/install
INC="-I$I/include/cyclus -I$I/include/cyclus/toolkit -I/usr/include/hdf5/serial -I/usr/include/coin"
for d in libxml2 libxml++-2.6 glibmm-2.4 glib-2.0 sigc++-2.0; do INC="$INC -isystem /usr/include/$d -isystem /usr/lib/x86_64-linux-gnu/$d/include"; done
L=$(ls $I/lib/libcyclus.so $I/lib/cyclus/libcyclus.so 2>/dev/null | head -1)
WK=""; [ -e /opt/cyclus/cmake/missing_weak.h ] && WK="-include /opt/cyclus/cmake/missing_weak.h"
g++ -std=c++17 -w -O0 -DBOOST_VERSION_MINOR=83 $WK $INC -I"$D" "$D/demo.cc" "$L" -o "$W/demo" -Wl,-rpath,$(dirname "$L") -Wl,--allow-shlib-undefined -lboost_system -lboost_filesystem -lxml++-2.6 -lglibmm-2.4 -lsqlite3 -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5_hl -lhdf5 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lboost_serialization -lxml2 -ldl -lpthread || { echo "demo does not compile"; exit 3; }
cd "$W" && timeout 120 ./demo

#!/bin/bash
# Builds the engine found in the current directory against the stand-ins beside this file and
# runs demo.cpp. Exit 0: the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
F="-std=c++17 -O0 -g0 -w -pthread -mcx16 -DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DPWAL
 -DKVS_MAX_PARALLEL_THREADS=112 -DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0
 -DPARAM_SNAPSHOT_EPOCH=25 -DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000
 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0 -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1
 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 -DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1
 -I$repo/include -I$repo/src -I$repo/src/include -I$repo/third_party -I$here/standin -I$here"
i=0
list="$w/list"
for f in $(find "$repo/src" -name '*.cpp') "$here"/standin/src/*.cpp "$here/demo.cpp"; do
    i=$((i + 1))
    echo "$f $w/$i.o"
done > "$list"
export F
xargs -P 8 -L 1 sh -c 'g++ $F -DPROJECT_ROOT=\"/nonexistent\" -c "$0" -o "$1"' < "$list" || { echo "build failed"; exit 3; }
g++ -pthread -o "$w/demo" "$w"/*.o -lglog -lgflags -lboost_filesystem -ltbb -latomic || { echo "link failed"; exit 3; }
mkdir "$w/log"
timeout 120 "$w/demo" "$w/log"
rc=$?
echo "demo ended with $rc"
exit $rc

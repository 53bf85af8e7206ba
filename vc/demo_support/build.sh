#!/bin/bash
# build.sh OUT MAIN.cpp SRC...: compiles a demonstration together with sources of the FairMQ tree in the current directory
set -e
H=$(cd "$(dirname "$0")" && pwd); OUT=$1; shift
T=$(mktemp -d /tmp/fmqdemo.XXXXXX); trap "rm -r -f $T" EXIT
i=0
for s in "$@"; do i=$((i+1)); echo "$s $T/$i.o"; done | xargs -P 8 -L 1 sh -c 'g++ -std=c++17 -O0 -g -w $CXXF -I"$0" -I"$1" -DFAIRMQ_HAS_STD_FILESYSTEM=1 -DFAIRMQ_HAS_STD_PMR=1 -DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_ASIO_HAS_HAS_STD_CHRONO -c "$2" -o "$3" || exit 255' "$H/stub" "$PWD"
g++ -g $CXXF $T/*.o -o "$OUT" -lzmq -lboost_program_options -lboost_filesystem -lboost_container -lboost_regex -lpthread -lrt -ldl

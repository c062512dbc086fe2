#!/bin/bash
# compiles demo.cc against the current tree and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp "$here"/*.cc "$here"/*.h "$here"/*.proto "$work" 2>/dev/null
cd "$work" || exit 2
/opt/vp/prefix/bin/protoc --cpp_out=. -I. -I"$repo/src" -I/opt/vp/prefix/include -I/usr/include echo_service.proto || exit 2
g++ -std=gnu++17 -O1 -g -w -fno-access-control -DSOFA_PBRPC_ENABLE_DETAILED_LOGGING -include /opt/vp/compat.h -D_GNU_SOURCE \
    -D__STDC_LIMIT_MACROS -DHAVE_SNAPPY -I. -I"$repo/src" -I/opt/vp/prefix/include demo.cc echo_service.pb.cc \
    "$repo/libsofa-pbrpc.a" /opt/vp/prefix/lib/libprotobuf.a /opt/vp/prefix/lib/libsnappy.a -lpthread -lz -lrt -o demo || exit 2
timeout -k 5 "${DEMO_TIMEOUT:-120}" ./demo

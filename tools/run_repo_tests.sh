#!/bin/bash
# Builds, with the upb stand-in, the repository's unit tests that need upb
# (which /opt/vp/build.sh leaves out) and runs them.  Development aid: shows
# that the stand-in behaves as the code expects.   run_repo_tests.sh [REPO]
REPO=${1:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); B=$(mktemp -d /tmp/rt.XXXX)
CXX="g++ -std=c++14 -O1 -g -I$REPO -I$V/shim -Wno-deprecated-declarations -fsanitize=address,undefined"
srcs="$(ls $REPO/src/*/*.cc | grep -v -e _test.cc -e test_util.cc -e token_manager) $REPO/src/token_manager/fake_access_token_manager.cc $REPO/src/handshaker/s2a_proxy_test_util.cc $REPO/src/crypto/s2a_aead_crypter_test_util.cc"
for f in $srcs; do echo "$CXX -c $f -o $B/$(basename $f .cc).o"; done > $B/cmds
for f in $V/shim/upb_shim.c $REPO/src/proto/upb-generated/proto/*.c; do
  echo "gcc -O1 -g -I$REPO -I$V/shim -fsanitize=address,undefined -c $f -o $B/$(basename $f .c).o"; done >> $B/cmds
T="s2a_frame_protector_test s2a_context_test s2a_proxy_test s2a_util_test s2a_crypter_test s2a_crypter_roundtrip_test s2a_half_connection_test s2a_upb_ticket_sender_test"
for t in $T; do echo "$CXX -c $(ls $REPO/src/*/$t.cc) -o $B/T_$t.o"; done >> $B/cmds
xargs -P8 -I{} sh -c '{}' < $B/cmds || { echo BUILD FAILED; exit 2; }
ABSL=$(pkg-config --libs absl_status absl_statusor absl_str_format absl_synchronization absl_flat_hash_map absl_flat_hash_set absl_flags absl_variant 2>/dev/null)
for t in $T; do
  g++ -fsanitize=address,undefined -o $B/$t $B/T_$t.o $(ls $B/*.o | grep -v /T_) -lgmock -lgtest -lgtest_main -lssl -lcrypto $ABSL -lpthread || exit 2
  $B/$t > $B/$t.log 2>&1; echo "$t rc=$? $(grep -E 'PASSED|FAILED' $B/$t.log | tr '\n' ' ')"
done
[ -n "$KEEP" ] && echo $B || rm -rf "$B"

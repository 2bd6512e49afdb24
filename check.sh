#!/bin/bash
# check.sh ID: builds the harness against /repo's current tree and runs the check of property ID.
# Exit 0 held, 1 violation (with a VIOLATION line), anything else: error of the check.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.sh"
export VERIF_DIR=$V
if [ "$1" = C34 ]; then
  vh_build ffi || exit 4
  exec "$V/harness/target-ffi/debug/vh" check "$1"
fi
if [ "$1" = C35 ]; then
  vh_build js || exit 4
  exec "$V/harness/target-js/debug/vh" check "$1"
fi
vh_build || exit 4
exec "$V/harness/target/debug/vh" check "$1"

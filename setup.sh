#!/bin/bash
# Builds the harness once, so that the checks only rebuild what changed.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.sh"
vh_build && vh_build ffi && vh_build js

#!/bin/bash
# Build everything the checks use.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh"
build_for C01
build_for C12
build_for C15

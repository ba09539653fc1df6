#!/bin/bash
# Builds everything the checks use, so that a check only rebuilds auburn and the harness.
set -eu
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$root/build.sh"
build_harness plain
build_harness interop

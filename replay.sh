#!/bin/bash
# usage: replay.sh <evidence/replay/ID.json>   Re-runs the case of a reported violation against /repo.
set -u
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$root/build.sh"
case "$(basename "$1")" in C34.json | C35.json) kind=interop ;; *) kind=plain ;; esac
build_harness "$kind" || exit 2
exec "$bin" replay "$1"

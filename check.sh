#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough>   (VERIF_SEED selects the seed, default 1)
# Rebuilds the harness against /repo's working tree and runs one property.
# exit 0: held on everything generated; 1: VIOLATION printed; anything else: no answer.
set -u
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$root/build.sh"
id="$1"; tier="${2:-quick}"
case "$id" in
    C33 | C34 | C35) kind=interop ;; # need every optional feature of auburn
    *) kind=plain ;;
esac
build_harness "$kind" || { echo "ERROR cannot build the harness against /repo"; exit 2; }
[ "$tier" = thorough ] || exec "$bin" run "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$root"
# thorough: after the random search a coverage-guided one
"$bin" run "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$root" || exit $?
exec "$root/guided.sh" "$id" "${GUIDED_SECONDS:-240}" "${VERIF_SEED:-1}"

#!/bin/sh
# check.sh PROPERTY: builds, then runs the check (VERIF_SEED, VERIF_TIER).
d=$(cd "$(dirname "$0")" && pwd)
sh "$d/build.sh" || exit 2
exec "$d/sim/target/release/sim" check "$1"

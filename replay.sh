#!/bin/sh
# replay.sh FILE: runs a recorded violation again (exit 1 if it still fails).
d=$(cd "$(dirname "$0")" && pwd)
sh "$d/build.sh" || exit 2
exec "$d/sim/target/release/sim" replay "$1"

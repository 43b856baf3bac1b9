#!/bin/sh
# replay.sh FILE: runs a replay file again, twice, on the build it is for. Exit 1: the violation is there.
b=$(sed -n 's/^build //p' "$1")
exec "$(dirname "$0")/target/$b/debug/sim" replay "$1"

#!/bin/bash
# Checks the tools the checks need; every check builds what it needs itself.
set -e
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d /tmp/fabsim.XXXXXX)
trap 'rm -rf "$d"' EXIT
"$V/build.sh" "$d" /repo
echo "simulation builds with $(go version)"

#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [gosym check options]
# Rebuilds the checker if needed, then decides the property for /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
build_engine || { echo "NOTE: the checker could not be built"; exit 2; }
p="$1"; t="${2:-quick}"; shift 2
exec "$here/bin/gosym" check -prop "$p" -tier "$t" "$@"

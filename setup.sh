#!/bin/bash
# Builds the checker and warms the Go build cache for the native replay binaries.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
build_engine && "$here/bin/gosym" warm

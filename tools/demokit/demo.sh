#!/bin/bash
# Exits with 0 iff the property holds in this demonstration.  Run in /repo.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
kit="$(mktemp -d)"
trap 'rm -rf "$kit"' EXIT
tar -C "$kit" -xzf "$here/kit.tar.gz"
python3 "$kit/demo_build.py" "$kit" "$here/demo.cpp" @ARGS@

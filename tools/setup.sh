#!/bin/bash
# builds the translator and warms the build cache (the checks rebuild from /repo's tree each time)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/.build" "$V/evidence"
"$V/tools/build.sh" /repo/src "$V/.build/setup"
case "$V" in /*) rm -rf -- "$V/.build/setup" ;; esac

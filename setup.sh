#!/bin/bash
# Builds the monitors once, which fills the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build && build_race || exit
build_fuzz || echo 'no instrumented build: the checks do without their coverage-guided phase'
exit 0

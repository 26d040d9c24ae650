#!/bin/bash
# Builds every part of the framework, so that the checks start faster. The
# checks build what they need themselves; a failure here is not fatal.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence target
./check --build-only || echo "some parts could not be built in advance"
exit 0

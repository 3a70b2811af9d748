#!/bin/bash
# Builds everything the checks need from the committed files (offline).
cd "$(dirname "$0")" || exit 2
( . ./build.sh ) || exit 2
echo "setup done"

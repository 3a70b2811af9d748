#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT" || exit 2
( . "$ROOT/build.sh" ) || exit 2
export MC_ROOT="$ROOT"
exec "$ROOT/target/mc/debug/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"

#!/bin/bash
# usage: check.sh <property>   builds the analyzer if needed and decides one property on /repo's current source
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="${VERIF_DIR:-$here}"
bash "$here/build.sh" || { echo "analyzer build failed" >&2; exit 2; }
exec "$here/bin/sa" "$@"

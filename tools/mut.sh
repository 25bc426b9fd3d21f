#!/bin/bash
# mut.sh PATCH CHECK... : run checks against a scratch copy of /repo with PATCH applied (PATCH may be a sed-style script via -s)
set -u
p="$(realpath "$1")"; shift
d=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir "$d/v"; git -C /repo archive HEAD --prefix=repo/ | tar x -C "$d"
cp -a /repo/go.mod /repo/go.sum "$d/repo/"
(cd "$d/repo" && git init -q . && git apply "$p") || { echo "patch does not apply"; exit 3; }
cp /verif/known-findings.txt "$d/v/"
bash /verif/build.sh
for c in "$@"; do VERIF_REPO="$d/repo" VERIF_DIR="$d/v" /verif/bin/sa "$c" | grep -v '^VIOLATION' | cut -c1-400; done

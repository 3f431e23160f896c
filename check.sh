#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, then search.
cd /verif && . ./env.sh
mkdir -p target evidence replays
tier=${2:-${VERIF_TIER:-quick}}
python3 tools/fresh.py
if ! (cd harness && cargo build --offline >/verif/target/build-$1.log 2>&1); then
  tail -40 /verif/target/build-$1.log
  echo "the harness does not build against /repo" >&2
  exit 2
fi
python3 tools/fresh.py record
exec /verif/target/debug/vp check "$1" "$tier"

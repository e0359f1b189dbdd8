#!/bin/bash
# Builds what the checks need (each check rebuilds it from /repo's tree; this warms nothing
# the checks rely on) and makes sure the specification parses.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays target
python3 - <<'P'
import lib_tlc
lib_tlc.build_harness("ser")
lib_tlc.build_harness("par")
lib_tlc.build_harness("plain")
lib_tlc.build_cli()
P

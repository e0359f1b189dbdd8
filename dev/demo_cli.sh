#!/bin/bash
# cwd: /repo, built.  Runs demo.py with the built program; it works in a scratch directory.
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py" "$PWD/target/debug/texpresso"

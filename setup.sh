#!/bin/bash
# Builds the engine and warms the build cache used by the checks.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/run.sh" --build || exit 1
exit 0
